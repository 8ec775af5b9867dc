include!(env!("RCP_VERIF_HARNESS"));
