use rusty_chromaprint::verif::ENTRIES;
include!("../../runner.rs");
