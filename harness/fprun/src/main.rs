use vfp::ENTRIES;
include!("../../runner.rs");
