use vcli::ENTRIES;
include!("../../runner.rs");
