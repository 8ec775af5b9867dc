pub use rusty_chromaprint;
