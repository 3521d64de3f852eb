//! Only makes cargo build the crates that the programs of lib/witness.py are compiled against.
pub use {ratel, ratel_codegen, ratel_transformer, ratel_visitor, serde_json, toolshed};
