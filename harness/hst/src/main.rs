#[path = "../../hdb/src/gen.rs"]
mod gen;
#[path = "../../hdb/src/util.rs"]
mod util;
mod json;
mod store;
mod typed;
mod wire;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
