#[macro_use]
mod util;
mod bits;
mod codecs;
mod shortest;
mod cursor;
mod gen;
mod ints;
mod polar;
mod text;
mod total;
mod values;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
