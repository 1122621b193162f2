mod util;
mod model;
mod daemon;
mod names;
mod clients;
mod crash;
mod conc;
mod bodies;
mod cli;
mod damage;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
