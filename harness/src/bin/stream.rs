#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types, dead_code)]
#[path = "../sym/cdfs.rs"]
mod cdfs;
#[path = "../sym/geo.rs"]
mod geo;
#[path = "../tile/rd.rs"]
mod rd;
#[path = "../tile/p_lr.rs"]
mod p_lr;
#[path = "../tile/p_walk.rs"]
mod p_walk;
#[path = "../obu/p_seq.rs"]
mod p_seq;
#[path = "../obu/p_fh.rs"]
mod p_fh;
#[path = "../obu/p_obu.rs"]
mod p_obu;
#[path = "../stream/p_stream.rs"]
mod p_stream;

fn main() { harness::runner::main_with(p_stream::props) }
