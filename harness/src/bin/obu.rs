#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
#[path = "../obu/p_seq.rs"]
mod p_seq;
#[path = "../obu/p_obu.rs"]
mod p_obu;
#[path = "../obu/p_fh.rs"]
mod p_fh;

fn main() {
    harness::runner::main_with(|| { let mut v = p_seq::props(); v.extend(p_obu::props()); v.extend(p_fh::props()); v })
}
