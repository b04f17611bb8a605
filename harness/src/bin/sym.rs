#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
#[path = "../sym/cdfs.rs"]
mod cdfs;
#[path = "../sym/geo.rs"]
mod geo;
#[path = "../sym/p_plain.rs"]
mod p_plain;
#[path = "../sym/p_near.rs"]
mod p_near;
#[path = "../sym/p_coef.rs"]
mod p_coef;

fn main() {
    harness::runner::main_with(|| { let mut v = p_plain::props(); v.extend(p_near::props()); v.extend(p_coef::props()); v })
}
