#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
#[path = "../coder/p_coder.rs"]
mod p_coder;
#[path = "../coder/p_desc.rs"]
mod p_desc;

fn main() {
    harness::runner::main_with(|| { let mut v = p_coder::props(); v.extend(p_desc::props()); v })
}
