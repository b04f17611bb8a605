#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
#[path = "../cli/p_opt.rs"]
mod p_opt;
#[path = "../cli/p_io.rs"]
mod p_io;
#[path = "../cli/p_prog.rs"]
mod p_prog;

fn main() {
    harness::runner::main_with(|| { let mut v = p_opt::props(); v.extend(p_io::props()); v.extend(p_prog::props()); v })
}
