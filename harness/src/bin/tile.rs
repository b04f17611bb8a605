#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
#[path = "../sym/cdfs.rs"]
mod cdfs;
#[path = "../sym/geo.rs"]
mod geo;
#[path = "../tile/rd.rs"]
mod rd;
#[path = "../tile/p_block.rs"]
mod p_block;
#[path = "../tile/p_stack.rs"]
mod p_stack;
#[path = "../tile/p_lr.rs"]
mod p_lr;
#[path = "../tile/p_walk.rs"]
mod p_walk;

fn main() {
    harness::runner::main_with(|| {
        let mut v = p_block::props();
        v.extend(p_stack::props());
        v.extend(p_lr::props());
        v.extend(p_walk::props());
        v
    })
}
