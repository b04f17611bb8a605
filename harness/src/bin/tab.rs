#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
#[path = "../sym/cdfs.rs"]
mod cdfs;
#[path = "../sym/geo.rs"]
mod geo;
#[path = "../tab/p_cdf.rs"]
mod p_cdf;
#[path = "../tab/p_tab.rs"]
mod p_tab;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("dump-cdf") { print!("{}", p_cdf::dump()); return; }
    harness::runner::main_with(|| { let mut v = p_cdf::props(); v.extend(p_tab::props()); v })
}
