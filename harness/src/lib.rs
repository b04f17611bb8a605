#![allow(non_upper_case_globals, non_snake_case, non_camel_case_types)]
#[macro_use]
pub mod engine;
pub mod av1;
pub mod av1fh;
pub mod bits;
pub mod refcoder;
pub mod runner;
