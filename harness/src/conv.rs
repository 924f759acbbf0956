#[allow(dead_code)]
mod common;
mod driver;
mod tables;
#[allow(unused_imports)]
use upppp_rust::{check_signals, print_debug, setup_bar};
#[allow(unused, dead_code)]
mod converter;
fn main() { driver::main(&[("C30", tables::c30), ("C31", tables::c31), ("C35", tables::c35)]); }
