#[path = "../../src/common.rs"]
mod common;
#[path = "../../src/driver.rs"]
mod driver;
mod convert;
mod files;
mod multi;
mod readers;
mod vtk;
fn main() { driver::main(&[("C32", readers::c32), ("C36", convert::c36), ("C37", vtk::c37), ("C38", multi::c38), ("C39", files::c39)]); }
