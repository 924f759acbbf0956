mod common;
mod driver;
mod fields;
mod grids;
fn main() {
    driver::main(&[
        ("C01", grids::c01), ("C02", grids::c02), ("C03", grids::c03), ("C04", grids::c04), ("C05", grids::c05), ("C06", grids::c06), ("C07", grids::c07), ("C08", grids::c08), ("C09", grids::c09), ("C10", grids::c10),
        ("C11", fields::c11), ("C13", fields::c13), ("C14", fields::c14), ("C15", fields::c15), ("C16", fields::c16), ("C17", fields::c17), ("C18", fields::c18), ("C19", fields::c19), ("C20", fields::c20), ("C21", fields::c21),
        ("C22", fields::c22), ("C23", fields::c23), ("C24", fields::c24), ("C25", fields::c25), ("C26", fields::c26), ("C27", fields::c27), ("C28", fields::c28), ("C29", fields::c29),
    ]);
}
