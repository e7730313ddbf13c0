mod lattice;
mod holes;
mod loops;
mod mesh;
mod xform;
mod approx;
mod boxes;
mod basics;
mod cuts;
mod rays;
use mcc::*;
fn main() {
    main_with(&[("G01", loops::g01), ("G02", loops::g02), ("G03", holes::g03), ("G04", holes::g04), ("G05", mesh::g05), ("G06", xform::g06), ("G08", boxes::g08), ("G09", approx::g09), ("G07", rays::g07), ("G10", basics::g10), ("G11", cuts::g11)])
}
