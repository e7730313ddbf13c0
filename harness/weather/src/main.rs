mod dirint;
mod epw;
mod perez;
mod sky;
mod small;
mod sun;
use mcc::*;
fn main() {
    main_with(&[("W01", sun::w01), ("W02", sky::w02), ("W03", epw::w03), ("W04", perez::w04), ("W05", perez::w05), ("P01", small::p01)])
}
