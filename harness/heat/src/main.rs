mod build;
mod h12;
mod h03;
mod h04;
mod h05;
fn main() { mcc::main_with(&[("H01", h12::h01), ("H02", h12::h02), ("H03", h03::h03), ("H04", h04::h04), ("H05", h05::h05)]) }
