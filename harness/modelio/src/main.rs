mod gen;
mod m01;
mod m02;
mod m03;
mod m04;
mod m05;
fn main() { mcc::main_with(&[("M01", m01::m01), ("M02", m02::m02), ("M03", m03::m03), ("M04", m04::m04), ("M05", m05::m05)]) }
