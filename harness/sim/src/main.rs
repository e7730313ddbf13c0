mod air;
mod ctl;
mod light;
mod run;
fn main() { mcc::main_with(&[("I01", air::i01), ("L01", light::l01), ("L02", light::l02), ("L03", light::l03), ("U01", run::u01), ("U02", run::u02), ("U03", ctl::u03), ("U04", run::u04)]) }
