mod bounces;
mod cast;
mod daylight;
mod files;
mod loaders;
mod materials;
mod render;
mod rng;
mod sampling;
use mcc::*;
fn main() {
    assert!(rng::selftest(), "the random number generator is not the expected xoshiro256++");
    main_with(&[("R01", cast::r01), ("R02", sampling::r02), ("R03", materials::r03), ("R04", files::r04), ("R05", daylight::r05), ("R06", loaders::r06), ("R07", render::r07), ("R08", bounces::r08)])
}
