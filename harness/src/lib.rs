pub mod engine;
pub mod gen;
pub mod mined;
pub mod osrand;
pub mod props;
pub mod rng;
pub mod sut;
