pub mod dh;
pub mod histories;
pub mod mlkem;
pub mod randomness;
pub mod xwing;
pub mod memory;
pub mod features;
pub mod resources;
