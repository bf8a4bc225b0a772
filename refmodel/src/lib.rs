//! Independent reference models, written from the specifications, with no dependency on the code
//! under test or on any crate it uses.
#![allow(non_snake_case)]
pub mod ec;
pub mod keccak;
pub mod mlkem;
pub mod x25519;
pub mod xwing;
