#![cfg_attr(not(any(feature = "c22", feature = "c27")), no_std)]
extern crate alloc;
pub mod sym;
#[macro_use]
pub mod model;
#[macro_use]
pub mod giant;
pub mod props;
