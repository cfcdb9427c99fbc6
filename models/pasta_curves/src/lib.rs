//! Verification model of `pasta_curves` (see DESIGN.md).
#![no_std]
#![allow(unknown_lints)]
extern crate alloc;
#[macro_use]
mod macros;
mod curves;
mod fields;
pub mod arithmetic;
pub mod pallas;
pub mod vesta;
pub mod toy;
pub use curves::*;
pub use fields::*;
pub extern crate group;
