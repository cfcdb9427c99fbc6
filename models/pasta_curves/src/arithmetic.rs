//! Curve traits (unchanged from pasta_curves).
mod curves;
pub use curves::*;
