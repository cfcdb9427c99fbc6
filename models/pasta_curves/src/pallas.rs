//! Pallas.
use super::{Ep, EpAffine, Fp, Fq};
/// .
pub type Base = Fp;
/// .
pub type Scalar = Fq;
/// .
pub type Point = Ep;
/// .
pub type Affine = EpAffine;
