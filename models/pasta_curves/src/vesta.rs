//! Vesta.
use super::{Eq, EqAffine, Fp, Fq};
/// .
pub type Base = Fq;
/// .
pub type Scalar = Fp;
/// .
pub type Point = Eq;
/// .
pub type Affine = EqAffine;
