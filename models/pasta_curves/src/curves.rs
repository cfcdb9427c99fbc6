//! Verification model of the Pasta groups: an element is its discrete log.
use core::cmp;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, Mul, Neg, Sub};

use alloc::boxed::Box;

use group::{
    cofactor::{CofactorCurve, CofactorGroup},
    prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup},
    GroupEncoding,
};
use rand::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

use super::{Fp, Fq};
use crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
use crate::toy::T;

fn enc(d: &T) -> [u8; 32] {
    let (x, s) = d.abs();
    let mut r = x.to_bytes();
    r[31] |= (s as u8) << 7;
    r
}

fn dec(bytes: &[u8; 32]) -> (T, bool) {
    let mut r = *bytes;
    let sign = (r[31] >> 7) == 1;
    r[31] &= 0x7f;
    let l = T::limbs_of(&r);
    let (x, ok) = T::parse(&l);
    let n = x.neg();
    let zero = x.eq(&T::ZERO);
    let ok = ok && x.le(&n) && !(zero && sign);
    (if sign { n } else { x }, ok)
}

macro_rules! toy_curve {
    ($Ep:ident, $EpAffine:ident, $Fp:ident, $Fq:ident, $id:literal) => {
        toy_curve!(@common $Ep, $Fp, $Fq);
        toy_curve!(@common $EpAffine, $Fp, $Fq);

        impl<'a, 'b> Add<&'a $EpAffine> for &'b $Ep {
            type Output = $Ep;
            fn add(self, rhs: &'a $EpAffine) -> $Ep {
                $Ep::new(self.t().add(&rhs.t()))
            }
        }
        impl<'a, 'b> Add<&'a $Ep> for &'b $Ep {
            type Output = $Ep;
            fn add(self, rhs: &'a $Ep) -> $Ep {
                $Ep::new(self.t().add(&rhs.t()))
            }
        }
        impl<'a, 'b> Sub<&'a $Ep> for &'b $Ep {
            type Output = $Ep;
            fn sub(self, rhs: &'a $Ep) -> $Ep {
                $Ep::new(self.t().sub(&rhs.t()))
            }
        }
        impl<'a, 'b> Sub<&'a $EpAffine> for &'b $Ep {
            type Output = $Ep;
            fn sub(self, rhs: &'a $EpAffine) -> $Ep {
                $Ep::new(self.t().sub(&rhs.t()))
            }
        }
        impl<'a, 'b> Add<&'a $Ep> for &'b $EpAffine {
            type Output = $Ep;
            fn add(self, rhs: &'a $Ep) -> $Ep {
                $Ep::new(self.t().add(&rhs.t()))
            }
        }
        impl<'a, 'b> Add<&'a $EpAffine> for &'b $EpAffine {
            type Output = $Ep;
            fn add(self, rhs: &'a $EpAffine) -> $Ep {
                $Ep::new(self.t().add(&rhs.t()))
            }
        }
        impl<'a, 'b> Sub<&'a $EpAffine> for &'b $EpAffine {
            type Output = $Ep;
            fn sub(self, rhs: &'a $EpAffine) -> $Ep {
                $Ep::new(self.t().sub(&rhs.t()))
            }
        }
        impl<'a, 'b> Sub<&'a $Ep> for &'b $EpAffine {
            type Output = $Ep;
            fn sub(self, rhs: &'a $Ep) -> $Ep {
                $Ep::new(self.t().sub(&rhs.t()))
            }
        }
        impl<'a, 'b> Mul<&'b $Fq> for &'a $Ep {
            type Output = $Ep;
            fn mul(self, o: &'b $Fq) -> $Ep {
                $Ep::new(self.t().mul(&o.t()))
            }
        }
        impl<'a, 'b> Mul<&'b $Fq> for &'a $EpAffine {
            type Output = $Ep;
            fn mul(self, o: &'b $Fq) -> $Ep {
                $Ep::new(self.t().mul(&o.t()))
            }
        }
        impl_binops_additive!($Ep, $Ep);
        impl_binops_additive!($Ep, $EpAffine);
        impl_binops_additive_specify_output!($EpAffine, $EpAffine, $Ep);
        impl_binops_additive_specify_output!($EpAffine, $Ep, $Ep);
        impl_binops_multiplicative!($Ep, $Fq);
        impl_binops_multiplicative_mixed!($EpAffine, $Fq, $Ep);

        impl<X> Sum<X> for $Ep
        where
            X: core::borrow::Borrow<$Ep>,
        {
            fn sum<I>(iter: I) -> Self
            where
                I: Iterator<Item = X>,
            {
                iter.fold(Self::new(T::ZERO), |acc, item| acc + item.borrow())
            }
        }

        impl group::Group for $Ep {
            type Scalar = $Fq;
            fn random(mut rng: impl RngCore) -> Self {
                let mut b = [0u8; 64];
                rng.fill_bytes(&mut b);
                $Ep::new(T::from_uniform(&b, 29))
            }
            fn generator() -> Self {
                $Ep::new(T::ONE)
            }
            fn double(&self) -> Self {
                self + self
            }
            fn identity() -> Self {
                $Ep::new(T::ZERO)
            }
            fn is_identity(&self) -> Choice {
                Choice::from(self.t().eq(&T::ZERO) as u8)
            }
        }
        impl group::WnafGroup for $Ep {
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                4
            }
        }
        impl CurveExt for $Ep {
            type ScalarExt = $Fq;
            type Base = $Fp;
            type AffineExt = $EpAffine;
            const CURVE_ID: &'static str = $id;
            fn endo(&self) -> Self {
                *self
            }
            fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                Box::new(move |m| {
                    if domain_prefix == "z.cash:Orchard-cv" {
                        $Ep::new(if m[0] == b'v' { T::VALUE_V } else { T::VALUE_R })
                    } else {
                        $Ep::new(T::hash(domain_prefix.as_bytes(), m))
                    }
                })
            }
            fn a() -> Self::Base {
                $Fp::zero()
            }
            fn b() -> Self::Base {
                $Fp::one()
            }
            fn new_jacobian(_x: Self::Base, y: Self::Base, _z: Self::Base) -> CtOption<Self> {
                CtOption::new($Ep::new(y.t()), 1.into())
            }
            fn jacobian_coordinates(&self) -> ($Fp, $Fp, $Fp) {
                ($Fp::new(self.t().abs().0), $Fp::new(self.t()), $Fp::one())
            }
            fn is_on_curve(&self) -> Choice {
                1.into()
            }
        }
        impl group::Curve for $Ep {
            type AffineRepr = $EpAffine;
            fn batch_normalize(p: &[Self], q: &mut [Self::AffineRepr]) {
                assert_eq!(p.len(), q.len());
                for (p, q) in p.iter().zip(q.iter_mut()) {
                    *q = $EpAffine(p.0);
                }
            }
            fn to_affine(&self) -> Self::AffineRepr {
                $EpAffine(self.0)
            }
        }
        impl PrimeGroup for $Ep {}
        impl CofactorGroup for $Ep {
            type Subgroup = $Ep;
            fn clear_cofactor(&self) -> Self {
                *self
            }
            fn into_subgroup(self) -> CtOption<Self::Subgroup> {
                CtOption::new(self, 1.into())
            }
            fn is_torsion_free(&self) -> Choice {
                1.into()
            }
        }
        impl PrimeCurve for $Ep {
            type Affine = $EpAffine;
        }
        impl CofactorCurve for $Ep {
            type Affine = $EpAffine;
        }
        impl<'a> From<&'a $EpAffine> for $Ep {
            fn from(p: &'a $EpAffine) -> $Ep {
                $Ep(p.0)
            }
        }
        impl From<$EpAffine> for $Ep {
            fn from(p: $EpAffine) -> $Ep {
                $Ep(p.0)
            }
        }
        impl<'a> From<&'a $Ep> for $EpAffine {
            fn from(p: &'a $Ep) -> $EpAffine {
                $EpAffine(p.0)
            }
        }
        impl From<$Ep> for $EpAffine {
            fn from(p: $Ep) -> $EpAffine {
                $EpAffine(p.0)
            }
        }
        impl PrimeCurveAffine for $EpAffine {
            type Curve = $Ep;
            type Scalar = $Fq;
            fn generator() -> Self {
                $EpAffine::new(T::ONE)
            }
            fn identity() -> Self {
                $EpAffine::new(T::ZERO)
            }
            fn is_identity(&self) -> Choice {
                Choice::from(self.t().eq(&T::ZERO) as u8)
            }
            fn to_curve(&self) -> Self::Curve {
                $Ep(self.0)
            }
        }
        impl group::cofactor::CofactorCurveAffine for $EpAffine {
            type Curve = $Ep;
            type Scalar = $Fq;
            fn identity() -> Self {
                <Self as PrimeCurveAffine>::identity()
            }
            fn generator() -> Self {
                <Self as PrimeCurveAffine>::generator()
            }
            fn is_identity(&self) -> Choice {
                <Self as PrimeCurveAffine>::is_identity(self)
            }
            fn to_curve(&self) -> Self::Curve {
                <Self as PrimeCurveAffine>::to_curve(self)
            }
        }
        impl CurveAffine for $EpAffine {
            type ScalarExt = $Fq;
            type Base = $Fp;
            type CurveExt = $Ep;
            fn is_on_curve(&self) -> Choice {
                1.into()
            }
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                let t = self.t();
                CtOption::new(
                    Coordinates { x: $Fp::new(t.abs().0), y: $Fp::new(t) },
                    Choice::from(!t.eq(&T::ZERO) as u8),
                )
            }
            fn from_xy(x: Self::Base, y: Self::Base) -> CtOption<Self> {
                let t = y.t();
                CtOption::new(
                    $EpAffine::new(t),
                    Choice::from((t.abs().0.eq(&x.t()) && !t.eq(&T::ZERO)) as u8),
                )
            }
            fn a() -> Self::Base {
                $Fp::zero()
            }
            fn b() -> Self::Base {
                $Fp::one()
            }
        }
    };
    (@common $Ep:ident, $Fp:ident, $Fq:ident) => {
        /// Model group element.
        #[derive(Copy, Clone)]
        pub struct $Ep(pub [u64; 4]);
        #[allow(missing_docs)]
        impl $Ep {
            pub const fn new(t: T) -> Self {
                $Ep(t.to_limbs())
            }
            pub const fn t(&self) -> T {
                T::from_limbs(&self.0)
            }
        }
        impl fmt::Debug for $Ep {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
                f.write_str("P")
            }
        }
        impl GroupEncoding for $Ep {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &Self::Repr) -> CtOption<Self> {
                let (t, ok) = dec(bytes);
                CtOption::new($Ep::new(t), Choice::from(ok as u8))
            }
            fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> Self::Repr {
                enc(&self.t())
            }
        }
        impl Default for $Ep {
            fn default() -> $Ep {
                $Ep([0; 4])
            }
        }
        impl ConstantTimeEq for $Ep {
            fn ct_eq(&self, other: &Self) -> Choice {
                Choice::from((self == other) as u8)
            }
        }
        impl PartialEq for $Ep {
            fn eq(&self, o: &Self) -> bool {
                self.0[0] == o.0[0] && self.0[1] == o.0[1] && self.0[2] == o.0[2] && self.0[3] == o.0[3]
            }
        }
        impl cmp::Eq for $Ep {}
        impl ConditionallySelectable for $Ep {
            fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
                if choice.unwrap_u8() == 1 { *b } else { *a }
            }
        }
        impl<'a> Neg for &'a $Ep {
            type Output = $Ep;
            fn neg(self) -> $Ep {
                $Ep::new(self.t().neg())
            }
        }
        impl Neg for $Ep {
            type Output = $Ep;
            fn neg(self) -> $Ep {
                -&self
            }
        }
    };
}

toy_curve!(Ep, EpAffine, Fp, Fq, "pallas");
toy_curve!(Eq, EqAffine, Fq, Fp, "vesta");
