//! Verification model of the Pasta fields.
use core::fmt;
use core::ops::{Add, Mul, Neg, Sub};

use ff::{Field, FieldBits, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use rand::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

use crate::toy::T;

type ReprBits = [u64; 4];

macro_rules! toy_field {
    ($Fp:ident, $salt:literal) => {
        /// Model field element.
        #[derive(Clone, Copy, Eq)]
        pub struct $Fp(pub [u64; 4]);

        impl fmt::Debug for $Fp {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("F")
            }
        }
        impl From<bool> for $Fp {
            fn from(bit: bool) -> $Fp {
                if bit { $Fp::one() } else { $Fp::zero() }
            }
        }
        impl From<u64> for $Fp {
            fn from(val: u64) -> $Fp {
                $Fp::new(T::from_u64(val))
            }
        }
        impl ConstantTimeEq for $Fp {
            fn ct_eq(&self, other: &Self) -> Choice {
                Choice::from((self == other) as u8)
            }
        }
        impl PartialEq for $Fp {
            fn eq(&self, o: &Self) -> bool {
                self.0[0] == o.0[0] && self.0[1] == o.0[1] && self.0[2] == o.0[2] && self.0[3] == o.0[3]
            }
        }
        impl core::hash::Hash for $Fp {
            fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
                self.0.hash(h)
            }
        }
        impl core::cmp::Ord for $Fp {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                let mut k = 4;
                while k > 0 {
                    k -= 1;
                    if self.0[k] < o.0[k] {
                        return core::cmp::Ordering::Less;
                    }
                    if self.0[k] > o.0[k] {
                        return core::cmp::Ordering::Greater;
                    }
                }
                core::cmp::Ordering::Equal
            }
        }
        impl core::cmp::PartialOrd for $Fp {
            fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(other))
            }
        }
        impl ConditionallySelectable for $Fp {
            fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
                if choice.unwrap_u8() == 1 { *b } else { *a }
            }
        }
        impl<'a> Neg for &'a $Fp {
            type Output = $Fp;
            fn neg(self) -> $Fp {
                $Fp::neg(self)
            }
        }
        impl Neg for $Fp {
            type Output = $Fp;
            fn neg(self) -> $Fp {
                $Fp::neg(&self)
            }
        }
        impl<'a, 'b> Sub<&'b $Fp> for &'a $Fp {
            type Output = $Fp;
            fn sub(self, rhs: &'b $Fp) -> $Fp {
                $Fp::sub(self, rhs)
            }
        }
        impl<'a, 'b> Add<&'b $Fp> for &'a $Fp {
            type Output = $Fp;
            fn add(self, rhs: &'b $Fp) -> $Fp {
                $Fp::add(self, rhs)
            }
        }
        impl<'a, 'b> Mul<&'b $Fp> for &'a $Fp {
            type Output = $Fp;
            fn mul(self, rhs: &'b $Fp) -> $Fp {
                $Fp::mul(self, rhs)
            }
        }
        impl_binops_additive!($Fp, $Fp);
        impl_binops_multiplicative!($Fp, $Fp);

        impl<X: ::core::borrow::Borrow<$Fp>> ::core::iter::Sum<X> for $Fp {
            fn sum<I: Iterator<Item = X>>(iter: I) -> Self {
                iter.fold(Self::zero(), |acc, item| acc + item.borrow())
            }
        }
        impl<X: ::core::borrow::Borrow<$Fp>> ::core::iter::Product<X> for $Fp {
            fn product<I: Iterator<Item = X>>(iter: I) -> Self {
                iter.fold(Self::one(), |acc, item| acc * item.borrow())
            }
        }
        impl Default for $Fp {
            fn default() -> Self {
                Self::zero()
            }
        }
        #[allow(missing_docs)]
        impl $Fp {
            pub const fn new(t: T) -> $Fp {
                $Fp(t.to_limbs())
            }
            pub const fn t(&self) -> T {
                T::from_limbs(&self.0)
            }
            pub const fn zero() -> $Fp {
                $Fp([0; 4])
            }
            pub const fn one() -> $Fp {
                $Fp::new(T::ONE)
            }
            pub const fn double(&self) -> $Fp {
                self.add(self)
            }
            pub const fn from_raw(val: [u64; 4]) -> Self {
                $Fp::new(T::squash(&val))
            }
            pub const fn square(&self) -> $Fp {
                self.mul(self)
            }
            pub const fn mul(&self, rhs: &Self) -> $Fp {
                $Fp::new(self.t().mul(&rhs.t()))
            }
            pub const fn sub(&self, rhs: &Self) -> Self {
                $Fp::new(self.t().sub(&rhs.t()))
            }
            pub const fn add(&self, rhs: &Self) -> Self {
                $Fp::new(self.t().add(&rhs.t()))
            }
            pub const fn neg(&self) -> Self {
                $Fp::new(self.t().neg())
            }
        }
        impl From<$Fp> for [u8; 32] {
            fn from(value: $Fp) -> [u8; 32] {
                value.to_repr()
            }
        }
        impl<'a> From<&'a $Fp> for [u8; 32] {
            fn from(value: &'a $Fp) -> [u8; 32] {
                value.to_repr()
            }
        }
        impl ff::Field for $Fp {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();

            fn random(mut rng: impl RngCore) -> Self {
                let mut b = [0u8; 64];
                rng.fill_bytes(&mut b);
                Self::from_uniform_bytes(&b)
            }
            fn double(&self) -> Self {
                self.add(self)
            }
            fn square(&self) -> Self {
                self.mul(self)
            }
            fn sqrt_ratio(_num: &Self, _div: &Self) -> (Choice, Self) {
                unimplemented!()
            }
            fn sqrt_alt(&self) -> (Choice, Self) {
                unimplemented!()
            }
            fn sqrt(&self) -> CtOption<Self> {
                unimplemented!()
            }
            fn invert(&self) -> CtOption<Self> {
                unimplemented!()
            }
            fn pow_vartime<S: AsRef<[u64]>>(&self, _exp: S) -> Self {
                unimplemented!()
            }
        }
        impl ff::PrimeField for $Fp {
            type Repr = [u8; 32];
            const MODULUS: &'static str =
                "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001";
            const TWO_INV: Self = Self::one();
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const MULTIPLICATIVE_GENERATOR: Self = Self::one();
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = Self::one();
            const ROOT_OF_UNITY_INV: Self = Self::one();
            const DELTA: Self = Self::one();

            fn from_u128(v: u128) -> Self {
                let hi = Self::from((v >> 64) as u64);
                let lo = Self::from(v as u64);
                let s = Self::from(1u64 << 32);
                hi.mul(&s).mul(&s).add(&lo)
            }
            fn from_repr(repr: Self::Repr) -> CtOption<Self> {
                let l = T::limbs_of(&repr);
                let (_, ok) = T::parse(&l);
                CtOption::new($Fp(l), Choice::from(ok as u8))
            }
            fn to_repr(&self) -> Self::Repr {
                crate::toy::bytes_of(self.0)
            }
            fn is_odd(&self) -> Choice {
                Choice::from((self.0[0] & 1) as u8)
            }
        }
        impl PrimeFieldBits for $Fp {
            type ReprBits = ReprBits;
            fn to_le_bits(&self) -> FieldBits<Self::ReprBits> {
                FieldBits::new(self.0)
            }
            fn char_le_bits() -> FieldBits<Self::ReprBits> {
                FieldBits::new([!0, !0, !0, !0 >> 2])
            }
        }
        impl WithSmallOrderMulGroup<3> for $Fp {
            const ZETA: Self = Self::one();
        }
        impl FromUniformBytes<64> for $Fp {
            fn from_uniform_bytes(bytes: &[u8; 64]) -> $Fp {
                $Fp::new(T::from_uniform(bytes, $salt))
            }
        }
    };
}

toy_field!(Fp, 5);
toy_field!(Fq, 17);
