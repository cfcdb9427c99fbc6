//! Inputs of the properties. Under Kani every draw is a symbolic byte array;
//! in a replay the same draws read the bytes of the counterexample.
use ff::{FromUniformBytes, PrimeField};
use group::Group;
use pasta_curves::pallas;
use rand::{CryptoRng, Error, RngCore};

/// Where a harness gets its inputs from.
pub trait Source {
    fn bytes<const N: usize>(&mut self) -> [u8; N];
    fn assume(&mut self, b: bool);

    fn u8(&mut self) -> u8 {
        self.bytes::<1>()[0]
    }
    fn bool(&mut self) -> bool {
        let b = self.u8();
        self.assume(b < 2);
        b == 1
    }
    fn below(&mut self, n: u8) -> u8 {
        let b = self.u8();
        self.assume(b < n);
        b
    }
    fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.bytes())
    }
    fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.bytes())
    }
    fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.bytes())
    }
    fn i64(&mut self) -> i64 {
        i64::from_le_bytes(self.bytes())
    }
    /// Any base field element.
    fn base(&mut self) -> pallas::Base {
        let b = self.bytes::<32>();
        let f = pallas::Base::from_repr(b);
        self.assume(bool::from(f.is_some()));
        f.unwrap()
    }
    /// Any scalar field element.
    fn scalar(&mut self) -> pallas::Scalar {
        let b = self.bytes::<32>();
        let f = pallas::Scalar::from_repr(b);
        self.assume(bool::from(f.is_some()));
        f.unwrap()
    }
    /// A scalar obtained from 64 bytes.
    fn wide_scalar(&mut self) -> pallas::Scalar {
        pallas::Scalar::from_uniform_bytes(&self.bytes::<64>())
    }
    /// Any group element (identity included).
    fn point(&mut self) -> pallas::Point {
        pallas::Point::generator() * self.scalar()
    }
}

/// Randomness handed to the code under test: every byte is an input.
/// `next_u32` (used by shuffles only) comes from a separate, caller-chosen list.
pub struct Rng<'a, S: Source> {
    pub s: &'a mut S,
    pub shuffle: [u32; 8],
    pub n: usize,
}

impl<'a, S: Source> Rng<'a, S> {
    pub fn new(s: &'a mut S) -> Self {
        Rng { s, shuffle: [0; 8], n: 0 }
    }
}

impl<'a, S: Source> RngCore for Rng<'a, S> {
    fn next_u32(&mut self) -> u32 {
        let r = self.shuffle[self.n % 8];
        self.n += 1;
        r
    }
    fn next_u64(&mut self) -> u64 {
        self.s.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if dest.len() == 32 {
            let b: [u8; 32] = self.s.bytes();
            dest.copy_from_slice(&b);
        } else if dest.len() == 64 {
            let b: [u8; 64] = self.s.bytes();
            dest.copy_from_slice(&b);
        } else {
            let mut i = 0;
            while i < dest.len() {
                dest[i] = self.s.u8();
                i += 1;
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<'a, S: Source> CryptoRng for Rng<'a, S> {}

/// Randomness with constant output, for calls whose randomness is irrelevant.
#[repr(C, packed)]
struct W(u64);
/// Deterministic generator.
pub struct FixedRng(pub u8);
impl RngCore for FixedRng {
    fn next_u32(&mut self) -> u32 {
        self.0 as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.0 = self.0.wrapping_add(1);
        let w = 0x0101_0101_0101_0101u64.wrapping_mul(self.0 as u64) ^ 0x0706_0504_0302_0100;
        let n = dest.len();
        let p = dest.as_mut_ptr();
        let mut i = 0;
        while i + 8 <= n {
            unsafe { (*(p.wrapping_add(i) as *mut W)).0 = w };
            i += 8;
        }
        while i < n {
            dest[i] = (w >> (8 * (i % 8))) as u8;
            i += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for FixedRng {}

#[cfg(kani)]
pub struct KaniSource;
#[cfg(kani)]
impl Source for KaniSource {
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        kani::any()
    }
    fn assume(&mut self, b: bool) {
        kani::assume(b)
    }
}

/// Replays recorded bytes.
pub struct ReplaySource {
    pub data: Vec<u8>,
    pub pos: usize,
}
/// Panic payload of a failed assumption in a replay.
pub struct Vacuous;
impl Source for ReplaySource {
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut r = [0u8; N];
        for b in r.iter_mut() {
            *b = self.data.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
        }
        r
    }
    fn assume(&mut self, b: bool) {
        if !b {
            std::panic::panic_any(Vacuous)
        }
    }
}
