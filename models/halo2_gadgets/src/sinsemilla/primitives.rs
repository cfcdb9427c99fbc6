//! Implementation of Sinsemilla outside the circuit.

use group::{Curve, Wnaf};
use halo2_proofs::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas;
use subtle::CtOption;

mod addition;
use self::addition::IncompletePoint;
mod sinsemilla_s;
pub use sinsemilla_s::SINSEMILLA_S;

/// Number of bits of each message piece in $\mathsf{SinsemillaHashToPoint}$
pub const K: usize = 10;

/// $\frac{1}{2^K}$
pub const INV_TWO_POW_K: [u8; 32] = [
    1, 0, 192, 196, 160, 229, 70, 82, 221, 165, 74, 202, 85, 7, 62, 34, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 240, 63,
];

/// The largest integer such that $2^c \leq (r_P - 1) / 2$, where $r_P$ is the order
/// of Pallas.
pub const C: usize = 253;

// Sinsemilla Q generators

/// SWU hash-to-curve personalization for Sinsemilla $Q$ generators.
pub const Q_PERSONALIZATION: &str = "z.cash:SinsemillaQ";

// Sinsemilla S generators

/// SWU hash-to-curve personalization for Sinsemilla $S$ generators.
pub const S_PERSONALIZATION: &str = "z.cash:SinsemillaS";

pub(crate) fn lebs2ip_k(bits: &[bool]) -> u32 {
    assert!(bits.len() == K);
    bits.iter()
        .enumerate()
        .fold(0u32, |acc, (i, b)| acc + if *b { 1 << i } else { 0 })
}

/// Coordinate extractor for Pallas.
///
/// Defined in [Zcash Protocol Spec § 5.4.9.7: Coordinate Extractor for Pallas][concreteextractorpallas].
///
/// [concreteextractorpallas]: https://zips.z.cash/protocol/nu5.pdf#concreteextractorpallas
fn extract_p_bottom(point: CtOption<pallas::Point>) -> CtOption<pallas::Base> {
    point.map(|p| {
        p.to_affine()
            .coordinates()
            .map(|c| *c.x())
            .unwrap_or_else(pallas::Base::zero)
    })
}

/// Pads the given iterator (which MUST have length $\leq K * C$) with zero-bits to a
/// multiple of $K$ bits.
struct Pad<I: Iterator<Item = bool>> {
    /// The iterator we are padding.
    inner: I,
    /// The measured length of the inner iterator.
    ///
    /// This starts as a lower bound, and will be accurate once `padding_left.is_some()`.
    len: usize,
    /// The amount of padding that remains to be emitted.
    padding_left: Option<usize>,
}

impl<I: Iterator<Item = bool>> Pad<I> {
    fn new(inner: I) -> Self {
        Pad {
            inner,
            len: 0,
            padding_left: None,
        }
    }
}

impl<I: Iterator<Item = bool>> Iterator for Pad<I> {
    type Item = bool;

    fn next(&mut self) -> Option<Self::Item> {
        loop {
            // If we have identified the required padding, the inner iterator has ended,
            // and we will never poll it again.
            if let Some(n) = self.padding_left.as_mut() {
                if *n == 0 {
                    // Either we already emitted all necessary padding, or there was no
                    // padding required.
                    break None;
                } else {
                    // Emit the next padding bit.
                    *n -= 1;
                    break Some(false);
                }
            } else if let Some(ret) = self.inner.next() {
                // We haven't reached the end of the inner iterator yet.
                self.len += 1;
                assert!(self.len <= K * C);
                break Some(ret);
            } else {
                // Inner iterator just ended, so we now know its length.
                let rem = self.len % K;
                if rem > 0 {
                    // The inner iterator requires padding in the range [1,K).
                    self.padding_left = Some(K - rem);
                } else {
                    // No padding required.
                    self.padding_left = Some(0);
                }
            }
        }
    }
}


/// Verification model of the Sinsemilla hash: the message bits are folded
/// (XOR) into 83 lanes of a group element, together with the length and a tag
/// of the domain.
#[derive(Debug, Clone)]
pub struct HashDomain {
    tag: u8,
}

fn tag(domain: &str, suffix: u8) -> u8 {
    let d = domain.as_bytes();
    let n = d.len();
    let t = (n as u8).wrapping_mul(7) ^ d[n - 1] ^ d[n / 2].rotate_left(2);
    (t.wrapping_mul(5) ^ suffix) % 27
}

impl HashDomain {
    /// Model constructor.
    pub fn new(domain: &str) -> Self {
        HashDomain { tag: tag(domain, 0) }
    }

    /// Model of SinsemillaHashToPoint.
    pub fn hash_to_point(&self, msg: impl Iterator<Item = bool>) -> CtOption<pallas::Point> {
        let (p, ok) = self.inner(msg);
        CtOption::new(p, (ok as u8).into())
    }

    fn inner(&self, msg: impl Iterator<Item = bool>) -> (pallas::Point, bool) {
        use pasta_curves::toy::T;
        const M83: u128 = (1 << 83) - 1;
        let mut acc = 0u128;
        let mut n = 0usize;
        let mut pos = 0u32;
        let mut pre = 0u16;
        unsafe { bitvec::array::BLOCK.on = true };
        msg.for_each(|b| {
            // (u128 << pos) mod lane count, for a block of up to 64 bits
            let (word, len) = unsafe {
                if bitvec::array::BLOCK.len != 0 {
                    let r = (bitvec::array::BLOCK.word as u128, bitvec::array::BLOCK.len);
                    bitvec::array::BLOCK.len = 0;
                    r
                } else {
                    (b as u128, 1)
                }
            };
            if n < 10 {
                pre |= (word as u16) << n;
            }
            n += len as usize;
            acc ^= word << pos;
            if pos + len > 83 {
                // bits 83.. wrap around; 128 - pos >= 45 of them are in the shifted word
                acc = (acc & M83) ^ (word >> (83 - pos));
            }
            pos = (pos + len) % 83;
        });
        unsafe { bitvec::array::BLOCK.on = false };
        assert!(n <= K * C);
        let bottom = pasta_curves::toy::bottom() && (acc >> 30) & 0xff == 0;
        acc ^= ((n % 31) as u128) << 83;
        if unsafe { pasta_curves::toy::ORACLE.on } {
            let t = pasta_curves::toy::oracle_lookup(pre & 0x3ff, acc | ((self.tag as u128) << 88));
            return (pallas::Point::new(t), true);
        }
        (pallas::Point::new(T::from_bits_n(acc, 88, self.tag)), !bottom)
    }

    /// Verification: the fold of a message of up to 64-bit pieces (see `inner`).
    pub fn key(&self, msg: &[(u64, u32)]) -> u128 {
        const M83: u128 = (1 << 83) - 1;
        let (mut acc, mut n, mut pos) = (0u128, 0, 0);
        let mut k = 0;
        while k < msg.len() {
            let (word, len) = (msg[k].0 as u128, msg[k].1);
            acc ^= word << pos;
            if pos + len > 83 {
                acc = (acc & M83) ^ (word >> (83 - pos));
            }
            n += len;
            pos = (pos + len) % 83;
            k += 1;
        }
        acc ^= ((n % 31) as u128) << 83;
        acc | ((self.tag as u128) << 88)
    }

    /// Model of SinsemillaHash.
    pub fn hash(&self, msg: impl Iterator<Item = bool>) -> CtOption<pallas::Base> {
        extract_p_bottom(self.hash_to_point(msg))
    }
}

/// Verification model of the Sinsemilla commitment.
#[derive(Debug)]
#[allow(non_snake_case)]
pub struct CommitDomain {
    M: HashDomain,
    R: pallas::Point,
}

impl CommitDomain {
    /// Model constructor.
    pub fn new(domain: &str) -> Self {
        use pasta_curves::toy::T;
        let mut r = T::from_bits_n(0x5a5a_3333_0f0f_00ff, 88, tag(domain, 1));
        r.i = 0;
        CommitDomain {
            M: HashDomain { tag: tag(domain, 2) },
            R: pallas::Point::new(r),
        }
    }

    /// Model of SinsemillaCommit.
    pub fn commit(
        &self,
        msg: impl Iterator<Item = bool>,
        r: &pallas::Scalar,
    ) -> CtOption<pallas::Point> {
        let (p, ok) = self.M.inner(msg);
        let c = p + self.R * r;
        // in this mode some randomness also produces the identity
        let c = if pasta_curves::toy::bottom() && (r.t().a ^ r.t().b) & 0xff == 0x5a {
            pallas::Point::new(pasta_curves::toy::T::ZERO)
        } else {
            c
        };
        CtOption::new(c, (ok as u8).into())
    }

    /// Model of SinsemillaShortCommit.
    pub fn short_commit(
        &self,
        msg: impl Iterator<Item = bool>,
        r: &pallas::Scalar,
    ) -> CtOption<pallas::Base> {
        extract_p_bottom(self.commit(msg, r))
    }
}

#[cfg(test)]
mod tests {
    use super::{Pad, K};
    use pasta_curves::{arithmetic::CurveExt, pallas};

    #[test]
    fn pad() {
        assert_eq!(
            Pad::new([].iter().cloned()).collect::<Vec<_>>(),
            vec![false; 0]
        );
        assert_eq!(
            Pad::new([true].iter().cloned()).collect::<Vec<_>>(),
            vec![true, false, false, false, false, false, false, false, false, false]
        );
        assert_eq!(
            Pad::new([true, true].iter().cloned()).collect::<Vec<_>>(),
            vec![true, true, false, false, false, false, false, false, false, false]
        );
        assert_eq!(
            Pad::new([true, true, true].iter().cloned()).collect::<Vec<_>>(),
            vec![true, true, true, false, false, false, false, false, false, false]
        );
        assert_eq!(
            Pad::new(
                [true, true, false, true, false, true, false, true, false, true]
                    .iter()
                    .cloned()
            )
            .collect::<Vec<_>>(),
            vec![true, true, false, true, false, true, false, true, false, true]
        );
        assert_eq!(
            Pad::new(
                [true, true, false, true, false, true, false, true, false, true, true]
                    .iter()
                    .cloned()
            )
            .collect::<Vec<_>>(),
            vec![
                true, true, false, true, false, true, false, true, false, true, true, false, false,
                false, false, false, false, false, false, false
            ]
        );
    }

    #[test]
    fn sinsemilla_s() {
        use super::sinsemilla_s::SINSEMILLA_S;
        use group::Curve;
        use pasta_curves::arithmetic::CurveAffine;

        let hasher = pallas::Point::hash_to_curve(super::S_PERSONALIZATION);

        for j in 0..(1u32 << K) {
            let computed = {
                let point = hasher(&j.to_le_bytes()).to_affine().coordinates().unwrap();
                (*point.x(), *point.y())
            };
            let actual = SINSEMILLA_S[j as usize];
            assert_eq!(computed, actual);
        }
    }
}
