//! Verification model: the "ideal" commutative ring that stands in for the
//! Pallas/Vesta scalar and base fields, and for the groups (a group element is
//! represented by its discrete logarithm).
//!
//! An element is a 256-bit string:
//!   bits   0.. 72  integer modulo M = 2^72 - 1
//!   bits  72..163  "A" bits of 91 GF(3) lanes
//!   bits 163..254  "B" bits of 91 GF(3) lanes
//!   bits 254, 255  zero
//! (a,b) of a lane: (0,0)=0 (1,0)=1 (0,1)=2, (1,1) is not a valid encoding.
//! The ring has odd order and every operation is a handful of bitwise
//! operations, plus one 72-bit modular addition / multiplication.
#![allow(missing_docs)]

pub const W: u32 = 72;
pub const M: u128 = (1u128 << 72) - 1;
pub const LANES: u32 = 91;
pub const LM: u128 = (1u128 << 91) - 1;

// Kani identifies global variables with constants of the same content, so every
// mutable global of the models starts with a value that occurs nowhere else.
static mut BOTTOM: u64 = 0x5eed_0002_0000_b077;
/// When set, the Sinsemilla model returns "bottom" for messages that fold to zero.
pub fn set_bottom(b: bool) {
    unsafe { BOTTOM = if b { 1 } else { 0x5eed_0002_0000_b077 } };
}
pub fn bottom() -> bool {
    unsafe { BOTTOM == 1 }
}

/// A programmable Sinsemilla hash: when `on`, the hash of a message is
/// `oracle_out(j)` for the first j with `key[j]` equal to the fold of the
/// message, and `oracle_out(255)` for all others.
#[allow(missing_debug_implementations)]
pub struct Oracle {
    pub on: bool,
    pub len: usize,
    pub key: [u128; 33],
    /// The first ten bits of the message.
    pub pre: [u16; 33],
}
pub static mut ORACLE: Oracle = Oracle { on: false, len: 0, key: [0x5eed_0003; 33], pre: [0x5eed; 33] };
/// The constants that a programmed hash returns.
pub const fn oracle_out(j: u8) -> T {
    T { i: 1, a: 0x5_0505_0000_0000_0000_0001 | ((j as u128) << 8), b: 0 }
}
pub fn oracle_lookup(pre: u16, key: u128) -> T {
    let mut r = oracle_out(255);
    let mut j = unsafe { ORACLE.len };
    while j > 0 {
        j -= 1;
        if unsafe { ORACLE.pre[j] } == pre {
            let b = if unsafe { ORACLE.key[j] } == key { oracle_out(j as u8).a } else { r.a };
            r.a = b;
        }
    }
    r
}

#[repr(C, packed)]
struct U(u64);

const fn rol(x: u64, r: u32) -> u64 {
    (x << r) | (x >> (64 - r))
}

/// An element of the ring.
#[derive(Clone, Copy, Debug)]
pub struct T {
    pub i: u128,
    pub a: u128,
    pub b: u128,
}

#[inline]
const fn red(x: u128) -> u128 {
    // x < 2^127 -> fold twice, then canonicalise
    let x = (x & M) + (x >> 72);
    let x = (x & M) + (x >> 72);
    if x >= M {
        x - M
    } else {
        x
    }
}

#[inline]
const fn addm(x: u128, y: u128) -> u128 {
    let s = x + y;
    if s >= M {
        s - M
    } else {
        s
    }
}

impl T {
    pub const ZERO: T = T { i: 0, a: 0, b: 0 };
    pub const ONE: T = T { i: 1, a: LM, b: 0 };

    pub const fn add(&self, y: &T) -> T {
        let nx = !(self.a | self.b);
        let ny = !(y.a | y.b);
        T {
            i: addm(self.i, y.i),
            a: ((self.a & ny) | (nx & y.a) | (self.b & y.b)) & LM,
            b: ((self.b & ny) | (nx & y.b) | (self.a & y.a)) & LM,
        }
    }

    pub const fn neg(&self) -> T {
        T {
            i: if self.i == 0 { 0 } else { M - self.i },
            a: self.b,
            b: self.a,
        }
    }

    pub const fn sub(&self, y: &T) -> T {
        self.add(&y.neg())
    }

    pub const fn mul(&self, y: &T) -> T {
        let i = if y.i == 1 {
            self.i
        } else if self.i == 1 {
            y.i
        } else if y.i == 0 || self.i == 0 {
            0
        } else {
            let m36 = (1u128 << 36) - 1;
            let lo = red(self.i * (y.i & m36));
            let hi = red(self.i * (y.i >> 36));
            // hi * 2^36 mod 2^72-1 is a rotation by 36
            let hi = ((hi & m36) << 36) | (hi >> 36);
            let s = addm(lo, hi);
            if s == M {
                0
            } else {
                s
            }
        };
        T {
            i,
            a: (self.a & y.a) | (self.b & y.b),
            b: (self.a & y.b) | (self.b & y.a),
        }
    }

    pub const fn from_limbs(l: &[u64; 4]) -> T {
        T {
            i: (l[0] as u128) | (((l[1] & 0xff) as u128) << 64),
            // bits 72..163
            a: ((l[1] >> 8) as u128) | (((l[2] & 0x7_ffff_ffff) as u128) << 56),
            // bits 163..254
            b: ((l[2] >> 35) as u128) | (((l[3] & 0x3fff_ffff_ffff_ffff) as u128) << 29),
        }
    }

    // The first limb depends on the integer part only, so that it stays a
    // constant for hash outputs (whose integer part is 1).
    pub const fn to_limbs(&self) -> [u64; 4] {
        [
            self.i as u64,
            ((self.i >> 64) as u64) | ((self.a as u64) << 8),
            ((self.a >> 56) as u64) | ((self.b as u64) << 35),
            (self.b >> 29) as u64,
        ]
    }

    /// Parses limbs; the boolean tells whether they are a canonical encoding.
    pub const fn parse(l: &[u64; 4]) -> (T, bool) {
        let t = T::from_limbs(l);
        let ok = t.i < M && (t.a & t.b) == 0 && (l[3] >> 62) == 0;
        (t, ok)
    }

    /// Forces limbs into a canonical element.
    pub const fn squash(l: &[u64; 4]) -> T {
        let t = T::from_limbs(l);
        let x = t.a & t.b;
        T {
            i: if t.i == M { 0 } else { t.i },
            a: t.a & !x,
            b: t.b & !x,
        }
    }

    pub const fn from_u64(v: u64) -> T {
        // v mod 3 by repeated folding (2^k = 1 mod 3 for even k)
        let v1 = (v & 0xffff_ffff) + (v >> 32);
        let v2 = (v1 & 0xffff) + (v1 >> 16);
        let v3 = (v2 & 0xff) + (v2 >> 8);
        let v4 = (v3 & 0xf) + (v3 >> 4);
        let v5 = (v4 & 0x3) + (v4 >> 2);
        let v6 = (v5 & 0x3) + (v5 >> 2);
        let v7 = (v6 & 0x3) + (v6 >> 2);
        let v8 = (v7 & 0x3) + (v7 >> 2);
        let r = if v8 == 3 { 0 } else { v8 };
        T {
            i: v as u128,
            a: if r == 1 { LM } else { 0 },
            b: if r == 2 { LM } else { 0 },
        }
    }

    pub const fn eq(&self, y: &T) -> bool {
        self.i == y.i && self.a == y.a && self.b == y.b
    }

    /// Unsigned comparison of the encodings: self <= y.
    pub const fn le(&self, y: &T) -> bool {
        if self.b != y.b {
            self.b < y.b
        } else if self.a != y.a {
            self.a < y.a
        } else {
            self.i <= y.i
        }
    }

    /// The canonical one of {t, -t} and whether t is the other one.
    pub const fn abs(&self) -> (T, bool) {
        let n = self.neg();
        if self.le(&n) {
            (*self, false)
        } else {
            (n, true)
        }
    }

    #[inline]
    pub fn to_bytes(&self) -> [u8; 32] {
        bytes_of(self.to_limbs())
    }

    #[inline]
    pub fn limbs_of(r: &[u8; 32]) -> [u64; 4] {
        // little-endian targets only
        unsafe { core::mem::transmute::<[u8; 32], [u64; 4]>(*r) }
    }

    /// A generator-like element: integer part 1, each lane 1 or 2 according to `bits`.
    pub const fn from_bits(bits: u128) -> T {
        T {
            i: 1,
            a: !bits & LM,
            b: bits & LM,
        }
    }

    /// As `from_bits`, with the number of significant lanes and a tag in the top three.
    pub const fn from_bits_n(bits: u128, n: u32, tag: u8) -> T {
        let m = (1u128 << n) - 1;
        let t = tag % 27;
        let (t0, t1, t2) = (t % 3, (t / 3) % 3, t / 9);
        let ta = ((t0 == 1) as u128) | (((t1 == 1) as u128) << 1) | (((t2 == 1) as u128) << 2);
        let tb = ((t0 == 2) as u128) | (((t1 == 2) as u128) << 1) | (((t2 == 2) as u128) << 2);
        T {
            i: 1,
            a: (!bits & m) | (ta << 88),
            b: (bits & m) | (tb << 88),
        }
    }

    /// Reduction of 64 uniform bytes. Integer part is 1 so that products of
    /// two such elements stay cheap; every lane is used.
    pub fn from_uniform(bytes: &[u8; 64], salt: u32) -> T {
        let w = unsafe { core::mem::transmute::<[u8; 64], [u64; 8]>(*bytes) };
        let l = [
            w[0] ^ rol(w[7], 3),
            w[1] ^ rol(w[6], 3),
            w[2] ^ rol(w[5], 3),
            w[3] ^ rol(w[4], 3),
        ];
        let lo = (l[0] as u128) | ((l[1] as u128) << 64);
        let hi = (l[2] as u128) | ((l[3] as u128) << 64);
        let x = (lo ^ (lo >> 91)) & LM;
        let y = (hi ^ ((hi >> 91) << 11)) & LM;
        // rotate lanes by salt
        let x = ((x << salt) | (x >> (91 - salt))) & LM;
        T {
            i: 1,
            a: x & !y,
            b: y & !x,
        }
    }

    /// `hash_to_curve` of a short message.
    pub fn hash(domain: &[u8], msg: &[u8]) -> T {
        let n = domain.len();
        let tag = (n as u8).wrapping_mul(7) ^ domain[n - 1] ^ domain[n / 2].rotate_left(2);
        let len = msg.len();
        let bits = if len >= 11 {
            let p = msg.as_ptr();
            let lo = unsafe { (*(p as *const U)).0 };
            let mut hi = 0u128;
            let mut k = 8;
            while k < len {
                hi ^= (msg[k] as u128) << ((k % 11) * 8);
                k += 1;
            }
            (lo as u128) ^ hi
        } else {
            let mut bits = 0u128;
            let mut k = 0;
            while k < len {
                bits ^= (msg[k] as u128) << (k * 8);
                k += 1;
            }
            bits
        };
        let n = if len >= 11 { 88 } else { 8 * len as u32 };
        if bottom() && len == 11 && bits & 0xff == 0x77 {
            // in this mode some short messages hash to the identity
            return T::ZERO;
        }
        T::from_bits_n(bits & LM, n, tag)
    }

    /// The two generators used for value commitments.
    pub const VALUE_V: T = T { i: 1, a: 0, b: 0 };
    pub const VALUE_R: T = T { i: 0, a: LM, b: 0 };
}

#[inline]
pub fn bytes_of(l: [u64; 4]) -> [u8; 32] {
    // little-endian targets only
    unsafe { core::mem::transmute::<[u64; 4], [u8; 32]>(l) }
}
