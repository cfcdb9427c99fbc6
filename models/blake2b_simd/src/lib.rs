//! Verification model of BLAKE2b: a deterministic, position sensitive fold of
//! the message, the key and the personalization.
#![no_std]
extern crate std;
use core::fmt;

/// The max hash length.
pub const OUTBYTES: usize = 64;
/// The max key length.
pub const KEYBYTES: usize = 64;
/// The max salt length.
pub const SALTBYTES: usize = 16;
/// The max personalization length.
pub const PERSONALBYTES: usize = 16;
/// The number of input bytes in a block.
pub const BLOCKBYTES: usize = 128;

/// Parameters.
#[derive(Clone)]
pub struct Params {
    n: usize,
    init: [u64; 8],
}

impl Default for Params {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Params {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Params")
    }
}

/// Hash the input.
pub fn blake2b(input: &[u8]) -> Hash {
    Params::new().hash(input)
}

impl Params {
    /// Default parameters.
    pub fn new() -> Self {
        Params { n: 64, init: [0; 8] }
    }
    /// One-shot.
    pub fn hash(&self, input: &[u8]) -> Hash {
        let mut s = self.to_state();
        s.update(input);
        s.finalize()
    }
    /// Streaming.
    pub fn to_state(&self) -> State {
        State {
            n: self.n,
            acc: self.init,
            count: 0,
        }
    }
    /// Output length.
    pub fn hash_length(&mut self, length: usize) -> &mut Self {
        assert!(1 <= length && length <= OUTBYTES);
        self.n = length;
        self
    }
    /// Key.
    pub fn key(&mut self, key: &[u8]) -> &mut Self {
        assert!(key.len() <= KEYBYTES);
        let mut i = 0;
        while i < key.len() {
            let (w, n) = word(key, i);
            self.init[(i / 8 + 1) % 8] ^= rol(w, 3);
            i += n;
        }
        self
    }
    /// Personalization.
    pub fn personal(&mut self, personalization: &[u8]) -> &mut Self {
        assert!(personalization.len() <= PERSONALBYTES);
        let mut i = 0;
        while i < personalization.len() {
            let (w, n) = word(personalization, i);
            self.init[i / 8] ^= rol(w, 1);
            i += n;
        }
        self
    }
}

#[repr(C, packed)]
struct W(u64);

#[inline]
fn rol(x: u64, r: usize) -> u64 {
    let r = r % 64;
    if r == 0 {
        x
    } else {
        (x << r) | (x >> (64 - r))
    }
}

/// Reads up to 8 bytes at `i`.
#[inline]
fn word(b: &[u8], i: usize) -> (u64, usize) {
    let left = b.len() - i;
    if left >= 8 {
        let p = b.as_ptr().wrapping_add(i) as *const W;
        (unsafe { (*p).0 }, 8)
    } else {
        let mut w = 0u64;
        let mut k = 0;
        while k < left {
            w |= (b[i + k] as u64) << (8 * k);
            k += 1;
        }
        (w, left)
    }
}

/// Streaming state.
#[derive(Clone)]
pub struct State {
    n: usize,
    acc: [u64; 8],
    count: usize,
}

impl fmt::Debug for State {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("State")
    }
}
impl Default for State {
    fn default() -> Self {
        Params::new().to_state()
    }
}

impl State {
    /// Default state.
    pub fn new() -> Self {
        Self::default()
    }
    /// Adds input.  The byte at position p of the message is folded into word
    /// p/8 (modulo the ring size), rotated by an amount that depends on the
    /// number of times the ring has been passed.
    pub fn update(&mut self, input: &[u8]) -> &mut Self {
        let ring = if self.n > 32 { 7 } else { 3 };
        let mut i = 0;
        while i < input.len() {
            let (w, n) = word(input, i);
            let q = self.count / 8;
            let off = (self.count % 8) as u32 * 8;
            self.acc[q % ring] ^= rol(w << off, q / ring * 13);
            if off as usize + n * 8 > 64 {
                let q = q + 1;
                self.acc[q % ring] ^=
                    rol(w >> (64 - off), q / ring * 13);
            }
            self.count += n;
            i += n;
        }
        self
    }
    /// Finishes.
    pub fn finalize(&self) -> Hash {
        let mut a = self.acc;
        let last = if self.n > 32 { 7 } else { 3 };
        let k = (self.count as u64).wrapping_mul(0x0301);
        if self.n <= 32 {
            a[0] ^= a[4];
            a[1] ^= a[5];
            a[2] ^= a[6];
            a[3] ^= a[7];
        }
        a[last] ^= a[0] ^ rol(a[1], 8) ^ rol(a[2], 16) ^ k;
        a[0] ^= k << 20;
        if self.n < 32 {
            // short outputs: every word counts
            a[0] ^= rol(a[1], 5) ^ rol(a[2], 11) ^ rol(a[3], 23);
        }
        let bytes = unsafe { core::mem::transmute::<[u64; 8], [u8; 64]>(a) };
        Hash { bytes, len: self.n }
    }
}

impl std::io::Write for State {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.update(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A finalized hash.
#[derive(Clone, Copy)]
pub struct Hash {
    bytes: [u8; 64],
    len: usize,
}
impl Hash {
    /// The bytes.
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes[..self.len]
    }
    /// The bytes of a full-length hash.
    pub fn as_array(&self) -> &[u8; OUTBYTES] {
        assert!(self.len == OUTBYTES);
        &self.bytes
    }
}
impl From<[u8; OUTBYTES]> for Hash {
    fn from(bytes: [u8; OUTBYTES]) -> Self {
        Hash { bytes, len: 64 }
    }
}
impl PartialEq for Hash {
    fn eq(&self, other: &Hash) -> bool {
        self.as_bytes() == other.as_bytes()
    }
}
impl Eq for Hash {}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}
impl fmt::Debug for Hash {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Hash")
    }
}
