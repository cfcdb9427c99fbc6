//! Verification model of the ChaCha20 stream cipher.
#![no_std]
pub use cipher;
use cipher::{
    consts::{U12, U24, U32},
    generic_array::GenericArray,
    inout::InOutBuf,
    IvSizeUser, KeyIvInit, KeySizeUser, OverflowError, SeekNum, StreamCipher, StreamCipherError,
    StreamCipherSeek,
};

/// Key type.
pub type Key = GenericArray<u8, U32>;
/// Nonce type.
pub type Nonce = GenericArray<u8, U12>;
/// Nonce type.
pub type XNonce = GenericArray<u8, U24>;

/// Rotation.
#[inline]
pub fn rol(x: u64, r: usize) -> u64 {
    let r = r % 64;
    if r == 0 {
        x
    } else {
        (x << r) | (x >> (64 - r))
    }
}

/// One word of keystream.
#[inline]
pub fn ks_word(key: &[u64; 4], q: usize) -> u64 {
    rol(key[q % 3], 13 * (q / 3))
        ^ rol(key[3], q)
        ^ (q as u64)
}

/// The words of a key.
#[inline]
pub fn key_words(key: &[u8; 32]) -> [u64; 4] {
    unsafe { core::mem::transmute::<[u8; 32], [u64; 4]>(*key) }
}

/// Key and nonce, combined.
#[inline]
pub fn mix(key: &[u8], nonce: &[u8]) -> [u64; 4] {
    let mut k = [0u8; 32];
    k.copy_from_slice(key);
    let mut k = key_words(&k);
    let mut i = 0;
    while i < nonce.len() {
        k[i % 4] ^= (nonce[i] as u64) << (8 * (i % 7));
        i += 1;
    }
    k
}

macro_rules! cipher {
    ($n:ident, $iv:ty) => {
        /// Model cipher.
        pub struct $n {
            key: [u64; 4],
            pos: usize,
        }
        impl KeySizeUser for $n {
            type KeySize = U32;
        }
        impl IvSizeUser for $n {
            type IvSize = $iv;
        }
        impl KeyIvInit for $n {
            fn new(key: &GenericArray<u8, U32>, iv: &GenericArray<u8, $iv>) -> Self {
                let k = mix(key.as_slice(), iv.as_slice());
                $n { key: k, pos: 0 }
            }
        }
        impl StreamCipher for $n {
            fn try_apply_keystream_inout(
                &mut self,
                mut buf: InOutBuf<'_, '_, u8>,
            ) -> Result<(), StreamCipherError> {
                let n = buf.len();
                let mut i = 0;
                while i < n {
                    let p = self.pos + i;
                    let k = (ks_word(&self.key, p / 8) >> (8 * (p % 8))) as u8;
                    let b = *buf.get(i).get_in();
                    *buf.get(i).get_out() = b ^ k;
                    i += 1;
                }
                self.pos += n;
                Ok(())
            }
        }
        impl StreamCipherSeek for $n {
            fn try_current_pos<T: SeekNum>(&self) -> Result<T, OverflowError> {
                T::from_block_byte((self.pos / 64) as u32, (self.pos % 64) as u8, 64)
            }
            fn try_seek<T: SeekNum>(&mut self, pos: T) -> Result<(), StreamCipherError> {
                let (b, o): (u32, u8) = pos.into_block_byte(64).map_err(|_| StreamCipherError)?;
                self.pos = (b as usize) * 64 + o as usize;
                Ok(())
            }
        }
    };
}
cipher!(ChaCha20, U12);
cipher!(XChaCha20, U24);
