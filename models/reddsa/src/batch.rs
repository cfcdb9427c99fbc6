//! Verification model of batch verification.
use alloc::vec::Vec;
use core::convert::TryFrom;
use rand_core::{CryptoRng, RngCore};
use crate::*;

#[derive(Clone, Debug)]
enum Inner<S: SpendAuth, B: Binding<Scalar = S::Scalar, Point = S::Point>> {
    SpendAuth {
        vk_bytes: VerificationKeyBytes<S>,
        sig: Signature<S>,
        msg: [u8; 32],
    },
    Binding {
        vk_bytes: VerificationKeyBytes<B>,
        sig: Signature<B>,
        msg: [u8; 32],
    },
}

/// A batch verification item (model: checked individually).
#[derive(Clone, Debug)]
pub struct Item<S: SpendAuth, B: Binding<Scalar = S::Scalar, Point = S::Point>> {
    inner: Inner<S, B>,
}

impl<S: SpendAuth, B: Binding<Scalar = S::Scalar, Point = S::Point>> Item<S, B> {
    /// Create a batch item from a `SpendAuth` signature.
    pub fn from_spendauth<M: AsRef<[u8]>>(
        vk_bytes: VerificationKeyBytes<S>,
        sig: Signature<S>,
        msg: &M,
    ) -> Self {
        let msg = crate::model_digest(msg.as_ref());
        Self {
            inner: Inner::SpendAuth { vk_bytes, sig, msg },
        }
    }

    /// Create a batch item from a `Binding` signature.
    pub fn from_binding<M: AsRef<[u8]>>(
        vk_bytes: VerificationKeyBytes<B>,
        sig: Signature<B>,
        msg: &M,
    ) -> Self {
        let msg = crate::model_digest(msg.as_ref());
        Self {
            inner: Inner::Binding { vk_bytes, sig, msg },
        }
    }

    /// Verify one item.
    pub fn verify_single(self) -> Result<(), Error> {
        match self.inner {
            Inner::Binding { vk_bytes, sig, msg } => {
                VerificationKey::<B>::try_from(vk_bytes).and_then(|vk| vk.verify_digest(&msg, &sig))
            }
            Inner::SpendAuth { vk_bytes, sig, msg } => {
                VerificationKey::<S>::try_from(vk_bytes).and_then(|vk| vk.verify_digest(&msg, &sig))
            }
        }
    }
}

/// A batch verification context.
pub struct Verifier<S: SpendAuth, B: Binding<Scalar = S::Scalar, Point = S::Point>> {
    signatures: Vec<Item<S, B>>,
}

impl<S: SpendAuth, B: Binding<Scalar = S::Scalar, Point = S::Point>> Default for Verifier<S, B> {
    fn default() -> Self {
        Verifier { signatures: Vec::new() }
    }
}

impl<S: SpendAuth, B: Binding<Scalar = S::Scalar, Point = S::Point>> Verifier<S, B> {
    /// Construct a new batch verifier.
    pub fn new() -> Verifier<S, B> {
        Verifier::default()
    }

    /// Queue an Item for verification.
    pub fn queue<I: Into<Item<S, B>>>(&mut self, item: I) {
        self.signatures.push(item.into());
    }

    /// Succeeds iff every queued signature is valid.
    pub fn verify<R: RngCore + CryptoRng>(self, _rng: R) -> Result<(), Error> {
        for item in self.signatures {
            item.verify_single()?;
        }
        Ok(())
    }
}
