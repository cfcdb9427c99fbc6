//! Encodings of field elements, values, keys and signatures.
use crate::source::*;
use crate::witness;
use ff::PrimeField;
use group::GroupEncoding;
use orchard::note::*;
use orchard::primitives::redpallas::{self, Binding, Signature, SpendAuth, VerificationKey};
use orchard::tree::MerkleHashOrchard;
use orchard::value::*;
use orchard::Anchor;
use pasta_curves::pallas::{Base, Point, Scalar};
use subtle::ConstantTimeEq;

fn canonical(b: &[u8; 32]) -> bool {
    bool::from(Base::from_repr(*b).is_some())
}
pub fn nullifier<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    let x = Nullifier::from_bytes(&b);
    assert!(bool::from(x.is_some()) == canonical(&b));
    if canonical(&b) {
        let x = x.unwrap();
        assert!(x.to_bytes() == b);
        let c = s.base();
        let y = Nullifier::from_bytes(&c.to_repr()).unwrap();
        assert!((x == y) == (b == c.to_repr()));
        assert!(bool::from(x.ct_eq(&y)) == (x == y));
    }
    witness!(!canonical(&b), "not canonical");
}
pub fn commitment<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    let x = ExtractedNoteCommitment::from_bytes(&b);
    assert!(bool::from(x.is_some()) == canonical(&b));
    if canonical(&b) {
        let x = x.unwrap();
        assert!(x.to_bytes() == b);
        assert!(<[u8; 32]>::from(&x) == b);
        let c = s.base();
        let y = ExtractedNoteCommitment::from_bytes(&c.to_repr()).unwrap();
        assert!((x == y) == (b == c.to_repr()));
        assert!(bool::from(x.ct_eq(&y)) == (x == y));
    }
    witness!(!canonical(&b), "not canonical");
}
pub fn anchor_rho_node<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    let ok = canonical(&b);
    let a = Anchor::from_bytes(b);
    let r = Rho::from_bytes(&b);
    let m = MerkleHashOrchard::from_bytes(&b);
    assert!(bool::from(a.is_some()) == ok);
    assert!(bool::from(r.is_some()) == ok);
    assert!(bool::from(m.is_some()) == ok);
    if ok {
        assert!(a.unwrap().to_bytes() == b);
        assert!(r.unwrap().to_bytes() == b);
        assert!(m.unwrap().to_bytes() == b);
    }
    witness!(ok, "canonical");
    witness!(!ok, "not canonical");
}
/// Two equal anchors / nodes / rhos have equal encodings.
pub fn equality<S: Source>(s: &mut S) {
    let (b, c) = (s.base().to_repr(), s.base().to_repr());
    assert!((Anchor::from_bytes(b).unwrap() == Anchor::from_bytes(c).unwrap()) == (b == c));
    assert!((Rho::from_bytes(&b).unwrap() == Rho::from_bytes(&c).unwrap()) == (b == c));
    assert!((MerkleHashOrchard::from_bytes(&b).unwrap() == MerkleHashOrchard::from_bytes(&c).unwrap()) == (b == c));
    witness!(b == c, "equal");
}
pub fn value_commitment<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    let p = Point::from_bytes(&b);
    let x = ValueCommitment::from_bytes(&b);
    assert!(bool::from(x.is_some()) == bool::from(p.is_some()));
    if bool::from(x.is_some()) {
        assert!(x.unwrap().to_bytes() == b);
        witness!(b == [0; 32], "identity");
    }
    let t = ValueCommitTrapdoor::from_bytes(b);
    assert!(bool::from(t.is_some()) == bool::from(Scalar::from_repr(b).is_some()));
    witness!(bool::from(p.is_none()), "not a point");
}
pub fn verification_key<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    let p = Point::from_bytes(&b);
    match VerificationKey::<SpendAuth>::try_from(b) {
        Ok(k) => {
            assert!(bool::from(p.is_some()));
            assert!(<[u8; 32]>::from(&k) == b);
            assert!(<[u8; 32]>::from(k) == b);
        }
        Err(e) => {
            assert!(bool::from(p.is_none()));
            core::mem::forget(e);
        }
    }
    match VerificationKey::<Binding>::try_from(b) {
        Ok(k) => assert!(bool::from(p.is_some()) && <[u8; 32]>::from(&k) == b),
        Err(e) => {
            assert!(bool::from(p.is_none()));
            core::mem::forget(e);
        }
    }
}
pub fn signature<S: Source>(s: &mut S) {
    let b: [u8; 64] = s.bytes();
    let x = Signature::<SpendAuth>::from(b);
    assert!(<[u8; 64]>::from(&x) == b);
    let y = Signature::<Binding>::from(b);
    assert!(<[u8; 64]>::from(&y) == b);
}
pub fn note_value<S: Source>(s: &mut S) {
    let v = s.u64();
    assert!(NoteValue::from_raw(v).inner() == v);
    assert!(NoteValue::default().inner() == 0);
    let w = s.u64();
    assert!((NoteValue::from_raw(v) == NoteValue::from_raw(w)) == (v == w));
}
/// The signing and verifying wrappers do what the scheme does.
pub fn sign_verify<S: Source>(s: &mut S) {
    let sk = s.scalar();
    let msg: [u8; 40] = s.bytes();
    let k = redpallas::SigningKey::<SpendAuth>::try_from(sk.to_repr());
    s.assume(k.is_ok());
    if let Ok(k) = k {
        let vk = VerificationKey::<SpendAuth>::from(&k);
        let sig = k.sign(FixedRng(1), &msg);
        assert!(vk.verify(&msg, &sig).is_ok());
        let mut other = msg;
        let d: [u8; 2] = s.bytes();
        other[0] ^= d[0];
        other[39] ^= d[1];
        assert!(vk.verify(&other, &sig).is_ok() == (other == msg));
        assert!(<[u8; 32]>::from(&k) == sk.to_repr());
    }
}

harnesses!(
    nullifier, commitment, anchor_rho_node, equality, value_commitment, verification_key, signature, note_value,
    sign_verify,
);
