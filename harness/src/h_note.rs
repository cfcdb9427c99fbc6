//! Notes: commitments, nullifiers, derived randomness.
use crate::h_keys::viewing;
use crate::refm;
use crate::source::*;
use crate::witness;
use ff::{Field, PrimeField};
use group::GroupEncoding;
use orchard::note::*;
use orchard::value::NoteValue;
use orchard::{Address, Note};
use pasta_curves::pallas::Base;

/// A reference note with symbolic content, whose address parses.
pub fn content<S: Source>(s: &mut S) -> (refm::RNote, Address) {
    let a: [u8; 43] = s.bytes();
    let addr = Address::from_raw_address_bytes(&a);
    s.assume(bool::from(addr.is_some()));
    let (mut d, mut pk) = ([0u8; 11], [0u8; 32]);
    d.copy_from_slice(&a[..11]);
    pk.copy_from_slice(&a[11..]);
    (
        refm::RNote { d, pk_d: pk, v: s.u64(), rho: s.base(), rseed: s.bytes() },
        addr.unwrap(),
    )
}
pub fn rho_of(b: &Base) -> Rho {
    Rho::from_bytes(&b.to_repr()).unwrap()
}
/// The note of given content, None if the code refuses it.
pub fn make(n: &refm::RNote, a: Address) -> Option<Note> {
    let rho = rho_of(&n.rho);
    let rs = RandomSeed::from_bytes(n.rseed, &rho);
    if !bool::from(rs.is_some()) {
        return None;
    }
    let x = Note::from_parts(a, NoteValue::from_raw(n.v), rho, rs.unwrap());
    if bool::from(x.is_some()) {
        Some(x.unwrap())
    } else {
        None
    }
}
pub fn same(x: &Note, n: &refm::RNote) {
    let a = x.recipient().to_raw_address_bytes();
    assert!(a[..11] == n.d);
    assert!(a[11..] == n.pk_d);
    assert!(x.value().inner() == n.v);
    assert!(x.rho().to_bytes() == n.rho.to_repr());
    assert!(*x.rseed().as_bytes() == n.rseed);
}
pub fn cmx_of(x: &Note) -> [u8; 32] {
    ExtractedNoteCommitment::from(x.commitment()).to_bytes()
}

/// A note exists exactly when it has a commitment, and commits to its content.
pub fn note_commitment<S: Source>(s: &mut S) {
    #[cfg(orchard_verif)]
    pasta_curves::toy::set_bottom(true);
    let (n, a) = content(s);
    let w = refm::note_commit(&n);
    match make(&n, a) {
        None => assert!(w.is_none()),
        Some(x) => {
            assert!(w.is_some());
            same(&x, &n);
            assert!(cmx_of(&x) == refm::extract_p(&w.unwrap()).to_repr());
            witness!(true, "note");
        }
    }
    witness!(w.is_none(), "no commitment");
}
/// The nullifier under any viewing key.
pub fn note_nullifier<S: Source>(s: &mut S) {
    let (n, a) = content(s);
    let (_, nk, _, fvk) = viewing(s);
    if let Some(x) = make(&n, a) {
        let cm = refm::note_commit(&n).unwrap();
        let psi = refm::psi(&n.rseed, &n.rho);
        let w = refm::nullifier(&nk, &n.rho, &psi, &cm);
        assert!(x.nullifier(&fvk).to_bytes() == w.to_repr());
        witness!(true, "note");
    }
}
/// Notes are equal exactly when their commitments are.
pub fn note_eq<S: Source>(s: &mut S) {
    let (n, a) = content(s);
    let mut m = refm::RNote { d: n.d, pk_d: n.pk_d, v: n.v, rho: n.rho, rseed: n.rseed };
    m.v ^= s.u64();
    m.rho = s.base();
    if let (Some(x), Some(y)) = (make(&n, a), make(&m, a)) {
        assert!((x == y) == (cmx_of(&x) == cmx_of(&y)));
        witness!(x == y, "equal");
        witness!(x != y, "different");
    }
}
/// The identity as commitment is represented by zero.
pub fn extract<S: Source>(s: &mut S) {
    let p = s.point();
    let x = refm::extract_p(&p);
    assert!((x == Base::ZERO) == (p.to_bytes() == [0; 32]));
}

harnesses!(note_commitment, note_nullifier, note_eq);
