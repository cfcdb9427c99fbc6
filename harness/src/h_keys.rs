//! The key tree, its encodings, addresses and diversifiers, key randomization.
use crate::refm;
use crate::source::*;
use crate::witness;
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::keys::*;
use orchard::primitives::redpallas;
use orchard::Address;
use pasta_curves::pallas::{Base, Point, Scalar};

/// The spending key of 32 symbolic bytes (assumed valid) and its reference keys.
pub fn spending<S: Source>(s: &mut S) -> ([u8; 32], SpendingKey) {
    let b: [u8; 32] = s.bytes();
    (b, sk_of(s, b))
}
pub fn sk_of<S: Source>(s: &mut S, b: [u8; 32]) -> SpendingKey {
    let k = SpendingKey::from_bytes(b);
    s.assume(bool::from(k.is_some()));
    k.unwrap()
}
fn scope<S: Source>(s: &mut S) -> Scope {
    if s.bool() {
        Scope::Internal
    } else {
        Scope::External
    }
}
/// The reference (dk, ovk, ivk) of a scope.
pub struct Scoped {
    pub dk: [u8; 32],
    pub ovk: [u8; 32],
    pub ivk: Base,
}
pub fn scoped<S: Source>(s: &mut S, ak_x: &Base, nk: &Base, rivk: &Scalar, sc: Scope) -> Scoped {
    let r = match sc {
        Scope::External => *rivk,
        Scope::Internal => refm::rivk_internal(ak_x, nk, rivk),
    };
    let (dk, ovk) = refm::dk_ovk(ak_x, nk, &r);
    let i = refm::ivk(ak_x, nk, &r);
    s.assume(i.is_some());
    Scoped { dk, ovk, ivk: i.unwrap() }
}
/// A full viewing key with symbolic components (assumed valid).
pub fn viewing<S: Source>(s: &mut S) -> (Base, Base, Scalar, FullViewingKey) {
    let b: [u8; 96] = s.bytes();
    let f = FullViewingKey::from_bytes(&b);
    s.assume(f.is_some());
    let (mut a, mut n, mut r) = ([0u8; 32], [0u8; 32], [0u8; 32]);
    a.copy_from_slice(&b[..32]);
    n.copy_from_slice(&b[32..64]);
    r.copy_from_slice(&b[64..]);
    (
        Base::from_repr(a).unwrap(),
        Base::from_repr(n).unwrap(),
        Scalar::from_repr(r).unwrap(),
        f.unwrap(),
    )
}

/// A spending key is accepted exactly when its keys exist.
pub fn sk_valid<S: Source>(s: &mut S) {
    #[cfg(orchard_verif)]
    pasta_curves::toy::set_bottom(true);
    let b: [u8; 32] = s.bytes();
    let k = SpendingKey::from_bytes(b);
    let ok = bool::from(k.is_some());
    let r = refm::keys(&b);
    let e = refm::ivk(&r.ak_x, &r.nk, &r.rivk).is_some();
    let i = refm::ivk(&r.ak_x, &r.nk, &refm::rivk_internal(&r.ak_x, &r.nk, &r.rivk)).is_some();
    assert!(ok == (e && i));
    if ok {
        assert!(*k.unwrap().to_bytes() == b);
    }
    witness!(ok, "valid");
    witness!(!e && !i, "neither key");
    witness!(!e && i, "no external key");
    witness!(e && !i, "no internal key");
}
/// The full viewing key of a spending key.
pub fn fvk_of_sk<S: Source>(s: &mut S) {
    let (b, sk) = spending(s);
    let fvk = FullViewingKey::from(&sk);
    let r = refm::keys(&b);
    let e = fvk.to_bytes();
    assert!(e[..32] == r.ak.to_bytes());
    assert!(e[32..64] == r.nk.to_repr());
    assert!(e[64..] == r.rivk.to_repr());
    assert!(e[31] & 0x80 == 0);
    assert!(e[..32] == r.ak_x.to_repr());
}
/// The authorizing key belongs to the validating key in the viewing key.
pub fn ask_of_sk<S: Source>(s: &mut S) {
    let (b, sk) = spending(s);
    let ask = SpendAuthorizingKey::from(&sk);
    let r = refm::keys(&b);
    let ak = SpendValidatingKey::from(&ask);
    assert!(Point::from(&ak) == r.ak);
    let svk = SpendValidatingKey::from(FullViewingKey::from(&sk));
    assert!(svk == ak);
    let flipped = r.ask != refm::to_scalar(refm::prf_expand(&b, 0x06));
    witness!(flipped, "negated");
    witness!(!flipped, "kept");
}
/// Randomization: both halves of the key pair move together, and signatures of
/// the randomized key verify under the randomized validating key only.
pub fn randomize<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    let sk = sk_of(s, b);
    let r = refm::keys(&b);
    let ask = SpendAuthorizingKey::from(&sk);
    let ak = SpendValidatingKey::from(&ask);
    let alpha = s.scalar();
    let rsk = ask.randomize(&alpha);
    let rk = ak.randomize(&alpha);
    let want = r.ak + refm::g_spend() * alpha;
    assert!(<[u8; 32]>::from(&rk) == want.to_bytes());
    let own = redpallas::VerificationKey::<redpallas::SpendAuth>::from(&rsk);
    assert!(<[u8; 32]>::from(&own) == want.to_bytes());
    let msg: [u8; 32] = s.bytes();
    let sig = rsk.sign(FixedRng(3), &msg);
    assert!(rk.verify(&msg, &sig).is_ok());
    let other: [u8; 32] = s.bytes();
    assert!(rk.verify(&other, &sig).is_ok() == (other == msg));
    let plain = redpallas::VerificationKey::<redpallas::SpendAuth>::try_from(r.ak.to_bytes()).unwrap();
    let zero = bool::from((refm::g_spend() * alpha).is_identity());
    assert!(plain.verify(&msg, &sig).is_ok() == zero);
    witness!(zero, "no randomization");
    witness!(!zero, "randomization");
}

/// Viewing keys: exactly the canonical encodings of usable keys parse.
pub fn fvk_codec<S: Source>(s: &mut S) {
    #[cfg(orchard_verif)]
    pasta_curves::toy::set_bottom(true);
    let b: [u8; 96] = s.bytes();
    let (mut a, mut n, mut r) = ([0u8; 32], [0u8; 32], [0u8; 32]);
    a.copy_from_slice(&b[..32]);
    n.copy_from_slice(&b[32..64]);
    r.copy_from_slice(&b[64..]);
    let p = Point::from_bytes(&a);
    let nk = Base::from_repr(n);
    let rivk = Scalar::from_repr(r);
    let mut want = bool::from(p.is_some() & nk.is_some() & rivk.is_some()) && a != [0; 32] && a[31] < 0x80;
    let wf = want;
    if want {
        let (x, nk, rivk) = (refm::extract_p(&p.unwrap()), nk.unwrap(), rivk.unwrap());
        want = refm::ivk(&x, &nk, &rivk).is_some()
            && refm::ivk(&x, &nk, &refm::rivk_internal(&x, &nk, &rivk)).is_some();
    }
    let f = FullViewingKey::from_bytes(&b);
    assert!(f.is_some() == want);
    if let Some(f) = f {
        assert!(f.to_bytes() == b);
        let mut out = [0u8; 100];
        f.write(&mut out[..]).unwrap();
        assert!(out[..96] == b && out[96..] == [0; 4]);
        witness!(true, "parsed");
    }
    witness!(wf && !want, "unusable key");
    witness!(a[31] >= 0x80 && bool::from(p.is_some()), "odd sign");
}
/// Reading consumes 96 bytes and accepts what the byte parser accepts.
pub fn fvk_read<S: Source>(s: &mut S) {
    let b: [u8; 98] = s.bytes();
    let mut e = [0u8; 96];
    e.copy_from_slice(&b[..96]);
    let want = FullViewingKey::from_bytes(&e);
    let mut rd = &b[..];
    let got = FullViewingKey::read(&mut rd);
    match (got, want) {
        (Ok(g), Some(w)) => {
            assert!(g == w);
            assert!(rd.len() == 2 && rd[0] == b[96]);
            witness!(true, "read");
        }
        (Err(e), None) => core::mem::forget(e),
        _ => assert!(false),
    }
    let mut short = &b[..95];
    match FullViewingKey::read(&mut short) {
        Ok(_) => assert!(false),
        Err(e) => core::mem::forget(e),
    }
}
pub fn ivk_codec<S: Source>(s: &mut S) {
    let b: [u8; 64] = s.bytes();
    let mut i = [0u8; 32];
    i.copy_from_slice(&b[32..]);
    let k = IncomingViewingKey::from_bytes(&b);
    let c = Base::from_repr(i);
    let ok = bool::from(c.is_some()) && i != [0; 32];
    assert!(bool::from(k.is_some()) == ok);
    if ok {
        assert!(k.unwrap().to_bytes() == b);
        witness!(true, "parsed");
    }
    witness!(i == [0; 32], "zero key");
}
pub fn addr_codec<S: Source>(s: &mut S) {
    let b: [u8; 43] = s.bytes();
    let a = Address::from_raw_address_bytes(&b);
    let mut pk = [0u8; 32];
    pk.copy_from_slice(&b[11..]);
    let p = Point::from_bytes(&pk);
    let ok = bool::from(p.is_some()) && pk != [0; 32];
    assert!(bool::from(a.is_some()) == ok);
    if ok {
        let a = a.unwrap();
        assert!(a.to_raw_address_bytes() == b);
        assert!(a.diversifier().as_array()[..] == b[..11]);
        witness!(pk[31] > 0x7f, "odd sign");
    }
    witness!(bool::from(p.is_some()) && !ok, "identity");
}
/// Two addresses are equal exactly when their encodings are.
pub fn addr_eq<S: Source>(s: &mut S) {
    let (b, c): ([u8; 43], [u8; 43]) = (s.bytes(), s.bytes());
    let (x, y) = (Address::from_raw_address_bytes(&b), Address::from_raw_address_bytes(&c));
    s.assume(bool::from(x.is_some() & y.is_some()));
    assert!((x.unwrap() == y.unwrap()) == (b == c));
    witness!(b == c, "equal");
    witness!(b[..11] == c[..11] && b != c, "same diversifier");
}

/// Incoming and outgoing viewing keys of both scopes.
fn ivk_ovk<S: Source>(s: &mut S, sc: Scope) {
    let (ak, nk, rivk, fvk) = viewing(s);
    let w = scoped(s, &ak, &nk, &rivk, sc);
    let i = fvk.to_ivk(sc).to_bytes();
    assert!(i[..32] == w.dk);
    assert!(i[32..] == w.ivk.to_repr());
    assert!(*fvk.to_ovk(sc).as_ref() == w.ovk);
}
pub fn scope_external<S: Source>(s: &mut S) {
    ivk_ovk(s, Scope::External)
}
pub fn scope_internal<S: Source>(s: &mut S) {
    ivk_ovk(s, Scope::Internal)
}

/// Addresses of a full viewing key, by index and by diversifier.
pub fn address_at<S: Source>(s: &mut S) {
    let (ak, nk, rivk, fvk) = viewing(s);
    let sc = scope(s);
    let w = scoped(s, &ak, &nk, &rivk, sc);
    let j: [u8; 11] = s.bytes();
    let a = fvk.address_at(DiversifierIndex::from(j), sc).to_raw_address_bytes();
    let d = refm::diversifier(&w.dk, &j);
    assert!(a[..11] == d);
    assert!(a[11..] == refm::pk_d(&w.ivk, &d).to_bytes());
}
pub fn address_of_diversifier<S: Source>(s: &mut S) {
    #[cfg(orchard_verif)]
    pasta_curves::toy::set_bottom(true);
    let (ak, nk, rivk, fvk) = viewing(s);
    let sc = scope(s);
    let w = scoped(s, &ak, &nk, &rivk, sc);
    let d: [u8; 11] = s.bytes();
    let a = fvk.address(Diversifier::from_bytes(d), sc).to_raw_address_bytes();
    assert!(a[..11] == d);
    assert!(a[11..] == refm::pk_d(&w.ivk, &d).to_bytes());
    let b = fvk.to_ivk(sc).address(Diversifier::from_bytes(d)).to_raw_address_bytes();
    assert!(a == b);
    witness!(
        (<Point as pasta_curves::arithmetic::CurveExt>::hash_to_curve("z.cash:Orchard-gd")(&d) == Point::identity()),
        "replaced base"
    );
}
/// An incoming viewing key recognises exactly its own addresses, with the
/// index they were derived at.
pub fn index_of_address<S: Source>(s: &mut S) {
    let b: [u8; 64] = s.bytes();
    let k = IncomingViewingKey::from_bytes(&b);
    s.assume(bool::from(k.is_some()));
    let k = k.unwrap();
    let (mut dk, mut i) = ([0u8; 32], [0u8; 32]);
    dk.copy_from_slice(&b[..32]);
    i.copy_from_slice(&b[32..]);
    let ivk = Base::from_repr(i).unwrap();
    let a: [u8; 43] = s.bytes();
    let addr = Address::from_raw_address_bytes(&a);
    s.assume(bool::from(addr.is_some()));
    let mut d = [0u8; 11];
    d.copy_from_slice(&a[..11]);
    let own = a[11..] == refm::pk_d(&ivk, &d).to_bytes();
    match k.diversifier_index(&addr.unwrap()) {
        Some(j) => {
            assert!(own);
            assert!(*j.as_bytes() == refm::diversifier_index(&dk, &d));
            assert!(k.address_at(j).to_raw_address_bytes() == a);
        }
        None => assert!(!own),
    }
    witness!(own, "own");
    witness!(!own, "foreign");
}
/// Derivation and recognition are inverse.
pub fn index_round_trip<S: Source>(s: &mut S) {
    let b: [u8; 64] = s.bytes();
    let k = IncomingViewingKey::from_bytes(&b);
    s.assume(bool::from(k.is_some()));
    let k = k.unwrap();
    let j: [u8; 11] = s.bytes();
    let a = k.address_at(DiversifierIndex::from(j));
    match k.diversifier_index(&a) {
        Some(i) => assert!(*i.as_bytes() == j),
        None => assert!(false),
    }
}
/// The scope of an arbitrary address.
pub fn scope_of_address<S: Source>(s: &mut S) {
    let (ak, nk, rivk, fvk) = viewing(s);
    let e = scoped(s, &ak, &nk, &rivk, Scope::External);
    let i = scoped(s, &ak, &nk, &rivk, Scope::Internal);
    let a: [u8; 43] = s.bytes();
    let addr = Address::from_raw_address_bytes(&a);
    s.assume(bool::from(addr.is_some()));
    let mut d = [0u8; 11];
    d.copy_from_slice(&a[..11]);
    let x = a[11..] == refm::pk_d(&e.ivk, &d).to_bytes();
    let y = a[11..] == refm::pk_d(&i.ivk, &d).to_bytes();
    let got = fvk.scope_for_address(&addr.unwrap());
    let want = if x {
        Some(Scope::External)
    } else if y {
        Some(Scope::Internal)
    } else {
        None
    };
    assert!(got == want);
    witness!(x && !y, "external");
    witness!(y && !x, "internal");
    witness!(!x && !y, "foreign");
}
/// Outgoing viewing keys are the bytes they are made of.
pub fn ovk_bytes<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    assert!(*OutgoingViewingKey::from(b).as_ref() == b);
}

harnesses!(
    sk_valid, fvk_of_sk, ask_of_sk, randomize, fvk_codec, fvk_read, ivk_codec, addr_codec, addr_eq, scope_external,
    scope_internal, address_at, address_of_diversifier, index_of_address, index_round_trip, scope_of_address, ovk_bytes,
);
