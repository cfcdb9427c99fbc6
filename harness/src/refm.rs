//! Reference formulas, written from the protocol specification (and the ZIPs)
//! over the primitives only: nothing in here calls the code under test.
use ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits};
use group::{Curve, Group, GroupEncoding};
use halo2_gadgets::poseidon::primitives as poseidon;
use halo2_gadgets::sinsemilla::primitives as sinsemilla;
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas::{Affine, Base, Point, Scalar};


pub fn b512(personal: &[u8; 16], parts: &[&[u8]]) -> [u8; 64] {
    let mut h = blake2b_simd::Params::new().hash_length(64).personal(personal).to_state();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_array()
}
pub fn b256(personal: &[u8; 16], parts: &[&[u8]]) -> [u8; 32] {
    let mut h = blake2b_simd::Params::new().hash_length(32).personal(personal).to_state();
    for p in parts {
        h.update(p);
    }
    let mut r = [0u8; 32];
    r.copy_from_slice(h.finalize().as_bytes());
    r
}
pub fn prf_expand(sk: &[u8; 32], t: u8) -> [u8; 64] {
    b512(b"Zcash_ExpandSeed", &[sk, &[t]])
}
pub fn prf_expand1(sk: &[u8; 32], t: u8, x: &[u8]) -> [u8; 64] {
    b512(b"Zcash_ExpandSeed", &[sk, &[t], x])
}
pub fn prf_expand2(sk: &[u8; 32], t: u8, x: &[u8], y: &[u8]) -> [u8; 64] {
    b512(b"Zcash_ExpandSeed", &[sk, &[t], x, y])
}
pub fn to_base(b: [u8; 64]) -> Base {
    Base::from_uniform_bytes(&b)
}
pub fn to_scalar(b: [u8; 64]) -> Scalar {
    Scalar::from_uniform_bytes(&b)
}
pub fn extract_p(p: &Point) -> Base {
    let a: Affine = p.to_affine();
    let c = a.coordinates();
    if bool::from(c.is_some()) {
        *c.unwrap().x()
    } else {
        Base::ZERO
    }
}
pub fn xy(p: &Point) -> (Base, Base) {
    let a: Affine = p.to_affine();
    let c = a.coordinates();
    if bool::from(c.is_some()) {
        let c = c.unwrap();
        (*c.x(), *c.y())
    } else {
        (Base::ZERO, Base::ZERO)
    }
}
pub fn base_as_scalar(b: &Base) -> Scalar {
    Scalar::from_repr(b.to_repr()).unwrap()
}
/// The generator of spend authorization signatures.
pub fn g_spend() -> Point {
    Point::hash_to_curve("z.cash:Orchard")(b"G")
}
pub fn v_gen() -> Point {
    Point::hash_to_curve("z.cash:Orchard-cv")(b"v")
}
pub fn r_gen() -> Point {
    Point::hash_to_curve("z.cash:Orchard-cv")(b"r")
}
/// Value commitment to a signed value of magnitude below 2^64.
pub fn cv(v: i128, rcv: &Scalar) -> Point {
    let m = Scalar::from(v.unsigned_abs() as u64);
    let m = if v < 0 { -m } else { m };
    v_gen() * m + r_gen() * rcv
}

/// Secret key material.
pub struct Keys {
    pub ask: Scalar,
    pub ak: Point,
    pub ak_x: Base,
    pub nk: Base,
    pub rivk: Scalar,
}
pub fn sign_bit(p: &Point) -> bool {
    p.to_bytes()[31] >> 7 == 1
}
pub fn keys(sk: &[u8; 32]) -> Keys {
    let ask = to_scalar(prf_expand(sk, 0x06));
    let ak = g_spend() * ask;
    let (ask, ak) = if sign_bit(&ak) { (-ask, -ak) } else { (ask, ak) };
    Keys {
        ask,
        ak,
        ak_x: extract_p(&ak),
        nk: to_base(prf_expand(sk, 0x07)),
        rivk: to_scalar(prf_expand(sk, 0x08)),
    }
}
/// Diversifier key and outgoing viewing key of a (ak, nk, rivk) triple.
pub fn dk_ovk(ak_x: &Base, nk: &Base, rivk: &Scalar) -> ([u8; 32], [u8; 32]) {
    let r = prf_expand2(&rivk.to_repr(), 0x82, &ak_x.to_repr(), &nk.to_repr());
    let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
    a.copy_from_slice(&r[..32]);
    b.copy_from_slice(&r[32..]);
    (a, b)
}
pub fn rivk_internal(ak_x: &Base, nk: &Base, rivk: &Scalar) -> Scalar {
    to_scalar(prf_expand2(&rivk.to_repr(), 0x83, &ak_x.to_repr(), &nk.to_repr()))
}
/// None when the hash is bottom or the key is zero.
pub fn ivk(ak_x: &Base, nk: &Base, rivk: &Scalar) -> Option<Base> {
    let d = sinsemilla::CommitDomain::new("z.cash:Orchard-CommitIvk");
    let a = ak_x.to_le_bits();
    let n = nk.to_le_bits();
    let r = d.short_commit(
        a.iter().by_vals().take(255).chain(n.iter().by_vals().take(255)),
        rivk,
    );
    if bool::from(r.is_some()) {
        let r = r.unwrap();
        if bool::from(r.is_zero()) {
            None
        } else {
            Some(r)
        }
    } else {
        None
    }
}
pub fn diversify_hash(d: &[u8; 11]) -> Point {
    let h = Point::hash_to_curve("z.cash:Orchard-gd");
    let p = h(d);
    if bool::from(p.is_identity()) {
        h(&[])
    } else {
        p
    }
}
pub fn pk_d(ivk: &Base, d: &[u8; 11]) -> Point {
    diversify_hash(d) * base_as_scalar(ivk)
}
/// The j-th diversifier.
pub fn diversifier(dk: &[u8; 32], j: &[u8; 11]) -> [u8; 11] {
    let ff = fpe::ff1::FF1::<aes::Aes256>::new(dk, 2).unwrap();
    let e = ff.encrypt(&[], &fpe::ff1::BinaryNumeralString::from_bytes_le(j)).unwrap();
    let v = e.to_bytes_le();
    let mut r = [0u8; 11];
    r.copy_from_slice(&v);
    r
}
pub fn diversifier_index(dk: &[u8; 32], d: &[u8; 11]) -> [u8; 11] {
    let ff = fpe::ff1::FF1::<aes::Aes256>::new(dk, 2).unwrap();
    let e = ff.decrypt(&[], &fpe::ff1::BinaryNumeralString::from_bytes_le(d)).unwrap();
    let v = e.to_bytes_le();
    let mut r = [0u8; 11];
    r.copy_from_slice(&v);
    r
}

/// The plain content of a note.
pub struct RNote {
    pub d: [u8; 11],
    pub pk_d: [u8; 32],
    pub v: u64,
    pub rho: Base,
    pub rseed: [u8; 32],
}
pub fn esk(rseed: &[u8; 32], rho: &Base) -> Scalar {
    to_scalar(prf_expand1(rseed, 0x04, &rho.to_repr()))
}
pub fn rcm(rseed: &[u8; 32], rho: &Base) -> Scalar {
    to_scalar(prf_expand1(rseed, 0x05, &rho.to_repr()))
}
pub fn psi(rseed: &[u8; 32], rho: &Base) -> Base {
    to_base(prf_expand1(rseed, 0x09, &rho.to_repr()))
}
/// The note commitment; None when it is bottom.
pub fn note_commit(n: &RNote) -> Option<Point> {
    use bitvec::{array::BitArray, order::Lsb0};
    let d = sinsemilla::CommitDomain::new("z.cash:Orchard-NoteCommit");
    let gd = BitArray::<_, Lsb0>::new(diversify_hash(&n.d).to_bytes());
    let pk = BitArray::<_, Lsb0>::new(n.pk_d);
    let v = BitArray::<_, Lsb0>::new(n.v.to_le_bytes());
    let rho = n.rho.to_le_bits();
    let psi_ = psi(&n.rseed, &n.rho);
    let ps = psi_.to_le_bits();
    let r = d.commit(
        gd.iter()
            .by_vals()
            .chain(pk.iter().by_vals())
            .chain(v.iter().by_vals())
            .chain(rho.iter().by_vals().take(255))
            .chain(ps.iter().by_vals().take(255)),
        &rcm(&n.rseed, &n.rho),
    );
    if bool::from(r.is_some()) {
        Some(r.unwrap())
    } else {
        None
    }
}
pub fn prf_nf(nk: &Base, rho: &Base) -> Base {
    poseidon::Hash::<_, poseidon::P128Pow5T3, poseidon::ConstantLength<2>, 3, 2>::init()
        .hash([*nk, *rho])
}
pub fn nullifier(nk: &Base, rho: &Base, psi: &Base, cm: &Point) -> Base {
    let k = Point::hash_to_curve("z.cash:Orchard")(b"K");
    let s = base_as_scalar(&(prf_nf(nk, rho) + psi));
    extract_p(&(k * s + cm))
}

pub fn kdf(shared: &Point, epk: &[u8; 32]) -> [u8; 32] {
    b256(b"Zcash_OrchardKDF", &[&shared.to_bytes(), epk])
}
pub fn ock(ovk: &[u8; 32], cv: &[u8; 32], cmx: &[u8; 32], epk: &[u8; 32]) -> [u8; 32] {
    b256(b"Zcash_Orchardock", &[ovk, cv, cmx, epk])
}
/// AEAD encryption with the zero nonce, in place; returns the tag.
pub fn seal(key: &[u8; 32], buf: &mut [u8]) -> [u8; 16] {
    use chacha20poly1305::{AeadInPlace, ChaCha20Poly1305, KeyInit};
    let t = ChaCha20Poly1305::new(key.into())
        .encrypt_in_place_detached([0u8; 12][..].into(), &[], buf)
        .unwrap();
    let mut r = [0u8; 16];
    r.copy_from_slice(&t);
    r
}
pub fn note_plaintext(n: &RNote, memo: &[u8; 512]) -> [u8; 564] {
    let mut p = [0u8; 564];
    p[0] = 2;
    p[1..12].copy_from_slice(&n.d);
    p[12..20].copy_from_slice(&n.v.to_le_bytes());
    p[20..52].copy_from_slice(&n.rseed);
    p[52..].copy_from_slice(memo);
    p
}
pub fn enc_note(n: &RNote, memo: &[u8; 512]) -> ([u8; 32], [u8; 580]) {
    let e = esk(&n.rseed, &n.rho);
    let epk = (diversify_hash(&n.d) * e).to_bytes();
    let pk = Point::from_bytes(&n.pk_d).unwrap();
    let key = kdf(&(pk * e), &epk);
    let mut c = [0u8; 580];
    c[..564].copy_from_slice(&note_plaintext(n, memo));
    let t = seal(&key, &mut c[..564]);
    c[564..].copy_from_slice(&t);
    (epk, c)
}
pub fn enc_out(ovk: &[u8; 32], cv: &[u8; 32], cmx: &[u8; 32], epk: &[u8; 32], pk_d: &[u8; 32], esk: &Scalar) -> [u8; 80] {
    let key = ock(ovk, cv, cmx, epk);
    let mut c = [0u8; 80];
    c[..32].copy_from_slice(pk_d);
    c[32..64].copy_from_slice(&esk.to_repr());
    let t = seal(&key, &mut c[..64]);
    c[64..].copy_from_slice(&t);
    c
}

/// One Merkle combination.
pub fn merkle(level: u8, l: &Base, r: &Base) -> Base {
    let d = sinsemilla::HashDomain::new("z.cash:Orchard-MerkleCRH");
    let mut lv = [false; 10];
    let mut i = 0;
    while i < 8 {
        lv[i] = (level >> i) & 1 == 1;
        i += 1;
    }
    let a = l.to_le_bits();
    let b = r.to_le_bits();
    let h = d.hash(
        lv.iter()
            .copied()
            .chain(a.iter().by_vals().take(255))
            .chain(b.iter().by_vals().take(255)),
    );
    if bool::from(h.is_some()) {
        h.unwrap()
    } else {
        Base::ZERO
    }
}

/// The public inputs of one action.
pub fn instance(
    anchor: &Base,
    cv: &Point,
    nf: &Base,
    rk: &Point,
    cmx: &Base,
    spends: bool,
    outputs: bool,
) -> [Base; 9] {
    let (cx, cy) = xy(cv);
    let (rx, ry) = xy(rk);
    [
        *anchor,
        cx,
        cy,
        *nf,
        rx,
        ry,
        *cmx,
        Base::from(spends as u64),
        Base::from(outputs as u64),
    ]
}
