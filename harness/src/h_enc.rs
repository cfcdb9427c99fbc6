//! Note encryption: what a recipient, a light client and a sender can decrypt.
use crate::h_bundle::Parts;
use crate::h_note::{rho_of, same};
use crate::refm;
use crate::source::*;
use crate::witness;
use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::keys::*;
use orchard::note::*;
use orchard::note_encryption::*;
use orchard::value::*;
use orchard::{Action, Address, Note};
use pasta_curves::pallas::{Base, Point, Scalar};
use pasta_curves::toy::T;
use orchard::bundle::*;
use zcash_note_encryption::{
    batch, try_compact_note_decryption, try_note_decryption, try_output_recovery_with_ock,
    try_output_recovery_with_ovk, Domain, EphemeralKeyBytes, OutgoingCipherKey,
};

/// A point whose integer part is one (keeps products cheap).
fn unit<S: Source>(s: &mut S) -> Point {
    let l: [u8; 32] = s.bytes();
    let mut t = T::squash(&T::limbs_of(&l));
    t.i = 1;
    Point::new(t)
}
fn ivk_of<S: Source>(s: &mut S) -> (Base, IncomingViewingKey) {
    let b = s.base();
    s.assume(!bool::from(b.is_zero()));
    let mut e = [0x35u8; 64];
    e[32..].copy_from_slice(&b.to_repr());
    (b, IncomingViewingKey::from_bytes(&e).unwrap())
}
fn tail<const N: usize>(b: &[u8], from: usize) -> [u8; N] {
    let mut r = [0u8; N];
    r.copy_from_slice(&b[from..from + N]);
    r
}
fn open(key: &[u8; 32], buf: &mut [u8], tag: &[u8]) -> bool {
    use chacha20poly1305::{AeadInPlace, ChaCha20Poly1305, KeyInit};
    ChaCha20Poly1305::new(key.into())
        .decrypt_in_place_detached([0u8; 12][..].into(), &[], buf, tag.into())
        .is_ok()
}
/// The content of a note plaintext without memo; validity of the note given
/// the address key, the published commitment and ephemeral key.
fn parse(p: &[u8], rho: &Base, pk_d: impl FnOnce(&[u8; 11]) -> [u8; 32], cmx: &Base, epk: &[u8; 32]) -> (refm::RNote, bool) {
    let d = tail::<11>(p, 1);
    let n = refm::RNote {
        d,
        pk_d: pk_d(&d),
        v: u64::from_le_bytes(tail(p, 12)),
        rho: *rho,
        rseed: tail(p, 20),
    };
    let e = refm::esk(&n.rseed, rho);
    let cm = refm::note_commit(&n);
    let mut ok = p[0] == 2 && !bool::from(e.is_zero()) && cm.is_some();
    if let Some(cm) = cm {
        ok &= refm::extract_p(&cm) == *cmx;
    }
    ok &= (refm::diversify_hash(&d) * e).to_bytes() == *epk;
    (n, ok)
}
/// Decryption by the recipient, as specified.
fn dec_ivk(ivk: &Base, p: &Point, epk: &[u8; 32], rho: &Base, cmx: &Base, enc: &[u8; 580]) -> (refm::RNote, [u8; 512], bool) {
    let shared = *p * refm::base_as_scalar(ivk);
    let key = refm::kdf(&shared, epk);
    let mut b = tail::<564>(enc, 0);
    let t = open(&key, &mut b, &enc[564..]);
    let (n, ok) = parse(&b, rho, |d| refm::pk_d(ivk, d).to_bytes(), cmx, epk);
    (n, tail(&b, 52), t && ok)
}
fn dec_compact(ivk: &Base, p: &Point, epk: &[u8; 32], rho: &Base, cmx: &Base, enc: &[u8; 52]) -> (refm::RNote, bool) {
    let shared = *p * refm::base_as_scalar(ivk);
    let key = refm::kdf(&shared, epk);
    // the stream of the AEAD starts at its second block
    let mut b = [0u8; 52];
    b.copy_from_slice(enc);
    refm::seal(&key, &mut b);
    parse(&b, rho, |d| refm::pk_d(ivk, d).to_bytes(), cmx, epk)
}
fn addr_is(a: &Address, n: &refm::RNote) {
    let b = a.to_raw_address_bytes();
    assert!(b[..11] == n.d && b[11..] == n.pk_d);
}

/// Encryption to an arbitrary address.
pub fn encrypt<S: Source>(s: &mut S) {
    let (n, a) = crate::h_note::content(s);
    let note = match crate::h_note::make(&n, a) {
        Some(x) => x,
        None => return,
    };
    let memo: [u8; 512] = s.bytes();
    let e = OrchardNoteEncryption::new(None, note, memo);
    let (epk, enc) = refm::enc_note(&n, &memo);
    assert!(OrchardDomain::epk_bytes(e.epk()).0 == epk);
    assert!(e.encrypt_note_plaintext() == enc);
}
/// The outgoing ciphertext, with and without outgoing viewing key.
pub fn encrypt_out<S: Source>(s: &mut S) {
    let (n, a) = crate::h_note::content(s);
    let note = match crate::h_note::make(&n, a) {
        Some(x) => x,
        None => return,
    };
    let ovk: [u8; 32] = s.bytes();
    let (cv, cmx) = (s.point(), s.base());
    let e = OrchardNoteEncryption::new(Some(OutgoingViewingKey::from(ovk)), note, [0; 512]);
    let epk = OrchardDomain::epk_bytes(e.epk()).0;
    let mut rng = FixedRng(4);
    let got = e.encrypt_outgoing_plaintext(
        &ValueCommitment::from_bytes(&cv.to_bytes()).unwrap(),
        &ExtractedNoteCommitment::from_bytes(&cmx.to_repr()).unwrap(),
        &mut rng,
    );
    let esk = refm::esk(&n.rseed, &n.rho);
    assert!(epk == (refm::diversify_hash(&n.d) * esk).to_bytes());
    assert!(got == refm::enc_out(&ovk, &cv.to_bytes(), &cmx.to_repr(), &epk, &n.pk_d, &esk));
}

fn parts<S: Source>(s: &mut S, p: &Point) -> Parts {
    Parts {
        nf: s.base(),
        rk: Point::generator(),
        cmx: s.base(),
        epk: p.to_bytes(),
        enc: s.bytes(),
        out: [0; 80],
        cv: Point::generator(),
    }
}
/// Trial decryption of an arbitrary action by an arbitrary key.
pub fn decrypt<S: Source>(s: &mut S) {
    let p = unit(s);
    let (b, ivk) = ivk_of(s);
    // the group has no zero divisors
    s.assume(!bool::from((p * refm::base_as_scalar(&b)).is_identity()));
    let x = parts(s, &p);
    let act = x.action(());
    let got = try_note_decryption(&OrchardDomain::for_action(&act), &PreparedIncomingViewingKey::new(&ivk), &act);
    let (n, memo, ok) = dec_ivk(&b, &p, &x.epk, &x.nf, &x.cmx, &x.enc);
    assert!(got.is_some() == ok);
    if let Some((note, a, m)) = got {
        same(&note, &n);
        addr_is(&a, &n);
        assert!(m == memo);
        witness!(true, "decrypted");
    }
}
/// Trial decryption of an arbitrary compact action.
pub fn decrypt_compact<S: Source>(s: &mut S) {
    let p = unit(s);
    let (b, ivk) = ivk_of(s);
    s.assume(!bool::from((p * refm::base_as_scalar(&b)).is_identity()));
    let (nf, cmx) = (s.base(), s.base());
    let enc: [u8; 52] = s.bytes();
    let epk = p.to_bytes();
    let act = CompactAction::from_parts(
        Nullifier::from_bytes(&nf.to_repr()).unwrap(),
        ExtractedNoteCommitment::from_bytes(&cmx.to_repr()).unwrap(),
        EphemeralKeyBytes(epk),
        enc,
    );
    let got = try_compact_note_decryption(
        &OrchardDomain::for_compact_action(&act),
        &PreparedIncomingViewingKey::new(&ivk),
        &act,
    );
    let (n, ok) = dec_compact(&b, &p, &epk, &nf, &cmx, &enc);
    assert!(got.is_some() == ok);
    if let Some((note, a)) = got {
        same(&note, &n);
        addr_is(&a, &n);
        witness!(true, "decrypted");
    }
}
/// Ephemeral keys that are no (non-identity) points decrypt to nothing.
pub fn bad_epk<S: Source>(s: &mut S) {
    let epk: [u8; 32] = s.bytes();
    let p = Point::from_bytes(&epk);
    s.assume(bool::from(p.is_none()) || epk == [0; 32]);
    let (_, ivk) = ivk_of(s);
    let mut x = parts(s, &Point::generator());
    x.epk = epk;
    let act = x.action(());
    let k = PreparedIncomingViewingKey::new(&ivk);
    assert!(try_note_decryption(&OrchardDomain::for_action(&act), &k, &act).is_none());
    let c = CompactAction::from(&act);
    assert!(try_compact_note_decryption(&OrchardDomain::for_compact_action(&c), &k, &c).is_none());
    witness!(epk == [0; 32], "identity");
    witness!(bool::from(p.is_none()), "not a point");
}
/// The compact form of an action.
pub fn compact<S: Source>(s: &mut S) {
    let x = Parts::any(s);
    let act = x.action(());
    let c = CompactAction::from(&act);
    assert!(c.nullifier().to_bytes() == x.nf.to_repr());
    assert!(c.cmx().to_bytes() == x.cmx.to_repr());
    assert!(c.rho().to_bytes() == x.nf.to_repr());
    let o: &dyn zcash_note_encryption::ShieldedOutput<OrchardDomain, 52> = &c;
    assert!(o.ephemeral_key().0 == x.epk);
    assert!(o.cmstar_bytes() == x.cmx.to_repr());
    assert!(o.enc_ciphertext()[..] == x.enc[..52]);
    let o: &dyn zcash_note_encryption::ShieldedOutput<OrchardDomain, 580> = &act;
    assert!(o.ephemeral_key().0 == x.epk);
    assert!(o.cmstar_bytes() == x.cmx.to_repr());
    assert!(*o.enc_ciphertext() == x.enc);
}
/// A note encrypted to an address of a key decrypts under that key, fully and
/// compactly.
pub fn round_trip<S: Source>(s: &mut S) {
    let (b, ivk) = ivk_of(s);
    let d: [u8; 11] = s.bytes();
    let a = ivk.address(Diversifier::from_bytes(d));
    let nf = s.base();
    let n = refm::RNote { d, pk_d: tail(&a.to_raw_address_bytes(), 11), v: s.u64(), rho: nf, rseed: s.bytes() };
    let note = match crate::h_note::make(&n, a) {
        Some(x) => x,
        None => return,
    };
    let memo: [u8; 512] = s.bytes();
    let e = OrchardNoteEncryption::new(None, note, memo);
    let x = Parts {
        nf,
        rk: Point::generator(),
        cmx: Base::from_repr(crate::h_note::cmx_of(&note)).unwrap(),
        epk: OrchardDomain::epk_bytes(e.epk()).0,
        enc: e.encrypt_note_plaintext(),
        out: [0; 80],
        cv: Point::generator(),
    };
    let act = x.action(());
    let _ = b;
    match try_note_decryption(&OrchardDomain::for_action(&act), &PreparedIncomingViewingKey::new(&ivk), &act) {
        Some((m, to, me)) => {
            same(&m, &n);
            addr_is(&to, &n);
            assert!(me == memo);
        }
        None => assert!(false),
    }
}

/// Recovery of an arbitrary action by an arbitrary outgoing cipher key.
pub fn recover<S: Source>(s: &mut S) {
    let ock: [u8; 32] = s.bytes();
    let p = unit(s);
    let mut x = parts(s, &p);
    // a correctly sealed outgoing plaintext with symbolic content, or garbage
    x.out = s.bytes();
    let mut op = tail::<64>(&x.out, 0);
    let t = open(&ock, &mut op, &x.out[64..]);
    let pk_b = tail::<32>(&op, 0);
    let pk = Point::from_bytes(&pk_b);
    let esk = Scalar::from_repr(tail(&op, 32));
    let wf = t
        && bool::from(pk.is_some())
        && pk_b != [0; 32]
        && bool::from(esk.is_some())
        && !bool::from(esk.unwrap_or(Scalar::ZERO).is_zero());
    let act = x.action(());
    if wf {
        let (pk, esk) = (pk.unwrap(), esk.unwrap());
        // keep products cheap; the group has no zero divisors
        s.assume(pk.t().i == 1);
        s.assume(!bool::from((pk * esk).is_identity()));
    }
    let got = try_output_recovery_with_ock(&OrchardDomain::for_action(&act), &OutgoingCipherKey(ock), &act, &x.out);
    let mut ok = wf;
    if wf {
        let (pk, esk) = (pk.unwrap(), esk.unwrap());
        let key = refm::kdf(&(pk * esk), &x.epk);
        let mut b = tail::<564>(&x.enc, 0);
        let t2 = open(&key, &mut b, &x.enc[564..]);
        let (n, v) = parse(&b, &x.nf, |_| pk_b, &x.cmx, &x.epk);
        ok = t2 && v && refm::esk(&n.rseed, &n.rho) == esk;
        if let Some((note, a, m)) = &got {
            same(note, &n);
            addr_is(a, &n);
            assert!(m[..] == b[52..]);
            witness!(true, "recovered");
        }
        witness!(t2 && v && refm::esk(&n.rseed, &n.rho) != esk, "other secret");
    }
    assert!(got.is_some() == ok);
    witness!(!wf && t, "malformed");
}
/// The cipher key of an action.
pub fn ock_of_action<S: Source>(s: &mut S) {
    let ovk: [u8; 32] = s.bytes();
    let x = Parts::any(s);
    let k = OrchardDomain::derive_ock(
        &OutgoingViewingKey::from(ovk),
        &ValueCommitment::from_bytes(&x.cv.to_bytes()).unwrap(),
        &x.cmx.to_repr(),
        &EphemeralKeyBytes(x.epk),
    );
    assert!(k.0 == refm::ock(&ovk, &x.cv.to_bytes(), &x.cmx.to_repr(), &x.epk));
}
/// What the sender encrypts is recovered with the outgoing viewing key.
pub fn recover_round_trip<S: Source>(s: &mut S) {
    let ovk = [0x11u8; 32];
    let (mut n, a) = crate::h_note::content(s);
    n.rho = s.base();
    let note = match crate::h_note::make(&n, a) {
        Some(x) => x,
        None => return,
    };
    let cv = s.point();
    let k = OutgoingViewingKey::from(ovk);
    let memo: [u8; 512] = s.bytes();
    let e = OrchardNoteEncryption::new(Some(k.clone()), note, memo);
    let cmx = crate::h_note::cmx_of(&note);
    let vc = ValueCommitment::from_bytes(&cv.to_bytes()).unwrap();
    let out = e.encrypt_outgoing_plaintext(&vc, &ExtractedNoteCommitment::from_bytes(&cmx).unwrap(), &mut FixedRng(4));
    let x = Parts {
        nf: n.rho,
        rk: Point::generator(),
        cmx: Base::from_repr(cmx).unwrap(),
        epk: OrchardDomain::epk_bytes(e.epk()).0,
        enc: e.encrypt_note_plaintext(),
        out,
        cv,
    };
    let act = x.action(());
    match try_output_recovery_with_ovk(&OrchardDomain::for_action(&act), &k, &act, act.cv_net(), &x.out) {
        Some((m, to, me)) => {
            same(&m, &n);
            addr_is(&to, &n);
            assert!(me == memo);
        }
        None => assert!(false),
    }
}

/// Batched trial decryption agrees with decrypting one by one. The ephemeral
/// keys are constants, those of the outputs selected by `bad` are invalid.
fn batch_of<S: Source, const O: usize, const K: usize>(s: &mut S, bad: u8) {
    let mut ks = Vec::with_capacity(K);
    let mut i = 0;
    while i < K {
        let (_, k) = ivk_of(s);
        ks.push(PreparedIncomingViewingKey::new(&k));
        i += 1;
    }
    let mut os = Vec::with_capacity(O);
    let mut i = 0;
    while i < O {
        let p = refm::diversify_hash(&[i as u8 + 3; 11]);
        let e = if (bad >> i) & 1 == 1 { [0; 32] } else { p.to_bytes() };
        let act = CompactAction::from_parts(
            Nullifier::from_bytes(&s.base().to_repr()).unwrap(),
            ExtractedNoteCommitment::from_bytes(&s.base().to_repr()).unwrap(),
            EphemeralKeyBytes(e),
            s.bytes(),
        );
        os.push((OrchardDomain::for_compact_action(&act), act));
        i += 1;
    }
    let got = batch::try_compact_note_decryption(&ks, &os);
    assert!(got.len() == O);
    let mut i = 0;
    while i < O {
        let a = try_compact_note_decryption(&os[i].0, &ks[0], &os[i].1);
        let b = if K > 1 { try_compact_note_decryption(&os[i].0, &ks[1], &os[i].1) } else { None };
        match (&got[i], a, b) {
            (Some(((n, t), k)), Some((m, u)), _) => assert!(*k == 0 && eq(n, &m) && *t == u),
            (Some(((n, t), k)), None, Some((m, u))) => assert!(*k == 1 && eq(n, &m) && *t == u),
            (None, None, None) => (),
            _ => assert!(false),
        }
        i += 1;
    }
    witness!(got[O - 1].is_some(), "decrypted");
    core::mem::forget((got, os, ks));
}
fn eq(n: &Note, m: &Note) -> bool {
    n.value() == m.value() && n.rho() == m.rho() && n.rseed().as_bytes() == m.rseed().as_bytes()
}
pub fn batch_outputs<S: Source>(s: &mut S) {
    batch_of::<S, 2, 1>(s, 0)
}
pub fn batch_bad<S: Source>(s: &mut S) {
    batch_of::<S, 3, 1>(s, 0b001)
}
pub fn batch_keys<S: Source>(s: &mut S) {
    batch_of::<S, 1, 2>(s, 0)
}
pub fn batch_both<S: Source>(s: &mut S) {
    batch_of::<S, 2, 2>(s, 0b01)
}

/// Bundles of two actions that are correctly encrypted to two parties, up to
/// symbolic corruptions, searched with symbolically chosen keys of three
/// parties. The ciphers are reduced to the part that is not memo (which action
/// and key succeeds does not depend on more).
struct Sent {
    n: refm::RNote,
    memo: [u8; 512],
    ok: bool,
    ok_out: bool,
}
fn party(j: u8) -> Base {
    Base::from(0x1234_5678_9abc_0101 + j as u64)
}
/// `how`: 0 with symbolic corruptions, 1 never decryptable, 2 always decryptable.
fn sent<S: Source>(s: &mut S, i: u8, how: u8) -> (Sent, Action<()>) {
    let d = [i + 3; 11];
    let n = refm::RNote {
        d,
        pk_d: refm::pk_d(&party(i), &d).to_bytes(),
        v: 10 + i as u64,
        rho: Base::from(20 + i as u64),
        rseed: [30 + i; 32],
    };
    let mut memo = [i; 512];
    if how == 0 {
        memo[400..408].copy_from_slice(&s.bytes::<8>());
    }
    let cmx = refm::extract_p(&refm::note_commit(&n).unwrap());
    let cv = Point::generator();
    let (epk, mut enc) = refm::enc_note(&n, &memo);
    let esk = refm::esk(&n.rseed, &n.rho);
    let mut out = refm::enc_out(&[60 + i; 32], &cv.to_bytes(), &cmx.to_repr(), &epk, &n.pk_d, &esk);
    let (c, o) = if how == 0 { (s.u8(), s.u8()) } else { (2 - how, 2 - how) };
    enc[570] ^= c;
    out[70] ^= o;
    let x = Parts { nf: n.rho, rk: Point::generator(), cmx, epk: if how == 1 { [0; 32] } else { epk }, enc, out, cv };
    let act = x.action(());
    (Sent { n, memo, ok: c == 0, ok_out: o == 0 && c == 0 }, act)
}
fn bundle<S: Source>(s: &mut S, actions: u8, how: u8) -> ([Sent; 2], Bundle<crate::h_bundle::NoAuth, i64>) {
    unsafe { chacha20poly1305::LIGHT = 1 };
    let (x, a) = sent(s, 0, how);
    let (y, b) = sent(s, 1, 0);
    let l = if actions == 2 {
        crate::h_bundle::two(a, b)
    } else {
        core::mem::forget(b);
        nonempty::NonEmpty::new(a)
    };
    let b = Bundle::from_parts(
        l,
        Flags::from_byte(3).unwrap(),
        5,
        crate::h_bundle::anchor(&Base::from(7)),
        crate::h_bundle::NoAuth,
    );
    ([x, y], b)
}
/// One of the keys of three parties.
fn pick<S: Source>(s: &mut S, keys: [[u8; 32]; 3]) -> (u8, [u8; 32]) {
    let c = s.u8();
    s.assume(c < 3);
    let mut r = keys[2];
    let mut i = 0;
    while i < 32 {
        r[i] = if c == 0 { keys[0][i] } else if c == 1 { keys[1][i] } else { keys[2][i] };
        i += 1;
    }
    (c, r)
}
fn ivk_from(b: &[u8; 32]) -> IncomingViewingKey {
    let mut e = [0x35u8; 64];
    e[32..].copy_from_slice(b);
    IncomingViewingKey::from_bytes(&e).unwrap()
}
fn ivk_of_party(j: u8) -> IncomingViewingKey {
    ivk_from(&party(j).to_repr())
}
fn ovk_of_party(j: u8) -> OutgoingViewingKey {
    OutgoingViewingKey::from([60 + j; 32])
}
fn pick_ivk<S: Source>(s: &mut S) -> (u8, IncomingViewingKey) {
    let (c, b) = pick(s, [party(0).to_repr(), party(1).to_repr(), party(2).to_repr()]);
    (c, ivk_from(&b))
}
fn pick_ovk<S: Source>(s: &mut S) -> (u8, OutgoingViewingKey) {
    let (c, b) = pick(s, [[60; 32], [61; 32], [62; 32]]);
    (c, OutgoingViewingKey::from(b))
}
fn is_sent(note: &Note, a: &Address, m: &[u8; 512], w: &Sent) {
    same(note, &w.n);
    addr_is(a, &w.n);
    assert!(m[..] == w.memo[..]);
}
/// The results of a search over all actions and keys: the first matching key
/// of each action, in order.
fn all_of<K, const A: usize, const N: usize>(
    w: &[Sent; 2],
    c: [u8; 2],
    how: u8,
    outgoing: bool,
    got: Vec<(usize, K, Note, Address, [u8; 512])>,
    is: impl Fn(&K, usize) -> bool,
) {
    let mut n = 0;
    let mut i = 0;
    while i < A {
        let ok = if outgoing { w[i].ok_out } else { w[i].ok };
        if ok && (c[0] as usize == i || (N > 1 && c[1] as usize == i)) {
            assert!(n < got.len());
            let g = if n == 0 { &got[0] } else { &got[1] };
            assert!(g.0 == i);
            assert!(is(&g.1, if c[0] as usize == i { 0 } else { 1 }));
            is_sent(&g.2, &g.3, &g.4, &w[i]);
            n += 1;
        }
        i += 1;
    }
    assert!(got.len() == n);
    witness!(n == if how == 1 { 1 } else { A }, "all");
    witness!(n == if how == 2 { 1 } else { 0 }, "fewest");
    core::mem::forget(got);
}
/// Decryption of the action with a given index.
pub fn bundle_one_ivk<S: Source>(s: &mut S) {
    let (w, b) = bundle(s, 2, 0);
    let (c, k) = pick_ivk(s);
    let mut i = 0;
    while i < 2 {
        match b.decrypt_output_with_key(i, &k) {
            Some((n, a, m)) => {
                assert!(w[i].ok && c as usize == i);
                is_sent(&n, &a, &m, &w[i]);
            }
            None => assert!(!(w[i].ok && c as usize == i)),
        }
        witness!(w[i].ok && c as usize == i, "decrypted");
        i += 1;
    }
    assert!(b.decrypt_output_with_key(2, &k).is_none());
    core::mem::forget(b);
}
fn ivks<S: Source, const A: usize, const N: usize>(s: &mut S, how: u8) {
    let (w, b) = bundle(s, A as u8, how);
    let (c, k) = if how == 2 { (0, ivk_of_party(0)) } else { pick_ivk(s) };
    let (e, l) = pick_ivk(s);
    let ks = [k, l];
    all_of::<_, A, N>(&w, [c, e], how, false, b.decrypt_outputs_with_keys(&ks[..N]), |k, j| *k == ks[j]);
    core::mem::forget(b);
}
pub fn bundle_ivks12<S: Source>(s: &mut S) {
    ivks::<S, 1, 2>(s, 0)
}
pub fn bundle_ivks22<S: Source>(s: &mut S) {
    ivks::<S, 2, 2>(s, 0)
}
/// The first action is not decryptable.
pub fn bundle_ivks_second<S: Source>(s: &mut S) {
    ivks::<S, 2, 2>(s, 1)
}
/// The first action is decrypted by the first key.
pub fn bundle_ivks_both<S: Source>(s: &mut S) {
    ivks::<S, 2, 2>(s, 2)
}
/// Recovery of the action with a given index.
pub fn bundle_one_ovk<S: Source>(s: &mut S) {
    let (w, b) = bundle(s, 2, 0);
    let (c, k) = pick_ovk(s);
    let mut i = 0;
    while i < 2 {
        match b.recover_output_with_ovk(i, &k) {
            Some((n, a, m)) => {
                assert!(w[i].ok_out && c as usize == i);
                is_sent(&n, &a, &m, &w[i]);
            }
            None => assert!(!(w[i].ok_out && c as usize == i)),
        }
        witness!(w[i].ok_out && c as usize == i, "recovered");
        i += 1;
    }
    assert!(b.recover_output_with_ovk(2, &k).is_none());
    core::mem::forget(b);
}
fn ovks<S: Source, const A: usize, const N: usize>(s: &mut S, how: u8) {
    let (w, b) = bundle(s, A as u8, how);
    let (c, k) = if how == 2 { (0, ovk_of_party(0)) } else { pick_ovk(s) };
    let (e, l) = pick_ovk(s);
    let ks = [k, l];
    all_of::<_, A, N>(&w, [c, e], how, true, b.recover_outputs_with_ovks(&ks[..N]), |k, j| k.as_ref() == ks[j].as_ref());
    core::mem::forget(b);
}
pub fn bundle_ovks12<S: Source>(s: &mut S) {
    ovks::<S, 1, 2>(s, 0)
}
pub fn bundle_ovks22<S: Source>(s: &mut S) {
    ovks::<S, 2, 2>(s, 0)
}
/// The first action is not decryptable.
pub fn bundle_ovks_second<S: Source>(s: &mut S) {
    ovks::<S, 2, 2>(s, 1)
}
/// The first action is decrypted by the first key.
pub fn bundle_ovks_both<S: Source>(s: &mut S) {
    ovks::<S, 2, 2>(s, 2)
}

harnesses!(
    encrypt, encrypt_out, decrypt, decrypt_compact, bad_epk, compact, round_trip, recover, ock_of_action,
    recover_round_trip, batch_outputs, batch_bad, batch_keys, batch_both, bundle_one_ivk, bundle_ivks12, bundle_ivks22, bundle_one_ovk,
    bundle_ovks22, bundle_ivks_second, bundle_ivks_both, bundle_ovks_second, bundle_ovks_both, bundle_ovks12,
);
