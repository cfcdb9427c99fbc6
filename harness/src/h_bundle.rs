//! Bundles: digests, flags, public inputs, binding key, batch validation.
use crate::refm;
use crate::source::*;
use crate::witness;
use ff::PrimeField;
use group::GroupEncoding;
use nonempty::NonEmpty;
use orchard::bundle::*;
use orchard::circuit::{Proof, VerifyingKey};
use orchard::note::*;
use orchard::primitives::redpallas::{Binding, Signature, SpendAuth, VerificationKey};
use orchard::value::*;
use orchard::*;
use pasta_curves::pallas::{Base, Point};

/// The parts of an action.
pub struct Parts {
    pub nf: Base,
    pub rk: Point,
    pub cmx: Base,
    pub epk: [u8; 32],
    pub enc: [u8; 580],
    pub out: [u8; 80],
    pub cv: Point,
}
impl Parts {
    /// Everything symbolic.
    pub fn any<S: Source>(s: &mut S) -> Self {
        Parts {
            nf: s.base(),
            rk: s.point(),
            cmx: s.base(),
            epk: s.bytes(),
            enc: s.bytes(),
            out: s.bytes(),
            cv: s.point(),
        }
    }
    /// Ciphertexts constant.
    pub fn public<S: Source>(s: &mut S) -> Self {
        Parts {
            nf: s.base(),
            rk: s.point(),
            cmx: s.base(),
            epk: [1; 32],
            enc: [2; 580],
            out: [3; 80],
            cv: s.point(),
        }
    }
    pub fn action<A>(&self, a: A) -> Action<A> {
        Action::from_parts(
            Nullifier::from_bytes(&self.nf.to_repr()).unwrap(),
            VerificationKey::<SpendAuth>::try_from(self.rk.to_bytes()).unwrap(),
            ExtractedNoteCommitment::from_bytes(&self.cmx.to_repr()).unwrap(),
            TransmittedNoteCiphertext {
                epk_bytes: self.epk,
                enc_ciphertext: self.enc,
                out_ciphertext: self.out,
            },
            ValueCommitment::from_bytes(&self.cv.to_bytes()).unwrap(),
            a,
        )
    }
}
#[derive(Debug, Clone)]
pub struct NoAuth;
impl Authorization for NoAuth {
    type SpendAuth = ();
}
#[derive(Debug, Clone)]
pub struct Tag(pub u8);
impl Authorization for Tag {
    type SpendAuth = u8;
}
pub fn flags<S: Source>(s: &mut S) -> (u8, Flags) {
    let f = s.below(4);
    (f, Flags::from_byte(f).unwrap())
}
pub fn anchor(b: &Base) -> Anchor {
    Anchor::from_bytes(b.to_repr()).unwrap()
}

/// Two actions.
pub fn two<A>(a: Action<A>, b: Action<A>) -> NonEmpty<Action<A>> {
    let mut v = Vec::with_capacity(1);
    v.push(b);
    NonEmpty::from((a, v))
}

fn st(p: &[u8; 16]) -> blake2b_simd::State {
    blake2b_simd::Params::new().hash_length(32).personal(p).to_state()
}
fn txid(ps: &[Parts], f: u8, vb: i64, an: &Base) -> [u8; 32] {
    let mut ch = st(b"ZTxIdOrcActCHash");
    let mut mh = st(b"ZTxIdOrcActMHash");
    let mut nh = st(b"ZTxIdOrcActNHash");
    for a in ps {
        ch.update(&a.nf.to_repr());
        ch.update(&a.cmx.to_repr());
        ch.update(&a.epk);
        ch.update(&a.enc[..52]);
        mh.update(&a.enc[52..564]);
        nh.update(&a.cv.to_bytes());
        nh.update(&a.rk.to_bytes());
        nh.update(&a.enc[564..]);
        nh.update(&a.out);
    }
    refm::b256(
        b"ZTxIdOrchardHash",
        &[
            ch.finalize().as_bytes(),
            mh.finalize().as_bytes(),
            nh.finalize().as_bytes(),
            &[f],
            &vb.to_le_bytes(),
            &an.to_repr(),
        ],
    )
}

/// Transaction id digest of a one-action bundle with arbitrary content.
pub fn txid_one<S: Source>(s: &mut S) {
    let p = Parts::any(s);
    let (f, fl) = flags(s);
    let (vb, an) = (s.i64(), s.base());
    let a = p.action(());
    let want = txid(&[p], f, vb, &an);
    let b = Bundle::<NoAuth, i64>::from_parts(NonEmpty::new(a), fl, vb, anchor(&an), NoAuth);
    let got: [u8; 32] = b.commitment().into();
    assert!(got == want);
}
/// Transaction id digest of a two-action bundle with arbitrary content.
pub fn txid_two<S: Source>(s: &mut S) {
    let p = [Parts::any(s), Parts::any(s)];
    let (f, fl) = flags(s);
    let (vb, an) = (s.i64(), s.base());
    let b = Bundle::<NoAuth, i64>::from_parts(
        two(p[0].action(()), p[1].action(())),
        fl,
        vb,
        anchor(&an),
        NoAuth,
    );
    let got: [u8; 32] = b.commitment().into();
    assert!(got == txid(&p, f, vb, &an));
}

/// The digest of the absence of a bundle.
pub fn txid_empty<S: Source>(_s: &mut S) {
    let e = orchard::bundle::commitments::hash_bundle_txid_empty();
    let mut got = [0u8; 32];
    got.copy_from_slice(e.as_bytes());
    assert!(got == refm::b256(b"ZTxIdOrchardHash", &[]));
    let e = orchard::bundle::commitments::hash_bundle_auth_empty();
    got.copy_from_slice(e.as_bytes());
    assert!(got == refm::b256(b"ZTxAuthOrchaHash", &[]));
}

fn authorized(
    ps: &[Parts],
    sigs: &[[u8; 64]],
    fl: Flags,
    vb: i64,
    an: &Base,
    proof: Vec<u8>,
    bsig: [u8; 64],
) -> Bundle<Authorized, i64> {
    let first = ps[0].action(Signature::<SpendAuth>::from(sigs[0]));
    let mut rest = Vec::with_capacity(2);
    let mut i = 1;
    while i < ps.len() {
        rest.push(ps[i].action(Signature::<SpendAuth>::from(sigs[i])));
        i += 1;
    }
    Bundle::from_parts(
        NonEmpty::from((first, rest)),
        fl,
        vb,
        anchor(an),
        Authorized::from_parts(Proof::new(proof), Signature::<Binding>::from(bsig)),
    )
}

/// Authorizing digest: proof, signatures in order, binding signature.
pub fn auth_digest<S: Source>(s: &mut S) {
    let ps = [Parts::public(s), Parts::public(s)];
    let sigs: [[u8; 64]; 2] = [s.bytes(), s.bytes()];
    let bsig: [u8; 64] = s.bytes();
    let proof: [u8; 96] = s.bytes();
    let (_, fl) = flags(s);
    let an = s.base();
    let b = authorized(&ps, &sigs, fl, s.i64(), &an, proof.to_vec(), bsig);
    let got = b.authorizing_commitment();
    let want = refm::b256(b"ZTxAuthOrchaHash", &[&proof, &sigs[0], &sigs[1], &bsig]);
    let mut w = [0u8; 32];
    w.copy_from_slice(got.0.as_bytes());
    assert!(w == want);
}

/// Flag bytes: exactly the four defined bytes decode, and they round-trip.
pub fn flag_codec<S: Source>(s: &mut S) {
    let f = s.u8();
    match Flags::from_byte(f) {
        None => {
            assert!(f > 3);
            witness!(f == 0xff, "reserved bits");
        }
        Some(x) => {
            assert!(f <= 3);
            assert!(x.to_byte() == f);
            assert!(x.spends_enabled() == (f & 1 == 1));
            assert!(x.outputs_enabled() == (f & 2 == 2));
            assert!((x == Flags::ENABLED) == (f == 3));
            assert!((x == Flags::SPENDS_DISABLED) == (f == 2));
            assert!((x == Flags::OUTPUTS_DISABLED) == (f == 1));
        }
    }
    assert!(Flags::ENABLED.to_byte() == 3);
    assert!(Flags::SPENDS_DISABLED.to_byte() == 2);
    assert!(Flags::OUTPUTS_DISABLED.to_byte() == 1);
}

fn put(proof: &mut [u8], at: usize, i: &[Base; 9]) {
    let mut k = 0;
    while k < 9 {
        proof[at + 32 * k..at + 32 * k + 32].copy_from_slice(&i[k].to_repr());
        k += 1;
    }
}
fn inst(p: &Parts, f: u8, an: &Base) -> [Base; 9] {
    refm::instance(an, &p.cv, &p.nf, &p.rk, &p.cmx, f & 1 == 1, f & 2 == 2)
}
/// A bundle's proof is checked against the public inputs of all its actions,
/// in order: with the proof of a different statement it is refused.
pub fn proof_statement<S: Source>(s: &mut S) {
    let ps = [Parts::public(s), Parts::public(s)];
    let (f, fl) = flags(s);
    let an = s.base();
    let mut proof = vec![0u8; 576];
    put(&mut proof, 0, &inst(&ps[0], f, &an));
    put(&mut proof, 288, &inst(&ps[1], f, &an));
    // corrupt one byte of each of the 18 public inputs
    let delta: [u8; 18] = s.bytes();
    let mut k = 0;
    let mut bad = 0u8;
    while k < 18 {
        proof[32 * k + 1] ^= delta[k];
        bad |= delta[k];
        k += 1;
    }
    let b = authorized(&ps, &[[0; 64]; 2], fl, s.i64(), &an, proof, [0; 64]);
    let vk = crate::fake::<VerifyingKey>();
    let ok = b.verify_proof(vk).is_ok();
    assert!(ok == (bad == 0));
    witness!(ok, "accepted");
    witness!(!ok, "refused");
}

/// The binding key is sum(cv) - value_balance * V.
pub fn binding_key<S: Source>(s: &mut S) {
    let ps = [Parts::public(s), Parts::public(s)];
    let an = s.base();
    let vb = s.i64();
    let b = authorized(&ps, &[[0; 64]; 2], Flags::ENABLED, vb, &an, vec![], [0; 64]);
    let k: [u8; 32] = b.binding_validating_key().into();
    let want = ps[0].cv + ps[1].cv - refm::cv(vb as i128, &ff::Field::ZERO);
    assert!(k == want.to_bytes());
    witness!(vb == i64::MIN, "minimum balance");
}

/// Batch validation of two bundles accepts exactly when every proof, every
/// spend authorization and every binding signature is valid for its own
/// bundle and sighash.
pub fn batch_two<S: Source>(s: &mut S) {
    let mut v = orchard::bundle::BatchValidator::new();
    let mut all = true;
    let mut rng = FixedRng(1);
    let mut round = 0;
    while round < 2 {
        let ps = [Parts::public(s)];
        let (f, fl) = flags(s);
        let an = s.base();
        let vb = s.i64();
        let sighash: [u8; 32] = s.bytes();
        let mut proof = vec![0u8; 288];
        put(&mut proof, 0, &inst(&ps[0], f, &an));
        // model signatures: validating key, then the message digest
        let bvk = ps[0].cv - refm::cv(vb as i128, &ff::Field::ZERO);
        let mut sig = [0u8; 64];
        sig[..32].copy_from_slice(&ps[0].rk.to_bytes());
        sig[32..].copy_from_slice(&sighash);
        let mut bsig = [0u8; 64];
        bsig[..32].copy_from_slice(&bvk.to_bytes());
        bsig[32..].copy_from_slice(&sighash);
        let d: [u8; 6] = s.bytes();
        proof[3] ^= d[0];
        proof[40] ^= d[1];
        sig[1] ^= d[2];
        sig[33] ^= d[3];
        bsig[1] ^= d[4];
        bsig[33] ^= d[5];
        let bad = d[0] | d[1] | d[2] | d[3] | d[4] | d[5];
        all &= bad == 0;
        let b = authorized(&ps, &[sig], fl, vb, &an, proof, bsig);
        v.add_bundle(&b, sighash);
        round += 1;
    }
    let ok = v.validate(crate::fake::<VerifyingKey>(), &mut rng);
    assert!(ok == all);
    witness!(ok, "accepted");
    witness!(!ok, "refused");
}
/// Same, one bundle of two actions.
pub fn batch_actions<S: Source>(s: &mut S) {
    let mut v = orchard::bundle::BatchValidator::new();
    let ps = [Parts::public(s), Parts::public(s)];
    let (f, fl) = flags(s);
    let an = s.base();
    let vb = s.i64();
    let sighash: [u8; 32] = s.bytes();
    let mut proof = vec![0u8; 576];
    put(&mut proof, 0, &inst(&ps[0], f, &an));
    put(&mut proof, 288, &inst(&ps[1], f, &an));
    let bvk = ps[0].cv + ps[1].cv - refm::cv(vb as i128, &ff::Field::ZERO);
    let mut bsig = [0u8; 64];
    bsig[..32].copy_from_slice(&bvk.to_bytes());
    bsig[32..].copy_from_slice(&sighash);
    let mut sigs = [[0u8; 64]; 2];
    let mut i = 0;
    while i < 2 {
        sigs[i][..32].copy_from_slice(&ps[i].rk.to_bytes());
        sigs[i][32..].copy_from_slice(&sighash);
        i += 1;
    }
    let d: [u8; 4] = s.bytes();
    proof[300] ^= d[0];
    sigs[0][40] ^= d[1];
    sigs[1][2] ^= d[2];
    bsig[9] ^= d[3];
    let all = d[0] | d[1] | d[2] | d[3] == 0;
    let b = authorized(&ps, &sigs, fl, vb, &an, proof, bsig);
    v.add_bundle(&b, sighash);
    let ok = v.validate(crate::fake::<VerifyingKey>(), FixedRng(1));
    assert!(ok == all);
    witness!(ok, "accepted");
    witness!(!ok, "refused");
}
/// An empty batch is valid.
pub fn batch_empty<S: Source>(_s: &mut S) {
    let v = orchard::bundle::BatchValidator::new();
    assert!(v.validate(crate::fake::<VerifyingKey>(), FixedRng(1)));
}

fn same<T: Authorization, V>(b: &Bundle<T, V>, ps: &[Parts], f: u8, an: &Base) {
    assert!(b.actions().len() == ps.len());
    assert!(b.flags().to_byte() == f);
    assert!(b.anchor().to_bytes() == an.to_repr());
    let mut i = 0;
    while i < ps.len() {
        let a = &b.actions()[i];
        let p = &ps[i];
        assert!(a.nullifier().to_bytes() == p.nf.to_repr());
        assert!(a.rho().to_bytes() == p.nf.to_repr());
        assert!(a.cmx().to_bytes() == p.cmx.to_repr());
        assert!(<[u8; 32]>::from(a.rk()) == p.rk.to_bytes());
        assert!(a.cv_net().to_bytes() == p.cv.to_bytes());
        let e = a.encrypted_note();
        assert!(e.epk_bytes == p.epk);
        assert!(e.enc_ciphertext[7] == p.enc[7] && e.enc_ciphertext[579] == p.enc[579]);
        assert!(e.out_ciphertext[7] == p.out[7] && e.out_ciphertext[79] == p.out[79]);
        i += 1;
    }
}
fn tagged<S: Source>(s: &mut S) -> ([Parts; 2], u8, Base, [u8; 3], Bundle<Tag, i64>) {
    let mut ps = [Parts::public(s), Parts::public(s)];
    ps[0].epk = s.bytes();
    ps[1].epk = s.bytes();
    ps[0].enc[7] = s.u8();
    ps[1].out[79] = s.u8();
    let (f, fl) = flags(s);
    let an = s.base();
    let t: [u8; 3] = s.bytes();
    let b = Bundle::<Tag, i64>::from_parts(
        two(ps[0].action(t[0]), ps[1].action(t[1])),
        fl,
        s.i64(),
        anchor(&an),
        Tag(t[2]),
    );
    (ps, f, an, t, b)
}
/// Mapping the authorization changes nothing but the authorization, and hands
/// every spend's own data to the mapping, in order, once.
pub fn map_auth<S: Source>(s: &mut S) {
    let (ps, f, an, t, b) = tagged(s);
    let vb = *b.value_balance();
    let mut calls = 0u8;
    let c = b.map_authorization(
        &mut calls,
        |n, a: &Tag, x| {
            *n += 1;
            a.0 ^ x.wrapping_add(16 * *n)
        },
        |n, a| Tag(a.0.wrapping_mul(3) ^ *n),
    );
    assert!(calls == 2);
    same(&c, &ps, f, &an);
    assert!(*c.value_balance() == vb);
    assert!(*c.actions()[0].authorization() == t[2] ^ t[0].wrapping_add(16));
    assert!(*c.actions()[1].authorization() == t[2] ^ t[1].wrapping_add(32));
    assert!(c.authorization().0 == t[2].wrapping_mul(3) ^ 2);
}
/// The fallible mapping succeeds exactly when every step does.
fn try_map<S: Source>(s: &mut S, fail: u8) {
    let (ps, f, an, t, b) = tagged(s);
    let vb = *b.value_balance();
    let mut calls = 0u8;
    let c: Result<Bundle<Tag, i64>, u8> = b.try_map_authorization(
        &mut calls,
        |n, a: &Tag, x| {
            *n += 1;
            if fail == *n - 1 {
                Err(fail)
            } else {
                Ok(a.0 ^ x.wrapping_add(16 * *n))
            }
        },
        |n, a| if fail == 2 { Err(2) } else { Ok(Tag(a.0.wrapping_mul(3) ^ *n)) },
    );
    match c {
        Err(e) => {
            assert!(fail < 3 && e == fail);
        }
        Ok(c) => {
            assert!(fail == 3);
            same(&c, &ps, f, &an);
            assert!(*c.value_balance() == vb);
            assert!(*c.actions()[0].authorization() == t[2] ^ t[0].wrapping_add(16));
            assert!(*c.actions()[1].authorization() == t[2] ^ t[1].wrapping_add(32));
            assert!(c.authorization().0 == t[2].wrapping_mul(3) ^ 2);
        }
    }
}
pub fn try_map_ok<S: Source>(s: &mut S) {
    try_map(s, 3)
}
pub fn try_map_fail0<S: Source>(s: &mut S) {
    try_map(s, 0)
}
pub fn try_map_fail1<S: Source>(s: &mut S) {
    try_map(s, 1)
}
pub fn try_map_fail2<S: Source>(s: &mut S) {
    try_map(s, 2)
}
/// Mapping the value balance changes nothing else.
pub fn map_balance<S: Source>(s: &mut S) {
    let (ps, f, an, t, b) = tagged(s);
    let vb = *b.value_balance();
    let fail = s.bool();
    let c: Result<Bundle<Tag, u64>, u8> =
        b.try_map_value_balance(|v| if fail { Err(9) } else { Ok((v as u64) ^ 0xff00) });
    match c {
        Err(e) => assert!(fail && e == 9),
        Ok(c) => {
            assert!(!fail);
            same(&c, &ps, f, &an);
            assert!(*c.value_balance() == (vb as u64) ^ 0xff00);
            assert!(*c.actions()[0].authorization() == t[0]);
            assert!(*c.actions()[1].authorization() == t[1]);
            assert!(c.authorization().0 == t[2]);
            witness!(true, "mapped");
        }
    }
}

harnesses!(
    txid_one, txid_two, txid_empty, auth_digest, flag_codec, proof_statement, binding_key,
    batch_two, batch_actions, batch_empty, map_auth, try_map_ok, try_map_fail0, try_map_fail1, try_map_fail2, map_balance,
);
