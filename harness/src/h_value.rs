//! Values, value sums, value commitments, binding keys.
use crate::refm;
use crate::source::*;
use crate::witness;
use ff::PrimeField;
use group::GroupEncoding;
use orchard::value::*;
use pasta_curves::pallas::{Point, Scalar};

const MAX: i128 = u64::MAX as i128;

fn td(r: &Scalar) -> ValueCommitTrapdoor {
    ValueCommitTrapdoor::from_bytes(r.to_repr()).unwrap()
}
fn diff(a: u64, b: u64) -> ValueSum {
    NoteValue::from_raw(a) - NoteValue::from_raw(b)
}

/// Differences, conversion to i64, additions: exact or refused.
pub fn v_arith<S: Source>(s: &mut S) {
    let (a, b, c, d) = (s.u64(), s.u64(), s.u64(), s.u64());
    assert!(NoteValue::from_raw(a).inner() == a);
    let x = diff(a, b);
    let y = diff(c, d);
    let ex = a as i128 - b as i128;
    let ey = c as i128 - d as i128;
    let fits = |e: i128| e <= i64::MAX as i128 && e >= i64::MIN as i128;
    let r: Result<i64, _> = x.try_into();
    match r {
        Ok(v) => assert!(v as i128 == ex),
        Err(_) => assert!(!fits(ex)),
    }
    assert!((x == y) == (ex == ey));
    match x + y {
        Some(z) => {
            assert!(ex + ey <= MAX && ex + ey >= -MAX);
            // z is exactly ex + ey: bring it back into a comparable form
            let m = (ex + ey).unsigned_abs() as u64;
            let w = if ex + ey < 0 { diff(0, m) } else { diff(m, 0) };
            assert!(z == w);
            let r: Result<i64, _> = z.try_into();
            match r {
                Ok(v) => assert!(v as i128 == ex + ey),
                Err(_) => assert!(!fits(ex + ey)),
            }
            witness!(m > u64::MAX / 2 + 7, "large sum");
        }
        None => {
            witness!(true, "overflow");
            assert!(ex + ey > MAX || ex + ey < -MAX);
        }
    }
}

/// Sums of value sums are exact, or an overflow error.
pub fn v_sum<S: Source>(s: &mut S) {
    let mut v = Vec::with_capacity(4);
    let mut exact = 0i128;
    let mut prefixes_ok = true;
    let mut i = 0;
    while i < 4 {
        let (a, b) = (s.u64(), s.u64());
        v.push(diff(a, b));
        exact += a as i128 - b as i128;
        prefixes_ok &= exact <= MAX && exact >= -MAX;
        i += 1;
    }
    let check = |r: Result<ValueSum, OverflowError>| match r {
        Ok(z) => {
            assert!(exact <= MAX && exact >= -MAX);
            let m = exact.unsigned_abs() as u64;
            assert!(z == if exact < 0 { diff(0, m) } else { diff(m, 0) });
        }
        Err(_) => assert!(!prefixes_ok),
    };
    witness!(prefixes_ok && exact < 0, "negative sum of four");
    check(v.iter().sum());
    check(v.into_iter().sum());
}

/// A commitment opens to value * V + trapdoor * R, for every value and trapdoor.
pub fn cv_def<S: Source>(s: &mut S) {
    let (a, b) = (s.u64(), s.u64());
    let r = s.scalar();
    let c = ValueCommitment::derive(diff(a, b), td(&r));
    let want = refm::cv(a as i128 - b as i128, &r).to_bytes();
    assert!(c.to_bytes() == want);
    let back = ValueCommitment::from_bytes(&want);
    assert!(bool::from(back.is_some()));
    assert!(back.unwrap().to_bytes() == want);
    witness!(a < b, "negative");
}

/// Commitment addition, subtraction and sums match addition of the contents.
pub fn cv_hom<S: Source>(s: &mut S) {
    let (a, b, c, d) = (s.u64(), s.u64(), s.u64(), s.u64());
    let (r1, r2) = (s.scalar(), s.scalar());
    let mk = || {
        (
            ValueCommitment::derive(diff(a, b), td(&r1)),
            ValueCommitment::derive(diff(c, d), td(&r2)),
        )
    };
    if let Some(sum) = diff(a, b) + diff(c, d) {
        let (c1, c2) = mk();
        let c3 = ValueCommitment::derive(sum, td(&r1) + &td(&r2)).to_bytes();
        let list = [c1.clone(), c2.clone()];
        let by_ref: ValueCommitment = list.iter().sum();
        let by_val: ValueCommitment = list.into_iter().sum();
        assert!(by_ref.to_bytes() == c3);
        assert!(by_val.to_bytes() == c3);
        assert!((c1 + &c2).to_bytes() == c3);
        witness!(a > b && c < d, "mixed signs");
    }
}
/// Differences of commitments.
pub fn cv_sub<S: Source>(s: &mut S) {
    let (a, b, c, d) = (s.u64(), s.u64(), s.u64(), s.u64());
    let (r1, r2) = (s.scalar(), s.scalar());
    if let Some(sum) = diff(a, b) + diff(d, c) {
        let c1 = ValueCommitment::derive(diff(a, b), td(&r1));
        let c2 = ValueCommitment::derive(diff(c, d), td(&r2));
        let c3 = ValueCommitment::derive(sum, td(&(r1 - r2))).to_bytes();
        assert!((c1 - c2).to_bytes() == c3);
    }
}

/// Sums of trapdoors are sums of scalars.
pub fn rcv_sum<S: Source>(s: &mut S) {
    let r = [s.scalar(), s.scalar()];
    let t = [td(&r[0]), td(&r[1])];
    let sum: ValueCommitTrapdoor = t.iter().sum();
    let zero = NoteValue::from_raw(0) - NoteValue::from_raw(0);
    let got = ValueCommitment::derive(zero, sum).to_bytes();
    assert!(got == refm::cv(0, &(r[0] + r[1])).to_bytes());
}

/// Byte decoding of commitments and trapdoors accepts exactly the canonical encodings.
pub fn cv_codec<S: Source>(s: &mut S) {
    let b: [u8; 32] = s.bytes();
    let p = Point::from_bytes(&b);
    let c = ValueCommitment::from_bytes(&b);
    assert!(bool::from(p.is_some()) == bool::from(c.is_some()));
    if bool::from(c.is_some()) {
        assert!(c.unwrap().to_bytes() == b);
        witness!(true, "valid");
    }
    let r = Scalar::from_repr(b);
    let t = ValueCommitTrapdoor::from_bytes(b);
    assert!(bool::from(r.is_some()) == bool::from(t.is_some()));
}

harnesses!(v_arith, v_sum, cv_def, cv_hom, cv_sub, rcv_sum, cv_codec);
