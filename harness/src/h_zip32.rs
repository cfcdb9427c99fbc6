//! ZIP 32 derivation of account keys from a seed.
use crate::refm;
use crate::source::*;
use crate::witness;
use orchard::keys::SpendingKey;
use zip32::AccountId;

fn valid(sk: &[u8; 32]) -> bool {
    let r = refm::keys(sk);
    refm::ivk(&r.ak_x, &r.nk, &r.rivk).is_some()
        && refm::ivk(&r.ak_x, &r.nk, &refm::rivk_internal(&r.ak_x, &r.nk, &r.rivk)).is_some()
}
fn split(i: &[u8; 64]) -> ([u8; 32], [u8; 32]) {
    let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
    a.copy_from_slice(&i[..32]);
    b.copy_from_slice(&i[32..]);
    (a, b)
}
/// The key of m/32'/coin'/account', and whether all keys on the path are valid.
fn derive(seed: &[u8], coin: u32, account: u32, check: bool) -> ([u8; 32], bool) {
    let (mut sk, mut c) = split(&refm::b512(b"ZcashIP32Orchard", &[seed]));
    let mut ok = !check || valid(&sk);
    let path = [32u32, coin, account];
    let mut k = 0;
    while k < 3 {
        let i = path[k] | 0x8000_0000;
        let (a, b) = split(&refm::prf_expand2(&c, 0x81, &sk, &i.to_le_bytes()));
        sk = a;
        c = b;
        if check {
            ok &= valid(&sk);
        }
        k += 1;
    }
    (sk, ok)
}
fn account<S: Source>(s: &mut S) -> (u32, AccountId) {
    let a = s.u32();
    s.assume(a < 0x8000_0000);
    (a, AccountId::try_from(a).unwrap())
}
fn path<S: Source, const N: usize>(s: &mut S) {
    let seed: [u8; N] = s.bytes();
    let coin = s.u32();
    let (a, acc) = account(s);
    let (want, _) = derive(&seed, coin, a, false);
    match SpendingKey::from_zip32_seed(&seed, coin, acc) {
        Ok(k) => {
            assert!(coin < 0x8000_0000);
            assert!(*k.to_bytes() == want);
            witness!(true, "derived");
        }
        Err(e) => {
            assert!(coin >= 0x8000_0000);
            assert!(e == orchard::zip32::Error::InvalidChildIndex(coin));
            witness!(true, "refused");
        }
    }
}
pub fn seed32<S: Source>(s: &mut S) {
    path::<S, 32>(s)
}
pub fn seed33<S: Source>(s: &mut S) {
    path::<S, 33>(s)
}
pub fn seed64<S: Source>(s: &mut S) {
    path::<S, 64>(s)
}
pub fn seed252<S: Source>(s: &mut S) {
    path::<S, 252>(s)
}
/// An invalid key anywhere on the path is reported.
pub fn invalid_key<S: Source>(s: &mut S) {
    #[cfg(orchard_verif)]
    pasta_curves::toy::set_bottom(true);
    let seed: [u8; 32] = s.bytes();
    let coin = s.u32();
    s.assume(coin < 0x8000_0000);
    let (a, acc) = account(s);
    let (want, ok) = derive(&seed, coin, a, true);
    match SpendingKey::from_zip32_seed(&seed, coin, acc) {
        Ok(k) => assert!(ok && *k.to_bytes() == want),
        Err(e) => assert!(!ok && e == orchard::zip32::Error::InvalidSpendingKey),
    }
    witness!(ok, "valid");
    witness!(!ok, "invalid");
}

harnesses!(seed32, seed33, seed64, seed252, invalid_key);
