//! The note commitment tree: node hashes, paths, empty roots, anchors.
use crate::refm;
use crate::source::*;
use crate::witness;
use ff::PrimeField;
use incrementalmerkletree::{Hashable, Level, Position};
use orchard::note::ExtractedNoteCommitment;
use orchard::tree::{MerkleHashOrchard, MerklePath};
use orchard::Anchor;
use halo2_gadgets::sinsemilla::primitives as sinsemilla;
use pasta_curves::pallas::Base;
use pasta_curves::toy;

fn node(b: &Base) -> MerkleHashOrchard {
    MerkleHashOrchard::from_bytes(&b.to_repr()).unwrap()
}
fn cmx(b: &Base) -> ExtractedNoteCommitment {
    ExtractedNoteCommitment::from_bytes(&b.to_repr()).unwrap()
}

/// One node hash, at every level, bottom included.
pub fn combine<S: Source>(s: &mut S) {
    #[cfg(orchard_verif)]
    pasta_curves::toy::set_bottom(true);
    let l = s.below(64);
    let (a, b) = (s.base(), s.base());
    let h = MerkleHashOrchard::combine(Level::from(l), &node(&a), &node(&b));
    let w = refm::merkle(l, &a, &b);
    assert!(h.to_bytes() == w.to_repr());
    witness!(h.to_bytes() == [0; 32], "bottom");
    witness!(h.to_bytes() != [0; 32], "hash");
}
/// Programs the hash for one path: the node above level l becomes `out(l)`
/// exactly when hashed from the expected children; returns the expected root.
fn program(pos: u32, leaf: &Base, sib: &[Base; 32]) -> Base {
    let d = sinsemilla::HashDomain::new("z.cash:Orchard-MerkleCRH");
    let mut n = *leaf;
    let mut l = 0usize;
    while l < 32 {
        let right = (pos >> l) & 1 == 1;
        let (a, b) = (words(&n), words(&sib[l]));
        let w = |k: usize, hi: bool| if hi == right { a[k] } else { b[k] };
        let m = 0x7fff_ffff_ffff_ffff;
        let key = d.key(&[
            (l as u64, 10),
            (w(0, false), 64), (w(1, false), 64), (w(2, false), 64), (w(3, false) & m, 63),
            (w(0, true), 64), (w(1, true), 64), (w(2, true), 64), (w(3, true) & m, 63),
        ]);
        unsafe {
            toy::ORACLE.key[l] = key;
            toy::ORACLE.pre[l] = l as u16;
        }
        n = Base::new(toy::oracle_out(l as u8));
        l += 1;
    }
    unsafe {
        toy::ORACLE.len = 32;
        toy::ORACLE.on = true;
    }
    n
}
fn words(b: &Base) -> [u64; 4] {
    b.t().to_limbs()
}
/// An arbitrary leaf and path.
fn path<S: Source>(s: &mut S) -> (Base, [Base; 32]) {
    let leaf = s.base();
    let mut sib = [Base::zero(); 32];
    let mut i = 0;
    while i < 32 {
        sib[i] = s.base();
        i += 1;
    }
    (leaf, sib)
}
/// The root of a path: every sibling, every leaf.
fn root_of<S: Source>(s: &mut S, pos: u32) {
    let (leaf, sib) = path(s);
    let mut nodes = [node(&Base::zero()); 32];
    let mut i = 0;
    while i < 32 {
        nodes[i] = node(&sib[i]);
        i += 1;
    }
    let want = program(pos, &leaf, &sib);
    let p = MerklePath::from_parts(pos, nodes);
    assert!(p.root(cmx(&leaf)).to_bytes() == want.to_repr());
}
pub fn root0<S: Source>(s: &mut S) {
    root_of(s, 0x9636_a53c)
}
pub fn root1<S: Source>(s: &mut S) {
    root_of(s, !0x9636_a53c)
}
/// Every position.
pub fn root_any<S: Source>(s: &mut S) {
    let pos = s.u32();
    root_of(s, pos)
}
/// Conversion of a path of the tree library.
fn converted_of<S: Source>(s: &mut S, pos: u32) {
    let (leaf, sib) = path(s);
    let mut v = Vec::with_capacity(32);
    let mut i = 0;
    while i < 32 {
        v.push(node(&sib[i]));
        i += 1;
    }
    let want = program(pos, &leaf, &sib);
    let q = incrementalmerkletree::MerklePath::<MerkleHashOrchard, 32>::from_parts(v, Position::from(pos as u64));
    let q = match q {
        Ok(q) => q,
        Err(_) => return assert!(false),
    };
    let p = MerklePath::from(q);
    assert!(p.root(cmx(&leaf)).to_bytes() == want.to_repr());
}
pub fn converted0<S: Source>(s: &mut S) {
    converted_of(s, 0x5a69_3c0f)
}
pub fn converted1<S: Source>(s: &mut S) {
    converted_of(s, !0x5a69_3c0f)
}
/// Empty roots of every level.
pub fn empty<S: Source>(_s: &mut S) {
    let e = Base::from(2);
    // the other child of every node is the empty root below it
    let mut sib = [e; 32];
    let mut l = 1;
    while l < 32 {
        sib[l] = Base::new(toy::oracle_out(l as u8 - 1));
        l += 1;
    }
    let top = program(0, &e, &sib);
    assert!(MerkleHashOrchard::empty_leaf().to_bytes() == e.to_repr());
    let mut l = 0u8;
    while l <= 32 {
        let w = if l < 32 { sib[l as usize] } else { top };
        assert!(MerkleHashOrchard::empty_root(Level::from(l)).to_bytes() == w.to_repr());
        l += 1;
    }
    assert!(Anchor::empty_tree().to_bytes() == top.to_repr());
}
/// Leaves and anchors are the field elements they encode.
pub fn leaf<S: Source>(s: &mut S) {
    let b = s.base();
    assert!(MerkleHashOrchard::from_cmx(&cmx(&b)).to_bytes() == b.to_repr());
    assert!(Anchor::from(node(&b)).to_bytes() == b.to_repr());
    assert!(Anchor::from(b).to_bytes() == b.to_repr());
}

harnesses!(combine, root0, root1, root_any, converted0, converted1, empty, leaf);
