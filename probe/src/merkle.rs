use crate::p2::vec1;
use crate::vx;
use sha2::digest::{
    consts::{U1, U32}, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update,
};
use zkhash::ark_ff::PrimeField;
use zkhash::merkle_tree::{merkle_tree_f2, merkle_tree_fp, merkle_tree_orchard, merkle_tree_sapling};

pub type OBase = pasta_curves::pallas::Base;
pub type SBase = jubjub::Base;

/// An arbitrary compression function.
#[derive(Clone, Debug)]
pub struct Any;
impl<F: PrimeField> merkle_tree_fp::MerkleTreeHash<F> for Any {
    fn compress(&self, input: &[&F]) -> F {
        vx::int_eq("arity", input.len(), 2);
        vx::uf::<F>("C", 0, &[*input[0], *input[1]])
    }
}
impl merkle_tree_orchard::MerkleTreeHash for Any {
    fn compress(&self, level: usize, input: &[&OBase; 2]) -> OBase {
        vx::uf::<OBase>("C", level, &[*input[0], *input[1]])
    }
}
impl merkle_tree_sapling::MerkleTreeHash for Any {
    fn compress(&self, level: usize, input: &[&SBase; 2]) -> SBase {
        vx::uf::<SBase>("C", level, &[*input[0], *input[1]])
    }
}
/// An arbitrary compression function that ignores the level.
#[derive(Clone, Debug)]
pub struct AnyFlat;
impl merkle_tree_orchard::MerkleTreeHash for AnyFlat {
    fn compress(&self, _level: usize, input: &[&OBase; 2]) -> OBase {
        vx::uf::<OBase>("C", 0, &[*input[0], *input[1]])
    }
}
impl merkle_tree_sapling::MerkleTreeHash for AnyFlat {
    fn compress(&self, _level: usize, input: &[&SBase; 2]) -> SBase {
        vx::uf::<SBase>("C", 0, &[*input[0], *input[1]])
    }
}
/// An arbitrary hash function: a state that remembers what was absorbed.
macro_rules! digest {
    ($D:ident, $N:ty, $two:ident) => {
        #[derive(Clone)]
        pub struct $D([u8; 16]);
        impl Default for $D {
            fn default() -> Self {
                let mut s = $D([0; 16]);
                vx::h_init(&mut s);
                s
            }
        }
        impl HashMarker for $D {}
        impl OutputSizeUser for $D {
            type OutputSize = $N;
        }
        impl Update for $D {
            fn update(&mut self, data: &[u8]) {
                vx::h_absorb(self, data)
            }
        }
        impl FixedOutput for $D {
            fn finalize_into(self, out: &mut Output<Self>) {
                vx::h_out(&self, out)
            }
        }
        impl Reset for $D {
            fn reset(&mut self) {
                vx::h_init(self)
            }
        }
        impl FixedOutputReset for $D {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                vx::h_out(self, out);
                vx::h_init(self)
            }
        }
        fn $two(l: &Output<$D>, r: &Output<$D>) -> Output<$D> {
            let mut s = $D::default();
            vx::h_absorb(&mut s, l);
            vx::h_absorb(&mut s, r);
            let mut o = Output::<$D>::default();
            vx::h_out(&s, &mut o);
            o
        }
    };
}
digest!(AnyDigest, U32, h2);
// one-byte digests: the same code on many more leaves
digest!(SmallDigest, U1, h2s);
/// The specified root.
fn root<T: Clone, C: Fn(usize, &T, &T) -> T>(leaves: &[T], c: C) -> T {
    let mut n = 2;
    while n < leaves.len() {
        n *= 2;
    }
    let mut row = Vec::new();
    for i in 0..n {
        row.push(leaves[if i < leaves.len() { i } else { leaves.len() - 1 }].clone());
    }
    let mut h = 0;
    while row.len() > 1 {
        let mut up = Vec::new();
        let mut i = 0;
        while i < row.len() {
            up.push(c(h, &row[i], &row[i + 1]));
            i += 2;
        }
        row = up;
        h += 1;
    }
    row[0].clone()
}
/// C11, field tree.
pub fn fp<F: PrimeField>(n: usize) {
    let l = vec1::<F>("leaf", n);
    let mut t = merkle_tree_fp::MerkleTree::new(Any);
    vx::begin();
    let a = t.accumulate(&l);
    vx::end();
    let b = root(&l, |_, x, y| vx::uf::<F>("C", 0, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn orchard_flat(n: usize) {
    let l = vec1::<OBase>("leaf", n);
    let a = merkle_tree_orchard::MerkleTree::new(AnyFlat).accumulate(&l);
    let b = root(&l, |_, x, y| vx::uf::<OBase>("C", 0, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn sapling_flat(n: usize) {
    let l = vec1::<SBase>("leaf", n);
    let a = merkle_tree_sapling::MerkleTree::new(AnyFlat).accumulate(&l);
    let b = root(&l, |_, x, y| vx::uf::<SBase>("C", 0, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
/// C12.
pub fn orchard(n: usize) {
    let l = vec1::<OBase>("leaf", n);
    let a = merkle_tree_orchard::MerkleTree::new(Any).accumulate(&l);
    let b = root(&l, |h, x, y| vx::uf::<OBase>("C", h, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn sapling(n: usize) {
    let l = vec1::<SBase>("leaf", n);
    let a = merkle_tree_sapling::MerkleTree::new(Any).accumulate(&l);
    let b = root(&l, |h, x, y| vx::uf::<SBase>("C", h, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn f2(n: usize) {
    let l = vec1::<Output<AnyDigest>>("leaf", n);
    let mut t = merkle_tree_f2::MerkleTree::<AnyDigest>::new();
    let a = t.accumulate(&l);
    let b = root(&l, |_, x, y| h2(x, y));
    vx::eq("root", n, &a, &b);
}
/// C13: a second and third call on the same object, a clone, a default object.
pub fn again_fp<F: PrimeField>(n: usize, m: usize) {
    let l = vec1::<F>("leaf", n);
    let k = vec1::<F>("other", m);
    let mut t = merkle_tree_fp::MerkleTree::new(Any);
    t.accumulate(&l);
    let mut c = t.clone();
    let a = t.accumulate(&k);
    let a2 = t.accumulate(&l);
    let a3 = c.accumulate(&k);
    let b = merkle_tree_fp::MerkleTree::new(Any).accumulate(&k);
    let b2 = merkle_tree_fp::MerkleTree::new(Any).accumulate(&l);
    vx::eq("second call", n, &a, &b);
    vx::eq("third call", n, &a2, &b2);
    vx::eq("clone", n, &a3, &b);
}
pub fn again_orchard(n: usize, m: usize) {
    let l = vec1::<OBase>("leaf", n);
    let k = vec1::<OBase>("other", m);
    let mut t = merkle_tree_orchard::MerkleTree::new(Any);
    t.accumulate(&l);
    let mut c = t.clone();
    let a = t.accumulate(&k);
    let a2 = t.accumulate(&l);
    let a3 = c.accumulate(&k);
    let b = merkle_tree_orchard::MerkleTree::new(Any).accumulate(&k);
    let b2 = merkle_tree_orchard::MerkleTree::new(Any).accumulate(&l);
    vx::eq("second call", n, &a, &b);
    vx::eq("third call", n, &a2, &b2);
    vx::eq("clone", n, &a3, &b);
}
pub fn again_sapling(n: usize, m: usize) {
    let l = vec1::<SBase>("leaf", n);
    let k = vec1::<SBase>("other", m);
    let mut t = merkle_tree_sapling::MerkleTree::new(Any);
    t.accumulate(&l);
    let mut c = t.clone();
    let a = t.accumulate(&k);
    let a2 = t.accumulate(&l);
    let a3 = c.accumulate(&k);
    let b = merkle_tree_sapling::MerkleTree::new(Any).accumulate(&k);
    let b2 = merkle_tree_sapling::MerkleTree::new(Any).accumulate(&l);
    vx::eq("second call", n, &a, &b);
    vx::eq("third call", n, &a2, &b2);
    vx::eq("clone", n, &a3, &b);
}
pub fn again_f2(n: usize, m: usize) {
    let l = vec1::<Output<AnyDigest>>("leaf", n);
    let k = vec1::<Output<AnyDigest>>("other", m);
    let mut t = merkle_tree_f2::MerkleTree::<AnyDigest>::default();
    let f = t.accumulate(&l);
    let mut c = t.clone();
    let a = t.accumulate(&k);
    let a2 = t.accumulate(&l);
    let a3 = c.accumulate(&k);
    let b = root(&k, |_, x, y| h2(x, y));
    let b2 = root(&l, |_, x, y| h2(x, y));
    vx::eq("first call of a default object", n, &f, &b2);
    vx::eq("second call", n, &a, &b);
    vx::eq("third call", n, &a2, &b2);
    vx::eq("clone", n, &a3, &b);
}
/// C13: many calls on one object, alternating between two leaf sets.
pub fn many_fp<F: PrimeField>(n: usize, calls: usize) {
    let l = vec1::<F>("leaf", n);
    let k = vec1::<F>("other", n + 1);
    let (rl, rk) = (merkle_tree_fp::MerkleTree::new(Any).accumulate(&l), merkle_tree_fp::MerkleTree::new(Any).accumulate(&k));
    let mut t = merkle_tree_fp::MerkleTree::new(Any);
    let mut i = 0;
    while i < calls {
        let r = t.accumulate(if i % 2 == 0 { &l } else { &k });
        vx::eq("call", i, &r, if i % 2 == 0 { &rl } else { &rk });
        i += 1;
    }
}
pub fn many_orchard(n: usize, calls: usize) {
    let l = vec1::<OBase>("leaf", n);
    let k = vec1::<OBase>("other", n + 1);
    let (rl, rk) = (merkle_tree_orchard::MerkleTree::new(Any).accumulate(&l), merkle_tree_orchard::MerkleTree::new(Any).accumulate(&k));
    let mut t = merkle_tree_orchard::MerkleTree::new(Any);
    let mut i = 0;
    while i < calls {
        let r = t.accumulate(if i % 2 == 0 { &l } else { &k });
        vx::eq("call", i, &r, if i % 2 == 0 { &rl } else { &rk });
        i += 1;
    }
}
pub fn many_sapling(n: usize, calls: usize) {
    let l = vec1::<SBase>("leaf", n);
    let k = vec1::<SBase>("other", n + 1);
    let (rl, rk) = (merkle_tree_sapling::MerkleTree::new(Any).accumulate(&l), merkle_tree_sapling::MerkleTree::new(Any).accumulate(&k));
    let mut t = merkle_tree_sapling::MerkleTree::new(Any);
    let mut i = 0;
    while i < calls {
        let r = t.accumulate(if i % 2 == 0 { &l } else { &k });
        vx::eq("call", i, &r, if i % 2 == 0 { &rl } else { &rk });
        i += 1;
    }
}
pub fn many_f2(n: usize, calls: usize) {
    let l = vec1::<Output<AnyDigest>>("leaf", n);
    let k = vec1::<Output<AnyDigest>>("other", n + 1);
    let (rl, rk) = (merkle_tree_f2::MerkleTree::<AnyDigest>::new().accumulate(&l), merkle_tree_f2::MerkleTree::<AnyDigest>::new().accumulate(&k));
    let mut t = merkle_tree_f2::MerkleTree::<AnyDigest>::new();
    let mut i = 0;
    while i < calls {
        let r = t.accumulate(if i % 2 == 0 { &l } else { &k });
        vx::eq("call", i, &r, if i % 2 == 0 { &rl } else { &rk });
        i += 1;
    }
}
/// C17: empty leaf sets.
pub fn empty_fp<F: PrimeField>() {
    let l: Vec<F> = Vec::new();
    merkle_tree_fp::MerkleTree::new(Any).accumulate(&l);
    vx::ok("empty leaf set is rejected", false);
}
pub fn empty_orchard() {
    let l: Vec<OBase> = Vec::new();
    merkle_tree_orchard::MerkleTree::new(Any).accumulate(&l);
    vx::ok("empty leaf set is rejected", false);
}
pub fn empty_sapling() {
    let l: Vec<SBase> = Vec::new();
    merkle_tree_sapling::MerkleTree::new(Any).accumulate(&l);
    vx::ok("empty leaf set is rejected", false);
}
pub fn empty_f2() {
    let l: Vec<Output<AnyDigest>> = Vec::new();
    merkle_tree_f2::MerkleTree::<AnyDigest>::new().accumulate(&l);
    vx::ok("empty leaf set is rejected", false);
}
/// Leaf sets with equal, default and repeating leaves.
fn leaves<T: Clone + Default>(n: usize, pat: usize) -> Vec<T> {
    let s = vec1::<T>("leaf", n);
    let mut v = Vec::new();
    for i in 0..n {
        v.push(match pat {
            0 => s[0].clone(),
            1 => T::default(),
            2 => s[i % 2].clone(),
            3 => s[i % ((n + 1) / 2)].clone(),
            4 => {
                if i + 1 == n {
                    s[0].clone()
                } else {
                    T::default()
                }
            }
            5 => {
                if i == 0 {
                    s[0].clone()
                } else {
                    T::default()
                }
            }
            6 => s[n - 1 - (i % ((n + 1) / 2))].clone(),
            _ => s[i / 2].clone(),
        });
    }
    v
}
pub fn fp_p<F: PrimeField>(n: usize, pat: usize) {
    let l = leaves::<F>(n, pat);
    let a = merkle_tree_fp::MerkleTree::new(Any).accumulate(&l);
    let b = root(&l, |_, x, y| vx::uf::<F>("C", 0, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn orchard_p(n: usize, pat: usize) {
    let l = leaves::<OBase>(n, pat);
    let a = merkle_tree_orchard::MerkleTree::new(Any).accumulate(&l);
    let b = root(&l, |h, x, y| vx::uf::<OBase>("C", h, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn sapling_p(n: usize, pat: usize) {
    let l = leaves::<SBase>(n, pat);
    let a = merkle_tree_sapling::MerkleTree::new(Any).accumulate(&l);
    let b = root(&l, |h, x, y| vx::uf::<SBase>("C", h, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn orchard_flat_p(n: usize, pat: usize) {
    let l = leaves::<OBase>(n, pat);
    let a = merkle_tree_orchard::MerkleTree::new(AnyFlat).accumulate(&l);
    let b = root(&l, |_, x, y| vx::uf::<OBase>("C", 0, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn sapling_flat_p(n: usize, pat: usize) {
    let l = leaves::<SBase>(n, pat);
    let a = merkle_tree_sapling::MerkleTree::new(AnyFlat).accumulate(&l);
    let b = root(&l, |_, x, y| vx::uf::<SBase>("C", 0, &[*x, *y]));
    vx::eq("root", n, &a, &b);
}
pub fn f2_p(n: usize, pat: usize) {
    let l = leaves::<Output<AnyDigest>>(n, pat);
    let a = merkle_tree_f2::MerkleTree::<AnyDigest>::new().accumulate(&l);
    let b = root(&l, |_, x, y| h2(x, y));
    vx::eq("root", n, &a, &b);
}
pub fn f2_s(n: usize) {
    let l = vec1::<Output<SmallDigest>>("leaf", n);
    let a = merkle_tree_f2::MerkleTree::<SmallDigest>::new().accumulate(&l);
    let b = root(&l, |_, x, y| h2s(x, y));
    vx::eq("root", n, &a, &b);
}
