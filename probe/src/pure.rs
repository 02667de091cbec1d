//! Roots of the effect analysis (C15, C16) and the evaluation contexts for
//! repeated and shared use (C15, C22).
use crate::p2::{vec1, vecs};
use crate::{spec, vx};
use sha2::digest::Output;
use std::sync::Arc;
use zkhash::ark_ff::PrimeField;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::MerkleTreeHash;
use zkhash::merkle_tree::{merkle_tree_f2, merkle_tree_fp, merkle_tree_orchard, merkle_tree_sapling};
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};

pub fn p2<F: PrimeField>(h: &Poseidon2<F>, x: &[F], y: &[&F]) -> (Vec<F>, F, usize) {
    (h.permutation(x), h.compress(y), h.get_t())
}
pub fn p2_new<F: PrimeField>(p: &Arc<Poseidon2Params<F>>) -> Poseidon2<F> {
    Poseidon2::new(p).clone()
}
pub fn p2_params<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, a: &Vec<F>, m: &Vec<Vec<F>>, rc: &Vec<Vec<F>>) -> Poseidon2Params<F> {
    Poseidon2Params::new(t, d, rf, rp, a, m, rc).clone()
}
pub fn p2_helpers<F: PrimeField>(m: &Vec<Vec<F>>, x: &Vec<F>, rf: usize, rp: usize) -> (Vec<F>, Vec<Vec<F>>) {
    (Poseidon2Params::mat_vec_mul(m, x), Poseidon2Params::equivalent_round_constants(m, m, rf, rp))
}
pub fn poseidon<F: PrimeField>(h: &Poseidon<F>, x: &[F], y: &[&F]) -> (Vec<F>, Vec<F>, F, usize) {
    (h.permutation(x), h.permutation_not_opt(x), h.compress(y), h.get_t())
}
pub fn poseidon_new<F: PrimeField>(p: &Arc<PoseidonParams<F>>) -> Poseidon<F> {
    Poseidon::new(p).clone()
}
pub fn poseidon_params<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, m: &Vec<Vec<F>>, rc: &Vec<Vec<F>>) -> PoseidonParams<F> {
    PoseidonParams::new(t, d, rf, rp, m, rc).clone()
}
pub fn poseidon_helpers<F: PrimeField>(m: &Vec<Vec<F>>, x: &Vec<F>, t: usize, rf: usize, rp: usize) {
    PoseidonParams::mat_vec_mul(m, x);
    PoseidonParams::mat_mat_mul(m, m);
    PoseidonParams::equivalent_round_constants(m, m, rf, rp);
    PoseidonParams::equivalent_matrices(m, t, rp);
}
pub fn gmimc<F: PrimeField>(h: &Gmimc<F>, x: &[F], y: &[&F]) -> (Vec<F>, Vec<F>, F, usize) {
    (h.permutation(x), h.permutation_not_opt(x), h.compress(y), h.get_t())
}
pub fn gmimc_new<F: PrimeField>(p: &Arc<GmimcParams<F>>) -> Gmimc<F> {
    Gmimc::new(p).clone()
}
pub fn gmimc_get<F: PrimeField>(p: &GmimcParams<F>) -> (usize, usize) {
    (p.get_t(), p.get_rounds())
}
pub fn neptune<F: PrimeField>(h: &Neptune<F>, x: &[F], y: &[&F]) -> (Vec<F>, F, usize) {
    (h.permutation(x), h.compress(y), h.get_t())
}
pub fn neptune_new<F: PrimeField>(p: &Arc<NeptuneParams<F>>) -> Neptune<F> {
    Neptune::new(p).clone()
}
pub fn utils<F: PrimeField>(m: &[Vec<F>], s: &str) -> (Vec<Vec<F>>, Vec<Vec<F>>, F) {
    (zkhash::utils::mat_inverse(m), zkhash::utils::mat_transpose(m), zkhash::fields::utils::from_hex::<F>(s))
}
pub fn tree_fp<F: PrimeField>(l: &[F]) -> F {
    merkle_tree_fp::MerkleTree::new(crate::merkle::Any).accumulate(l)
}
pub fn tree_p2<F: PrimeField>(h: Poseidon2<F>, l: &[F]) -> F {
    merkle_tree_fp::MerkleTree::new(h).accumulate(l)
}
pub fn tree_orchard(l: &[crate::merkle::OBase]) -> crate::merkle::OBase {
    merkle_tree_orchard::MerkleTree::new(crate::merkle::Any).accumulate(l)
}
pub fn tree_sapling(l: &[crate::merkle::SBase]) -> crate::merkle::SBase {
    merkle_tree_sapling::MerkleTree::new(crate::merkle::Any).accumulate(l)
}
pub fn tree_f2(l: &[Output<crate::merkle::AnyDigest>]) -> Output<crate::merkle::AnyDigest> {
    merkle_tree_f2::MerkleTree::<crate::merkle::AnyDigest>::new().accumulate(l)
}

// ---- repeated, cloned and shared use ------------------------------------------
fn same<F: PrimeField>(label: &str, a: &[F], b: &[F]) {
    vx::int_eq("length", a.len(), b.len());
    for i in 0..a.len() {
        vx::eq(label, i, &a[i], &b[i]);
    }
}
pub fn twice_p2<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    let diag = vec1::<F>("diag", t);
    let rc = vecs::<F>("rc", rf + rp, t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let p = Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &diag, &mi, &rc));
    let (x, y) = (vec1::<F>("x", t), vec1::<F>("y", t));
    let h = Poseidon2::new(&p);
    let a = h.permutation(&x);
    h.permutation(&y);
    same("again", &h.permutation(&x), &a);
    same("clone", &h.clone().permutation(&x), &a);
    same("same parameters", &Poseidon2::new(&p).permutation(&x), &a);
    let q = Arc::new((*p).clone());
    same("cloned parameters", &Poseidon2::new(&q).permutation(&x), &a);
    let r = Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &diag, &mi, &rc));
    same("equal parameters", &Poseidon2::new(&r).permutation(&x), &a);
}
pub fn twice_poseidon<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    let mds = crate::p2::given2::<F>("mat0", t, t);
    let rc = vecs::<F>("rc", rf + rp, t);
    let p = Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc));
    let (x, y) = (vec1::<F>("x", t), vec1::<F>("y", t));
    let h = Poseidon::new(&p);
    let a = h.permutation(&x);
    let b = h.permutation_not_opt(&x);
    h.permutation(&y);
    h.permutation_not_opt(&y);
    same("again", &h.permutation(&x), &a);
    same("again, plain", &h.permutation_not_opt(&x), &b);
    same("clone", &h.clone().permutation(&x), &a);
    same("same parameters", &Poseidon::new(&p).permutation(&x), &a);
    let q = Arc::new((*p).clone());
    same("cloned parameters", &Poseidon::new(&q).permutation(&x), &a);
    let r = Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc));
    same("equal parameters", &Poseidon::new(&r).permutation(&x), &a);
}
pub fn twice_gmimc<F: PrimeField>(t: usize, d: usize, rounds: usize) {
    let p = Arc::new(GmimcParams::<F>::new(t, d, rounds));
    let (x, y) = (vec1::<F>("x", t), vec1::<F>("y", t));
    let h = Gmimc::new(&p);
    let a = h.permutation(&x);
    let b = h.permutation_not_opt(&x);
    h.permutation(&y);
    h.permutation_not_opt(&y);
    same("again", &h.permutation(&x), &a);
    same("again, plain", &h.permutation_not_opt(&x), &b);
    same("clone", &h.clone().permutation(&x), &a);
    same("same parameters", &Gmimc::new(&p).permutation(&x), &a);
    let q = Arc::new((*p).clone());
    same("cloned parameters", &Gmimc::new(&q).permutation(&x), &a);
}
pub fn twice_neptune<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    let p = Arc::new(NeptuneParams::<F>::new(t, d, rf, rp));
    let (x, y) = (vec1::<F>("x", t), vec1::<F>("y", t));
    let h = Neptune::new(&p);
    let a = h.permutation(&x);
    h.permutation(&y);
    same("again", &h.permutation(&x), &a);
    same("clone", &h.clone().permutation(&x), &a);
    same("same parameters", &Neptune::new(&p).permutation(&x), &a);
    let q = Arc::new((*p).clone());
    same("cloned parameters", &Neptune::new(&q).permutation(&x), &a);
}

/// Many calls on one object: the i-th call returns what the first one did.
fn many<F: PrimeField>(calls: usize, t: usize, f: impl Fn(&[F]) -> Vec<F>) {
    let (x, y) = (vec1::<F>("x", t), vec1::<F>("y", t));
    let (a, b) = (f(&x), f(&y));
    let mut i = 0;
    while i < calls {
        same("call", &f(if i % 3 == 0 { &y } else { &x }), if i % 3 == 0 { &b } else { &a });
        i += 1;
    }
}
pub fn many_p2<F: PrimeField>(t: usize, d: usize, calls: usize) {
    let diag = vec1::<F>("diag", t);
    let rc = vecs::<F>("rc", 3, t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let h = Poseidon2::new(&Arc::new(Poseidon2Params::<F>::new(t, d, 2, 1, &diag, &mi, &rc)));
    many(calls, t, |x| h.permutation(x));
    if t == 3 {
        many(calls, 2, |x| vec![h.compress(&[&x[0], &x[1]])]);
    }
}
pub fn many_poseidon<F: PrimeField>(t: usize, d: usize, calls: usize) {
    let mds = crate::p2::given2::<F>("mat0", t, t);
    let rc = vecs::<F>("rc", 3, t);
    let h = Poseidon::new(&Arc::new(PoseidonParams::<F>::new(t, d, 2, 1, &mds, &rc)));
    many(calls, t, |x| h.permutation(x));
    many(calls, t, |x| h.permutation_not_opt(x));
    if t == 3 {
        many(calls, 2, |x| vec![h.compress(&[&x[0], &x[1]])]);
    }
}
pub fn many_gmimc<F: PrimeField>(t: usize, d: usize, calls: usize) {
    let h = Gmimc::new(&Arc::new(GmimcParams::<F>::new(t, d, 3)));
    many(calls, t, |x| h.permutation(x));
    many(calls, t, |x| h.permutation_not_opt(x));
    if t == 3 {
        many(calls, 2, |x| vec![h.compress(&[&x[0], &x[1]])]);
    }
}
pub fn many_neptune<F: PrimeField>(t: usize, d: usize, calls: usize) {
    let h = Neptune::new(&Arc::new(NeptuneParams::<F>::new(t, d, 2, 1)));
    many(calls, t, |x| h.permutation(x));
    if t == 4 {
        many(calls, 2, |x| vec![h.compress(&[&x[0], &x[1]])]);
    }
}

// ---- positive controls of the effect rules ---------------------------------------
static COUNTER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! { static LOCAL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
static mut RAW: usize = 0;
pub fn control(x: &u8) -> usize {
    let a = COUNTER.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let b = LOCAL.with(|c| c.get());
    let c = std::env::var("X").map(|s| s.len()).unwrap_or(0);
    let d = std::time::Instant::now().elapsed().as_secs() as usize;
    let e = unsafe { RAW };
    println!("{}", x);
    let _ = std::fs::read("x");
    a + b + c + d + e
}
// constructors that draw their tables at random: analysed for their literals only
pub fn gmimc_params<F: PrimeField>(t: usize, d: usize, r: usize) -> GmimcParams<F> {
    GmimcParams::new(t, d, r).clone()
}
pub fn neptune_params<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) -> NeptuneParams<F> {
    NeptuneParams::new(t, d, rf, rp).clone()
}
