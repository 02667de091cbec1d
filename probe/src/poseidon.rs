use crate::p2::{vec1, vecs};
use crate::{spec, vx};
use std::sync::Arc;
use zkhash::ark_ff::PrimeField;
use zkhash::poseidon::poseidon::Poseidon;
use zkhash::poseidon::poseidon_params::PoseidonParams;

/// A fixed dense matrix (k-th reference table), for sizes where unknown entries are too costly.
fn mat<F: PrimeField>(k: usize, t: usize) -> Vec<Vec<F>> {
    let n = match k {
        0 => "mat0",
        1 => "mat1",
        _ => "mat2",
    };
    crate::p2::given2::<F>(n, t, t)
}
/// C03: the plain evaluation, every matrix, table and input.
pub fn plain<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    plain_m(t, d, rf, rp, vecs::<F>("mds", t, t));
}
pub fn plain_k<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, k: usize) {
    plain_m(t, d, rf, rp, mat::<F>(k, t));
}
fn plain_m<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: Vec<Vec<F>>) {
    let rc = vecs::<F>("rc", rf + rp, t);
    let p = Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc));
    let h = Poseidon::new(&p);
    let x = vec1::<F>("x", t);
    vx::begin();
    let y = h.permutation_not_opt(&x);
    vx::end();
    vx::int_eq("get_t", h.get_t(), t);
    vx::int_eq("output length", y.len(), t);
    let z = spec::poseidon(t, d, rf, rp, &mds, &rc, &x);
    for i in 0..t {
        vx::eq("out", i, &y[i], &z[i]);
    }
}
/// C04: optimised = specification (= plain, C03), every matrix that admits it.
pub fn opt<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    opt_m(t, d, rf, rp, vecs::<F>("mds", t, t));
}
pub fn opt_k<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, k: usize) {
    opt_m(t, d, rf, rp, mat::<F>(k, t));
}
fn opt_m<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: Vec<Vec<F>>) {
    let rc = vecs::<F>("rc", rf + rp, t);
    let p = Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc));
    let h = Poseidon::new(&p);
    let x = vec1::<F>("x", t);
    vx::begin();
    let y = h.permutation(&x);
    vx::end();
    vx::int_eq("output length", y.len(), t);
    let z = h.permutation_not_opt(&x);
    for i in 0..t {
        vx::eq("opt = plain", i, &y[i], &z[i]);
    }
}
/// C03, C04: special tables of constants and inputs (see p2::table, p2::input).
pub fn perm_p<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, tab: usize, inp: usize, plain: usize) {
    let mds = mat::<F>(2, t);
    let rc = crate::p2::table::<F>(t, rf, rp, tab);
    let h = Poseidon::new(&Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc)));
    let x = crate::p2::input::<F>(t, inp);
    let y = if plain == 1 { h.permutation_not_opt(&x) } else { h.permutation(&x) };
    let z = if plain == 1 { spec::poseidon(t, d, rf, rp, &mds, &rc, &x) } else { h.permutation_not_opt(&x) };
    vx::int_eq("output length", y.len(), t);
    for i in 0..t {
        vx::eq(if plain == 1 { "out" } else { "opt = plain" }, i, &y[i], &z[i]);
    }
}
/// C24 for Poseidon: rewritten constants.
pub fn equiv_rc<F: PrimeField>(t: usize, d: usize, rfb: usize, rp: usize) {
    equiv_rc_m(t, d, rfb, rp, vecs::<F>("mds", t, t));
}
pub fn equiv_rc_k<F: PrimeField>(t: usize, d: usize, rfb: usize, rp: usize, k: usize) {
    equiv_rc_m(t, d, rfb, rp, mat::<F>(k, t));
}
fn equiv_rc_m<F: PrimeField>(t: usize, d: usize, rfb: usize, rp: usize, m: Vec<Vec<F>>) {
    let rc = vecs::<F>("rc", 2 * rfb + rp, t);
    let o = PoseidonParams::<F>::equivalent_round_constants(&rc, &m, rfb, rp);
    rewritten(t, d, rfb, rp, &m, &rc, &o);
}
/// C24 for Poseidon2: rewritten constants.
pub fn equiv_rc_p2<F: PrimeField>(t: usize, d: usize, rfb: usize, rp: usize) {
    equiv_rc_p2_m(t, d, rfb, rp, vecs::<F>("mds", t, t));
}
pub fn equiv_rc_p2_k<F: PrimeField>(t: usize, d: usize, rfb: usize, rp: usize, k: usize) {
    equiv_rc_p2_m(t, d, rfb, rp, mat::<F>(k, t));
}
fn equiv_rc_p2_m<F: PrimeField>(t: usize, d: usize, rfb: usize, rp: usize, m: Vec<Vec<F>>) {
    let rc = vecs::<F>("rc", 2 * rfb + rp, t);
    let o = zkhash::poseidon2::poseidon2_params::Poseidon2Params::<F>::equivalent_round_constants(&rc, &m, rfb, rp);
    rewritten(t, d, rfb, rp, &m, &rc, &o);
}
fn rewritten<F: PrimeField>(t: usize, d: usize, rfb: usize, rp: usize, m: &[Vec<F>], rc: &[Vec<F>], o: &[Vec<F>]) {
    let mut a = vec1::<F>("x", t);
    let mut b = a.clone();
    for r in 0..rp {
        for i in 0..t {
            a[i] = a[i] + rc[rfb + r][i];
        }
        a[0] = spec::pow(a[0], d);
        a = spec::mul(m, &a);
    }
    vx::int_eq("first rewritten vector", o[0].len(), t);
    for i in 0..t {
        b[i] = b[i] + o[0][i];
    }
    for r in 0..rp {
        b[0] = spec::pow(b[0], d);
        if r + 1 < rp {
            b[0] = b[0] + o[r + 1][0];
        }
        b = spec::mul(m, &b);
    }
    for i in 0..t {
        vx::eq("rewritten rounds", i, &b[i], &a[i]);
    }
}
/// C24: the sparse factorisation reproduces the full products.
pub fn sparse<F: PrimeField>(t: usize, d: usize, _z: usize, rp: usize) {
    sparse_m(t, d, rp, vecs::<F>("mds", t, t));
}
pub fn sparse_k<F: PrimeField>(t: usize, d: usize, _z: usize, rp: usize, k: usize) {
    sparse_m(t, d, rp, mat::<F>(k, t));
}
fn sparse_m<F: PrimeField>(t: usize, d: usize, rp: usize, m: Vec<Vec<F>>) {
    let (mi, v, w) = PoseidonParams::<F>::equivalent_matrices(&m, t, rp);
    let mut a = vec1::<F>("x", t);
    let mut b = spec::mul(&mi, &a);
    for _ in 0..rp {
        a[0] = spec::pow(a[0], d);
        a = spec::mul(&m, &a);
    }
    for r in 0..rp {
        b[0] = spec::pow(b[0], d);
        let k = rp - r - 1;
        let mut n = Vec::new();
        let mut s = m[0][0] * b[0];
        for i in 1..t {
            s = s + w[k][i - 1] * b[i];
        }
        n.push(s);
        for i in 1..t {
            n.push(v[k][i - 1] * b[0] + b[i]);
        }
        b = n;
    }
    for i in 0..t {
        vx::eq("sparse products", i, &b[i], &a[i]);
    }
}
