use crate::{spec, vx};
use std::sync::Arc;
use zkhash::ark_ff::PrimeField;
use zkhash::poseidon2::poseidon2::Poseidon2;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;

pub fn vecs<T>(name: &str, n: usize, m: usize) -> Vec<Vec<T>> {
    let mut o = Vec::new();
    for i in 0..n {
        let mut r = Vec::new();
        for j in 0..m {
            r.push(vx::sym::<T>(name, i, j));
        }
        o.push(r);
    }
    o
}
pub fn vec1<T>(name: &str, n: usize) -> Vec<T> {
    let mut r = Vec::new();
    for j in 0..n {
        r.push(vx::sym::<T>(name, j, 0));
    }
    r
}
pub fn given1<T>(name: &str, n: usize) -> Vec<T> {
    let mut r = Vec::new();
    for j in 0..n {
        r.push(vx::given::<T>(name, j, 0));
    }
    r
}
pub fn given2<T>(name: &str, n: usize, m: usize) -> Vec<Vec<T>> {
    let mut o = Vec::new();
    for i in 0..n {
        let mut r = Vec::new();
        for j in 0..m {
            r.push(vx::given::<T>(name, i, j));
        }
        o.push(r);
    }
    o
}
/// Parts of the input space that a data-dependent shortcut would single out.
pub fn input<F: PrimeField>(t: usize, kind: usize) -> Vec<F> {
    let mut x = Vec::new();
    for i in 0..t {
        x.push(match kind {
            0 => F::zero(),
            1 => vx::sym::<F>("x", 0, 0),
            2 if i == 0 => F::zero(),
            3 if i + 1 == t => F::zero(),
            4 => spec::small::<F>(i),
            5 if i > 0 => F::zero(),
            6 if i + 1 < t => F::zero(),
            7 => F::zero() - F::one(),
            8 => spec::small::<F>(t - i),
            _ => vx::sym::<F>("x", i, 0),
        });
    }
    x
}
/// Tables with zeros: 0 = all zero, 1 = zero outside the first element of
/// partial rounds, 2 = every third entry zero, 3 = small numbers, else unknown.
pub fn table<F: PrimeField>(t: usize, rf: usize, rp: usize, kind: usize) -> Vec<Vec<F>> {
    let mut o = Vec::new();
    for r in 0..rf + rp {
        let part = r >= rf / 2 && r < rf / 2 + rp;
        let mut row = Vec::new();
        for i in 0..t {
            row.push(match kind {
                0 => F::zero(),
                1 if part && i > 0 => F::zero(),
                2 if (r + i) % 3 == 0 => F::zero(),
                2 => spec::small::<F>(r * t + i),
                3 => spec::small::<F>((r + i) % 3),
                _ => vx::sym::<F>("rc", r, i),
            });
        }
        o.push(row);
    }
    o
}
pub fn perm_p<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, tab: usize, inp: usize) {
    let mut diag = vec1::<F>("diag", t);
    if tab < 4 && t > 3 {
        for i in 0..t {
            diag[i] = match tab {
                0 => spec::small::<F>(i),
                1 if i % 2 == 0 => F::one(),
                2 => F::zero() - spec::small::<F>(i % 3),
                3 => spec::small::<F>(2),
                _ => diag[i],
            };
        }
    }
    let rc = table::<F>(t, rf, rp, tab);
    let mi = spec::p2_internal::<F>(t, &diag);
    let p = Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &diag, &mi, &rc));
    let x = input::<F>(t, inp);
    let y = Poseidon2::new(&p).permutation(&x);
    let z = spec::p2(t, d, rf, rp, &diag, &rc, &x);
    vx::int_eq("output length", y.len(), t);
    for i in 0..t {
        vx::eq("out", i, &y[i], &z[i]);
    }
}
/// C01: every table, every input, for one (t, d, R_F, R_P).
pub fn perm<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    let diag = vec1::<F>("diag", t);
    let rc = vecs::<F>("rc", rf + rp, t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let p = Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &diag, &mi, &rc));
    let h = Poseidon2::new(&p);
    let x = vec1::<F>("x", t);
    vx::begin();
    let y = h.permutation(&x);
    vx::end();
    vx::int_eq("get_t", h.get_t(), t);
    vx::int_eq("output length", y.len(), t);
    let z = spec::p2(t, d, rf, rp, &diag, &rc, &x);
    for i in 0..t {
        vx::eq("out", i, &y[i], &z[i]);
    }
}
