use crate::p2::vec1;
use crate::{spec, vx};
use std::sync::Arc;
use zkhash::ark_ff::PrimeField;
use zkhash::gmimc::gmimc::Gmimc;
use zkhash::gmimc::gmimc_params::GmimcParams;

fn check<F: PrimeField>(label: &str, t: usize, d: usize, rounds: usize, p: &GmimcParams<F>, x: &[F], y: &[F]) {
    let rc: &Vec<F> = vx::field(p, "round_constants");
    vx::int_eq("output length", y.len(), t);
    let z = spec::gmimc(t, d, rounds, rc, x);
    for i in 0..t {
        vx::eq(label, i, &y[i], &z[i]);
    }
}
/// C06: both evaluations, every constant and input.
pub fn perm<F: PrimeField>(t: usize, d: usize, rounds: usize) {
    let p = Arc::new(GmimcParams::<F>::new(t, d, rounds));
    let h = Gmimc::new(&p);
    let x = vec1::<F>("x", t);
    vx::int_eq("get_t", h.get_t(), t);
    vx::int_eq("params get_t", p.get_t(), t);
    vx::int_eq("params get_rounds", p.get_rounds(), rounds);
    let rc: &Vec<F> = vx::field(&*p, "round_constants");
    vx::int_eq("one constant per round", rc.len(), rounds);
    vx::begin();
    let y = h.permutation(&x);
    vx::end();
    check("permutation", t, d, rounds, &p, &x, &y);
    vx::begin();
    let y = h.permutation_not_opt(&x);
    vx::end();
    check("permutation_not_opt", t, d, rounds, &p, &x, &y);
}
/// Parts of the input space (see p2::input).
pub fn perm_p<F: PrimeField>(t: usize, d: usize, rounds: usize, inp: usize) {
    let p = Arc::new(GmimcParams::<F>::new(t, d, rounds));
    let h = Gmimc::new(&p);
    let x = crate::p2::input::<F>(t, inp);
    let y = h.permutation(&x);
    check("permutation", t, d, rounds, &p, &x, &y);
    let y = h.permutation_not_opt(&x);
    check("permutation_not_opt", t, d, rounds, &p, &x, &y);
}
/// C09: the inverse network undoes the permutation.
pub fn inverse<F: PrimeField>(t: usize, d: usize, rounds: usize) {
    let p = Arc::new(GmimcParams::<F>::new(t, d, rounds));
    let h = Gmimc::new(&p);
    let x = vec1::<F>("x", t);
    let rc: &Vec<F> = vx::field(&*p, "round_constants");
    let mut s = h.permutation(&x);
    let mut r = rounds;
    while r > 0 {
        r -= 1;
        if r + 1 < rounds {
            let mut n = Vec::new();
            for i in 0..t {
                n.push(s[(i + 1) % t]);
            }
            s = n;
        }
        let q = spec::pow(s[0] + rc[r], d);
        for i in 1..t {
            s[i] = s[i] - q;
        }
    }
    for i in 0..t {
        vx::eq("inverse", i, &s[i], &x[i]);
    }
}

/// Each evaluation on its own (C20: one may panic where the other does not).
pub fn perm_opt<F: PrimeField>(t: usize, d: usize, rounds: usize) {
    let p = Arc::new(GmimcParams::<F>::new(t, d, rounds));
    let x = vec1::<F>("x", t);
    let y = Gmimc::new(&p).permutation(&x);
    check("permutation", t, d, rounds, &p, &x, &y);
}
pub fn perm_plain<F: PrimeField>(t: usize, d: usize, rounds: usize) {
    let p = Arc::new(GmimcParams::<F>::new(t, d, rounds));
    let x = vec1::<F>("x", t);
    let y = Gmimc::new(&p).permutation_not_opt(&x);
    check("permutation_not_opt", t, d, rounds, &p, &x, &y);
}
