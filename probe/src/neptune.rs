use crate::p2::vec1;
use crate::{spec, vx};
use std::sync::Arc;
use zkhash::ark_ff::PrimeField;
use zkhash::neptune::neptune::Neptune;
use zkhash::neptune::neptune_params::NeptuneParams;

pub fn ext<F: PrimeField>(t: usize, p: &NeptuneParams<F>) -> Vec<Vec<F>> {
    if t == 4 || t == 8 {
        spec::neptune_ext::<F>(t)
    } else {
        let m: &Vec<Vec<F>> = vx::field(p, "m_e");
        m.clone()
    }
}
/// C07
pub fn perm<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    let p = Arc::new(NeptuneParams::<F>::new(t, d, rf, rp));
    let h = Neptune::new(&p);
    let x = vec1::<F>("x", t);
    vx::int_eq("get_t", h.get_t(), t);
    let rc: &Vec<Vec<F>> = vx::field(&*p, "round_constants");
    vx::int_eq("one constant vector per round", rc.len(), rf + rp);
    for r in 0..rc.len() {
        vx::int_eq("constants per round", rc[r].len(), t);
    }
    let me = ext(t, &p);
    for i in 0..t {
        for j in 0..t {
            if i % 2 != j % 2 {
                vx::eq("even and odd positions are independent", i * t + j, &me[i][j], &F::zero());
            }
        }
    }
    let mu: &Vec<F> = vx::field(&*p, "mu");
    let abc: &[F; 3] = vx::field(&*p, "abc");
    vx::begin();
    let y = h.permutation(&x);
    vx::end();
    vx::int_eq("output length", y.len(), t);
    let z = spec::neptune(t, d, rf, rp, &me, mu, abc[2], rc, &x);
    for i in 0..t {
        vx::eq("out", i, &y[i], &z[i]);
    }
}
/// Parts of the input space (see p2::input).
pub fn perm_p<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, inp: usize) {
    let p = Arc::new(NeptuneParams::<F>::new(t, d, rf, rp));
    let x = crate::p2::input::<F>(t, inp);
    let rc: &Vec<Vec<F>> = vx::field(&*p, "round_constants");
    let me = ext(t, &p);
    let mu: &Vec<F> = vx::field(&*p, "mu");
    let abc: &[F; 3] = vx::field(&*p, "abc");
    let y = Neptune::new(&p).permutation(&x);
    vx::int_eq("output length", y.len(), t);
    let z = spec::neptune(t, d, rf, rp, &me, mu, abc[2], rc, &x);
    for i in 0..t {
        vx::eq("out", i, &y[i], &z[i]);
    }
}
/// C09: external rounds (sizes 4 and 8) are undone by the inverse layers.
pub fn inverse<F: PrimeField>(t: usize, rf: usize) {
    let p = Arc::new(NeptuneParams::<F>::new(t, 3, rf, 0));
    let h = Neptune::new(&p);
    let x = vec1::<F>("x", t);
    let rc: &Vec<Vec<F>> = vx::field(&*p, "round_constants");
    let abc: &[F; 3] = vx::field(&*p, "abc");
    let inv = crate::spec::inverse(&spec::neptune_ext::<F>(t));
    let fifth = spec::small::<F>(5).inverse().unwrap();
    let (two, three, four) = (spec::small::<F>(2), spec::small::<F>(3), spec::small::<F>(4));
    let mut s = h.permutation(&x);
    let mut r = rf;
    while r > 0 {
        r -= 1;
        for i in 0..t {
            s[i] = s[i] - rc[r][i];
        }
        s = spec::mul(&inv, &s);
        for i in 0..t / 2 {
            let (y1, y2) = (s[2 * i], s[2 * i + 1]);
            let w = y1 - y2 + abc[2];
            let w = w * w;
            let (a, b) = (y1 - w, y2 - w);
            let u = (four * a - three * b) * fifth;
            let z = u * u;
            let (a, b) = (a - three * z, b - four * z);
            // a = 2 x1 + x2, b = x1 + 3 x2
            let x2 = (two * b - a) * fifth;
            s[2 * i + 1] = x2;
            s[2 * i] = b - three * x2;
        }
    }
    s = spec::mul(&inv, &s);
    for i in 0..t {
        vx::eq("inverse", i, &s[i], &x[i]);
    }
}
