//! One module of entries per shipped neptune instance.
#![allow(non_snake_case)]
macro_rules! neptune {
    ($($n:ident $f:ident;)*) => { $(
        pub mod $n {
            use crate::{p2::vec1, vx};
            use zkhash::neptune::{neptune_instances as i, neptune::Neptune};
            pub fn build() {
                let _p = &*i::$n;
            }
            pub fn dump() {
                let p = &*i::$n;
                vx::dump("params", &**p);
                vx::note("t", Neptune::new(p).get_t());
                let rc: &Vec<Vec<crate::$f>> = vx::field(&**p, "round_constants");
                vx::note("rounds", rc.len());
            }
            pub fn perm(t: usize, d: usize, rf: usize, rp: usize) {
                let p = &*i::$n;
                let h = Neptune::new(p);
                vx::int_eq("state size", h.get_t(), t);
                let x = vec1::<crate::$f>("x", t);
                vx::begin();
                let y = h.permutation(&x);
                vx::end();
                vx::int_eq("output length", y.len(), t);
                let rc: &Vec<Vec<crate::$f>> = vx::field(&**p, "round_constants");
                vx::int_eq("one constant vector per round", rc.len(), rf + rp);
                let me = crate::neptune::ext(t, p);
                let mu: &Vec<crate::$f> = vx::field(&**p, "mu");
                let abc: &[crate::$f; 3] = vx::field(&**p, "abc");
                let z = crate::spec::neptune(t, d, rf, rp, &me, mu, abc[2], rc, &x);
                for k in 0..t {
                    vx::eq("instance = specification", k, &y[k], &z[k]);
                }
            }
        }
    )* }
}
neptune! {
    NEPTUNE_BN_PARAMS bn;
    NEPTUNE_BLS_4_PARAMS bls;
    NEPTUNE_BLS_8_PARAMS bls;
    NEPTUNE_GOLDILOCKS_8_PARAMS goldilocks;
    NEPTUNE_GOLDILOCKS_12_PARAMS goldilocks;
    NEPTUNE_GOLDILOCKS_16_PARAMS goldilocks;
    NEPTUNE_GOLDILOCKS_20_PARAMS goldilocks;
    NEPTUNE_BABYBEAR_16_PARAMS babybear;
    NEPTUNE_BABYBEAR_24_PARAMS babybear;
    NEPTUNE_PALLAS_4_PARAMS pallas;
    NEPTUNE_PALLAS_8_PARAMS pallas;
    NEPTUNE_VESTA_PARAMS vesta;
}
