//! One module of entries per shipped gmimc instance.
#![allow(non_snake_case)]
macro_rules! gmimc {
    ($($n:ident $f:ident $m:ident;)*) => { $(
        pub mod $n {
            use crate::{p2::vec1, vx};
            use zkhash::gmimc::{$m as i, gmimc::Gmimc};
            pub fn build() {
                let _p = &*i::$n;
            }
            pub fn dump() {
                let p = &*i::$n;
                vx::dump("params", &**p);
                vx::note("t", Gmimc::new(p).get_t());
                vx::note("get_t", p.get_t());
                vx::note("get_rounds", p.get_rounds());
            }
            pub fn perm(t: usize, d: usize, rounds: usize) {
                let p = &*i::$n;
                let h = Gmimc::new(p);
                vx::int_eq("state size", h.get_t(), t);
                let x = vec1::<crate::$f>("x", t);
                vx::begin();
                let y = h.permutation(&x);
                vx::end();
                vx::int_eq("output length", y.len(), t);
                let rc: &Vec<crate::$f> = vx::field(&**p, "round_constants");
                let z = crate::spec::gmimc(t, d, rounds, rc, &x);
                for k in 0..t {
                    vx::eq("instance = specification", k, &y[k], &z[k]);
                }
                let z = h.permutation_not_opt(&x);
                vx::int_eq("plain output length", z.len(), t);
                for k in 0..t {
                    vx::eq("opt = plain", k, &y[k], &z[k]);
                }
            }
        }
    )* }
}
gmimc! {
    GMIMC_BABYBEAR_16_PARAMS babybear gmimc_instance_babybear;
    GMIMC_BABYBEAR_24_PARAMS babybear gmimc_instance_babybear;
    GMIMC_BLS_2_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_3_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_4_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_5_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_8_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_9_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_12_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_16_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_20_PARAMS bls gmimc_instance_bls12;
    GMIMC_BLS_24_PARAMS bls gmimc_instance_bls12;
    GMIMC_BN_3_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_4_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_5_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_8_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_9_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_12_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_16_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_20_PARAMS bn gmimc_instance_bn256;
    GMIMC_BN_24_PARAMS bn gmimc_instance_bn256;
    GMIMC_GOLDILOCKS_8_PARAMS goldilocks gmimc_instance_goldilocks;
    GMIMC_GOLDILOCKS_12_PARAMS goldilocks gmimc_instance_goldilocks;
    GMIMC_GOLDILOCKS_16_PARAMS goldilocks gmimc_instance_goldilocks;
    GMIMC_GOLDILOCKS_20_PARAMS goldilocks gmimc_instance_goldilocks;
    GMIMC_PALLAS_3_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_4_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_5_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_8_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_9_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_12_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_16_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_20_PARAMS pallas gmimc_instance_pallas;
    GMIMC_PALLAS_24_PARAMS pallas gmimc_instance_pallas;
    GMIMC_VESTA_3_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_4_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_5_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_8_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_9_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_12_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_16_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_20_PARAMS vesta gmimc_instance_vesta;
    GMIMC_VESTA_24_PARAMS vesta gmimc_instance_vesta;
}
