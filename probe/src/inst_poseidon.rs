//! One module of entries per shipped poseidon instance.
#![allow(non_snake_case)]
macro_rules! poseidon {
    ($($n:ident $f:ident $m:ident $rc:ident $mds:ident;)*) => { $(
        pub mod $n {
            use crate::{p2::vec1, vx};
            use std::sync::Arc;
            use zkhash::ark_ff::{One, Zero};
            use zkhash::poseidon::{$m as i, poseidon::Poseidon, poseidon_params::PoseidonParams};
            pub fn build() {
                let _p = &*i::$n;
            }
            pub fn dump() {
                let p = &*i::$n;
                vx::dump("params", &**p);
                vx::note("t", Poseidon::new(p).get_t());
                vx::dump("RC", &*i::$rc);
                vx::dump("MDS", &*i::$mds);
            }
            pub fn opt(t: usize) {
                let h = Poseidon::new(&i::$n);
                let x = vec1::<crate::$f>("x", t);
                vx::begin();
                let y = h.permutation(&x);
                vx::end();
                let z = h.permutation_not_opt(&x);
                vx::int_eq("output length", y.len(), t);
                vx::int_eq("plain output length", z.len(), t);
                for k in 0..t {
                    vx::eq("opt = plain", k, &y[k], &z[k]);
                }
            }
            /// columns of the matrix applied with this instance's table: one partial
            /// round without constants on the unit vectors, on both paths
            pub fn matrix(t: usize, d: usize) {
                let zero = vec![vec![crate::$f::zero(); t]; 1];
                let h = Poseidon::new(&Arc::new(PoseidonParams::new(t, d, 0, 1, &i::$mds, &zero)));
                let mut cols = Vec::new();
                let mut plain = Vec::new();
                for j in 0..t {
                    let mut x = vec![crate::$f::zero(); t];
                    x[j] = crate::$f::one();
                    cols.push(h.permutation(&x));
                    plain.push(h.permutation_not_opt(&x));
                }
                vx::dump("matrix", &cols);
                vx::dump("plain matrix", &plain);
            }
            /// this instance evaluates the specification with the reference parameters
            pub fn perm(t: usize, d: usize, rf: usize, rp: usize) {
                let h = Poseidon::new(&i::$n);
                vx::int_eq("state size", h.get_t(), t);
                let x = vec1::<crate::$f>("x", t);
                let y = h.permutation_not_opt(&x);
                vx::int_eq("output length", y.len(), t);
                let mds = crate::p2::given2::<crate::$f>(concat!(stringify!($n), ".mds"), t, t);
                let rc = crate::p2::given2::<crate::$f>(concat!(stringify!($n), ".rc"), rf + rp, t);
                let z = crate::spec::poseidon(t, d, rf, rp, &mds, &rc, &x);
                for k in 0..t {
                    vx::eq("instance = reference", k, &y[k], &z[k]);
                }
            }
        }
    )* }
}
poseidon! {
    POSEIDON_GOLDILOCKS_8_PARAMS goldilocks poseidon_instance_goldilocks RC8 MDS8;
    POSEIDON_GOLDILOCKS_12_PARAMS goldilocks poseidon_instance_goldilocks RC12 MDS12;
    POSEIDON_GOLDILOCKS_16_PARAMS goldilocks poseidon_instance_goldilocks RC16 MDS16;
    POSEIDON_GOLDILOCKS_20_PARAMS goldilocks poseidon_instance_goldilocks RC20 MDS20;
    POSEIDON_BABYBEAR_16_PARAMS babybear poseidon_instance_babybear RC16 MDS16;
    POSEIDON_BABYBEAR_24_PARAMS babybear poseidon_instance_babybear RC24 MDS24;
    POSEIDON_BLS_2_PARAMS bls poseidon_instance_bls12 RC2 MDS2;
    POSEIDON_BLS_3_PARAMS bls poseidon_instance_bls12 RC3 MDS3;
    POSEIDON_BLS_4_PARAMS bls poseidon_instance_bls12 RC4 MDS4;
    POSEIDON_BLS_8_PARAMS bls poseidon_instance_bls12 RC8 MDS8;
    POSEIDON_BN_PARAMS bn poseidon_instance_bn256 RC3 MDS3;
    POSEIDON_PALLAS_3_PARAMS pallas poseidon_instance_pallas RC3 MDS3;
    POSEIDON_PALLAS_4_PARAMS pallas poseidon_instance_pallas RC4 MDS4;
    POSEIDON_PALLAS_8_PARAMS pallas poseidon_instance_pallas RC8 MDS8;
    POSEIDON_VESTA_PARAMS vesta poseidon_instance_vesta RC3 MDS3;
}
