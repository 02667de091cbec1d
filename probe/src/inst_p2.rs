//! One module of entries per shipped p2 instance.
#![allow(non_snake_case)]
macro_rules! p2 {
    ($($n:ident $f:ident $m:ident $rc:ident $diag:ident $mat:ident;)*) => { $(
        pub mod $n {
            use crate::{p2::vec1, vx};
            use std::sync::Arc;
            use zkhash::ark_ff::Zero;
            use zkhash::poseidon2::{$m as i, poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};
            pub fn build() {
                let _p = &*i::$n;
            }
            pub fn dump() {
                let p = &*i::$n;
                vx::dump("params", &**p);
                vx::note("t", Poseidon2::new(p).get_t());
                vx::dump("RC", &*i::$rc);
                vx::dump("DIAG", &*i::$diag);
                vx::dump("MAT", &*i::$mat);
            }
            /// this instance evaluates the specification with the reference parameters
            pub fn perm(t: usize, d: usize, rf: usize, rp: usize) {
                let h = Poseidon2::new(&i::$n);
                vx::int_eq("state size", h.get_t(), t);
                let x = vec1::<crate::$f>("x", t);
                vx::begin();
                let y = h.permutation(&x);
                vx::end();
                vx::int_eq("output length", y.len(), t);
                let diag = crate::p2::given1::<crate::$f>(concat!(stringify!($n), ".diag"), t);
                let rc = crate::p2::given2::<crate::$f>(concat!(stringify!($n), ".rc"), rf + rp, t);
                let z = crate::spec::p2(t, d, rf, rp, &diag, &rc, &x);
                for k in 0..t {
                    vx::eq("instance = reference", k, &y[k], &z[k]);
                }
            }
            /// columns of the internal matrix applied with this instance's diagonal:
            /// one internal round without constants on the preimages of the unit vectors
            pub fn internal(t: usize, d: usize) {
                let zero = vec![vec![crate::$f::zero(); t]; 1];
                let h = Poseidon2::new(&Arc::new(Poseidon2Params::new(t, d, 0, 1, &i::$diag, &i::$mat, &zero)));
                let inv = crate::spec::inverse(&crate::spec::p2_external::<crate::$f>(t));
                let mut cols = Vec::new();
                for j in 0..t {
                    let mut x = Vec::new();
                    for k in 0..t {
                        x.push(inv[k][j]);
                    }
                    cols.push(h.permutation(&x));
                }
                vx::dump("internal", &cols);
            }
        }
    )* }
}
p2! {
    POSEIDON2_GOLDILOCKS_8_PARAMS goldilocks poseidon2_instance_goldilocks RC8 MAT_DIAG8_M_1 MAT_INTERNAL8;
    POSEIDON2_GOLDILOCKS_12_PARAMS goldilocks poseidon2_instance_goldilocks RC12 MAT_DIAG12_M_1 MAT_INTERNAL12;
    POSEIDON2_GOLDILOCKS_16_PARAMS goldilocks poseidon2_instance_goldilocks RC16 MAT_DIAG16_M_1 MAT_INTERNAL16;
    POSEIDON2_GOLDILOCKS_20_PARAMS goldilocks poseidon2_instance_goldilocks RC20 MAT_DIAG20_M_1 MAT_INTERNAL20;
    POSEIDON2_BABYBEAR_16_PARAMS babybear poseidon2_instance_babybear RC16 MAT_DIAG16_M_1 MAT_INTERNAL16;
    POSEIDON2_BABYBEAR_24_PARAMS babybear poseidon2_instance_babybear RC24 MAT_DIAG24_M_1 MAT_INTERNAL24;
    POSEIDON2_BLS_2_PARAMS bls poseidon2_instance_bls12 RC2 MAT_DIAG2_M_1 MAT_INTERNAL2;
    POSEIDON2_BLS_3_PARAMS bls poseidon2_instance_bls12 RC3 MAT_DIAG3_M_1 MAT_INTERNAL3;
    POSEIDON2_BLS_4_PARAMS bls poseidon2_instance_bls12 RC4 MAT_DIAG4_M_1 MAT_INTERNAL4;
    POSEIDON2_BLS_8_PARAMS bls poseidon2_instance_bls12 RC8 MAT_DIAG8_M_1 MAT_INTERNAL8;
    POSEIDON2_BN256_PARAMS bn poseidon2_instance_bn256 RC3 MAT_DIAG3_M_1 MAT_INTERNAL3;
    POSEIDON2_PALLAS_3_PARAMS pallas poseidon2_instance_pallas RC3 MAT_DIAG3_M_1 MAT_INTERNAL3;
    POSEIDON2_PALLAS_4_PARAMS pallas poseidon2_instance_pallas RC4 MAT_DIAG4_M_1 MAT_INTERNAL4;
    POSEIDON2_PALLAS_8_PARAMS pallas poseidon2_instance_pallas RC8 MAT_DIAG8_M_1 MAT_INTERNAL8;
    POSEIDON2_VESTA_PARAMS vesta poseidon2_instance_vesta RC3 MAT_DIAG3_M_1 MAT_INTERNAL3;
}
