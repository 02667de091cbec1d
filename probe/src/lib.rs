//! Analysis entry contexts for zkhash.  Only type-checked and lowered to MIR;
//! never linked, never executed.
#![allow(dead_code, non_camel_case_types)]
#[cfg(not(no_api))]
pub mod api;
#[cfg(not(no_gmimc))]
pub mod gmimc;
#[cfg(not(no_inst_gmimc))]
pub mod inst_gmimc;
#[cfg(not(no_inst_neptune))]
pub mod inst_neptune;
#[cfg(not(no_inst_p2))]
pub mod inst_p2;
#[cfg(not(no_inst_poseidon))]
pub mod inst_poseidon;
#[cfg(not(no_merkle))]
pub mod merkle;
#[cfg(not(no_misc))]
pub mod misc;
#[cfg(not(no_neptune))]
pub mod neptune;
pub mod p2;
#[cfg(not(no_poseidon))]
pub mod poseidon;
#[cfg(not(no_pure))]
pub mod pure;
pub mod spec;
pub mod vx;

pub type goldilocks = zkhash::fields::goldilocks::FpGoldiLocks;
pub type babybear = zkhash::fields::babybear::FpBabyBear;
pub type bls = zkhash::fields::bls12::FpBLS12;
pub type bn = zkhash::fields::bn256::FpBN256;
pub type pallas = zkhash::fields::pallas::FpPallas;
pub type vesta = zkhash::fields::vesta::FpVesta;
