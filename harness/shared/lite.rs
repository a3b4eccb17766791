//! Abstraction functions between the real field, row and point types and big integers, through their public codecs only.
use crate::core::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use parity_scale_codec::{Decode, Encode};
use zkstd::circuit::CircuitDriver;
use zkstd::common::*;
use zkstd::matrix::SparseRow;

pub const R_STR: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
pub const Q_STR: &str = "21888242871839275222246405745257275088696311157297823662689037894645226208583";
pub fn r_mod() -> BigUint { R_STR.parse().unwrap() }
pub fn q_mod() -> BigUint { Q_STR.parse().unwrap() }

/// integer -> field element of modulus p (Montgomery form with radix 2^256)
pub fn fe<F: Decode>(v: &BigUint, p: &BigUint) -> F {
    let m = ((v % p) << 256u32) % p;
    F::decode(&mut &bytes_le(&m, 32)[..]).expect("field codec")
}
pub fn fei<F: Decode>(v: &BigInt, p: &BigUint) -> F { fe(&bu(v), p) }
pub fn val<F: Encode>(f: &F, p: &BigUint) -> BigUint {
    let r = BigUint::from_bytes_le(&f.encode());
    let ri = modinv(&((BigUint::one() << 256u32) % p), p);
    r * ri % p
}

#[derive(Decode, Debug)]
pub enum W {
    Instance(#[codec(compact)] u64),
    Witness(#[codec(compact)] u64),
}
pub fn terms<F: PrimeField>(r: &SparseRow<F>) -> Vec<(W, F)> { Vec::<(W, F)>::decode(&mut &r.encode()[..]).expect("row codec") }

/// prime field of a circuit driver, and the modulus, known independently of the code
pub trait Drv: CircuitDriver {
    fn p() -> BigUint;
    fn e(v: &BigUint) -> Self::Scalar { fe(v, &Self::p()) }
    fn ei(v: &BigInt) -> Self::Scalar { fei(v, &Self::p()) }
    fn v(f: &Self::Scalar) -> BigUint { val(f, &Self::p()) }
}
impl Drv for zkgroth16::Bn254Driver { fn p() -> BigUint { r_mod() } }
impl Drv for zknova::GrumpkinDriver { fn p() -> BigUint { q_mod() } }
impl Drv for zknova::Bn254Driver { fn p() -> BigUint { r_mod() } }
