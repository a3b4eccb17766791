//! Elements and points drawn from a source of randomness (spec/det.qnt, det_draws).
use crate::core::*;
use crate::curve::*;
use crate::det::*;
use crate::field::{FX, L6, P_384, P_FQ};
use crate::jubjub::jubjub_curve::{BlsScalar, JubjubAffine, JubjubExtended};
use bn_254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use num_bigint::BigUint;
use num_traits::One;
use parity_scale_codec::Encode;
use zkstd::common::*;

pub struct Draws;
fn one<T: Group + Encode>(s: &mut Src) -> Vec<u8> { T::random(s).encode() }
/// affine and projective drawing agree on the point
fn pt<A: Group + Encode, P: Group>(s: &mut Src, f: impl Fn(P) -> A) -> Vec<u8> {
    let mut t = s.clone();
    let a = A::random(s).encode();
    let b = f(P::random(&mut t)).encode();
    assert!(a == b && t.at == s.at, "affine and projective points drawn from the same randomness");
    a
}
fn words(b: &[u8]) -> Vec<u64> { b.chunks(8).map(|w| u64::from_le_bytes(w.try_into().unwrap())).collect() }
fn coords(b: &[u8], w: usize, p: &BigUint, ri: &BigUint) -> Vec<BigUint> { b.chunks_exact(w).map(|c| { let v = BigUint::from_bytes_le(c); if v < *p { v * ri % p } else { v } }).collect() }
impl Doer for Draws {
    fn name(&self, k: usize) -> String { ["fr", "fq", "bls", "b384", "fq2", "fq6", "fq12", "g1", "g2", "grumpkin", "jubjub"][k].into() }
    fn width(&self, k: usize) -> usize { if k == 3 { width_of(|s| { L6::draw(s); }) } else if k == 2 || k == 10 { width_of(|s| { BlsScalar::random(s); }) } else { width_of(|s| { Fq::random(s); }) } }
    fn run(&self, k: usize, _x: usize, s: &mut Src) -> Vec<u8> {
        match k {
            0 => one::<Fr>(s), 1 => one::<Fq>(s), 2 => one::<BlsScalar>(s), 3 => L6::draw(s).0.iter().flat_map(|l| l.to_le_bytes()).collect(),
            4 => one::<Fq2>(s), 5 => one::<Fq6>(s), 6 => one::<Fq12>(s),
            7 => pt::<G1Affine, G1Projective>(s, |p| p.into()), 8 => pt::<G2Affine, G2Projective>(s, |p| p.into()),
            9 => pt::<grumpkin::Affine, grumpkin::Projective>(s, |p| p.into()), _ => pt::<JubjubAffine, JubjubExtended>(s, |p| p.into()),
        }
    }
    fn draws(&self, k: usize, n: usize, s: &mut Src) -> (Vec<Vec<BigUint>>, BigUint) {
        let (p, w, c) = match k { 0 => (Fr::p(), 32, 1), 1 => (Fq::p(), 32, 1), 2 => (BlsScalar::p(), 32, 1), 3 => (P_384.parse().unwrap(), 48, 1), 4 => (Fq::p(), 32, 2), 5 => (Fq::p(), 32, 6), 6 => (Fq::p(), 32, 12),
            7 => (Fq::p(), 32, 1), 8 => (Fq::p(), 32, 2), 9 => (Fr::p(), 32, 1), _ => (BlsScalar::p(), 32, 1) };
        let ri = modinv(&((BigUint::one() << (8 * w)) % &p), &p);
        let l = (0..n).map(|_| { let mut v = coords(&self.run(k, 0, s), w, &p, &ri); v.truncate(c); v }).collect();
        (l, p)
    }
}
