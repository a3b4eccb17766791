//! Set-ups and proofs repeated under various randomness and numbers of threads (spec/det.qnt, det_groth).
use crate::core::*;
use crate::det::*;
use bn_254::{Fr, G1Affine, G2Affine};
use parity_scale_codec::Encode;
use std::sync::Mutex;
use zkgroth16::verif::proof_parts;
use zkgroth16::{Bn254Driver, Circuit, Error, Prover, ZkSnark};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

macro_rules! chain { ($name:ident, $rows:expr) => {
    /// x^(2^rows) + x = out
    #[derive(Debug, Default)]
    struct $name { x: u64 }
    impl Circuit for $name {
        fn synthesize(&self, cs: &mut R1cs<Bn254Driver>) -> Result<(), Error> {
            let v = Fr::from(self.x);
            let x = FieldAssignment::witness(cs, v);
            let mut o = v;
            for _ in 0..$rows { o = o * o; }
            let out = FieldAssignment::instance(cs, o + v);
            let mut s = x.clone();
            for _ in 0..$rows { s = FieldAssignment::mul(cs, &s, &s); }
            FieldAssignment::enforce_eq(cs, &(&s + &x), &out);
            Ok(())
        }
    }
} }
chain!(Short, 1);
chain!(Middle, 20);
chain!(Long, 290);

pub struct Repeat { keys: Vec<Mutex<Prover>>, width: usize }
fn setup<C: Circuit>(s: &mut Src) -> Prover { ZkSnark::setup::<C>(s).expect("set-up").0 }
impl Repeat {
    pub fn new() -> Self {
        let mut s = Src::new(77);
        Repeat { keys: vec![Mutex::new(setup::<Short>(&mut s)), Mutex::new(setup::<Middle>(&mut s)), Mutex::new(setup::<Long>(&mut s))], width: width_of(|s| { Fr::random(s); }) }
    }
}
fn all<T: Encode>(b: &mut Vec<u8>, l: &[T]) { for x in l { b.extend(x.encode()) } }
impl Doer for Repeat {
    fn name(&self, k: usize) -> String { ["setup", "prove"][k].into() }
    fn width(&self, _k: usize) -> usize { self.width }
    fn run(&self, k: usize, x: usize, s: &mut Src) -> Vec<u8> {
        let mut b = vec![];
        if k == 0 {
            let p = match x { 0 => setup::<Short>(s), 1 => setup::<Middle>(s), _ => setup::<Long>(s) }.params;
            all(&mut b, &[p.vk.alpha_g1, p.vk.beta_g1, p.vk.delta_g1]);
            all(&mut b, &[p.vk.beta_g2, p.vk.gamma_g2, p.vk.delta_g2]);
            for l in [&p.vk.ic, &p.h, &p.l, &p.a, &p.b_g1] { all(&mut b, l) }
            all(&mut b, &p.b_g2);
        } else {
            let v = 3 + 4 * (x as u64 % 2);
            // one prover for every proof under a key: earlier proofs leave no mark
            let mut p = self.keys[x / 2].lock().unwrap_or_else(|e| e.into_inner());
            let q = match x / 2 { 0 => p.create_proof(s, Short { x: v }), 1 => p.create_proof(s, Middle { x: v }), _ => p.create_proof(s, Long { x: v }) }.expect("proof");
            let (x, y, z) = proof_parts(&q);
            all(&mut b, &[x, z]);
            all(&mut b, &[y]);
        }
        b
    }
}
