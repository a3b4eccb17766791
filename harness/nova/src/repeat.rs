//! Keys, foldings, parameters and executions repeated under various randomness (spec/det.qnt, det_nova and det_ivc).
use crate::core::*;
use crate::det::*;
use crate::fold::{build, Prog};
use crate::funs::{Cubic, Linear};
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use parity_scale_codec::{Decode, Encode};
use zknova::verif::*;
use zknova::{Bn254Driver, GrumpkinDriver, Ivc, PedersenCommitment, Prover, PublicParams, R1csShape};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::DenseVectors;

pub struct Keys;
/// two foldings in a row of pairs of x * x = y, y * x = o
fn foldings<C: Drv>(v: u64) -> Vec<u8> where C::Affine: Encode + Decode {
    let i = |x: u32| BigInt::from(x);
    let p = Prog { kinds: vec![0, 1, 1, 0], rows: vec![[vec![i(1), i(1)], vec![i(1), i(1)], vec![i(2), i(1)]], [vec![i(2), i(1)], vec![i(1), i(1)], vec![i(3), i(1)]]] };
    let at = |x: u64| { let x = BigUint::from(x); vec![BigUint::from(1u32), x.clone(), &x * &x, &x * &x * &x] };
    let shape = R1csShape::from(build::<C>(&p, &at(1)));
    let ck = PedersenCommitment::<C::Affine>::new(2, &mut Rng(4));
    let prover = Prover::new(shape.clone(), ck.clone());
    let one = |x: u64| { let z = at(x); let w: Vec<C::Scalar> = vec![C::e(&z[1]), C::e(&z[2])]; (instance::<C>(commit(&ck, w.clone()), vec![C::e(&z[3])]), witness::<C>(w)) };
    let (a, b, c) = (one(v), one(v + 1), one(v + 9));
    let mut run = (relaxed::<C>(instance_parts(&a.0).0, C::Affine::ADDITIVE_IDENTITY, C::Scalar::one(), instance_parts(&a.0).1), relaxed_witness::<C>(witness_parts(&a.1), vec![C::Scalar::zero(); 2]));
    let mut out = vec![];
    for (i, w) in [&b, &c] {
        let (n, m, t) = prover.prove(&run.0, &run.1, i, w);
        let (cw, ce, u, x) = relaxed_parts(&n);
        let (w, e) = relaxed_witness_parts(&m);
        out.extend((cw, ce, t).encode());
        out.extend((u, x, w, e).encode());
        run = (n, m);
    }
    out
}
impl Doer for Keys {
    fn name(&self, k: usize) -> String { if k < 4 { format!("key/grumpkin/{k}") } else if k < 8 { format!("key/bn254/{}", k - 4) } else { ["fold/grumpkin", "fold/bn254"][k - 8].into() } }
    fn width(&self, _k: usize) -> usize { width_of(|s| { bn_254::Fr::random(s); }) }
    fn run(&self, k: usize, x: usize, s: &mut Src) -> Vec<u8> {
        match k {
            0..=3 => PedersenCommitment::<grumpkin::Affine>::new(k as u64, s).encode(),
            4..=7 => PedersenCommitment::<bn_254::G1Affine>::new(k as u64 - 4, s).encode(),
            8 => foldings::<GrumpkinDriver>(x as u64 + 2), _ => foldings::<Bn254Driver>(x as u64 + 2),
        }
    }
}

type PP = PublicParams<Bn254Driver, GrumpkinDriver, Cubic<bn_254::Fr>, Linear<bn_254::Fq>>;
pub struct Executions { pp: PP }
impl Executions { pub fn new() -> Self { Executions { pp: crate::ivc::cheap_params() } } }
impl Doer for Executions {
    fn name(&self, k: usize) -> String { ["params", "execution"][k].into() }
    fn width(&self, _k: usize) -> usize { width_of(|s| { bn_254::Fr::random(s); }) }
    fn run(&self, k: usize, x: usize, s: &mut Src) -> Vec<u8> {
        if k == 0 { return PP::setup(s).encode() }
        let mut ivc = Ivc::init(&self.pp, DenseVectors::new(vec![bn_254::Fr::from(5)]), DenseVectors::new(vec![bn_254::Fq::from(6)]));
        let mut out = vec![];
        for _ in 0..=x { out = ivc.prove_step(&self.pp).encode(); }
        out
    }
}
