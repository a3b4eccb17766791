//! Step functions of the specification (spec/nifs.qnt, apply).
use parity_scale_codec::{Decode, Encode};
use std::marker::PhantomData;
use zknova::FunctionCircuit;
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::DenseVectors;

macro_rules! fun { ($name:ident, |$z:ident| $native:expr, |$cs:ident, $w:ident| $circuit:expr) => {
    #[derive(Debug, Clone, Default, PartialEq, Eq, Encode, Decode)]
    pub struct $name<Field: PrimeField> { mark: PhantomData<Field> }
    impl<F: PrimeField> FunctionCircuit<F> for $name<F> {
        fn invoke(z: &DenseVectors<F>) -> DenseVectors<F> { let $z = z.get(); DenseVectors::new($native) }
        fn invoke_cs<C: CircuitDriver<Scalar = F>>($cs: &mut R1cs<C>, $w: Vec<FieldAssignment<F>>) -> Vec<FieldAssignment<F>> { $circuit }
    }
} }
fun!(Cubic, |z| z.iter().map(|x| *x * *x * *x + *x + F::from(5)).collect(), |cs, w| {
    w.iter().map(|x| { let s = FieldAssignment::mul(cs, x, x); let c = FieldAssignment::mul(cs, &s, x); &(&c + x) + &FieldAssignment::constant(&F::from(5)) }).collect()
});
fun!(Same, |z| z, |cs, w| w);
fun!(Linear, |z| z.iter().map(|x| *x * F::from(3) + F::from(7)).collect(), |cs, w| {
    w.iter().map(|x| &FieldAssignment::mul(cs, x, &FieldAssignment::constant(&F::from(3))) + &FieldAssignment::constant(&F::from(7))).collect()
});
fun!(Pair, |z| if z.len() < 2 { z } else { let mut n = z[1..].to_vec(); n.push(z[0] * z[1]); n }, |cs, w| if w.len() < 2 { w } else {
    let mut n = w[1..].to_vec();
    n.push(FieldAssignment::mul(cs, &w[0], &w[1]));
    n
});
