//! Replays behaviours of spec/ptgadget.qnt in the real in-circuit curve points.
use crate::core::*;
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

struct S<D: Drv> {
    cs: R1cs<D>,
    regs: Vec<PointAssignment<D::Scalar>>,
    bits: Vec<BinaryAssignment>,
}
pub fn affine<D: Drv, A: BNAffine<Base = D::Scalar> + parity_scale_codec::Decode>(c: &[BigInt]) -> A {
    let p = D::p();
    let (x, y, inf) = if c.is_empty() { (BigUint::zero(), BigUint::one(), 1u8) } else { (bu(&c[0]), bu(&c[1]), 0u8) };
    let mut b = bytes_le(&((x << 256u32) % &p), 32);
    b.extend(bytes_le(&((y << 256u32) % &p), 32));
    b.push(inf);
    A::decode(&mut &b[..]).expect("affine codec")
}
fn coords<D: Drv>(s: &S<D>, p: &PointAssignment<D::Scalar>) -> [BigUint; 3] { [p.get_x(), p.get_y(), p.get_z()].map(|f| D::v(&f.value(&s.cs))) }
fn point<D: Drv>(c: &[BigUint; 3]) -> Option<Vec<BigUint>> {
    let p = D::p();
    if c[2].is_zero() { if c[0].is_zero() && !c[1].is_zero() { Some(vec![]) } else { None } } else { let i = modinv(&c[2], &p); Some(vec![&c[0] * &i % &p, &c[1] * &i % &p]) }
}
impl<D: Drv> S<D> {
    fn new<A: BNAffine<Base = D::Scalar> + parity_scale_codec::Decode>(g: &[BigInt]) -> Self {
        let mut cs = R1cs::default();
        let bits = (0..2).map(|i| BinaryAssignment::witness(&mut cs, i % 2)).collect();
        let gx = D::ei(&g[0]);
        let gy = D::ei(&g[1]);
        let regs = (0..4).map(|i| if i % 2 == 0 { PointAssignment::identity() } else { PointAssignment::witness(&mut cs, gx, gy, false) }).collect();
        Self { cs, regs, bits }
    }
}
pub fn replay<D: Drv, A: BNAffine<Base = D::Scalar> + parity_scale_codec::Decode>(files: &[String], rep: &mut Report)
where A::Extended: BNProjective<Base = D::Scalar> + parity_scale_codec::Decode
{
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let g = ints(&t.states[0]["regs"][1]);
        let mut s = S::<D>::new::<A>(&g);
        for st in t.steps() {
            rep.begin(&st, &st.op);
            let a = &st.a;
            if rep.guard(&format!("panic/{}", st.op), || apply::<D, A>(&mut s, &st.op, a, &g)).is_none() { break; }
            let mut ok = true;
            for (k, w) in st.st["regs"].as_array().unwrap().iter().enumerate() {
                let want: Vec<BigUint> = ints(w).iter().map(bu).collect();
                let c = coords(&s, &s.regs[k]);
                ok &= rep.expect(&format!("point/{}", st.op), &Some(want), &point::<D>(&c));
                if st.op == "descale" && us(&a[0]) == k { ok &= rep.expect("descale/normal", &true, &(c[2].is_zero() || c[2].is_one())); }
            }
            if st.op == "sat" || st.op == "pmul" || st.idx % 5 == 0 {
                let w = st.st["sat"].as_bool().unwrap();
                let g = rep.guard("panic/sat", || s.cs.is_sat());
                ok &= rep.expect(&format!("{}/{}", if w { "sat" } else { "unsat" }, st.op), &Some(w), &g);
            }
            if !ok { break; }
        }
    }
}
fn apply<D: Drv, A: BNAffine<Base = D::Scalar> + parity_scale_codec::Decode>(s: &mut S<D>, op: &str, a: &[BigInt], g: &[BigInt])
where A::Extended: BNProjective<Base = D::Scalar> + parity_scale_codec::Decode
{
    let u = |i: usize| us(&a[i]);
    let cs = &mut s.cs;
    let r = |i: usize| s.regs[us(&a[i])].clone();
    match op {
        "reset" | "init" => *s = S::new::<A>(g),
        "pid" => s.regs[u(0)] = PointAssignment::identity(),
        "pinst" => s.regs[u(0)] = PointAssignment::instance(cs, affine::<D, A>(&a[1..])),
        "pwit" => {
            let p = affine::<D, A>(&a[1..]);
            s.regs[u(0)] = PointAssignment::witness(cs, p.get_x(), p.get_y(), p.is_identity())
        }
        "bit" => s.bits[u(0)] = if u(2) == 0 { BinaryAssignment::instance(cs, u(1) as u8) } else { BinaryAssignment::witness(cs, u(1) as u8) },
        "padd" => s.regs[u(0)] = r(1).add(&r(2), cs),
        "pdbl" => s.regs[u(0)] = r(1).double(cs),
        "pmul" => {
            let v = D::ei(&a[3]);
            let k = if u(2) == 0 { FieldAssignment::instance(cs, v) } else { FieldAssignment::witness(cs, v) };
            s.regs[u(0)] = r(1).scalar_point(cs, &k)
        }
        "pcsel" => { let b = s.bits[u(3)].clone(); s.regs[u(0)] = PointAssignment::conditional_select(cs, &r(1), &r(2), &b) }
        "pselid" => { let b = s.bits[u(3)].clone(); s.regs[u(0)] = r(1).select_identity(cs, &b) }
        "descale" => s.regs[u(0)] = r(1).descale(cs),
        "passert" => {
            let p = D::p();
            let z = bu(&a[1]);
            let (x, y, z) = if a.len() == 2 { (BigUint::zero(), z, BigUint::zero()) } else { (bu(&a[2]) * &z, bu(&a[3]) * &z, z) };
            let mut b = vec![];
            for c in [x, y, z] { b.extend(bytes_le(&((c << 256u32) % &p), 32)); }
            let e = A::Extended::decode(&mut &b[..]).expect("projective codec");
            r(0).assert_equal_public_point(cs, e)
        }
        _ => {}
    }
}
