//! Replays behaviours of spec/gadget.qnt in the real circuit gadgets.
use crate::core::*;
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use zkstd::circuit::prelude::*;
use zkstd::common::*;

struct S<D: Drv> {
    cs: R1cs<D>,
    regs: Vec<FieldAssignment<D::Scalar>>,
    bits: Vec<BinaryAssignment>,
}
impl<D: Drv> S<D> {
    fn new() -> Self {
        let mut cs = R1cs::default();
        let bits = (0..4).map(|i| BinaryAssignment::witness(&mut cs, i % 2)).collect();
        Self { cs, regs: (0..4u32).map(|i| FieldAssignment::constant(&D::e(&BigUint::from(i)))).collect(), bits }
    }
    fn bit(&self, i: usize) -> BigUint { D::v(&FieldAssignment::from(&self.bits[i]).value(&self.cs)) }
}

pub fn replay<D: Drv>(files: &[String], rep: &mut Report) {
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut s = S::<D>::new();
        for st in t.steps() {
            rep.begin(&st, &st.op);
            let a = &st.a;
            let mut out = vec![];
            if rep.guard(&format!("panic/{}", st.op), || out = apply(&mut s, &st.op, a)).is_none() { break; }
            let want: Vec<BigUint> = ints(&st.st["regs"]).iter().map(bu).collect();
            let got: Vec<BigUint> = s.regs.iter().map(|r| D::v(&r.value(&s.cs))).collect();
            let mut ok = rep.expect(&format!("value/{}", st.op), &want, &got);
            let want: Vec<BigUint> = ints(&st.st["bits"]).iter().map(bu).collect();
            ok &= rep.expect(&format!("bit/{}", st.op), &want, &(0..4).map(|i| s.bit(i)).collect());
            let want: Vec<BigUint> = ints(&st.st["pubs"]).iter().map(bu).collect();
            ok &= rep.expect(&format!("public/{}", st.op), &want, &s.cs.x().iter().map(|x| D::v(x)).collect());
            if st.op == "to_bits" { ok &= rep.expect("bits", &st.out.iter().map(bu).collect::<Vec<_>>(), &out); }
            if st.op == "sat" || !st.st["sat"].as_bool().unwrap() || st.idx % 5 == 0 {
                let w = st.st["sat"].as_bool().unwrap();
                let g = rep.guard("panic/sat", || s.cs.is_sat());
                ok &= rep.expect(&format!("{}/{}", if w { "sat" } else { "unsat" }, if st.op == "sat" { "check" } else { &st.op }), &Some(w), &g);
            }
            if !ok { break; }
        }
    }
}

fn apply<D: Drv>(s: &mut S<D>, op: &str, a: &[BigInt]) -> Vec<BigUint> {
    let u = |i: usize| us(&a[i]);
    let cs = &mut s.cs;
    let r = |i: usize| s.regs[us(&a[i])].clone();
    let b = |i: usize| s.bits[us(&a[i])].clone();
    match op {
        "reset" | "init" => *s = S::new(),
        "instance" => s.regs[u(0)] = FieldAssignment::instance(cs, D::ei(&a[1])),
        "witness" => s.regs[u(0)] = FieldAssignment::witness(cs, D::ei(&a[1])),
        "constant" => s.regs[u(0)] = FieldAssignment::constant(&D::ei(&a[1])),
        "binst" => s.bits[u(0)] = BinaryAssignment::instance(cs, u(1) as u8),
        "bwit" => s.bits[u(0)] = BinaryAssignment::witness(cs, u(1) as u8),
        "inputize" => { let x = r(1); s.regs[u(0)] = FieldAssignment::inputize(cs, x) }
        "ladd" => s.regs[u(0)] = &r(1) + &r(2),
        "lsub" => s.regs[u(0)] = &r(1) - &r(2),
        "lneg" => s.regs[u(0)] = -&r(1),
        "mul" => s.regs[u(0)] = FieldAssignment::mul(cs, &r(1), &r(2)),
        "add" => s.regs[u(0)] = FieldAssignment::add(cs, &r(1), &r(2)),
        "square" => s.regs[u(0)] = FieldAssignment::square(cs, &r(1)),
        "cselect" => s.regs[u(0)] = FieldAssignment::conditional_select(cs, &r(1), &r(2), &b(3)),
        "ofbit" => s.regs[u(0)] = FieldAssignment::from(&b(1)),
        "is_eq" => s.bits[u(0)] = FieldAssignment::is_eq(cs, &r(1), &r(2)),
        "is_neq" => s.bits[u(0)] = FieldAssignment::is_neq(cs, &r(1), &r(2)),
        "not" => s.bits[u(0)] = BinaryAssignment::not(cs, &b(1)),
        "and" => s.bits[u(0)] = BinaryAssignment::and(cs, &b(1), &b(2)),
        "enforce_eq" | "cenforce" | "enforce_eq_constant" => {
            let x = r(0);
            let fresh = u(3) == 1;
            let v = D::ei(&a[4]);
            let y = if fresh { FieldAssignment::witness(cs, v) } else { r(1) };
            match op {
                "enforce_eq" => FieldAssignment::enforce_eq(cs, &x, &y),
                "cenforce" => FieldAssignment::conditional_enforce_equal(cs, &x, &y, &b(2)),
                _ => FieldAssignment::enforce_eq_constant(cs, &x, &v),
            }
        }
        "bcenforce" => BinaryAssignment::conditional_enforce_equal(cs, &b(0), &b(1), &b(2)),
        "to_bits" => {
            let l = FieldAssignment::to_bits(cs, &r(0), u(1));
            if !l.is_empty() { s.bits[u(2)] = l[u(3)].clone(); }
            return l.iter().map(|x| D::v(&FieldAssignment::from(x).value(cs))).collect();
        }
        "range_check" => { let l = FieldAssignment::to_bits(cs, &r(0), u(1)); FieldAssignment::range_check(cs, &l, D::ei(&a[2])) }
        "range_bits" => { let l = FieldAssignment::to_bits(cs, &r(0), u(1)); FieldAssignment::range_check_bits(cs, &l, u(2) as u64) }
        "enforce_bits" => { let l = FieldAssignment::to_bits(cs, &r(1), u(2)); FieldAssignment::enforce_eq_bits(cs, &r(0), &l) }
        _ => {}
    }
    vec![]
}
