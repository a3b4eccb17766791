//! Replays behaviours of spec/bignat.qnt in the real big-integer gadgets.
use crate::core::*;
use crate::lie::*;
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use zknova::verif::*;
use zkstd::circuit::prelude::*;
use zkstd::common::*;

type F<D> = <D as CircuitDriver>::Scalar;
struct S<D: Drv> { cs: R1cs<D>, n: Vec<BigNat<F<D>>> }
impl<D: Drv> S<D> {
    fn new() -> Self {
        let mut cs = R1cs::default();
        let all = (BigInt::one() << 256u32) - 1;
        let n = [BigInt::zero(), BigInt::one(), BigInt::from(D::p()), all].into_iter().map(|v| BigNat::witness_from_big_int(&mut cs, v, 64, 4)).collect();
        S { cs, n }
    }
}
fn limbs_of<D: Drv>(cs: &R1cs<D>, n: &BigNat<F<D>>) -> Vec<BigUint> { n.as_limbs().iter().map(|l| D::v(&l.value(cs))).collect() }

pub fn replay<D: Drv>(files: &[String], rep: &mut Report) {
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut s = S::<D>::new();
        for st in t.steps() {
            if st.op == "init" { continue }
            rep.begin(&st, &st.op);
            if st.op.starts_with("lie_") { if !attack::<D>(&st, rep) { break } continue }
            let mut out: Option<Vec<BigInt>> = None;
            if rep.guard(&format!("panic/{}", st.op), || out = apply(&mut s, &st.op, &st.a)).is_none() { break }
            let mut ok = true;
            if let Some(o) = out { ok &= rep.expect(&format!("out/{}", st.op), &st.out, &o); }
            let want: Vec<Vec<BigUint>> = st.st["nums"].as_array().unwrap().iter().map(|n| ints(&n["limbs"]).iter().map(bu).collect()).collect();
            let got: Vec<Vec<BigUint>> = s.n.iter().map(|n| limbs_of(&s.cs, n)).collect();
            ok &= rep.expect(&format!("limbs/{}", st.op), &want, &got);
            for (w, n) in want.iter().zip(&s.n) {
                let v = w.iter().rev().fold(BigInt::zero(), |a, x| (a << 64u32) + BigInt::from(x.clone()));
                ok &= rep.expect(&format!("value/{}", st.op), &Some(v), &rep_value(&s.cs, n));
            }
            let w = st.st["sat"].as_bool().unwrap();
            if !w || st.idx % 4 == 0 || ["sat", "mult_mod", "red_mod", "carried", "regrouped", "well_formed"].contains(&&st.op[..]) {
                let g = rep.guard("panic/sat", || s.cs.is_sat());
                ok &= rep.expect(&format!("{}/{}", if w { "sat" } else { "unsat" }, st.op), &Some(w), &g);
            }
            if !ok { break }
        }
    }
}
fn rep_value<D: Drv>(cs: &R1cs<D>, n: &BigNat<F<D>>) -> Option<BigInt> { quiet(|| n.value(cs)).ok() }

fn apply<D: Drv>(s: &mut S<D>, op: &str, a: &[BigInt]) -> Option<Vec<BigInt>> {
    let u = |i: usize| us(&a[i]);
    let cs = &mut s.cs;
    let n = |i: usize| s.n[us(&a[i])].clone();
    match op {
        "reset" => *s = S::new(),
        "sat" => {}
        "witness" => s.n[u(0)] = BigNat::witness_from_big_int(cs, a[1].clone(), 64, u(2)),
        // a number that is part of the circuit: a multiple of the one of a limb
        "constant" => s.n[u(0)] = BigNat::constant(a[1].clone(), 64, u(2)),
        "field" => { let f = FieldAssignment::witness(cs, D::ei(&a[1])); s.n[u(0)] = BigNat::witness_from_field_assignment(cs, &f, 64, 4) }
        "add" => s.n[u(0)] = n(1).add(&n(2)),
        "mult_mod" => s.n[u(0)] = n(1).mult_mod(cs, &n(2), &n(3)),
        "red_mod" => s.n[u(0)] = n(1).red_mod(cs, &n(3)),
        "cselect" => {
            let b = BinaryAssignment::witness(cs, u(3) as u8);
            s.n[u(0)] = BigNat::conditional_select(cs, &s.n[us(&a[1])], &s.n[us(&a[2])], &b)
        }
        "limbs_eq" | "carried" | "regrouped" => {
            let x = n(0);
            let y = if u_neg(&a[1]) { BigNat::witness_from_big_int(cs, a[2].clone(), 64, u(3)) } else { n(1) };
            match op {
                "limbs_eq" => BigNat::enforce_eq(cs, &x, &y),
                "carried" => x.enforce_equal_when_carried(cs, &y),
                _ => x.enforce_equal_when_carried_regroup(cs, &y),
            }
        }
        "well_formed" => n(0).enforce_well_formed(cs),
        "group" => { let g = n(0).group_limbs(cs, u(1)); return Some(limbs_of(cs, &g).into_iter().map(BigInt::from).collect()) }
        "value" => return Some(vec![n(0).value(cs)]),
        "convert" => {
            let (v, w, k) = (a[0].clone(), u(1), u(2));
            let f: F<D> = nat_to_f(&v);
            let mut o = vec![BigInt::from(D::v(&f))];
            assert_eq!(f_to_nat(&f), o[0], "field element to integer");
            if w <= 128 {
                let l: Vec<F<D>> = nat_to_limbs(&v, w, k);
                assert_eq!(limbs_to_nat(l.iter().copied(), w), v, "limbs to integer");
                o.extend(l.iter().map(|x| BigInt::from(D::v(x))));
            }
            return Some(o)
        }
        "wide" => return Some(vec![BigInt::from(D::v(&nat_to_f::<F<D>>(&a[0])))]),
        _ => panic!("harness: {op}"),
    }
    None
}
fn u_neg(x: &BigInt) -> bool { x < &BigInt::zero() }

/// false when the rest of the trace is not worth running
fn attack<D: Drv>(st: &Step, rep: &mut Report) -> bool {
    let (a, b, m) = (st.a[0].clone(), st.a[1].clone(), st.a[2].clone());
    let op = st.op.clone();
    let build = |cs: &mut R1cs<D>| -> Io<D> {
        let mut w = |v: &BigInt| BigNat::witness_from_big_int(cs, v.clone(), 64, 4);
        let f = |n: &BigNat<F<D>>| n.as_limbs();
        match &op[4..] {
            "mult_mod" => { let (x, y, m) = (w(&a), w(&b), BigNat::constant(m.clone(), 64, 4)); let o = x.mult_mod(cs, &y, &m); Io { ins: [f(&x), f(&y)].concat(), outs: f(&o) } }
            "red_mod" => { let (x, m) = (w(&a), BigNat::constant(m.clone(), 64, 4)); let o = x.red_mod(cs, &m); Io { ins: f(&x), outs: f(&o) } }
            "carried" => { let (x, y) = (w(&a), w(&b)); x.enforce_equal_when_carried(cs, &y); Io { ins: [f(&x), f(&y)].concat(), outs: vec![] } }
            "regrouped" => { let (x, y) = (w(&a), w(&b)); x.enforce_equal_when_carried_regroup(cs, &y); Io { ins: [f(&x), f(&y)].concat(), outs: vec![] } }
            // a sum whose limbs may not fit
            "well_formed" => { let (x, y) = (w(&a), w(&b)); let o = x.add(&y); o.enforce_well_formed(cs); Io { ins: [f(&x), f(&y)].concat(), outs: f(&o) } }
            "field" => { let x = FieldAssignment::witness(cs, D::ei(&a)); let o = BigNat::witness_from_field_assignment(cs, &x, 64, 4); Io { ins: vec![x], outs: f(&o) } }
            _ => { let (x, y) = (w(&a), w(&b)); let c = BinaryAssignment::witness(cs, 1); let o = BigNat::conditional_select(cs, &x, &y, &c); Io { ins: [f(&x), f(&y), vec![FieldAssignment::from(&c)]].concat(), outs: f(&o) } }
        }
    };
    let Some(at) = rep.guard(&format!("panic/{op}"), || Attack::<D>::new(&build)) else { return false };
    let whole = |l: &[BigUint]| l.iter().rev().fold(BigInt::zero(), |a, x| (a << 64u32) + BigInt::from(x.clone()));
    let narrow = |l: &[BigUint]| l.iter().all(|x| x.bits() <= 64);
    // what the specification allows
    let fine = |ins: &[BigUint], outs: &[BigUint]| -> bool { match &op[4..] {
        "mult_mod" | "red_mod" => narrow(outs) && (whole(outs) - &st.out[0]) % &m == BigInt::zero(),
        "carried" | "regrouped" => st.out[0] == BigInt::one(),
        "well_formed" => narrow(outs),
        _ => narrow(outs) && whole(outs) == st.out[0],
    } };
    if at.satisfied && !fine(&at.ins, &at.outs) { rep.fail(&format!("honest/{op}"), "the specified result", format!("{:?}", at.outs)); return false }
    for l in st.a[3..].chunks(4) {
        let special = [bu(&m), bu(&(&m & ((BigInt::one() << 64u32) - 1))), bu(&b)];
        let lies = at.lies(l, &special);
        if let Some((ins, outs)) = at.run(&lies) {
            if ins == at.ins && !fine(&ins, &outs) {
                rep.fail(&format!("{op}/satisfied"), format!("no satisfied system in which {op} of {:?} is anything but {:?}", &st.a[..3], st.out), format!("lies {lies:?}: {outs:?}"));
                return false;
            }
        }
    }
    true
}
