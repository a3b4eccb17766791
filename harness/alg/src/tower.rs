//! Replays behaviours of spec/tower.qnt in Fq2, Fq6 and Fq12.
use crate::core::*;
use crate::field::{FX, P_FQ};
use bn_254::{Fq, Fq12, Fq2, Fq6};
use num_bigint::{BigInt, BigUint};
use num_traits::{ToPrimitive, Zero};
use parity_scale_codec::{Decode, Encode};
use std::cmp::Ordering;
use zkstd::common::*;

/// builds an element from its integer coefficients through the raw codec, independently of the arithmetic
pub fn build<T: Decode>(c: &[BigUint]) -> T {
    let mut b = vec![];
    for x in c { for l in Fq::of_int(x).raw() { b.extend_from_slice(&l.to_le_bytes()); } }
    T::decode(&mut &b[..]).expect("element decodes")
}
pub fn proj<T: Encode>(x: &T) -> Option<Vec<BigUint>> {
    let b = x.encode();
    b.chunks(32).map(|c| {
        let l: Vec<u64> = c.chunks(8).map(|w| u64::from_le_bytes(w.try_into().unwrap())).collect();
        Fq::of_raw(&l).int()
    }).collect()
}
#[derive(Clone, Copy)]
enum E { A(Fq2), B(Fq6), C(Fq12) }
impl E {
    fn of(c: &[BigUint]) -> E { match c.len() { 2 => E::A(build(c)), 6 => E::B(build(c)), 12 => E::C(build(c)), _ => panic!("dim") } }
    fn ints(&self) -> Option<Vec<BigUint>> { match self { E::A(x) => proj(x), E::B(x) => proj(x), E::C(x) => proj(x) } }
    fn a(&self) -> Fq2 { if let E::A(x) = self { *x } else { panic!("level") } }
}
fn bin<T>(op: &str, f: usize, a: T, b: T) -> T
where T: PrimeField + for<'a> std::ops::Add<&'a T, Output = T> {
    match (op, f) {
        ("add", 0) => a + b, ("add", 4) => { let mut c = a; c += b; c } ("add", 5) => { let mut c = a; c += &b; c }
        ("sub", 0) => a - b, ("sub", 4) => { let mut c = a; c -= b; c } ("sub", 5) => { let mut c = a; c -= &b; c }
        ("mul", 0) => a * b, ("mul", 4) => { let mut c = a; c *= b; c } ("mul", 5) => { let mut c = a; c *= &b; c }
        _ => unreachable!(),
    }
}
macro_rules! refs { ($t:ty, $op:expr, $f:expr, $a:expr, $b:expr) => {{
    let (a, b): ($t, $t) = ($a, $b);
    match ($op, $f) {
        ("add", 1) => &a + &b, ("add", 2) => &a + b, ("add", 3) => a + &b,
        ("sub", 1) => &a - &b, ("sub", 2) => &a - b, ("sub", 3) => a - &b,
        ("mul", 1) => &a * &b, ("mul", 2) => a * b, ("mul", 3) => a * &b,
        _ => bin($op, $f, a, b),
    }
}}; }
fn un<T: PrimeField>(op: &str, f: usize, a: T) -> T {
    match (op, f) {
        ("neg", 0) => -a, ("neg", _) => T::zero() - a,
        ("dbl", 0) => a.double(), ("dbl", _) => { let mut c = a; c.double_assign(); c }
        (_, 0) => a.square(), (_, _) => { let mut c = a; c.square_assign(); c }
    }
}
fn konst<T: PrimeField>(op: &str) -> T { match op { "zero" => T::zero(), "one" => T::one(), "addid" => T::ADDITIVE_IDENTITY, _ => T::MULTIPLICATIVE_IDENTITY } }
fn cmp<T: PrimeField>(a: T, b: T) -> Result<(bool, bool), String> {
    let o = a.cmp(&b);
    let ok = (a == b) == !(a != b) && a.partial_cmp(&b) == Some(o) && (a < b) == (o == Ordering::Less) && (a <= b) == (o != Ordering::Greater)
        && (a > b) == (o == Ordering::Greater) && (a >= b) == (o != Ordering::Less) && b.cmp(&a) == o.reverse() && (o == Ordering::Equal) == (a == b);
    if ok { Ok((a == b, a.is_zero())) } else { Err(format!("comparison forms disagree: cmp {o:?} lt {} le {} gt {} ge {} eq {}", a < b, a <= b, a > b, a >= b, a == b)) }
}
pub fn div<T: PrimeField>(f: usize, a: T, b: T) -> T { if f == 0 { a / b } else { let mut c = a; c /= b; c } }
pub fn small2(v: Vec<BigUint>) -> Vec<BigUint> {
    let p: BigUint = P_FQ.parse().unwrap();
    let n: Vec<BigUint> = v.iter().map(|x| if x.is_zero() { x.clone() } else { &p - x }).collect();
    if (&v[1], &v[0]) <= (&n[1], &n[0]) { v } else { n }
}

pub fn replay(files: &[String], r: &mut Report) {
    for path in files {
        let t = Trace::load(path);
        r.trace(&t);
        let mut regs: Vec<E> = vec![];
        for s in t.steps() {
            let want: Vec<Vec<BigUint>> = s.st["regs"].as_array().unwrap().iter().map(|x| ints(x).iter().map(bu).collect()).collect();
            if s.op == "init" { regs = want.iter().map(|c| E::of(c)).collect(); continue; }
            let k = us(&s.a[0]);
            let lvl = ["fq2", "fq6", "fq12"][k / 3];
            let f = match s.op.as_str() { "add" | "sub" | "mul" | "div" => us(&s.a[3]), "neg" | "dbl" | "sqr" => us(&s.a[2]), _ => 0 };
            r.begin(&s, &format!("{lvl}.{}.{f}", s.op));
            let sig = format!("{lvl}/{}/{f}", s.op);
            let g = |i: usize| regs[us(&s.a[i])];
            let mut res: Option<E> = None;
            match s.op.as_str() {
                "load" => res = Some(E::of(&s.a[1..].iter().map(bu).collect::<Vec<_>>())),
                "copy" => res = Some(g(1)),
                "add" | "sub" | "mul" => { let (a, b) = (g(1), g(2)); let op = s.op.as_str(); res = r.guard(&sig, || match (a, b) {
                    (E::A(a), E::A(b)) => E::A(refs!(Fq2, op, f, a, b)), (E::B(a), E::B(b)) => E::B(refs!(Fq6, op, f, a, b)),
                    (E::C(a), E::C(b)) => E::C(refs!(Fq12, op, f, a, b)), _ => unreachable!() }) }
                "neg" | "dbl" | "sqr" => { let a = g(1); let op = s.op.as_str(); res = r.guard(&sig, || match a {
                    E::A(a) => E::A(un(op, f, a)), E::B(a) => E::B(un(op, f, a)), E::C(a) => E::C(un(op, f, a)) }) }
                "div" => { let (a, b) = (g(1), g(2)); res = r.guard(&sig, || match (a, b) {
                    (E::A(a), E::A(b)) => E::A(div(f, a, b)), (E::B(a), E::B(b)) => E::B(div(f, a, b)), (E::C(a), E::C(b)) => E::C(div(f, a, b)), _ => unreachable!() }) }
                "frob" => { let a = g(1); res = r.guard(&sig, || match a { E::A(a) => E::A(a.frobenius_map()), E::B(a) => E::B(a.frobenius_map()), E::C(a) => E::C(a.frobenius_map()) }) }
                "conj" => { let a = g(1); res = r.guard(&sig, || if let E::C(a) = a { E::C(a.conjugate()) } else { unreachable!() }) }
                "by1" | "by01" | "by034" => { let (a, x, y, z) = (g(1), g(2).a(), g(3).a(), g(4).a()); let op = s.op.as_str(); res = r.guard(&sig, || match (a, op) {
                    (E::B(a), "by1") => E::B(a.mul_by_1(x)), (E::B(a), _) => E::B(a.mul_by_01(x, y)), (E::C(a), _) => E::C(a.mul_by_034(x, y, z)), _ => unreachable!() }) }
                "zero" | "one" | "addid" | "mulid" => { let op = s.op.as_str(); res = r.guard(&sig, || match k / 3 { 0 => E::A(konst(op)), 1 => E::B(konst(op)), _ => E::C(konst(op)) }) }
                "pow" => { let a = g(1).a(); let l = arr::<4>(&limbs(&bu(&s.a[2]), 4)); res = r.guard(&sig, || E::A(a.pow_vartime(&l))) }
                "cmp" => {
                    let (a, b) = (g(0), g(1));
                    let got = r.guard(&sig, || match (a, b) { (E::A(a), E::A(b)) => cmp(a, b), (E::B(a), E::B(b)) => cmp(a, b), (E::C(a), E::C(b)) => cmp(a, b), _ => unreachable!() });
                    match got { Some(Ok(g)) => { r.expect(&sig, &(!s.out[0].is_zero(), !s.out[1].is_zero()), &g); } Some(Err(m)) => r.fail(&sig, "one total order", m), None => {} }
                }
                "inv" => {
                    let a = g(1);
                    if let Some(got) = r.guard(&sig, || match a { E::A(a) => Group::invert(a).map(E::A), E::B(a) => Group::invert(a).map(E::B), E::C(a) => Group::invert(a).map(E::C) }) {
                        if got.is_some() == s.out.is_empty() { r.fail(&sig, if s.out.is_empty() { "none" } else { "an inverse" }, if got.is_some() { "some" } else { "none" }); }
                        if !s.out.is_empty() { res = got; }
                    }
                }
                "sqrt" => {
                    let a = g(1).a();
                    if let Some(got) = r.guard(&sig, || a.sqrt()) {
                        if got.is_some() == s.out.is_empty() { r.fail(&sig, if s.out.is_empty() { "none" } else { "a root" }, if got.is_some() { "some" } else { "none" }); }
                        if let (Some(x), false) = (got, s.out.is_empty()) {
                            // either root is a correct answer: normalise to the smaller one, independently of the code
                            match proj(&x) { Some(v) => res = Some(E::of(&small2(v))), None => r.fail(&sig, "canonical", "non-canonical") }
                        }
                    }
                }
                o => panic!("unknown op {o}"),
            }
            if let Some(x) = res { regs[k] = x; }
            for i in 0..regs.len() {
                let got = regs[i].ints();
                if got.as_ref() != Some(&want[i]) {
                    r.fail(&sig, format!("r{i}={:?}", want[i]), format!("r{i}={got:?}"));
                    regs[i] = E::of(&want[i]);
                }
            }
        }
    }
}
