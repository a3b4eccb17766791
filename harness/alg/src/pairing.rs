//! Replays behaviours of spec/pairing.qnt. A GT value is compared with e(G1, G2)^x computed here with big integers in
//! Fq[w]/(w^12 - 18 w^6 + 82), independently of the tower arithmetic under test.
use crate::core::*;
use crate::curve::{aff, build_a, G1X, G2X};
use crate::field::{FX, P_FQ, P_FR};
use crate::tower::proj;
use bn_254::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use zkstd::common::*;

type W12 = Vec<BigUint>;
fn to_w(q: &BigUint, c: &[BigUint]) -> W12 {
    let mut p = vec![BigUint::zero(); 12];
    for i in 0..2 { for j in 0..3 {
        let (c0, c1) = (&c[6 * i + 2 * j], &c[6 * i + 2 * j + 1]);
        let e = 2 * j + i;
        p[e] = (&p[e] + c0 + (q - c1) * 9u32) % q;
        p[e + 6] = (&p[e + 6] + c1) % q;
    } }
    p
}
fn wmul(q: &BigUint, a: &W12, b: &W12) -> W12 {
    let mut t = vec![BigUint::zero(); 23];
    for i in 0..12 { if a[i].is_zero() { continue; } for j in 0..12 { t[i + j] += &a[i] * &b[j]; } }
    for i in (12..23).rev() { let h = &t[i] % q; t[i - 6] += &h * 18u32; t[i - 12] += (q - &h) * 82u32; }
    t.truncate(12);
    t.iter_mut().for_each(|x| *x = &*x % q);
    t
}
fn wone() -> W12 { let mut v = vec![BigUint::zero(); 12]; v[0] = BigUint::one(); v }
fn wpow(q: &BigUint, b: &W12, e: &BigUint) -> W12 {
    let mut r = wone();
    for i in (0..e.bits()).rev() { r = wmul(q, &r, &r); if e.bit(i) { r = wmul(q, &r, b); } }
    r
}
fn mul1(k: &BigUint) -> G1Affine { (G1Affine::ADDITIVE_GENERATOR * Fr::of_int(k)).into() }
fn mul2(k: &BigUint) -> G2Affine { (G2Affine::ADDITIVE_GENERATOR * Fr::of_int(k)).into() }

pub fn replay(files: &[String], r: &mut Report) {
    let q: BigUint = P_FQ.parse().unwrap();
    let ord: BigUint = P_FR.parse().unwrap();
    let w = |x: &Gt| proj(&x.0).map(|c| to_w(&q, &c));
    let mut base: Option<W12> = None;
    for path in files {
        let t = Trace::load(path);
        r.trace(&t);
        let (mut g1, mut g2, mut gt): (Vec<G1Affine>, Vec<G2Affine>, Vec<Gt>) = (vec![], vec![], vec![]);
        for s in t.steps() {
            let st = |n: &str| -> Vec<BigUint> { ints(&s.st[n]).iter().map(bu).collect() };
            let want = st("gt");
            let fsel = match s.op.as_str() { "pair" => us(&s.a[3]), "tadd" | "tsub" | "tneg" | "tdbl" | "tmul" => us(&s.a[3]), "multi" => s.a.len() - 1, _ => 0 };
            r.begin(&s, &format!("pairing.{}.{fsel}", s.op));
            let sig = format!("pairing/{}/{fsel}", s.op);
            if base.is_none() {
                let g = r.guard("pairing/generators/0", || AteParing::pairing(G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR));
                let b = g.and_then(|g| w(&g));
                match b {
                    Some(b) => {
                        if b == wone() { r.fail("pairing/degenerate/0", "e(G1,G2) != 1", "1"); }
                        if wpow(&q, &b, &ord) != wone() { r.fail("pairing/order/0", "e(G1,G2)^r = 1", "another value"); }
                        base = Some(b);
                    }
                    None => { r.fail("pairing/generators/0", "an element", "none"); return; }
                }
            }
            let b = base.clone().unwrap();
            if s.op == "init" {
                g1 = st("g1").iter().map(mul1).collect();
                g2 = st("g2").iter().map(mul2).collect();
                gt = want.iter().map(|x| if x.is_zero() { Gt::ADDITIVE_IDENTITY } else { AteParing::pairing(G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR) }).collect();
                continue;
            }
            let ix = |i: usize| us(&s.a[i]);
            let mut res: Option<Gt> = None;
            match s.op.as_str() {
                "load" => { let v = bu(&s.a[2]); let k = ix(1); if ix(0) == 1 { g1[k] = mul1(&v) } else { g2[k] = mul2(&v) } }
                "gadd" => { let (k, i, j) = (ix(1), ix(2), ix(3)); if ix(0) == 1 { g1[k] = (g1[i] + g1[j]).into() } else { g2[k] = (g2[i] + g2[j]).into() } }
                "gneg" => { let (k, i) = (ix(1), ix(2)); if ix(0) == 1 { g1[k] = -g1[i] } else { g2[k] = -g2[i] } }
                "gmul" => { let (k, i) = (ix(1), ix(2)); let f = Fr::of_int(&bu(&s.a[3])); if ix(0) == 1 { g1[k] = (g1[i] * f).into() } else { g2[k] = (g2[i] * f).into() } }
                "pair" => { let (p, x) = (g1[ix(1)], g2[ix(2)]); res = r.guard(&sig, || match fsel {
                    0 => AteParing::pairing(p, x), 1 => AteParing::multi_miller_loop(&[(p, G2PairingAffine::from(x))]).final_exp(),
                    _ => { let pp = G2PairingAffine::from(x); AteParing::multi_miller_loop(&[(p, pp.clone()), (G1Affine::ADDITIVE_IDENTITY, pp)]).final_exp() } }) }
                "multi" => { let n = g1.len(); let v: Vec<_> = s.a[1..].iter().map(|x| (g1[us(x) / n], g2[us(x) % n])).collect();
                    res = r.guard(&sig, || AteParing::multi_miller_loop(&v.iter().map(|(a, b)| (*a, G2PairingAffine::from(*b))).collect::<Vec<_>>()).final_exp()) }
                "tadd" | "tsub" | "tneg" | "tdbl" | "tmul" => { let (x, y) = (gt[ix(1)], gt[ix(2)]); let op = s.op.as_str(); res = r.guard(&sig, || match (op, fsel) {
                    ("tadd", 0) => x + y, ("tadd", 1) => &x + &y, ("tadd", 2) => &x + y, ("tadd", 3) => x + &y, ("tadd", 4) => { let mut c = x; c += y; c } ("tadd", _) => { let mut c = x; c += &y; c }
                    ("tsub", 0) => x - y, ("tsub", 1) => &x - &y, ("tsub", 2) => &x - y, ("tsub", 3) => x - &y, ("tsub", 4) => { let mut c = x; c -= y; c } ("tsub", _) => { let mut c = x; c -= &y; c }
                    ("tneg", 0 | 2 | 4) => -x, ("tneg", _) => -&x, ("tdbl", _) => x.double(),
                    ("tmul", 0..=2) => x * y, _ => { let mut c = x; c *= y; c } }) }
                "cmp" => { let (x, y) = (gt[ix(0)], gt[ix(1)]);
                    r.expect(&sig, &(!s.out[0].is_zero(), !s.out[1].is_zero(), s.out[0].is_zero()), &(x == y, x == Gt::ADDITIVE_IDENTITY, x != y)); }
                o => panic!("unknown op {o}"),
            }
            // the arguments are the points the specification speaks of (established by the curve machine)
            if let Some(x) = res {
                let k = ix(0);
                gt[k] = x;
                let e = wpow(&q, &b, &want[k]);
                if w(&x).as_ref() != Some(&e) { r.fail(&sig, format!("e(G1,G2)^{}", want[k]), "another value");
                    // resynchronise with a value of the right exponent
                    gt[k] = AteParing::pairing(mul1(&want[k]), G2Affine::ADDITIVE_GENERATOR); }
            }
        }
    }
}
