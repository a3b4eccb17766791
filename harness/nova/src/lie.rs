//! A prover that lies: rebuilds a circuit with some private wires off, recomputing everything that follows, mends rows through
//! wires that nothing else constrains, and asks whether the system is satisfied although the outcome is another one.
use crate::core::*;
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::r1cs::verif::lie;

type F<D> = <D as CircuitDriver>::Scalar;
/// handles on what a gadget was given and on what it made of it
pub struct Io<D: Drv> { pub ins: Vec<FieldAssignment<F<D>>>, pub outs: Vec<FieldAssignment<F<D>>> }
pub type Build<'a, D> = &'a dyn Fn(&mut R1cs<D>) -> Io<D>;
type Rows<D> = Vec<[Vec<(F<D>, usize)>; 3]>;

pub struct Attack<'a, D: Drv> {
    build: Build<'a, D>,
    pub ins: Vec<BigUint>,
    pub outs: Vec<BigUint>,
    honest: Vec<BigUint>,
    hints: Vec<usize>,
    bits: Vec<usize>,
    pub satisfied: bool,
}
fn rows<D: Drv>(cs: &R1cs<D>) -> Rows<D> {
    let nx = cs.l();
    let (x, w) = cs.z_vectors(nx, cs.m_l_1());
    let mut r: Rows<D> = vec![Default::default(); cs.m() as usize];
    for (q, (xc, wc)) in [(x.0, w.0), (x.1, w.1), (x.2, w.2)].into_iter().enumerate() {
        for (k, col) in xc.iter().chain(wc.iter()).enumerate() { for (c, i) in col { if *c != F::<D>::zero() { r[*i][q].push((*c, k)); } } }
    }
    r
}
fn at<D: Drv>(t: &[(F<D>, usize)], z: &[F<D>]) -> F<D> { t.iter().fold(F::<D>::zero(), |s, (c, k)| s + *c * z[*k]) }
fn values<D: Drv>(cs: &R1cs<D>, l: &[FieldAssignment<F<D>>]) -> Vec<BigUint> { l.iter().map(|x| D::v(&x.value(cs))).collect() }

impl<'a, D: Drv> Attack<'a, D> {
    pub fn new(build: Build<'a, D>) -> Self {
        lie(vec![]);
        let mut cs = R1cs::<D>::default();
        let io = build(&mut cs);
        let nx = cs.l();
        let n = cs.m_l_1();
        let mut defined = vec![false; n];
        let mut bits = vec![];
        for [a, b, c] in rows(&cs) {
            let priv_c: Vec<usize> = c.iter().filter(|t| t.1 >= nx).map(|t| t.1 - nx).collect();
            if c.len() == 1 && priv_c.len() == 1 {
                let k = priv_c[0];
                if a.iter().chain(&b).all(|t| t.1 < nx + k) { defined[k] = true; }
            }
            if c.is_empty() && a.len() == 1 && b.len() == 2 && a[0].1 >= nx && b.iter().any(|t| t.1 == a[0].1) { bits.push(a[0].1 - nx); defined[a[0].1 - nx] = true; }
        }
        let (ins, outs) = (values(&cs, &io.ins), values(&cs, &io.outs));
        // a lie about what the gadget is given leads nowhere
        for (k, w) in cs.w().iter().enumerate().take(2 * ins.len()) { if ins.contains(&D::v(w)) { defined[k] = true; } }
        Attack { build, ins, outs, honest: cs.w().iter().map(|x| D::v(x)).collect(), hints: (0..n).filter(|k| !defined[*k]).collect(), bits, satisfied: cs.is_sat() }
    }
    /// what is added to which wire
    pub fn lies(&self, l: &[BigInt], special: &[BigUint]) -> Vec<(usize, BigInt)> {
        let (pos, pat, amt, s) = (us(&l[0]), us(&l[1]), us(&l[2]), l[3].to_u64().unwrap());
        let n = self.honest.len();
        let w64 = BigInt::one() << 64u32;
        let v = |k: usize| BigInt::from(self.honest[k].clone());
        let sp = |i: u64| BigInt::from(special.get(i as usize % special.len().max(1)).cloned().unwrap_or_else(BigUint::one));
        let amount = |k: usize| match amt {
            0 | 3 => BigInt::one(), 1 => -BigInt::one(), 2 => &w64 * (1 - 2 * (s % 2) as i64), 4 => sp(s), 5 => -sp(s), 6 => BigInt::one() << 128u32,
            7 => { let mut r = Rng(s); (0..4).fold(BigInt::zero(), |t, _| (t << 64u32) + r.next()) }
            8 => -v(k), 9 => -v(k) + s % 1000, 10 => sp(s) - v(k), _ => v(k) * BigInt::from(-2),
        };
        let hint = |i: usize| if self.hints.is_empty() { i % n } else { self.hints[i % self.hints.len()] };
        match pat {
            1 => { let (k, m) = (hint(pos), if s % 2 == 0 { 1 } else { -1 }); vec![(k, &w64 * m), ((k + 1) % n, BigInt::from(-m))] }
            3 if !self.bits.is_empty() => { let k = self.bits[pos % self.bits.len()]; vec![(k, BigInt::one() - v(k) * 2)] }
            4 => { let (k, j) = (hint(pos), hint(s as usize)); if k == j { vec![(k, amount(k))] } else { vec![(k, amount(k)), (j, amount(j))] } }
            5 => { let k = pos % n; vec![(k, amount(k))] }
            _ => { let k = hint(pos); vec![(k, amount(k))] }
        }
    }
    pub fn value(&self, k: usize) -> &BigUint { &self.honest[k] }
    /// inputs and outputs under these lies, if the system is satisfied (after mending)
    pub fn run(&self, lies: &[(usize, BigInt)]) -> Option<(Vec<BigUint>, Vec<BigUint>)> {
        let p = BigInt::from(D::p());
        lie(lies.iter().map(|(k, d)| {
            let d = ((d % &p) + &p) % &p;
            let mut b = d.to_bytes_le().1;
            b.resize(64, 0);
            (*k, b.try_into().unwrap())
        }).collect());
        // a prover that gives up convinces nobody
        let built = quiet(|| { let mut cs = R1cs::<D>::default(); let io = (self.build)(&mut cs); (cs, io) });
        lie(vec![]);
        let (mut cs, io) = built.ok()?;
        if !cs.is_sat() {
            let rs = rows(&cs);
            let nx = cs.l();
            let mut z: Vec<F<D>> = cs.x().into_iter().chain(cs.w()).collect();
            let mut uses = vec![0u32; z.len()];
            for r in &rs {
                let mut u: Vec<usize> = r.iter().flatten().map(|t| t.1).collect();
                u.sort();
                u.dedup();
                for k in u { uses[k] += 1; }
            }
            for [a, b, c] in &rs {
                let (va, vb, vc) = (at::<D>(a, &z), at::<D>(b, &z), at::<D>(c, &z));
                if va * vb == vc { continue }
                let free = |t: &&(F<D>, usize)| t.1 >= nx && uses[t.1] == 1;
                let only = |k: usize, x: &Vec<(F<D>, usize)>, y: &Vec<(F<D>, usize)>| x.iter().chain(y).all(|t| t.1 != k);
                if let Some((q, k)) = c.iter().find(free).filter(|t| only(t.1, a, b)) { z[*k] = z[*k] + (va * vb - vc) * q.invert()?; }
                else if let Some((q, k)) = a.iter().find(free).filter(|t| only(t.1, b, c)) { z[*k] = z[*k] + (vc * vb.invert()? - va) * q.invert()?; }
                else if let Some((q, k)) = b.iter().find(free).filter(|t| only(t.1, a, c)) { z[*k] = z[*k] + (vc * va.invert()? - vb) * q.invert()?; }
                else { return None }
            }
            cs = cs.with_w(z.split_off(nx));
            if !cs.is_sat() { return None }
        }
        Some((values(&cs, &io.ins), values(&cs, &io.outs)))
    }
}
