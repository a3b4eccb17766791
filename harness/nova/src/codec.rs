//! Replays behaviours of spec/codec.qnt: streams of serialised values, prefixes and the other encodings.
use crate::core::*;
use crate::funs::*;
use crate::lite::*;
use bn_254::{Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G1Projective, G2Affine, G2PairingAffine, G2Projective};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use parity_scale_codec::{Decode, Encode, Error, Input};
use std::fmt::Debug;
use zknova::verif::*;
use zknova::{Bn254Driver as B, GrumpkinDriver as G, PedersenCommitment, PublicParams, R1csShape, RecursiveProof};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::{DenseVectors, SparseRow};

fn mont(v: &BigInt, p: &BigUint) -> [u64; 4] { arr(&limbs(&((bu(v) << 256u32) % p), 4)) }
struct Cur<'a> { t: &'a [BigInt], at: usize, r: BigUint, q: BigUint }
impl<'a> Cur<'a> {
    fn n(&mut self) -> BigInt { self.at += 1; self.t[self.at - 1].clone() }
    fn fr(&mut self) -> Fr { let v = self.n(); Fr::new_unchecked(mont(&v, &self.r)) }
    fn fq(&mut self) -> Fq { let v = self.n(); Fq::new_unchecked(mont(&v, &self.q)) }
    fn fq2(&mut self) -> Fq2 { Fq2::new_unchecked([self.fq(), self.fq()]) }
    fn many<T>(&mut self, f: impl Fn(&mut Self) -> T) -> Vec<T> { let n = us(&self.n()); (0..n).map(|_| f(self)).collect() }
    fn frs(&mut self) -> Vec<Fr> { self.many(|c| c.fr()) }
    fn fqs(&mut self) -> Vec<Fq> { self.many(|c| c.fq()) }
    fn flag(&mut self) -> bool { self.n().is_one() }
    fn at_q(&mut self) -> G1Affine { let (x, y) = (self.fq(), self.fq()); if self.flag() { G1Affine::ADDITIVE_IDENTITY } else { G1Affine::new_unchecked(x, y) } }
    fn at_q2(&mut self) -> G2Affine { let (x, y) = (self.fq2(), self.fq2()); if self.flag() { G2Affine::ADDITIVE_IDENTITY } else { G2Affine::new_unchecked(x, y) } }
    fn at_r(&mut self) -> grumpkin::Affine { let (x, y) = (self.fr(), self.fr()); if self.flag() { grumpkin::Affine::ADDITIVE_IDENTITY } else { grumpkin::Affine::new_unchecked(x, y) } }
    fn row<C: Drv>(&mut self, w: &Wires_<C>) -> SparseRow<C::Scalar> {
        let terms = self.many(|c| { let (s, k, v) = (us(&c.n()), us(&c.n()), c.n()); &w.0[s][k] * &C::ei(&v) });
        let mut it = terms.into_iter();
        match it.next() { None => w.1.clone(), Some(x) => it.fold(x, |s, x| &s + &x) }
    }
    fn inst_r(&mut self) -> Instance<G> { instance(self.at_r(), self.fqs()) }
    fn inst_q(&mut self) -> Instance<B> { instance(self.at_q(), self.frs()) }
    fn rel_r(&mut self) -> RelaxedInstance<G> { let (a, b, u) = (self.at_r(), self.at_r(), self.fq()); relaxed(a, b, u, self.fqs()) }
    fn rel_q(&mut self) -> RelaxedInstance<B> { let (a, b, u) = (self.at_q(), self.at_q(), self.fr()); relaxed(a, b, u, self.frs()) }
}
struct Wires_<C: Drv>(Vec<Vec<SparseRow<C::Scalar>>>, SparseRow<C::Scalar>);
fn wires<C: Drv>() -> (R1cs<C>, Wires_<C>) {
    let mut cs = R1cs::<C>::default();
    let a = (0..70).map(|_| FieldAssignment::instance(&mut cs, C::Scalar::zero()).inner().clone()).collect();
    let b = (0..70).map(|_| FieldAssignment::witness(&mut cs, C::Scalar::zero()).inner().clone()).collect();
    (cs, Wires_(vec![a, b], SparseRow::new(vec![])))
}
fn shape<C: Drv>(seed: u64) -> R1csShape<C> {
    let mut r = Rng(seed);
    let mut cs = R1cs::<C>::default();
    let mut w = vec![];
    for k in 0..r.next() % 5 { let v = C::Scalar::from(k); w.push(if r.next() % 2 == 0 { FieldAssignment::instance(&mut cs, v) } else { FieldAssignment::witness(&mut cs, v) }.inner().clone()) }
    w.push(SparseRow::one());
    for _ in 0..r.next() % 6 {
        let mut lc = || (0..r.next() % 3).fold(SparseRow::new(vec![]), |s, _| &s + &(&w[r.next() as usize % w.len()] * &C::Scalar::from(r.next())));
        let (a, b, c) = (lc(), lc(), lc());
        cs.mul_gate(&a, &b, &c);
    }
    R1csShape::from(cs)
}
/// a reader that does not know how much is left
struct Slow<'a>(&'a [u8]);
impl<'a> Input for Slow<'a> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(None) }
    fn read(&mut self, b: &mut [u8]) -> Result<(), Error> {
        if b.len() > self.0.len() { return Err("end".into()) }
        b.copy_from_slice(&self.0[..b.len()]);
        self.0 = &self.0[b.len()..];
        Ok(())
    }
}
/// what a decoder made of some bytes: nothing, or whether it is the value and how much it took
type Seen = Option<(bool, usize)>;
pub struct Item { bytes: Vec<u8>, read: Box<dyn Fn(&[u8], bool) -> Seen>, extra: Box<dyn Fn() -> bool> }
fn item<T: Encode + Decode + PartialEq + Debug + Clone + 'static>(v: T) -> Item {
    let bytes = v.encode();
    let (b, s) = (bytes.clone(), format!("{v:?}"));
    let read = move |d: &[u8], slow: bool| {
        let mut i = d;
        let mut j = Slow(d);
        let g = if slow { T::decode(&mut j) } else { T::decode(&mut i) }.ok()?;
        let left = if slow { j.0.len() } else { i.len() };
        Some((g == v && format!("{g:?}") == s && g.encode() == b, d.len() - left))
    };
    Item { bytes, read: Box::new(read), extra: Box::new(|| true) }
}
fn with(i: Item, f: impl Fn() -> bool + 'static) -> Item { Item { extra: Box::new(f), ..i } }
fn text<T: Serialize + for<'a> Deserialize<'a> + PartialEq + Debug>(v: &T) -> bool {
    let s = serde_json::to_string(v).unwrap();
    serde_json::from_str::<T>(&s).map_or(false, |w| &w == v && format!("{w:?}") == format!("{v:?}"))
}
type P1 = PublicParams<B, G, Cubic<Fr>, Linear<Fq>>;
type P2 = PublicParams<G, B, Same<Fq>, Cubic<Fr>>;
pub fn make(k: usize, t: &[BigInt]) -> Item {
    let mut c = Cur { t, at: 0, r: r_mod(), q: q_mod() };
    let seed = |c: &mut Cur| us(&c.n()) as u64;
    let i = match k {
        0 => { let x = c.fr(); with(item(x), move || text(&x)) }
        1 => { let x = c.fq(); with(item(x), move || text(&x)) }
        2 => item(c.fq2()),
        3 => item(c.at_q()),
        4 => item(G1Projective::new_unchecked(c.fq(), c.fq(), c.fq())),
        5 => item(c.at_q2()),
        6 => item(G2Projective::new_unchecked(c.fq2(), c.fq2(), c.fq2())),
        7 => {
            let p = c.at_r();
            with(item(p), move || { let b = p.to_raw_bytes(); let q = grumpkin::Affine::from_slice_unchecked(&b); q == p && format!("{q:?}") == format!("{p:?}") && q.to_raw_bytes() == b })
        }
        8 => item(grumpkin::Projective::new_unchecked(c.fr(), c.fr(), c.fr())),
        9 => item(DenseVectors::new(c.frs())),
        10 => item(DenseVectors::new(c.fqs())),
        11 => { let (_, w) = wires::<B>(); item(c.row::<B>(&w)) }
        12 => { let (_, w) = wires::<G>(); item(c.row::<G>(&w)) }
        13 => { let (mut cs, w) = wires::<B>(); for r in c.many(|c| c.row::<B>(&w)) { cs.mul_gate(&r, &w.1, &w.1) } item(cs.matrices().0) }
        14 => { let (mut cs, w) = wires::<G>(); for r in c.many(|c| c.row::<G>(&w)) { cs.mul_gate(&r, &w.1, &w.1) } item(cs.matrices().0) }
        15 => item(c.inst_r()),
        16 => item(c.inst_q()),
        17 => item(c.rel_r()),
        18 => item(c.rel_q()),
        19 => item(witness::<G>(c.fqs())),
        20 => item(witness::<B>(c.frs())),
        21 => item(relaxed_witness::<G>(c.fqs(), c.fqs())),
        22 => item(relaxed_witness::<B>(c.frs(), c.frs())),
        23 => {
            let p = Parts::<B, G> { i: c.n().to_string().parse().unwrap(), z0_primary: c.frs(), z0_secondary: c.fqs(), zi_primary: c.frs(), zi_secondary: c.fqs(),
                single_secondary: (c.inst_r(), witness(c.fqs())), range_primary: (c.rel_q(), relaxed_witness(c.frs(), c.frs())), range_secondary: (c.rel_r(), relaxed_witness(c.fqs(), c.fqs())) };
            item::<RecursiveProof<B, G, Cubic<Fr>, Linear<Fq>>>(from_parts(p))
        }
        24 => {
            let p = Parts::<G, B> { i: c.n().to_string().parse().unwrap(), z0_primary: c.fqs(), z0_secondary: c.frs(), zi_primary: c.fqs(), zi_secondary: c.frs(),
                single_secondary: (c.inst_q(), witness(c.frs())), range_primary: (c.rel_r(), relaxed_witness(c.fqs(), c.fqs())), range_secondary: (c.rel_q(), relaxed_witness(c.frs(), c.frs())) };
            item::<RecursiveProof<G, B, Same<Fq>, Cubic<Fr>>>(from_parts(p))
        }
        25 => item(Fq6::random(&mut Rng(seed(&mut c)))),
        26 => item(Fq12::random(&mut Rng(seed(&mut c)))),
        27 => { let s = seed(&mut c); item(G2PairingAffine::from(if s % 5 == 0 { G2Affine::ADDITIVE_IDENTITY } else { G2Affine::random(&mut Rng(s)) })) }
        28 => { let s = seed(&mut c); item(PedersenCommitment::<G1Affine>::new(s % 4, &mut Rng(s))) }
        29 => { let s = seed(&mut c); item(PedersenCommitment::<grumpkin::Affine>::new(s % 4, &mut Rng(s))) }
        30 => item(shape::<B>(seed(&mut c))),
        31 => item(shape::<G>(seed(&mut c))),
        32 => {
            let s = seed(&mut c);
            let p = (shape::<B>(s), shape::<G>(s + 1), PedersenCommitment::<G1Affine>::new(s % 3, &mut Rng(s)), PedersenCommitment::<grumpkin::Affine>::new(s % 2, &mut Rng(s)));
            // parameters have no constructor; the parts of the decoded ones are looked at
            let q = P1::decode(&mut &p.encode()[..]).expect("parameters");
            with(item(q.clone()), move || p == (q.r1cs_shape_primary.clone(), q.r1cs_shape_secondary.clone(), q.ck_primary.clone(), q.ck_secondary.clone()))
        }
        33 => {
            let s = seed(&mut c);
            let p = (shape::<G>(s), shape::<B>(s + 1), PedersenCommitment::<grumpkin::Affine>::new(s % 3, &mut Rng(s)), PedersenCommitment::<G1Affine>::new(s % 2, &mut Rng(s)));
            let q = P2::decode(&mut &p.encode()[..]).expect("parameters");
            with(item(q.clone()), move || p == (q.r1cs_shape_primary.clone(), q.r1cs_shape_secondary.clone(), q.ck_primary.clone(), q.ck_secondary.clone()))
        }
        _ => item((B::default(), G::default(), zkgroth16::Bn254Driver::default(), Cubic::<Fr>::default())),
    };
    assert!(c.at == t.len(), "atoms left");
    i
}
pub fn replay(files: &[String], rep: &mut Report) {
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut buf: Vec<u8> = vec![];
        let mut queue: std::collections::VecDeque<Item> = Default::default();
        for st in t.steps() {
            let a = &st.a;
            if st.op == "init" { continue }
            if st.op == "lose" {
                rep.begin(&st, "lose");
                let l = queue.back().unwrap().bytes.len();
                let n = us(&a[0]);
                let n = if l == 0 { 0 } else if n < 20 { (n + 1).min(l) } else { (n * l / 1000).clamp(1, l) };
                buf.truncate(buf.len() - n);
                continue;
            }
            let k = us(&a[0]);
            rep.begin(&st, &format!("{}/{k}{}", st.op, if st.op == "read" && st.out[0].is_zero() { "/cut" } else { "" }));
            match st.op.as_str() {
                "write" => {
                    let Some(i) = rep.guard("write/panic", || make(k, &a[1..])) else { break };
                    buf.extend(&i.bytes);
                    queue.push_back(i);
                }
                "read" => {
                    let i = queue.pop_front().unwrap();
                    let want = if st.out[0].is_one() { Some((true, i.bytes.len())) } else { None };
                    for slow in [false, true] {
                        let Some(got) = rep.guard(&format!("read/{k}/panic"), || (i.read)(&buf, slow)) else { continue };
                        rep.expect(&format!("read/{k}"), &want, &got);
                    }
                    if want.is_some() { buf.drain(..i.bytes.len()); } else { buf.clear(); queue.clear(); }
                }
                "prefixes" => {
                    let Some(i) = rep.guard("write/panic", || make(k, &a[1..])) else { break };
                    let l = i.bytes.len();
                    for n in (0..l).filter(|n| l < 1500 || *n < 300 || n + 300 > l || n % 97 == 0) {
                        for slow in [false, true] {
                            let Some(got) = rep.guard(&format!("prefix/{k}/panic"), || (i.read)(&i.bytes[..n], slow)) else { continue };
                            if !rep.expect(&format!("prefix/{k}"), &None, &got) { break }
                        }
                    }
                    // and the value itself
                    if let Some(got) = rep.guard(&format!("read/{k}/panic"), || (i.read)(&i.bytes, false)) { rep.expect(&format!("read/{k}"), &Some((true, l)), &got); }
                    if let Some(ok) = rep.guard(&format!("other/{k}/panic"), || (i.extra)()) { rep.expect(&format!("other/{k}"), &true, &ok); }
                }
                _ => {
                    let Some(i) = rep.guard("write/panic", || make(k, &a[1..])) else { break };
                    if let Some(ok) = rep.guard(&format!("other/{k}/panic"), || (i.extra)()) { rep.expect(&format!("other/{k}"), &true, &ok); }
                }
            }
        }
    }
}
