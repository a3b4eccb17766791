//! Replays sessions of spec/nova.qnt: plain and relaxed pairs of one circuit, folded and checked by the real code.
use crate::core::*;
use crate::ecref::Curve;
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use num_traits::Zero;
use parity_scale_codec::{Decode, Encode};
use serde_json::Value;
use std::collections::HashMap;
use zknova::verif::*;
use zknova::{PedersenCommitment, Prover, R1csShape, Verifier};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::SparseRow;

#[derive(Clone, Debug, Default)]
pub struct Prog { pub kinds: Vec<usize>, pub rows: Vec<[Vec<BigInt>; 3]> }
pub fn prog(v: &Value) -> Prog {
    Prog {
        kinds: ints(&v["kinds"]).iter().map(us).collect(),
        rows: v["rows"].as_array().unwrap().iter().map(|r| [ints(&r[0]), ints(&r[1]), ints(&r[2])]).collect(),
    }
}
pub fn build<C: Drv>(p: &Prog, z: &[BigUint]) -> R1cs<C> {
    let mut cs = R1cs::<C>::default();
    let mut w: Vec<SparseRow<C::Scalar>> = vec![SparseRow::one()];
    for (i, k) in p.kinds.iter().enumerate().skip(1) {
        let v = C::e(&z.get(i).cloned().unwrap_or_default());
        let f = if *k == 0 { FieldAssignment::instance(&mut cs, v) } else { FieldAssignment::witness(&mut cs, v) };
        w.push(f.inner().clone());
    }
    let lc = |t: &[BigInt]| -> SparseRow<C::Scalar> {
        let mut it = t.chunks(2).map(|c| &w[us(&c[0])] * &C::ei(&c[1]));
        match it.next() {
            None => FieldAssignment::<C::Scalar>::constant(&C::Scalar::zero()).inner().clone(),
            Some(x) => it.fold(x, |s, x| &s + &x),
        }
    };
    for r in &p.rows { let (a, b, c) = (lc(&r[0]), lc(&r[1]), lc(&r[2])); cs.mul_gate(&a, &b, &c); }
    cs
}
type Co = Vec<BigUint>;
#[derive(Clone, Debug, PartialEq)]
struct P { x: Co, w: Co, cw: Co }
#[derive(Clone, Debug, PartialEq)]
struct Q { x: Co, w: Co, e: Co, u: BigUint, cw: Co, ce: Co }
fn bus(v: &Value) -> Co { ints(v).iter().map(bu).collect() }
fn p_of(v: &Value) -> P { P { x: bus(&v["x"]), w: bus(&v["w"]), cw: bus(&v["cwp"]) } }
fn q_of(v: &Value) -> Q { Q { x: bus(&v["x"]), w: bus(&v["w"]), e: bus(&v["e"]), u: bu(&int(&v["u"])), cw: bus(&v["cwp"]), ce: bus(&v["cep"]) } }
struct M<C: Drv> { cv: Curve, gens: HashMap<BigUint, Vec<u8>>, _m: std::marker::PhantomData<C> }
impl<C: Drv> M<C> where C::Affine: Encode + Decode {
    fn fs(v: &[BigUint]) -> Vec<C::Scalar> { v.iter().map(|x| C::e(x)).collect() }
    fn vs(v: &[C::Scalar]) -> Co { v.iter().map(|x| C::v(x)).collect() }
    fn pt(&self, c: &[BigUint]) -> C::Affine { self.cv.affine(c) }
    fn co(&self, p: &C::Affine) -> Co { self.cv.of_affine(p) }
    fn p(&self, p: &P) -> (Instance<C>, Witness<C>) { (instance(self.pt(&p.cw), Self::fs(&p.x)), witness(Self::fs(&p.w))) }
    fn q(&self, q: &Q) -> (RelaxedInstance<C>, RelaxedWitness<C>) {
        (relaxed(self.pt(&q.cw), self.pt(&q.ce), C::e(&q.u), Self::fs(&q.x)), relaxed_witness(Self::fs(&q.w), Self::fs(&q.e)))
    }
    fn of_p(&self, i: &Instance<C>, w: &Witness<C>) -> P {
        let (cw, x) = instance_parts(i);
        P { x: Self::vs(&x), w: Self::vs(&witness_parts(w)), cw: self.co(&cw) }
    }
    fn of_q(&self, i: &RelaxedInstance<C>, w: &RelaxedWitness<C>) -> Q {
        let (cw, ce, u, x) = relaxed_parts(i);
        let (w, e) = relaxed_witness_parts(w);
        Q { x: Self::vs(&x), w: Self::vs(&w), e: Self::vs(&e), u: C::v(&u), cw: self.co(&cw), ce: self.co(&ce) }
    }
    fn key(&mut self, e: &[BigUint]) -> PedersenCommitment<C::Affine> {
        let mut b = parity_scale_codec::Compact(e.len() as u32).encode();
        for x in e {
            let cv = &self.cv;
            b.extend(self.gens.entry(x.clone()).or_insert_with(|| { let p: C::Affine = cv.point(x); p.encode() }).iter());
        }
        PedersenCommitment::decode(&mut &b[..]).expect("key codec")
    }
}
/// how the verifier's view differs, by part
fn diff(w: &Q, g: &Q) -> &'static str {
    if w.u != g.u { "u" } else if w.x != g.x { "x" } else if w.cw != g.cw { "commit_w" } else if w.ce != g.ce { "commit_e" } else if w.w != g.w { "w" } else { "e" }
}
pub fn replay<C: Drv>(files: &[String], rep: &mut Report, cv: Curve) where C::Affine: Encode + Decode {
    let mut m = M::<C> { cv, gens: HashMap::new(), _m: Default::default() };
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut pr = Prog::default();
        let mut env: Option<(R1csShape<C>, PedersenCommitment<C::Affine>, Prover<C>)> = None;
        let mut plain: Vec<P> = vec![];
        let mut rel: Vec<Q> = vec![];
        for st in t.steps() {
            if st.op == "init" { continue }
            let a = &st.a;
            let out: Co = st.out.iter().map(bu).collect();
            let sp: Vec<P> = st.st["plain"].as_array().unwrap().iter().map(p_of).collect();
            let sr: Vec<Q> = st.st["relaxed"].as_array().unwrap().iter().map(q_of).collect();
            if st.op == "shape" {
                pr = prog(&st.st["prog"]);
                rep.begin(&st, "shape");
                let ck = m.key(&bus(&st.st["ck"]));
                let Some(shape) = rep.guard("shape/panic", || R1csShape::from(build::<C>(&pr, &[]))) else { break };
                let pubs = pr.kinds.iter().filter(|k| **k == 0).count() as u64 - 1;
                rep.expect("shape/sizes", &(pr.rows.len() as u64, pubs, pr.kinds.len() as u64 - 1 - pubs), &(shape.m(), shape.l(), shape.m_l_1()));
                env = Some((shape.clone(), ck.clone(), Prover::new(shape, ck)));
                plain = sp;
                rel = sr;
                continue;
            }
            if let Some((_, ck, _)) = &env { match st.op.as_str() {
                "commit" => {
                    rep.begin(&st, &format!("commit/{}", a.len().min(3)));
                    let v: Co = a.iter().map(bu).collect();
                    if let Some(p) = rep.guard("commit/panic", || commit(ck, M::<C>::fs(&v))) { rep.expect("commit", &out, &m.co(&p)); }
                    continue
                }
                "linear" => {
                    rep.begin(&st, "linear");
                    let (n, k) = (us(&a[0]), us(&a[1]));
                    let v: Co = a[3..].iter().map(bu).collect();
                    let got = rep.guard("linear/panic", || {
                        let (x, y) = (commit(ck, M::<C>::fs(&v[..n])), commit(ck, M::<C>::fs(&v[n..n + k])));
                        let r: C::Affine = (x + y * C::ei(&a[2])).into();
                        let zero = BigUint::zero();
                        let sum: Co = (0..n.max(k)).map(|i| (v[..n].get(i).unwrap_or(&zero) + bu(&a[2]) * v[n..].get(i).unwrap_or(&zero)) % C::p()).collect();
                        (m.co(&r), m.co(&commit(ck, M::<C>::fs(&sum))))
                    });
                    if let Some((x, y)) = got { rep.expect("linear/sum", &out, &x); rep.expect("linear/whole", &out, &y); }
                    continue
                }
                "genkey" => {
                    rep.begin(&st, &format!("genkey/{}", a[0]));
                    let seed = us(&a[1]) as u64;
                    let gen = |s: u64| PedersenCommitment::<C::Affine>::new(us(&a[0]) as u64, &mut Rng(s));
                    let Some((k1, k2, k3)) = rep.guard("genkey/panic", || (gen(seed), gen(seed), gen(seed + 1))) else { continue };
                    // the generators, one by one
                    let n = us(&st.out[0]);
                    let unit = |k: &PedersenCommitment<C::Affine>, i: usize| {
                        let mut v = vec![BigUint::zero(); i + 1];
                        v[i] = BigUint::from(1u32);
                        m.co(&commit(k, M::<C>::fs(&v)))
                    };
                    let g: Vec<Co> = (0..n).map(|i| unit(&k1, i)).collect();
                    for (i, x) in g.iter().enumerate() {
                        if x.is_empty() || g[..i].contains(x) { rep.fail("genkey/generator", "distinct generators other than the identity", format!("{i}: {x:?}")); }
                        let neg: Co = if x.is_empty() { vec![] } else { vec![x[0].clone(), &m.cv.p - &x[1]] };
                        if g[..i].contains(&neg) { rep.fail("genkey/generator", "no generator the negative of another", format!("{i}")); }
                    }
                    rep.expect("genkey/size", &Vec::<BigUint>::new(), &unit(&k1, n)); // one more entry has no generator
                    rep.expect("genkey/again", &k1.encode(), &k2.encode());
                    if k1.encode() == k3.encode() { rep.fail("genkey/fresh", "another key from other randomness", "the same"); }
                    continue
                }
                _ => {}
            } }
            let Some((shape, ck, prover)) = &env else { break };
            match st.op.as_str() {
                "plain" => {
                    let k = us(&a[0]);
                    rep.begin(&st, if st.st["truth"]["plain"][k].as_bool() == Some(true) { "plain/satisfied" } else { "plain/unsatisfied" });
                    let z: Co = a[1..].iter().map(bu).collect();
                    let got = rep.guard("plain/panic", || { let cs = build::<C>(&pr, &z); instance_and_witness(&cs, shape, ck) });
                    if let Some((i, w)) = got { rep.expect("plain", &sp[k], &m.of_p(&i, &w)); }
                }
                "relax" => {
                    rep.begin(&st, "relax");
                    let (i, w) = m.p(&plain[us(&a[1])]);
                    let got = rep.guard("relax/panic", || (RelaxedInstance::<C>::from_r1cs_instance(ck, shape, &i), RelaxedWitness::<C>::from_r1cs_witness(shape, &w)));
                    if let Some((i, w)) = got { rep.expect("relax", &sr[us(&a[0])], &m.of_q(&i, &w)); }
                }
                "dummy" => {
                    rep.begin(&st, "dummy");
                    let got = (dummy_instance::<C>(shape.l() as usize), dummy_witness::<C>(shape.m_l_1() as usize, shape.m() as usize));
                    rep.expect("dummy", &sr[us(&a[0])], &m.of_q(&got.0, &got.1));
                }
                "spoil" | "load" => {}
                "fold" => {
                    let (i, j) = (us(&a[0]), us(&a[1]));
                    let good = st.st["truth"]["relaxed"][i].as_bool() == Some(true);
                    rep.begin(&st, if good { "fold/satisfied" } else { "fold/unsatisfied" });
                    let (ri, rw) = m.q(&rel[i]);
                    let (pi, pw) = m.p(&plain[j]);
                    let Some((t, (fi, fw, ct))) = rep.guard("fold/panic", || (cross_term(prover, &ri, &rw, &pi, &pw), prover.prove(&ri, &rw, &pi, &pw))) else { break };
                    rep.expect("fold/cross_term", &a[4..].iter().map(bu).collect::<Co>(), &M::<C>::vs(&t));
                    rep.expect("fold/commit_t", &m.cv.times(&bu(&a[2])), &m.co(&ct));
                    let got = m.of_q(&fi, &fw);
                    if got != sr[i] { rep.fail(&format!("fold/prover/{}", diff(&sr[i], &got)), format!("{:?}", sr[i]), format!("{got:?}")); }
                    if let Some(v) = rep.guard("fold/verifier/panic", || Verifier::<C>::verify(ct, &ri, &pi)) {
                        let v = m.of_q(&v, &fw);
                        let w = Q { w: v.w.clone(), e: v.e.clone(), ..sr[i].clone() };
                        if v != w { rep.fail(&format!("fold/verifier/{}", diff(&w, &v)), format!("{w:?}"), format!("{v:?}")); }
                    }
                    // the verdict on what the real code produced
                    let (cw, ce, _, _) = relaxed_parts(&fi);
                    let (w, e) = relaxed_witness_parts(&fw);
                    if let Some(v) = rep.guard("fold/verdict/panic", || shape.is_sat_relaxed(&fi, &fw) && commit(ck, w) == cw && commit(ck, e) == ce) {
                        rep.expect("fold/verdict", &good, &v);
                    }
                }
                "verify" => {
                    rep.begin(&st, "verify");
                    let (i, j) = (us(&a[0]), us(&a[1]));
                    let ct = m.pt(&m.cv.times(&bu(&a[2])));
                    let (ri, rw) = m.q(&rel[i]);
                    let (pi, _) = m.p(&plain[j]);
                    if let Some(v) = rep.guard("verify/panic", || Verifier::<C>::verify(ct, &ri, &pi)) {
                        let v = m.of_q(&v, &rw);
                        let items = |c: &Co| if c.is_empty() { vec![BigUint::zero(), BigUint::from(1u32), BigUint::zero()] } else { vec![c[0].clone(), c[1].clone(), BigUint::from(1u32)] };
                        rep.expect("verify", &out, &[vec![v.u.clone()], items(&v.cw), items(&v.ce), v.x.clone()].concat());
                    }
                }
                "satplain" => {
                    let k = us(&a[0]);
                    rep.begin(&st, &format!("satplain/{}", out[0]));
                    let (i, w) = m.p(&plain[k]);
                    if let Some(v) = rep.guard("satplain/panic", || shape.is_sat(ck, &i, &w)) { rep.expect(&format!("satplain/{}", out[0]), &(us(&a[0]) < 9 && out[0] == BigUint::from(1u32)), &v); }
                }
                "satrelaxed" => {
                    let k = us(&a[0]);
                    rep.begin(&st, &format!("satrelaxed/{}", out[0]));
                    let (i, w) = m.q(&rel[k]);
                    if let Some(v) = rep.guard("satrelaxed/panic", || shape.is_sat_relaxed(&i, &w)) { rep.expect(&format!("satrelaxed/{}", out[0]), &(out[0] == BigUint::from(1u32)), &v); }
                }
                "late" => {
                    // the pair was chosen after the challenge: it must not fold into a satisfied one
                    rep.begin(&st, "late");
                    let (ri, rw) = m.q(&sr[0]);
                    let (pi, pw) = m.p(&sp[0]);
                    let ct = m.pt(&m.cv.times(&bu(&a[1 - 1])));
                    let t: Co = a[1..].iter().map(bu).collect();
                    if shape.is_sat(ck, &pi, &pw) { rep.fail("late/setup", "an unsatisfied pair", "satisfied"); break }
                    let fi = Verifier::<C>::verify(ct, &ri, &pi);
                    let (cw, ce, u, x) = relaxed_parts(&fi);
                    // the challenge is what u grew by; the adversary folds the witnesses
                    let r = C::v(&u);
                    let p = C::p();
                    let e: Co = t.iter().map(|x| x * &r % &p).collect();
                    let w: Co = sp[0].w.iter().map(|x| x * &r % &p).collect();
                    let fw = relaxed_witness(M::<C>::fs(&w), M::<C>::fs(&e));
                    let ok = shape.is_sat_relaxed(&fi, &fw) && commit(ck, M::<C>::fs(&w)) == cw && commit(ck, M::<C>::fs(&e)) == ce;
                    if ok { rep.fail("late/accepted", "a fold of an unsatisfied pair is unsatisfied", "satisfied, with opening commitments"); }
                }
                o => { eprintln!("unknown op {o}"); std::process::exit(2) }
            }
            plain = sp;
            rel = sr;
        }
    }
}
