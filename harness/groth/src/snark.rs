//! Replays sessions of spec/groth.qnt: circuits set up, proved and verified by the real code with scripted randomness.
use crate::core::*;
use crate::ecref::{self, Curve};
use crate::lite::*;
use bn_254::{Fr, G1Affine, G2Affine};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;
use zkgroth16::verif::{proof_from_parts, proof_parts};
use zkgroth16::{Bn254Driver, Circuit, Error, Proof, Prover, Verifier, ZkSnark};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::SparseRow;

#[derive(Clone, Debug, Default)]
struct Prog { kinds: Vec<usize>, rows: Vec<[Vec<BigInt>; 3]> }
fn prog(v: &Value) -> Prog {
    Prog {
        kinds: ints(&v["kinds"]).iter().map(us).collect(),
        rows: v["rows"].as_array().unwrap().iter().map(|r| [ints(&r[0]), ints(&r[1]), ints(&r[2])]).collect(),
    }
}
thread_local! { static PROG: RefCell<Prog> = RefCell::new(Prog::default()); }
/// the circuit under test: the current program with given wire values (zero by default, as set-up sees it)
#[derive(Debug, Default)]
struct Cir { z: Vec<BigUint> }
impl Circuit for Cir {
    fn synthesize(&self, cs: &mut R1cs<Bn254Driver>) -> Result<(), Error> {
        let p = PROG.with(|p| p.borrow().clone());
        let mut w: Vec<SparseRow<Fr>> = vec![SparseRow::one()];
        for (i, k) in p.kinds.iter().enumerate().skip(1) {
            let v: Fr = fe(&self.z.get(i).cloned().unwrap_or_default(), &r_mod());
            let f = if *k == 0 { FieldAssignment::instance(cs, v) } else { FieldAssignment::witness(cs, v) };
            w.push(f.inner().clone());
        }
        let lc = |t: &[BigInt]| -> SparseRow<Fr> {
            let mut it = t.chunks(2).map(|c| { let f: Fr = fei(&c[1], &r_mod()); &w[us(&c[0])] * &f });
            match it.next() {
                None => FieldAssignment::<Fr>::constant(&Fr::zero()).inner().clone(),
                Some(x) => it.fold(x, |s, x| &s + &x),
            }
        };
        for r in &p.rows { cs.mul_gate(&lc(&r[0]), &lc(&r[1]), &lc(&r[2])); }
        Ok(())
    }
}

/// hands out chosen field elements, in the byte layout field sampling consumes
struct Script { bytes: Vec<u8>, at: usize, tail: Rng }
impl Script {
    fn new(vals: &[BigUint], width: usize) -> Self {
        Script { bytes: vals.iter().flat_map(|v| bytes_le(v, width)).collect(), at: 0, tail: Rng(99) }
    }
    fn byte(&mut self) -> u8 {
        self.at += 1;
        if self.at <= self.bytes.len() { self.bytes[self.at - 1] } else { self.tail.next() as u8 }
    }
}
impl rand_core::RngCore for Script {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.byte() } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for Script {}

struct Env { g1: Curve, g2: Curve, m1: HashMap<BigUint, G1Affine>, m2: HashMap<BigUint, G2Affine>, width: usize, roles: [usize; 5], rs: [usize; 2] }
impl Env {
    fn p1(&mut self, e: &BigUint) -> G1Affine { let c = &self.g1; self.m1.entry(e.clone()).or_insert_with(|| c.point(e)).clone() }
    fn p2(&mut self, e: &BigUint) -> G2Affine { let c = &self.g2; self.m2.entry(e.clone()).or_insert_with(|| c.point(e)).clone() }
    fn script(&self, vals: &[BigUint], roles: &[usize]) -> Script {
        let n = roles.iter().max().unwrap() + 1;
        let mut l: Vec<BigUint> = (0..n).map(|i| BigUint::from(1000003u32 + i as u32)).collect();
        for (v, r) in vals.iter().zip(roles) { l[*r] = v.clone(); }
        Script::new(&l, self.width)
    }
    /// which draw plays which part: found out once on a small circuit
    fn probe(rep: &mut Report) -> Option<Env> {
        let (g1, g2) = (ecref::g1(), ecref::g2());
        let v: Vec<BigUint> = (0..12u64).map(|i| { let mut r = Rng(7 + i); BigUint::from(r.next()) * BigUint::from(r.next()) * BigUint::from(r.next()) % r_mod() }).collect();
        let width = [64usize, 32, 48].into_iter().find(|w| {
            let mut s = Script::new(&v, *w);
            (0..3).all(|i| val(&Fr::random(&mut s), &r_mod()) == v[i])
        });
        let Some(width) = width else { rep.fail("randomness", "field elements drawn from the source", "no known layout"); return None };
        let mut e = Env { g1, g2, m1: HashMap::new(), m2: HashMap::new(), width, roles: [0, 1, 2, 3, 4], rs: [0, 1] };
        let i = |x: u32| BigInt::from(x);
        // x * x = y, y * x = o
        PROG.with(|p| *p.borrow_mut() = Prog { kinds: vec![0, 0, 1, 0], rows: vec![
            [vec![i(1), i(1)], vec![i(1), i(1)], vec![i(2), i(1)]], [vec![i(2), i(1)], vec![i(1), i(1)], vec![i(3), i(1)]]] });
        let (mut prover, _) = rep.guard("setup/panic", || ZkSnark::setup::<Cir>(Script::new(&v, width)))?.ok()?;
        let vk = prover.params.vk.clone();
        let c1 = |e: &Env, p: &G1Affine| e.g1.of_affine(p);
        let f1 = |e: &Env, p: &G1Affine, r: &mut Report| { let w = c1(e, p); let o = (0..10).find(|i| e.g1.times(&v[*i]) == w); if o.is_none() { r.fail("setup/roles", "a fresh draw", "none") } o };
        let f2 = |e: &Env, p: &G2Affine, r: &mut Report| { let w = e.g2.of_affine(p); let o = (0..10).find(|i| e.g2.times(&v[*i]) == w); if o.is_none() { r.fail("setup/roles", "a fresh draw", "none") } o };
        let (a, b, c, d) = (f1(&e, &vk.alpha_g1, rep)?, f1(&e, &vk.beta_g1, rep)?, f2(&e, &vk.gamma_g2, rep)?, f2(&e, &vk.delta_g2, rep)?);
        let h0 = c1(&e, &prover.params.h[0]);
        let p = r_mod();
        let di = modinv(&v[d], &p);
        let t = (0..10).find(|i| e.g1.times(&((&v[*i] * &v[*i] + &p - 1u32) * &di % &p)) == h0);
        let Some(t) = t else { rep.fail("setup/roles", "tau a fresh draw", "none"); return None };
        e.roles = [a, b, c, d, t];
        let mut seen = e.roles.to_vec(); seen.sort(); seen.dedup();
        if seen.len() != 5 { rep.fail("setup/roles", "five independent trapdoors", format!("{:?}", e.roles)); return None }
        let mut with = |k: usize| -> Option<[Vec<BigUint>; 3]> {
            let mut w = v[..6].to_vec();
            if k < 6 { w[k] = BigUint::from(77u32); }
            let z = [1u32, 3, 9, 27].iter().map(|x| BigUint::from(*x)).collect();
            let q = rep.guard("prove/panic", || prover.create_proof(&mut Script::new(&w, width), Cir { z }))?.ok()?;
            let (x, y, w) = proof_parts(&q);
            Some([e.g1.of_affine(&x), e.g2.of_affine(&y), e.g1.of_affine(&w)])
        };
        let base = with(9)?;
        let ds: Vec<_> = (0..6).map(|k| with(k)).collect::<Option<Vec<_>>>()?;
        let r = (0..6).find(|k| ds[*k][0] != base[0]);
        let s = (0..6).find(|k| ds[*k][1] != base[1]);
        match (r, s) {
            (Some(r), Some(s)) if r != s && ds[r][1] == base[1] && ds[s][0] == base[0] => e.rs = [r, s],
            _ => { rep.fail("prove/blinding", "two independent blinding draws", format!("{r:?} {s:?}")); return None }
        }
        Some(e)
    }
}

struct Slot { prog: Prog, prover: Prover, verifier: Verifier }
pub fn replay(files: &[String], rep: &mut Report, params: bool) {
    rep.cur = (0, "probe".into(), vec![]);
    let Some(mut e) = Env::probe(rep) else { if rep.bad.is_empty() { rep.fail("probe", "a set-up and a proof", "an error") } return };
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut slots: Vec<Option<Slot>> = vec![None, None];
        let mut proofs: Vec<Option<Proof>> = vec![None, None, None];
        for st in t.steps() {
            let a = &st.a;
            let out: Vec<BigUint> = st.out.iter().map(bu).collect();
            match st.op.as_str() {
                "init" | "draft" => continue,
                "setup" => {
                    let pr = prog(&st.st["draft"]);
                    rep.begin(&st, &format!("setup/{}rows", pr.rows.len()));
                    let (k, ok) = (us(&a[0]), us(&a[1]) == 1);
                    let trap: Vec<BigUint> = a[2..7].iter().map(bu).collect();
                    PROG.with(|p| *p.borrow_mut() = pr.clone());
                    let sc = e.script(&trap, &e.roles.clone());
                    let Some(r) = rep.guard("setup/panic", || ZkSnark::setup::<Cir>(sc)) else { break };
                    if !rep.expect("setup/result", &ok, &r.is_ok()) { break }
                    slots[k] = None;
                    let Ok((prover, verifier)) = r else { continue };
                    if params {
                        let q = &prover.params;
                        let npub = pr.kinds.iter().filter(|k| **k == 0).count();
                        let nw = pr.kinds.len();
                        let nh = out.len() - 4 - npub - (nw - npub) - 2 * nw;
                        let mut at = 4;
                        let mut take = |n: usize| { let s = out[at..at + n].to_vec(); at += n; s };
                        let (ic, h, l, qa, qb) = (take(npub), take(nh), take(nw - npub), take(nw), take(nw));
                        let mut ok = true;
                        let mut g1 = |rep: &mut Report, e: &mut Env, n: &str, w: &[BigUint], g: &[G1Affine]| {
                            let w: Vec<_> = w.iter().map(|x| { let p = e.p1(x); e.g1.of_affine(&p) }).collect();
                            ok &= rep.expect(&format!("setup/{n}"), &w, &g.iter().map(|x| e.g1.of_affine(x)).collect());
                        };
                        g1(rep, &mut e, "alpha", &out[0..1], &[q.vk.alpha_g1]);
                        g1(rep, &mut e, "beta", &out[1..2], &[q.vk.beta_g1]);
                        g1(rep, &mut e, "delta", &out[3..4], &[q.vk.delta_g1]);
                        g1(rep, &mut e, "ic", &ic, &q.vk.ic);
                        g1(rep, &mut e, "h", &h, &q.h);
                        g1(rep, &mut e, "l", &l, &q.l);
                        g1(rep, &mut e, "a", &qa, &q.a);
                        g1(rep, &mut e, "b1", &qb, &q.b_g1);
                        for (n, w, g) in [("beta2", &out[1..2], vec![q.vk.beta_g2]), ("gamma2", &out[2..3], vec![q.vk.gamma_g2]), ("delta2", &out[3..4], vec![q.vk.delta_g2]), ("b2", &qb[..], q.b_g2.clone())] {
                            let w: Vec<_> = w.iter().map(|x| { let p = e.p2(x); e.g2.of_affine(&p) }).collect();
                            ok &= rep.expect(&format!("setup/{n}"), &w, &g.iter().map(|x| e.g2.of_affine(x)).collect());
                        }
                        if !ok { break }
                    }
                    slots[k] = Some(Slot { prog: pr, prover, verifier });
                }
                "prove" => {
                    let (j, k, good) = (us(&a[0]), us(&a[1]), us(&a[4]) == 1);
                    rep.begin(&st, if good { "prove/satisfied" } else { "prove/unsatisfied" });
                    let Some(s) = slots[k].as_mut() else { break };
                    PROG.with(|p| *p.borrow_mut() = s.prog.clone());
                    let mut sc = e.script(&[bu(&a[2]), bu(&a[3])], &e.rs.clone());
                    let z: Vec<BigUint> = a[5..].iter().map(bu).collect();
                    let Some(r) = rep.guard("prove/panic", || s.prover.create_proof(&mut sc, Cir { z })) else { break };
                    proofs[j] = None;
                    match r {
                        Ok(p) => {
                            if good && params {
                                let (x, y, w) = proof_parts(&p);
                                let want = [e.g1.times(&out[0]), e.g2.times(&out[1]), e.g1.times(&out[2])];
                                if !rep.expect("prove/components", &want, &[e.g1.of_affine(&x), e.g2.of_affine(&y), e.g1.of_affine(&w)]) { break }
                            }
                            proofs[j] = Some(p);
                        }
                        Err(x) => if good { rep.fail("prove/result", "a proof", format!("{x:?}")); break },
                    }
                }
                "alter" => {
                    rep.begin(&st, &format!("alter/{}", a[1]));
                    let j = us(&a[0]);
                    proofs[j] = Some(proof_from_parts(e.p1(&out[0]), e.p2(&out[1]), e.p1(&out[2])));
                }
                "verify" => {
                    let want = us(&st.out[0]);
                    rep.begin(&st, &format!("verify/{}", ["reject", "accept", "length"][want]));
                    let Some(s) = slots[us(&a[1])].as_ref() else { break };
                    let x: Vec<Fr> = a[2..].iter().map(|v| fei(v, &r_mod())).collect();
                    // a prover that refuses an unsatisfied assignment leaves nothing to verify
                    let Some(p) = proofs[us(&a[0])].as_ref() else { continue };
                    let Some(r) = rep.guard("verify/panic", || s.verifier.verify(p, &x)) else { break };
                    let got = match r { Ok(()) => 1, Err(Error::InconsistentPublicInputsLen { .. }) => 2, Err(_) => 0 };
                    // which error reports a rejection is left open
                    let (w, g) = (want == 1, got == 1);
                    rep.expect(&format!("verify/{}", ["reject", "accept", "length"][want]), &w, &g);
                }
                o => { eprintln!("unknown op {o}"); std::process::exit(2) }
            }
        }
    }
}
