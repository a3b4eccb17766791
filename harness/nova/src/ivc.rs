//! Replays sessions of spec/ivc.qnt: executions, altered proofs, and proofs out of instances a forger made.
use crate::core::*;
use crate::ecref::Curve;
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use parity_scale_codec::{Compact, Decode, Encode};
use serde_json::Value;
use std::collections::HashMap;
use zknova::verif::*;
use zknova::{FunctionCircuit, Ivc, PedersenCommitment, Prover, PublicParams, R1csShape, RecursiveProof, Verifier};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::DenseVectors;

/// a key of n generators without a scalar multiplication for each
fn key<C: Drv>(cv: &Curve, n: usize, k: u64) -> PedersenCommitment<C::Affine> where C::Affine: Encode + Decode {
    let d: C::Affine = cv.point(&BigUint::from(k * 1000003 + 17));
    let mut g: C::Affine = cv.point(&(BigUint::from(k + 5) << 200u32));
    let mut b = Compact(n as u32).encode();
    for _ in 0..n { b.extend(g.encode()); g = (g + d).into(); }
    PedersenCommitment::decode(&mut &b[..]).expect("key codec")
}
fn u64_of(v: &BigInt) -> u64 { v.to_string().parse().unwrap() }

/// one part of a proof
#[derive(Clone)]
enum V<E1: Drv, E2: Drv> { I(u64), Z1(Vec<E1::Scalar>), Z2(Vec<E2::Scalar>), C1(E1::Affine), C2(E2::Affine), S1(E1::Scalar), S2(E2::Scalar) }
struct At<'a, E1: Drv, E2: Drv>(&'a mut Parts<E1, E2>);
fn xs<F: Copy + PrimeField>(x: &[F], k: usize) -> F { x.get(k).copied().unwrap_or(F::zero()) }
fn set_x<F: Copy + PrimeField>(x: &mut Vec<F>, k: usize, v: F) { if k == 1 || x.len() < 1 { x.resize(2, F::zero()) } x[k] = v }
fn get<E1: Drv, E2: Drv<Base = E1::Scalar, Scalar = E1::Base>>(p: &Parts<E1, E2>, s: usize) -> V<E1, E2> {
    let one = || instance_parts(&p.single_secondary.0);
    let (r1, r2) = (|| relaxed_parts(&p.range_primary.0), || relaxed_parts(&p.range_secondary.0));
    match s {
        0 => V::I(p.i), 1 => V::Z1(p.z0_primary.clone()), 2 => V::Z2(p.z0_secondary.clone()), 3 => V::Z1(p.zi_primary.clone()), 4 => V::Z2(p.zi_secondary.clone()),
        5 => V::C2(one().0), 6 => V::S2(xs(&one().1, 0)), 7 => V::S2(xs(&one().1, 1)), 8 => V::Z2(witness_parts(&p.single_secondary.1)),
        9 => V::C1(r1().0), 10 => V::C1(r1().1), 11 => V::S1(r1().2), 12 => V::S1(xs(&r1().3, 0)), 13 => V::S1(xs(&r1().3, 1)),
        14 => V::Z1(relaxed_witness_parts(&p.range_primary.1).0), 15 => V::Z1(relaxed_witness_parts(&p.range_primary.1).1),
        16 => V::C2(r2().0), 17 => V::C2(r2().1), 18 => V::S2(r2().2), 19 => V::S2(xs(&r2().3, 0)), 20 => V::S2(xs(&r2().3, 1)),
        21 => V::Z2(relaxed_witness_parts(&p.range_secondary.1).0), 22 => V::Z2(relaxed_witness_parts(&p.range_secondary.1).1),
        _ => panic!("part {s}"),
    }
}
fn set<E1: Drv, E2: Drv<Base = E1::Scalar, Scalar = E1::Base>>(p: &mut Parts<E1, E2>, s: usize, v: V<E1, E2>) {
    let mut one = instance_parts(&p.single_secondary.0);
    let (mut r1, mut r2) = (relaxed_parts(&p.range_primary.0), relaxed_parts(&p.range_secondary.0));
    match (s, v) {
        (0, V::I(v)) => p.i = v,
        (1, V::Z1(v)) => p.z0_primary = v,
        (2, V::Z2(v)) => p.z0_secondary = v,
        (3, V::Z1(v)) => p.zi_primary = v,
        (4, V::Z2(v)) => p.zi_secondary = v,
        (5, V::C2(v)) => one.0 = v,
        (6 | 7, V::S2(v)) => set_x(&mut one.1, s - 6, v),
        (8, V::Z2(v)) => p.single_secondary.1 = witness(v),
        (9, V::C1(v)) => r1.0 = v,
        (10, V::C1(v)) => r1.1 = v,
        (11, V::S1(v)) => r1.2 = v,
        (12 | 13, V::S1(v)) => set_x(&mut r1.3, s - 12, v),
        (14, V::Z1(v)) => p.range_primary.1 = relaxed_witness(v, relaxed_witness_parts(&p.range_primary.1).1),
        (15, V::Z1(v)) => p.range_primary.1 = relaxed_witness(relaxed_witness_parts(&p.range_primary.1).0, v),
        (16, V::C2(v)) => r2.0 = v,
        (17, V::C2(v)) => r2.1 = v,
        (18, V::S2(v)) => r2.2 = v,
        (19 | 20, V::S2(v)) => set_x(&mut r2.3, s - 19, v),
        (21, V::Z2(v)) => p.range_secondary.1 = relaxed_witness(v, relaxed_witness_parts(&p.range_secondary.1).1),
        (22, V::Z2(v)) => p.range_secondary.1 = relaxed_witness(relaxed_witness_parts(&p.range_secondary.1).0, v),
        _ => panic!("part {s} of another kind"),
    }
    if (5..8).contains(&s) { p.single_secondary.0 = instance(one.0, one.1) }
    if (9..14).contains(&s) { p.range_primary.0 = relaxed(r1.0, r1.1, r1.2, r1.3) }
    if (16..21).contains(&s) { p.range_secondary.0 = relaxed(r2.0, r2.1, r2.2, r2.3) }
}
/// push or pop at the vector of public values
fn len_x<E1: Drv, E2: Drv<Base = E1::Scalar, Scalar = E1::Base>>(p: &mut Parts<E1, E2>, s: usize, pop: bool) {
    fn f<F: PrimeField>(mut x: Vec<F>, pop: bool) -> Vec<F> { if pop { x.pop(); } else { x.push(F::zero()) } x }
    match s {
        7 => { let i = instance_parts(&p.single_secondary.0); p.single_secondary.0 = instance(i.0, f(i.1, pop)) }
        13 => { let i = relaxed_parts(&p.range_primary.0); p.range_primary.0 = relaxed(i.0, i.1, i.2, f(i.3, pop)) }
        _ => { let i = relaxed_parts(&p.range_secondary.0); p.range_secondary.0 = relaxed(i.0, i.1, i.2, f(i.3, pop)) }
    }
}
fn partner(s: usize) -> usize {
    match s { 1 | 2 => s + 2, 3 | 4 => s - 2, 6 | 9 | 12 | 16 | 19 => s + 1, 7 | 10 | 13 | 17 | 20 => s - 1, _ => s }
}
fn bump<F: PrimeField>(mut v: Vec<F>, at: usize, by: u64) -> Vec<F> { if !v.is_empty() { let k = at % v.len(); v[k] += F::from(by) } v }
/// the error with which a witness satisfies the relaxed constraints
fn error_of<C: Drv>(shape: &R1csShape<C>, u: C::Scalar, x: &[C::Scalar], w: &[C::Scalar]) -> Vec<C::Scalar> {
    let (a, b, c) = shape.matrices();
    let z = DenseVectors::new([vec![u], x.to_vec(), w.to_vec()].concat());
    let f = |m: &zkstd::matrix::SparseMatrix<C::Scalar>| m.prod(shape.m(), x.len() + 1, &z).get();
    f(&a).into_iter().zip(f(&b)).zip(f(&c)).map(|((a, b), c)| a * b - u * c).collect()
}

/// parameters without the price of their generators
pub fn cheap_params<E1: Drv<Scalar = E2::Base, Base = E2::Scalar>, E2: Drv, F1: FunctionCircuit<E1::Scalar>, F2: FunctionCircuit<E2::Scalar>>() -> PublicParams<E1, E2, F1, F2>
where E1::Affine: Encode + Decode, E2::Affine: Encode + Decode { World::<E1, E2, F1, F2>::cheap(crate::ecref::g1(), crate::ecref::gk()).pp }
struct World<E1: Drv<Scalar = E2::Base, Base = E2::Scalar>, E2: Drv, F1: FunctionCircuit<E1::Scalar>, F2: FunctionCircuit<E2::Scalar>> {
    pp: PublicParams<E1, E2, F1, F2>,
    others: Vec<PublicParams<E1, E2, F1, F2>>,
    provers: Option<(Prover<E1>, Prover<E2>)>,
    cv1: Curve,
    cv2: Curve,
    runs: HashMap<(BigUint, BigUint), (Ivc<E1, E2, F1, F2>, Vec<Parts<E1, E2>>)>,
}
impl<E1: Drv<Scalar = E2::Base, Base = E2::Scalar>, E2: Drv, F1: FunctionCircuit<E1::Scalar>, F2: FunctionCircuit<E2::Scalar>> World<E1, E2, F1, F2>
where E1::Affine: Encode + Decode, E2::Affine: Encode + Decode
{
    fn cheap(cv1: Curve, cv2: Curve) -> Self {
        let mut cs = R1cs::<E1>::default();
        augmented::<E2, E1, F1>(&mut cs, true, 0, vec![E1::Scalar::zero()], None, None, None, None);
        let s1 = R1csShape::from(cs);
        let mut cs = R1cs::<E2>::default();
        augmented::<E1, E2, F2>(&mut cs, false, 0, vec![E2::Scalar::zero()], None, None, None, None);
        let s2 = R1csShape::from(cs);
        let (k1, k2) = (key::<E1>(&cv1, s1.m().next_power_of_two() as usize + 1, 1), key::<E2>(&cv2, s2.m().next_power_of_two() as usize + 1, 2));
        let b = [s1.encode(), s2.encode(), k1.encode(), k2.encode()].concat();
        let pp = PublicParams::<E1, E2, F1, F2>::decode(&mut &b[..]).expect("parameters codec");
        Self { pp, others: vec![], provers: None, cv1, cv2, runs: HashMap::new() }
    }
    fn set_up(cv1: Curve, cv2: Curve) -> Self {
        Self { pp: PublicParams::setup(&mut Rng(7)), others: vec![], provers: None, cv1, cv2, runs: HashMap::new() }
    }
    fn pp(&mut self, k: usize) -> &PublicParams<E1, E2, F1, F2> {
        if k == 0 { return &self.pp }
        if self.others.is_empty() {
            let mut a = self.pp.clone();
            a.ck_primary = key::<E1>(&self.cv1, self.pp.r1cs_shape_primary.m().next_power_of_two() as usize + 1, 3);
            let mut b = self.pp.clone();
            b.ck_secondary = key::<E2>(&self.cv2, self.pp.r1cs_shape_secondary.m().next_power_of_two() as usize + 1, 4);
            self.others = vec![a, b];
        }
        &self.others[k - 1]
    }
    fn proof(p: &Parts<E1, E2>) -> RecursiveProof<E1, E2, F1, F2> { from_parts(p.clone()) }
    fn hash0(i: &RelaxedInstance<E2>, n: u64, z0: Vec<E1::Scalar>, z: Vec<E1::Scalar>) -> BigUint { E2::v(&instance_hash::<E2, E1>(i, n, z0, z)) }
    fn hash1(i: &RelaxedInstance<E1>, n: u64, z0: Vec<E2::Scalar>, z: Vec<E2::Scalar>) -> BigUint { E1::v(&instance_hash::<E1, E2>(i, n, z0, z)) }

    fn alter(&mut self, p: &mut Parts<E1, E2>, m: &[BigInt], k: usize, src: &Parts<E1, E2>) {
        let (s, kind, num) = (us(&m[0]), us(&m[1]), us(&m[4]));
        let by = 1 + 2 * k as u64;
        let vector = [7, 8, 13, 14, 15, 20, 21, 22].contains(&s);
        match kind {
            0 => {
                let v = match get(p, s) {
                    V::I(i) => V::I(i.wrapping_add(1)),
                    V::Z1(v) => V::Z1(if s < 5 { bump(v, 0, 1) } else { bump(v, num, by) }),
                    V::Z2(v) => V::Z2(if s < 5 { bump(v, 0, 1) } else { bump(v, num, by) }),
                    V::C1(c) => V::C1((c + self.cv1.point::<E1::Affine>(&by.into())).into()),
                    V::C2(c) => V::C2((c + self.cv2.point::<E2::Affine>(&by.into())).into()),
                    V::S1(x) => V::S1(x + E1::Scalar::from(by)),
                    V::S2(x) => V::S2(x + E2::Scalar::from(by)),
                };
                set(p, s, v)
            }
            1 => {
                let v = match get(p, s) {
                    V::I(_) => V::I(0),
                    V::Z1(v) => V::Z1(vec![E1::Scalar::zero(); v.len()]),
                    V::Z2(v) => V::Z2(vec![E2::Scalar::zero(); v.len()]),
                    V::C1(_) => V::C1(self.cv1.affine(&[])),
                    V::C2(_) => V::C2(self.cv2.affine(&[])),
                    V::S1(_) => V::S1(E1::Scalar::zero()),
                    V::S2(_) => V::S2(E2::Scalar::zero()),
                };
                set(p, s, v)
            }
            2 | 3 => match get(p, s) {
                V::Z1(mut v) => { if kind == 2 { v.pop(); } else { v.push(E1::Scalar::zero()) } set(p, s, V::Z1(v)) }
                V::Z2(mut v) => { if kind == 2 { v.pop(); } else { v.push(E2::Scalar::zero()) } set(p, s, V::Z2(v)) }
                _ => if vector { len_x(p, s, kind == 2) },
            },
            4 => set(p, s, get(src, s)),
            5 => { let (a, b) = (get(p, s), get(p, partner(s))); set(p, s, b); set(p, partner(s), a) }
            6 => {
                fn cut<F: Clone>(a: &mut Vec<F>, b: &mut Vec<F>, n: usize) {
                    let j = [a.clone(), b.clone()].concat();
                    let c = n % (j.len() + 1);
                    *a = j[..c].to_vec();
                    *b = j[c..].to_vec();
                }
                if num % 2 == 0 { cut(&mut p.z0_primary, &mut p.zi_primary, num / 2) } else { cut(&mut p.z0_secondary, &mut p.zi_secondary, num / 2) }
            }
            7 | 8 | 9 => {
                // slots of the altered vector and of its commitment
                let (a, c) = if kind == 9 { if num % 2 == 0 { (15, 10) } else { (22, 17) } } else if num % 2 == 0 { (14, 9) } else { (21, 16) };
                match get(p, a) { V::Z1(v) => set(p, a, V::Z1(bump(v, num / 2, by + 4))), V::Z2(v) => set(p, a, V::Z2(bump(v, num / 2, by + 4))), _ => panic!() }
                if kind != 7 {
                    match get(p, a) { V::Z1(v) => set(p, c, V::C1(commit(&self.pp.ck_primary, v))), V::Z2(v) => set(p, c, V::C2(commit(&self.pp.ck_secondary, v))), _ => panic!() }
                } else if a == 14 {
                    let (_, _, u, x) = relaxed_parts(&p.range_primary.0);
                    let (w, _) = relaxed_witness_parts(&p.range_primary.1);
                    if w.len() as u64 == self.pp.r1cs_shape_primary.m_l_1() && x.len() == 2 { let e = error_of(&self.pp.r1cs_shape_primary, u, &x, &w); set(p, 15, V::Z1(e)) }
                } else {
                    let (_, _, u, x) = relaxed_parts(&p.range_secondary.0);
                    let (w, _) = relaxed_witness_parts(&p.range_secondary.1);
                    if w.len() as u64 == self.pp.r1cs_shape_secondary.m_l_1() && x.len() == 2 { let e = error_of(&self.pp.r1cs_shape_secondary, u, &x, &w); set(p, 22, V::Z2(e)) }
                }
            }
            _ => {
                let which: Vec<usize> = match num % 7 { 0 => (5..9).collect(), 1 => (9..16).collect(), 2 => (16..23).collect(), 3 => (1..5).collect(), 4 => vec![1, 3], 5 => vec![2, 4], _ => (9..23).collect() };
                for s in which { set(p, s, get(src, s)) }
            }
        }
    }
}
/// a relaxed instance of the forger, with the commitment to the cross term it was folded with
enum R<E1: Drv, E2: Drv> { P(RelaxedInstance<E1>, RelaxedWitness<E1>, Option<E1::Affine>), S(RelaxedInstance<E2>, RelaxedWitness<E2>, Option<E2::Affine>) }
#[derive(Clone)]
enum U<E1: Drv, E2: Drv> { P(Instance<E1>, Witness<E1>), S(Instance<E2>, Witness<E2>) }
/// the fold of a fresh instance; with another commitment to the cross term if bad
fn folded<C: Drv>(p: &Prover<C>, ck: &PedersenCommitment<C::Affine>, cv: &Curve, bad: bool, i: &RelaxedInstance<C>, w: &RelaxedWitness<C>, j: &Instance<C>, v: &Witness<C>) -> (RelaxedInstance<C>, RelaxedWitness<C>, C::Affine) where C::Affine: Encode + Decode {
    if !bad { return p.prove(i, w, j, v) }
    let t = cross_term(p, i, w, j, v);
    let ct: C::Affine = (commit(ck, t.clone()) + cv.point::<C::Affine>(&BigUint::one())).into();
    let k = Verifier::<C>::verify(ct, i, j);
    let r = relaxed_parts(&k).2 - relaxed_parts(i).2;
    let (w1, e1) = relaxed_witness_parts(w);
    let add = |a: &[C::Scalar], b: &[C::Scalar]| a.iter().zip(b).map(|(a, b)| *a + r * *b).collect::<Vec<_>>();
    (k, relaxed_witness(add(&w1, &witness_parts(v)), add(&e1, &t)), ct)
}

pub fn replay<E1: Drv<Scalar = E2::Base, Base = E2::Scalar>, E2: Drv, F1: FunctionCircuit<E1::Scalar>, F2: FunctionCircuit<E2::Scalar>>(files: &[String], rep: &mut Report, cv1: fn() -> Curve, cv2: fn() -> Curve)
where E1::Affine: Encode + Decode, E2::Affine: Encode + Decode
{
    let mut cheap: Option<World<E1, E2, F1, F2>> = None;
    let mut real: Option<World<E1, E2, F1, F2>> = None;
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        // sessions without alterations are run with the real parameters
        let honest = t.steps().all(|s| ["init", "start", "prove", "check"].contains(&s.op.as_str()) && s.st["ev"]["m"].as_array().map_or(true, |m| m.is_empty()));
        let slot = if honest { &mut real } else { &mut cheap };
        if slot.is_none() {
            let made = rep.guard("parameters/panic", || if honest { World::set_up(cv1(), cv2()) } else { World::cheap(cv1(), cv2()) });
            if made.is_none() { return }
            *slot = made;
        }
        let wd = slot.as_mut().unwrap();
        let mut execs: Vec<(BigUint, BigUint)> = vec![];
        let (mut hs, mut rs, mut made): (Vec<BigUint>, Vec<R<E1, E2>>, Vec<U<E1, E2>>) = (vec![], vec![], vec![]);
        for st in t.steps() {
            let a = &st.a;
            match st.op.as_str() {
                "init" => continue,
                "start" => {
                    rep.begin(&st, "start");
                    let z = (bu(&a[0]), bu(&a[1]));
                    execs.push(z.clone());
                    if wd.runs.contains_key(&z) { continue }
                    let pp = &wd.pp;
                    let Some(i) = rep.guard("init/panic", || Ivc::init(pp, DenseVectors::new(vec![E1::e(&z.0)]), DenseVectors::new(vec![E2::e(&z.1)]))) else { break };
                    wd.runs.insert(z, (i, vec![]));
                }
                "prove" => {
                    let (n, pp) = (us(&st.out[0]), &wd.pp);
                    rep.begin(&st, &format!("prove/{}", n.min(4)));
                    let run = wd.runs.get_mut(&execs[us(&a[0])]).unwrap();
                    if run.1.len() < n {
                        let Some(p) = rep.guard("prove/panic", || parts(&run.0.prove_step(pp))) else { break };
                        run.1.push(p);
                    }
                    let p = &run.1[n - 1];
                    let v1 = |z: &[E1::Scalar]| z.iter().map(|x| E1::v(x)).collect::<Vec<_>>();
                    let v2 = |z: &[E2::Scalar]| z.iter().map(|x| E2::v(x)).collect::<Vec<_>>();
                    let want: Vec<Vec<BigUint>> = st.out.iter().map(|x| vec![bu(x)]).collect();
                    if !rep.expect("prove/states", &want, &vec![vec![p.i.into()], v1(&p.z0_primary), v2(&p.z0_secondary), v1(&p.zi_primary), v2(&p.zi_secondary)]) { break }
                }
                "check" => {
                    let ms: Vec<Vec<BigInt>> = st.st["ev"]["m"].as_array().unwrap().iter().map(ints).collect();
                    let want = st.out[0].is_one();
                    let kinds = ms.iter().map(|m| m[1].to_string()).collect::<Vec<_>>().join("+");
                    rep.begin(&st, &format!("check/{kinds}{}{}{}", if a[2].is_one() { "/rehashed" } else { "" }, if a[3].is_zero() { "" } else { "/key" }, if want { "/accept" } else { "" }));
                    let at = |wd: &World<E1, E2, F1, F2>, e: &BigInt, n: &BigInt| wd.runs[&execs[us(e)]].1[us(n) - 1].clone();
                    let mut p = at(wd, &a[0], &a[1]);
                    for (k, m) in ms.iter().enumerate() { let s = at(wd, &m[2], &m[3]); wd.alter(&mut p, m, k, &s) }
                    if a[2].is_one() {
                        let x0 = World::<E1, E2, F1, F2>::hash0(&p.range_secondary.0, p.i, p.z0_primary.clone(), p.zi_primary.clone());
                        let x1 = World::<E1, E2, F1, F2>::hash1(&p.range_primary.0, p.i, p.z0_secondary.clone(), p.zi_secondary.clone());
                        set(&mut p, 6, V::S2(E2::e(&x0)));
                        set(&mut p, 7, V::S2(E2::e(&x1)));
                    }
                    let pp = wd.pp(us(&a[3]));
                    let Some(got) = rep.guard("check/panic", || World::<E1, E2, F1, F2>::proof(&p).verify(pp)) else { continue };
                    let sig = if want { "check/rejected".to_string() } else { format!("check/accepted/{}", ms.iter().map(|m| format!("{}.{}", m[0], m[1])).collect::<Vec<_>>().join("+")) };
                    rep.expect(&sig, &want, &got);
                    if ms.is_empty() {
                        // the encoded proof is the proof
                        let same = rep.guard("codec/panic", || { let p = World::<E1, E2, F1, F2>::proof(&p); let q = RecursiveProof::<E1, E2, F1, F2>::decode(&mut &p.encode()[..]); q.map_or(false, |q| q == p) });
                        if let Some(s) = same { rep.expect("codec", &true, &s); }
                    }
                }
                o => {
                    if wd.provers.is_none() { wd.provers = Some((Prover::new(wd.pp.r1cs_shape_primary.clone(), wd.pp.ck_primary.clone()), Prover::new(wd.pp.r1cs_shape_secondary.clone(), wd.pp.ck_secondary.clone()))) }
                    rep.begin(&st, &format!("{o}{}", if o == "present" { if st.out[0].is_one() { "/accept" } else { "/reject" } } else { "" }));
                    if forge(wd, rep, o, a, st.out.first(), &st.st["forge"], &mut hs, &mut rs, &mut made) != Some(true) { break }
                }
            }
        }
    }
}
fn n(v: &Value) -> BigInt { int(v) }
fn forge<E1: Drv<Scalar = E2::Base, Base = E2::Scalar>, E2: Drv, F1: FunctionCircuit<E1::Scalar>, F2: FunctionCircuit<E2::Scalar>>(wd: &World<E1, E2, F1, F2>, rep: &mut Report, op: &str, a: &[BigInt], out: Option<&BigInt>, state: &Value, hs: &mut Vec<BigUint>, rs: &mut Vec<R<E1, E2>>, made: &mut Vec<U<E1, E2>>) -> Option<bool>
where E1::Affine: Encode + Decode, E2::Affine: Encode + Decode
{
    let (pp, (p1, p2)) = (&wd.pp, wd.provers.as_ref().unwrap());
    let (s1, s2) = (&pp.r1cs_shape_primary, &pp.r1cs_shape_secondary);
    let new = |k: &str, l: usize| state[k].as_array().unwrap()[l..].to_vec();
    for (k, r) in new("rs", rs.len()).iter().enumerate() {
        let (side, kind, a, b, bad) = (us(&n(&r["side"])), us(&n(&r["kind"])), us(&n(&r["a"])), us(&n(&r["b"])), us(&n(&r["kind"])) == 3);
        let (rs_, made_) = (&*rs, &*made);
        let x = rep.guard("fold/panic", || match (side, kind) {
            (0, 0) => R::P(dummy_instance(2), dummy_witness(s1.m_l_1() as usize, s1.m() as usize), None),
            (_, 0) => R::S(dummy_instance(2), dummy_witness(s2.m_l_1() as usize, s2.m() as usize), None),
            (0, 1) => {
                let U::P(i, w) = &made_[a] else { panic!("side") };
                let (c, x) = instance_parts(i);
                R::P(relaxed(c, wd.cv1.affine(&[]), E1::Scalar::one(), x), relaxed_witness(witness_parts(w), vec![E1::Scalar::zero(); s1.m() as usize]), None)
            }
            (0, _) => { let (R::P(i, w, _), U::P(j, v)) = (&rs_[a], &made_[b]) else { panic!("side") }; let (i, w, t) = folded(p1, &pp.ck_primary, &wd.cv1, bad, i, w, j, v); R::P(i, w, Some(t)) }
            (_, _) => { let (R::S(i, w, _), U::S(j, v)) = (&rs_[a], &made_[b]) else { panic!("side") }; let (i, w, t) = folded(p2, &pp.ck_secondary, &wd.cv2, bad, i, w, j, v); R::S(i, w, Some(t)) }
        })?;
        rs.push(x);
    }
    for h in new("hs", hs.len()) {
        let (i, z0, z) = (u64_of(&n(&h["i"])), bu(&n(&h["z0"])), bu(&n(&h["z"])));
        let r = &rs[us(&n(&h["u"]))];
        let v = rep.guard("hash/panic", || match r {
            R::S(r, _, _) => World::<E1, E2, F1, F2>::hash0(r, i, vec![E1::e(&z0)], vec![E1::e(&z)]),
            R::P(r, _, _) => World::<E1, E2, F1, F2>::hash1(r, i, vec![E2::e(&z0)], vec![E2::e(&z)]),
        })?;
        hs.push(v);
    }
    let at = |v: &Value| { let k = n(v); if k < BigInt::zero() { BigUint::zero() } else { hs[us(&k)].clone() } };
    for u in new("us", made.len()) {
        let want = vec![at(&u["x0"]), at(&u["x1"])];
        let (side, made_) = (us(&n(&u["side"])), &*made);
        if op == "invent" {
            let x = if side == 0 { U::P(instance(wd.cv1.affine(&[]), want.iter().map(|x| E1::e(x)).collect()), witness(vec![E1::Scalar::zero(); s1.m_l_1() as usize])) }
                else { U::S(instance(wd.cv2.affine(&[]), want.iter().map(|x| E2::e(x)).collect()), witness(vec![E2::Scalar::zero(); s2.m_l_1() as usize])) };
            made.push(x);
            continue;
        }
        if op == "blur" {
            let x = match &made_[us(&a[0])] {
                U::P(i, w) => { let (c, x) = instance_parts(i); let d: E1::Affine = (c + wd.cv1.point::<E1::Affine>(&BigUint::one())).into(); U::P(instance(d, x), w.clone()) }
                U::S(i, w) => { let (c, x) = instance_parts(i); let d: E2::Affine = (c + wd.cv2.point::<E2::Affine>(&BigUint::one())).into(); U::S(instance(d, x), w.clone()) }
            };
            made.push(x);
            continue;
        }
        // the step circuit on what the forger chose
        let (i, z0, z, one, big) = (u64_of(&a[1]), bu(&a[2]), bu(&a[3]), n(&Value::from(a[4].to_string().parse::<i64>().unwrap())), us(&a[5]));
        // the folded instance this step refers to tells the commitment to the cross term
        let last = state["hs"].as_array().unwrap()[us(&n(&u["x1"]))].clone();
        let next = &rs[us(&n(&last["u"]))];
        let (rs_, base) = (&*rs, i == 0);
        let (x, sat, got) = rep.guard("step/panic", || if side == 0 {
            let fresh = if one < BigInt::zero() { None } else { match &made_[us(&one)] { U::S(i, _) => Some(i.clone()), _ => panic!("side") } };
            let (R::S(b, _, _), R::S(_, _, t)) = (&rs_[big], next) else { panic!("side") };
            let mut cs = R1cs::<E1>::default();
            augmented::<E2, E1, F1>(&mut cs, true, i, vec![E1::e(&z0)], if base { None } else { Some(vec![E1::e(&z)]) }, fresh, if base { None } else { Some(b.clone()) }, if base { None } else { *t });
            let (j, w) = instance_and_witness(&cs, s1, &pp.ck_primary);
            let x = instance_parts(&j).1.iter().map(|x| E1::v(x)).collect::<Vec<_>>();
            (U::P(j, w), cs.is_sat(), x)
        } else {
            let fresh = if one < BigInt::zero() { None } else { match &made_[us(&one)] { U::P(i, _) => Some(i.clone()), _ => panic!("side") } };
            let (R::P(b, _, _), R::P(_, _, t)) = (&rs_[big], next) else { panic!("side") };
            let mut cs = R1cs::<E2>::default();
            augmented::<E1, E2, F2>(&mut cs, false, i, vec![E2::e(&z0)], if base { None } else { Some(vec![E2::e(&z)]) }, fresh, if base { None } else { Some(b.clone()) }, if base { None } else { *t });
            let (j, w) = instance_and_witness(&cs, s2, &pp.ck_secondary);
            let x = instance_parts(&j).1.iter().map(|x| E2::v(x)).collect::<Vec<_>>();
            (U::S(j, w), cs.is_sat(), x)
        })?;
        if !(rep.expect("step/satisfied", &true, &sat) & rep.expect("step/public", &want, &got)) { return None }
        made.push(x);
    }
    if op == "present" {
        let z = |k: usize| bu(&a[k]);
        let (U::S(one, w), R::P(r1, w1, _), R::S(r2, w2, _)) = (&made[us(&a[0])], &rs[us(&a[6])], &rs[us(&a[7])]) else { panic!("side") };
        let p = Parts::<E1, E2> {
            i: u64_of(&a[1]), z0_primary: vec![E1::e(&z(2))], zi_primary: vec![E1::e(&z(3))], z0_secondary: vec![E2::e(&z(4))], zi_secondary: vec![E2::e(&z(5))],
            single_secondary: (one.clone(), w.clone()), range_primary: (r1.clone(), w1.clone()), range_secondary: (r2.clone(), w2.clone()),
        };
        let want = out.unwrap().is_one();
        let got = rep.guard("present/panic", || World::<E1, E2, F1, F2>::proof(&p).verify(pp))?;
        rep.expect(if want { "present/rejected" } else { "present/accepted" }, &want, &got);
    }
    Some(true)
}
