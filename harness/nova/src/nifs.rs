//! Replays behaviours of spec/nifs.qnt: the folding verifier, the linking hash and the step circuit, natively and in circuits.
use crate::core::*;
use crate::ecref::Curve;
use crate::funs::*;
use crate::lie::*;
use crate::lite::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use serde_json::Value;
use zknova::verif::*;
use zknova::{FunctionCircuit, Verifier};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::DenseVectors;

type Co = Vec<BigUint>;
fn bus(v: &Value) -> Co { ints(v).iter().map(bu).collect() }
#[derive(Clone, Debug, PartialEq)]
struct Q { w: Co, e: Co, u: BigUint, x: Co }
#[derive(Clone, Debug)]
struct St { big: Q, one: (Co, Co), t: Co }
fn state(v: &Value) -> St {
    let (b, o) = (&v["big"], &v["one"]);
    let n = |v: &Value| bu(&int(v));
    St { big: Q { w: bus(&b["cwp"]), e: bus(&b["cep"]), u: n(&b["u"]), x: vec![n(&b["x0"]), n(&b["x1"])] }, one: (bus(&o["cwp"]), vec![n(&o["x0"]), n(&o["x1"])]), t: bus(&v["t"]["p"]) }
}
struct M<C, CS> { cv: Curve, _m: std::marker::PhantomData<(C, CS)> }
fn whole(l: &[BigUint]) -> BigUint { l.iter().rev().fold(BigUint::zero(), |a, x| (a << 64u32) + x) }
fn narrow(l: &[BigUint]) -> bool { l.iter().all(|x| x.bits() <= 64) }

impl<C: Drv, CS: Drv<Scalar = C::Base, Base = C::Scalar>> M<C, CS> {
    fn big(&self, q: &Q) -> RelaxedInstance<C> { relaxed(self.cv.affine(&q.w), self.cv.affine(&q.e), C::e(&q.u), q.x.iter().map(|x| C::e(x)).collect()) }
    fn one(&self, s: &St) -> Instance<C> { instance(self.cv.affine(&s.one.0), s.one.1.iter().map(|x| C::e(x)).collect()) }
    fn of(&self, i: &RelaxedInstance<C>) -> Q {
        let (w, e, u, x) = relaxed_parts(i);
        Q { w: self.cv.of_affine(&w), e: self.cv.of_affine(&e), u: C::v(&u), x: x.iter().map(|x| C::v(x)).collect() }
    }
    /// homogeneous coordinates to affine ones, the identity to none
    fn flat(&self, p: &[BigUint]) -> Co {
        if p[2].is_zero() { return vec![] }
        let i = modinv(&p[2], &self.cv.p);
        vec![&p[0] * &i % &self.cv.p, &p[1] * &i % &self.cv.p]
    }
    fn flat_wires(w: &Wires<C>) -> Vec<FieldAssignment<C::Base>> {
        let p = |p: &PointAssignment<C::Base>| vec![p.get_x().clone(), p.get_y().clone(), p.get_z().clone()];
        [p(&w.0), p(&w.1), vec![w.2.clone()], w.3.as_limbs(), w.4.as_limbs()].concat()
    }
    /// values of those wires: the instance, and whether all limbs are in range
    fn read(&self, v: &[BigUint]) -> (Q, bool) {
        (Q { w: self.flat(&v[..3]), e: self.flat(&v[3..6]), u: v[6].clone(), x: vec![whole(&v[7..11]), whole(&v[11..15])] }, narrow(&v[7..]))
    }
    fn fs(l: &[BigInt]) -> Vec<C::Base> { l.iter().map(|x| CS::ei(x)).collect() }
    fn augment(cs: &mut R1cs<CS>, f: usize, primary: bool, i: u64, z0: Vec<C::Base>, zi: Option<Vec<C::Base>>, one: Option<Instance<C>>, big: Option<RelaxedInstance<C>>, t: Option<C::Affine>) -> Vec<FieldAssignment<C::Base>> {
        match f {
            0 => augmented::<C, CS, Cubic<C::Base>>(cs, primary, i, z0, zi, one, big, t),
            1 => augmented::<C, CS, Same<C::Base>>(cs, primary, i, z0, zi, one, big, t),
            2 => augmented::<C, CS, Linear<C::Base>>(cs, primary, i, z0, zi, one, big, t),
            _ => augmented::<C, CS, Pair<C::Base>>(cs, primary, i, z0, zi, one, big, t),
        }
    }
    fn invoke(f: usize, z: &[C::Base]) -> Vec<C::Base> {
        let z = DenseVectors::new(z.to_vec());
        match f { 0 => Cubic::invoke(&z), 1 => Same::invoke(&z), 2 => Linear::invoke(&z), _ => Pair::invoke(&z) }.get()
    }
    fn u64(x: &BigInt) -> u64 { x.to_string().parse().unwrap() }
}
fn vals<D: Drv>(cs: &R1cs<D>, l: &[FieldAssignment<D::Scalar>]) -> Co { l.iter().map(|x| D::v(&x.value(cs))).collect() }

pub fn replay<C: Drv, CS: Drv<Scalar = C::Base, Base = C::Scalar>>(files: &[String], rep: &mut Report, cv: Curve) {
    let m = M::<C, CS> { cv, _m: Default::default() };
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut prev: Option<St> = None;
        for st in t.steps() {
            let now = state(st.st);
            let a = &st.a;
            let out: Co = st.out.iter().map(bu).collect();
            let old = prev.replace(now.clone());
            let Some(old) = old else { continue };
            let ok = match st.op.as_str() {
                "fold" => {
                    rep.begin(&st, "fold");
                    let (i, j, t) = (m.big(&old.big), m.one(&old), m.cv.affine::<C::Affine>(&old.t));
                    let native = rep.guard("fold/native/panic", || Verifier::<C>::verify(t, &i, &j));
                    if let Some(n) = &native { rep.expect("fold/native", &now.big, &m.of(n)); }
                    let r = rep.guard("fold/circuit/panic", || {
                        let mut cs = R1cs::<CS>::default();
                        let (_, r, w) = fold_in_circuit::<C, CS, Same<C::Base>>(&mut cs, &i, &j, t);
                        (CS::v(&r.value(&cs)), vals(&cs, &M::<C, CS>::flat_wires(&w)), cs.is_sat(), CS::v(&cs.x()[0]))
                    });
                    r.map_or(false, |(r, v, sat, _)| {
                        let (q, fits) = m.read(&v);
                        rep.expect("fold/challenge", &out[0], &r) & rep.expect("fold/circuit", &now.big, &q) & rep.expect("fold/limbs", &true, &fits) & rep.expect("fold/sat", &true, &sat)
                    })
                }
                "relax" => {
                    rep.begin(&st, "relax");
                    let r = rep.guard("relax/panic", || { let mut cs = R1cs::<CS>::default(); let w = relax_in_circuit::<C, CS>(&mut cs, &m.one(&now)); (vals(&cs, &M::<C, CS>::flat_wires(&w)), cs.is_sat()) });
                    let want = Q { w: now.one.0.clone(), e: vec![], u: BigUint::one(), x: now.one.1.clone() };
                    r.map_or(false, |(v, sat)| rep.expect("relax", &(want, true), &m.read(&v)) & rep.expect("relax/sat", &true, &sat))
                }
                "hash" => {
                    rep.begin(&st, "hash");
                    let (i, n) = (M::<C, CS>::u64(&a[0]), us(&a[1]));
                    let (z0, zi) = (M::<C, CS>::fs(&a[2..2 + n]), M::<C, CS>::fs(&a[2 + n..]));
                    let big = m.big(&now.big);
                    let h = rep.guard("hash/native/panic", || instance_hash::<C, CS>(&big, i, z0.clone(), zi.clone()));
                    if let Some(h) = h { rep.expect("hash/native", &out[0], &C::v(&h)); }
                    let r = rep.guard("hash/circuit/panic", || {
                        let mut cs = R1cs::<CS>::default();
                        let w = relaxed_in_circuit::<C, CS>(&mut cs, &big);
                        let mut f = |v: &[C::Base]| v.iter().map(|x| FieldAssignment::witness(&mut cs, *x)).collect::<Vec<_>>();
                        let (i, z0, zi) = (f(&[C::Base::from(i)]).remove(0), f(&z0), f(&zi));
                        let h = hash_in_circuit::<C, CS>(&mut cs, w, i, z0, zi);
                        (CS::v(&h.value(&cs)), cs.is_sat())
                    });
                    r.map_or(false, |r| rep.expect("hash/circuit", &(out[0].clone(), true), &r))
                }
                "augment" => {
                    let (primary, i, n, given, f) = (us(&a[0]) == 1, M::<C, CS>::u64(&a[1]), us(&a[2]), us(&a[3]) == 1, us(&a[4]));
                    rep.begin(&st, &format!("augment/{}{}{}", if primary { "primary" } else { "secondary" }, if i == 0 { "/base" } else { "" }, if us(&st.out[0]) == 1 { "" } else { "/unlinked" }));
                    let (z0, zi) = (M::<C, CS>::fs(&a[5..5 + n]), M::<C, CS>::fs(&a[5 + n..5 + n + if given { n } else { 0 }]));
                    let zi = if given { Some(zi) } else { None };
                    let (one, big, t) = (m.one(&now), m.big(&now.big), m.cv.affine::<C::Affine>(&now.t));
                    let at = if i == 0 || zi.is_none() { z0.clone() } else { zi.clone().unwrap() };
                    if let Some(z) = rep.guard("invoke/panic", || M::<C, CS>::invoke(f, &at)) { rep.expect("harness/function", &out[3..].to_vec(), &z.iter().map(|x| CS::v(x)).collect::<Co>()); }
                    let r = rep.guard("augment/panic", || {
                        let mut cs = R1cs::<CS>::default();
                        let z = M::<C, CS>::augment(&mut cs, f, primary, i, z0, zi, Some(one), Some(big), Some(t));
                        let x = cs.x();
                        (vec![BigUint::from(cs.is_sat() as u32), CS::v(&x[1]), CS::v(&x[2])].into_iter().chain(vals(&cs, &z)).collect::<Co>(), x.len())
                    });
                    r.map_or(false, |(v, l)| {
                        let s = rep.expect(if out[0].is_one() { "augment/sat" } else { "augment/unsat" }, &out[0], &v[0]);
                        s & (!out[0].is_one() || rep.expect("augment/public", &out[1..3].to_vec(), &v[1..3].to_vec()) & rep.expect("augment/state", &out[3..].to_vec(), &v[3..].to_vec())) & rep.expect("augment/publics", &3, &l)
                    })
                }
                "lie_fold" => {
                    rep.begin(&st, "lie_fold");
                    let (i, j, t) = (m.big(&old.big), m.one(&old), m.cv.affine::<C::Affine>(&old.t));
                    let build = |cs: &mut R1cs<CS>| -> Io<CS> {
                        let (g, r, w) = fold_in_circuit::<C, CS, Same<C::Base>>(cs, &i, &j, t);
                        let p = |p: &PointAssignment<C::Base>| vec![p.get_x().clone(), p.get_y().clone(), p.get_z().clone()];
                        Io { ins: [M::<C, CS>::flat_wires(&g.running), p(&g.single.0), vec![g.single.1, g.single.2], p(&g.commit_t)].concat(), outs: [vec![r], M::<C, CS>::flat_wires(&w)].concat() }
                    };
                    let order = C::p();
                    let fine = |v: &[BigUint]| {
                        let (mut q, fits) = m.read(&v[1..]);
                        for x in &mut q.x { *x %= &order }
                        v[0] == out[0] && fits && q == now.big
                    };
                    attack(rep, &build, a, &[C::p(), now.one.1[0].clone(), out[0].clone()], |at, lies| true, |ins, outs| fine(outs))
                }
                "lie_hash" => {
                    rep.begin(&st, "lie_hash");
                    let big = m.big(&now.big);
                    let build = |cs: &mut R1cs<CS>| -> Io<CS> {
                        let w = relaxed_in_circuit::<C, CS>(cs, &big);
                        let v: Vec<_> = M::<C, CS>::fs(&a[..3]).into_iter().map(|x| FieldAssignment::witness(cs, x)).collect();
                        let ins = [M::<C, CS>::flat_wires(&w), v.clone()].concat();
                        let h = hash_in_circuit::<C, CS>(cs, w, v[0].clone(), vec![v[1].clone()], vec![v[2].clone()]);
                        Io { ins, outs: vec![h] }
                    };
                    attack(rep, &build, &a[3..], &[C::p(), out[0].clone()], |at, lies| true, |ins, outs| outs == &out[..])
                }
                "lie_augment" => {
                    let (primary, i, f) = (us(&a[0]) == 1, M::<C, CS>::u64(&a[1]), us(&a[4]));
                    rep.begin(&st, &format!("lie_augment/{}{}", if primary { "primary" } else { "secondary" }, if i == 0 { "/base" } else { "" }));
                    let (z0, zi) = (M::<C, CS>::fs(&a[5..6]), M::<C, CS>::fs(&a[6..7]));
                    let (one, big, t) = (m.one(&now), m.big(&now.big), m.cv.affine::<C::Affine>(&now.t));
                    let build = |cs: &mut R1cs<CS>| -> Io<CS> {
                        let z = M::<C, CS>::augment(cs, f, primary, i, z0.clone(), Some(zi.clone()), Some(one.clone()), Some(big.clone()), Some(t));
                        // the linking hash, which is public, and the next state
                        let mut all: Vec<_> = vec![];
                        let w = cs.x();
                        all.push(FieldAssignment::constant(&w[2]));
                        all.extend(z);
                        Io { ins: vec![], outs: all }
                    };
                    // what the result may depend on; everything is random and told apart by its value
                    let mut given: Vec<BigUint> = vec![CS::v(&z0[0])];
                    if i > 0 || !primary { given.extend(now.one.0.iter().chain(&now.one.1).cloned()); }
                    if i > 0 {
                        given.push(CS::v(&zi[0]));
                        given.push(BigUint::from(i));
                        given.extend(now.big.w.iter().chain(&now.big.e).chain(&now.t).cloned());
                        given.push(now.big.u.clone());
                        for x in &now.big.x { given.extend(limbs(x, 4).into_iter().map(BigUint::from)); }
                    }
                    attack(rep, &build, &a[7..], &[C::p(), CS::v(&zi[0]), now.one.1[0].clone()], |at, lies| lies.iter().all(|(k, _)| {
                        let v = at.value(*k);
                        // the last coordinates of the points are ones as well
                        !given.contains(v) && !((i > 0 || !primary) && *k < 64 && v <= &BigUint::one())
                    }), |ins, outs| outs == &out[2..])
                }
                _ => { rep.begin(&st, &st.op); true }
            };
            if !ok { break }
        }
    }
}
/// false as soon as a lie is believed
fn attack<D: Drv>(rep: &mut Report, build: Build<D>, l: &[BigInt], special: &[BigUint], may: impl Fn(&Attack<D>, &[(usize, BigInt)]) -> bool, fine: impl Fn(&[BigUint], &[BigUint]) -> bool) -> bool {
    let op = rep.cur.1.clone();
    let Some(at) = rep.guard(&format!("panic/{op}"), || Attack::<D>::new(build)) else { return false };
    if !at.satisfied || !fine(&at.ins, &at.outs) { rep.fail(&format!("honest/{op}"), "the specified result", format!("{:?}", at.outs)); return false }
    for l in l.chunks(4) {
        let lies = at.lies(l, special);
        if !may(&at, &lies) { continue }
        if let Some((ins, outs)) = at.run(&lies) {
            if ins == at.ins && !fine(&ins, &outs) {
                rep.fail(&format!("{op}/satisfied"), "no satisfied system with another result", format!("lies {lies:?}: {outs:?}"));
                return false;
            }
        }
    }
    true
}
