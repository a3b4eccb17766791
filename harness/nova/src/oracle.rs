//! Replays behaviours of spec/mimc.qnt: transcripts, native and in a circuit.
use crate::core::*;
use crate::ecref::Curve;
use crate::lite::*;
use num_bigint::BigUint;
use zknova::verif::*;
use zkstd::circuit::prelude::*;
use zkstd::common::*;

#[derive(Clone)]
enum Item { El(Vec<BigUint>), Vec(Vec<BigUint>), Pt(Vec<BigUint>) }
fn native<C: Drv, CS: Drv<Scalar = C::Base>>(items: &[Item], cv: &Curve) -> Transcript<C> {
    let mut t = Transcript::<C>::default();
    for i in items {
        match i {
            Item::El(v) => t.append(CS::e(&v[0])),
            Item::Vec(v) => t.append_vec(v.iter().map(|x| CS::e(x)).collect()),
            Item::Pt(c) => t.append_point(cv.affine::<C::Affine>(c)),
        }
    }
    t
}
fn circuit<C: Drv, CS: Drv<Scalar = C::Base>>(cs: &mut R1cs<CS>, items: &[Item], cv: &Curve) -> CircuitTranscript<C> {
    let mut t = CircuitTranscript::<C>::default();
    let mut n = 0;
    let mut wire = |cs: &mut R1cs<CS>, v: &BigUint| {
        n += 1;
        match n % 3 { 0 => FieldAssignment::instance(cs, CS::e(v)), 1 => FieldAssignment::witness(cs, CS::e(v)), _ => FieldAssignment::constant(&CS::e(v)) }
    };
    for i in items {
        match i {
            Item::El(v) => { let x = wire(cs, &v[0]); t.append(x) }
            Item::Vec(v) => { let l = v.iter().map(|x| wire(cs, x)).collect(); t.append_vec(l) }
            Item::Pt(c) => {
                let p = cv.affine::<C::Affine>(c);
                let x = PointAssignment::witness(cs, p.get_x(), p.get_y(), p.is_identity());
                t.append_point(x)
            }
        }
    }
    t
}
pub fn replay<C: Drv, CS: Drv<Scalar = C::Base>>(files: &[String], rep: &mut Report, cv: Curve) {
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut seqs: Vec<Vec<Item>> = vec![vec![]; 3];
        for st in t.steps() {
            let a = &st.a;
            if st.op == "init" { continue }
            let k = us(&a[0]);
            let l: Vec<BigUint> = a[1..].iter().map(bu).collect();
            match st.op.as_str() {
                "append" => seqs[k].push(Item::El(l)),
                "vec" => seqs[k].push(Item::Vec(l)),
                "point" => seqs[k].push(Item::Pt(l)),
                "load" => seqs[k] = l.into_iter().map(|v| Item::El(vec![v])).collect(),
                "squeeze" | "circuit" => {
                    let n = us(&a[1]);
                    rep.begin(&st, &format!("{}/{n}", st.op));
                    let want = bu(&st.out[0]);
                    let tr = native::<C, CS>(&seqs[k], &cv);
                    let Some(v) = rep.guard("squeeze/panic", || tr.squeeze(n)) else { continue };
                    rep.expect("squeeze", &want, &C::v(&v));
                    rep.expect("squeeze/again", &want, &C::v(&tr.squeeze(n)));
                    if st.op == "circuit" {
                        let mut cs = R1cs::<CS>::default();
                        let r = rep.guard("circuit/panic", || { let t = circuit::<C, CS>(&mut cs, &seqs[k], &cv); let v = t.squeeze(&mut cs, n); (CS::v(&v.value(&cs)), cs.is_sat()) });
                        if let Some((v, ok)) = r { rep.expect("circuit", &want, &v); rep.expect("circuit/sat", &true, &ok); }
                    }
                }
                o => panic!("{o}"),
            }
        }
    }
}
