//! Replays behaviours of spec/fft.qnt in the real domains and polynomials.
use crate::core::*;
use crate::lite::*;
use bn_254::Fr;
use num_bigint::BigUint;
use num_traits::Zero;
use zkgroth16::verif::{Coefficients, Domain, PointsValue};
use zkstd::common::*;

fn el(v: &num_bigint::BigInt) -> Fr { fei(v, &r_mod()) }
fn trim(mut v: Vec<BigUint>) -> Vec<BigUint> { while v.last().map_or(false, |x| x.is_zero()) { v.pop(); } v }
fn vals(l: &[Fr]) -> Vec<BigUint> { trim(l.iter().map(|f| val(f, &r_mod())).collect()) }
fn lists(v: &serde_json::Value) -> Vec<Vec<BigUint>> { v.as_array().unwrap().iter().map(|l| trim(ints(l).iter().map(bu).collect())).collect() }

struct S { d: Domain<Fr>, n: usize, p: Vec<Coefficients<Fr>>, v: Vec<PointsValue<Fr>> }
pub fn replay(files: &[String], rep: &mut Report) {
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let empty = || (vec![Coefficients(vec![]), Coefficients(vec![])], vec![PointsValue(vec![]), PointsValue(vec![])]);
        let mut s = S { d: Domain::new(1), n: 2, p: empty().0, v: empty().1 };
        for st in t.steps() {
            let k = us(&int(&st.st["k"]));
            rep.begin(&st, &format!("{}/{k}", st.op));
            let a = &st.a;
            let got = rep.guard(&format!("panic/{}", st.op), || {
                let i = if a.is_empty() { 0 } else { us(&(&a[0] & num_bigint::BigInt::from(1))) };
                let mut out = vec![];
                match st.op.as_str() {
                    "init" => {}
                    "resize" => { s.d = Domain::new(k); s.n = 1 << k; (s.p, s.v) = empty(); }
                    "load" => {
                        if s.n != 1 << k { s.d = Domain::new(k); s.n = 1 << k; (s.p, s.v) = empty(); }
                        s.p[i] = Coefficients(a[2..].iter().map(el).collect());
                    }
                    "loadv" => s.v[i] = PointsValue(a[1..].iter().map(el).collect()),
                    "dft" => s.v[i] = s.d.dft(s.p[i].clone()),
                    "cdft" => s.v[i] = s.d.coset_dft(s.p[i].clone()),
                    "idft" => s.p[i] = s.d.idft(s.v[i].clone()),
                    "cidft" => s.p[i] = s.d.coset_idft(s.v[i].clone()),
                    "pmul" => s.v[i] = &s.v[0] * &s.v[1],
                    "psub" => { let r = us(&a[1]); s.v[i] = &s.v[r] - &s.v[1 - r]; }
                    "divz" => s.v[i] = s.d.divide_by_z_on_coset(s.v[i].clone()),
                    "add" => s.p[i] = if us(&a[1]) == 0 { &s.p[0] + &s.p[1] } else { s.p[0].clone() + s.p[1].clone() },
                    "sub" => { let r = us(&a[1]); s.p[i] = s.p[r].clone() - s.p[1 - r].clone(); }
                    "smul" => s.p[i] = &s.p[i] * &el(&a[1]),
                    "divide" => s.p[i] = s.p[i].divide(&el(&a[1])),
                    "eval" => out.push(val(&s.p[i].evaluate(&el(&a[1])), &r_mod())),
                    "degree" => out.push(BigUint::from(Coefficients(s.p[i].0.clone()).format_degree().degree())),
                    "z" => { out.push(val(&s.d.z(&el(&a[0])), &r_mod())); out.push(val(&s.d.z_on_coset(), &r_mod())); }
                    o => { eprintln!("unknown op {o}"); std::process::exit(2) }
                }
                if matches!(st.op.as_str(), "dft" | "cdft") { assert_eq!(s.v[i].0.len(), s.n, "one value per point of the domain"); }
                out
            });
            let Some(out) = got else { break };
            let mut ok = rep.expect(&format!("out/{}", st.op), &st.out.iter().map(bu).collect::<Vec<_>>(), &out);
            ok &= rep.expect(&format!("coefficients/{}", st.op), &lists(&st.st["polys"]), &s.p.iter().map(|l| vals(&l.0)).collect());
            ok &= rep.expect(&format!("values/{}", st.op), &lists(&st.st["pts"]), &s.v.iter().map(|l| vals(&l.0)).collect());
            if !ok { break }
        }
    }
}
