//! Replays behaviours of spec/r1cs.qnt in the real constraint-system builder.
use crate::core::*;
use crate::lite::*;
use num_bigint::BigUint;
use num_traits::Zero;
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::{DenseVectors, SparseMatrix, SparseRow};

const MX: usize = 5;
const MW: usize = 7;

struct S<D: Drv> {
    cs: R1cs<D>,
    row: Vec<SparseRow<D::Scalar>>,
    fa: Vec<FieldAssignment<D::Scalar>>,
    pubs: Vec<FieldAssignment<D::Scalar>>,
    privs: Vec<FieldAssignment<D::Scalar>>,
}
impl<D: Drv> S<D> {
    fn new() -> Self {
        let fa: Vec<_> = (0..4u32).map(|i| FieldAssignment::constant(&D::e(&BigUint::from(i)))).collect();
        Self { cs: R1cs::default(), row: (0..4u32).map(|i| SparseRow::from(D::e(&BigUint::from(i)))).collect(), fa, pubs: vec![FieldAssignment::constant(&D::Scalar::one())], privs: vec![] }
    }
}
/// the linear function a row denotes
fn dense<D: Drv>(r: &SparseRow<D::Scalar>) -> Vec<BigUint> {
    let p = D::p();
    let mut v = vec![BigUint::zero(); MX + MW];
    for (w, c) in terms(r) {
        let i = match w { W::Instance(i) => i as usize, W::Witness(i) => MX + i as usize };
        v[i] = (&v[i] + D::v(&c)) % &p;
    }
    v
}
fn cols<D: Drv>(c: &(Vec<Vec<(D::Scalar, usize)>>, Vec<Vec<(D::Scalar, usize)>>), l: usize, m: usize, z: &[BigUint]) -> Vec<BigUint> {
    let p = D::p();
    let mut out = vec![BigUint::zero(); m];
    for (k, col) in c.0.iter().enumerate() { for (f, i) in col { out[*i] = (&out[*i] + D::v(f) * &z[k]) % &p; } }
    for (k, col) in c.1.iter().enumerate() { for (f, i) in col { out[*i] = (&out[*i] + D::v(f) * &z[l + k]) % &p; } }
    out
}
fn vals<D: Drv>(v: &[D::Scalar]) -> Vec<BigUint> { v.iter().map(|f| D::v(f)).collect() }

pub fn replay<D: Drv>(files: &[String], rep: &mut Report) {
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let mut s = S::<D>::new();
        for st in t.steps() {
            rep.begin(&st, &st.op);
            let a = &st.a;
            let u = |i: usize| us(&a[i]);
            if rep.guard(&format!("panic/{}", st.op), || apply(&mut s, &st.op, a, &u)).is_none() { break; }
            // registers denote the specified linear functions
            let want: Vec<Vec<BigUint>> = st.st["regs"].as_array().unwrap().iter().map(|r| ints(r).iter().map(bu).collect()).collect();
            let got: Vec<_> = s.row.iter().map(|r| dense::<D>(r)).collect();
            let got2: Vec<_> = s.fa.iter().map(|r| dense::<D>(r.inner())).collect();
            let mut ok = rep.expect(&format!("row/{}", st.op), &want, &got) & rep.expect(&format!("assignment/{}", st.op), &want, &got2);
            let xs: Vec<BigUint> = ints(&st.st["xs"]).iter().map(bu).collect();
            let ws: Vec<BigUint> = ints(&st.st["ws"]).iter().map(bu).collect();
            ok &= rep.expect("public", &xs, &vals::<D>(&s.cs.x()));
            ok &= rep.expect("private", &ws, &vals::<D>(&s.cs.w()));
            match st.op.as_str() {
                "eval" => {
                    let i = u(0);
                    let (x, w) = (DenseVectors::new(s.cs.x()), DenseVectors::new(s.cs.w()));
                    let e = bu(&st.out[0]);
                    ok &= rep.expect("eval/row", &e, &D::v(&s.row[i].evaluate(&x, &w)));
                    ok &= rep.expect("eval/value", &e, &D::v(&s.fa[i].value(&s.cs)));
                    for r in [&s.row[i], s.fa[i].inner()] {
                        if let Some(c) = r.as_constant() {
                            ok &= rep.expect("constant/claimed", &true, &(us(&st.out[1]) == 1));
                            ok &= rep.expect("constant/value", &e, &D::v(&c));
                        }
                    }
                }
                "sat" => {
                    let o: Vec<usize> = st.out.iter().map(us).collect();
                    let g = rep.guard("sat/panic", || s.cs.is_sat());
                    ok &= rep.expect("sat", &Some(o[0] == 1), &g);
                    ok &= rep.expect("sizes", &vec![o[1], o[2], o[3]], &vec![s.cs.l(), s.cs.m_l_1(), s.cs.m() as usize]);
                }
                "view" => {
                    let p = D::p();
                    let z: Vec<BigUint> = a.iter().map(bu).collect();
                    let l = s.cs.l();
                    let m = s.cs.m() as usize;
                    let zd = DenseVectors::new(z.iter().map(|v| D::e(v)).collect::<Vec<_>>());
                    let truth: Vec<usize> = st.out.iter().map(us).collect();
                    let r = rep.guard("view/panic", || {
                        let (ma, mb, mc) = s.cs.matrices();
                        let pr = [ma, mb, mc].map(|x| vals::<D>(&x.prod(m as u64, l, &zd).get()));
                        let (xc, wc) = s.cs.z_vectors(l, s.cs.m_l_1());
                        let co = [(xc.0, wc.0), (xc.1, wc.1), (xc.2, wc.2)].map(|c| cols::<D>(&c, l, m, &z));
                        let (ea, eb, ec) = s.cs.evaluate();
                        let cur: Vec<BigUint> = s.cs.x().iter().chain(s.cs.w().iter()).map(|f| D::v(f)).collect();
                        let zc = DenseVectors::new(s.cs.x().into_iter().chain(s.cs.w()).collect::<Vec<_>>());
                        let (ma, mb, mc) = s.cs.matrices();
                        let pc = [ma, mb, mc].map(|x| vals::<D>(&x.prod(m as u64, l, &zc).get()));
                        (pr, co, [ea, eb, ec].map(|e| vals::<D>(&e)), pc)
                    });
                    let Some((pr, co, ev, pc)) = r else { break };
                    let holds: Vec<usize> = (0..m.min(pr[0].len())).map(|i| ((&pr[0][i] * &pr[1][i]) % &p == pr[2][i]) as usize).collect();
                    ok &= rep.expect("rows", &truth, &holds);
                    ok &= rep.expect("columns", &pr, &co);
                    ok &= rep.expect("evaluate", &pc, &ev);
                }
                _ => {}
            }
            if !ok { break; }
        }
    }
}

fn apply<D: Drv>(s: &mut S<D>, op: &str, a: &[num_bigint::BigInt], u: &dyn Fn(usize) -> usize) {
    let mut set = |s: &mut S<D>, k: usize, f: FieldAssignment<D::Scalar>| { s.row[k] = f.inner().clone(); s.fa[k] = f; };
    match op {
        "reset" | "init" => *s = S::new(),
        "alloc" => {
            let v = D::ei(&a[2]);
            let f = if u(1) == 1 { let f = FieldAssignment::instance(&mut s.cs, v); s.pubs.push(f.clone()); f } else { let f = FieldAssignment::witness(&mut s.cs, v); s.privs.push(f.clone()); f };
            set(s, u(0), f);
        }
        "wire" => { let f = if u(1) == 1 { s.pubs[u(2)].clone() } else { s.privs[u(2)].clone() }; set(s, u(0), f); }
        "const" => {
            let v = D::ei(&a[1]);
            s.row[u(0)] = if v == D::Scalar::one() { SparseRow::one() } else { SparseRow::from(v) };
            s.fa[u(0)] = FieldAssignment::constant(&v);
        }
        "ladd" | "lsub" | "lneg" | "lmul" => {
            let (k, i, j, f, c) = (u(0), u(1), u(2), u(3), D::ei(&a[4]));
            let (x, y) = (s.row[i].clone(), s.row[j].clone());
            let (fx, fy) = (s.fa[i].clone(), s.fa[j].clone());
            let (r, g) = match op {
                "ladd" => (match f { 0 | 4 => &x + &y, 1 | 5 => x + y, 2 => x + &y, _ => &x + y }, &fx + &fy),
                "lsub" => (match f { 0 | 4 => &x - &y, 1 | 5 => x - y, 2 => x - &y, _ => &x - y }, &fx - &fy),
                "lneg" => (match f { 0 | 2 | 4 => -&x, _ => -x }, -&fx),
                _ => (match f { 0 | 4 => &x * &c, 1 | 5 => x * c, 2 => x * &c, _ => &x * c }, FieldAssignment::mul(&mut s.cs, &FieldAssignment::constant(&c), &fx)),
            };
            s.row[k] = r;
            s.fa[k] = g;
        }
        "gate" => {
            let (x, y, w) = (s.row[u(1)].clone(), s.row[u(2)].clone(), s.row[u(3)].clone());
            gate(s, u(0), &x, &y, &w);
        }
        "gatehold" => {
            let (x, y) = (s.row[u(2)].clone(), s.row[u(3)].clone());
            let v = D::ei(&a[5]);
            let f = if u(4) == 1 { let f = FieldAssignment::instance(&mut s.cs, v); s.pubs.push(f.clone()); f } else { let f = FieldAssignment::witness(&mut s.cs, v); s.privs.push(f.clone()); f };
            gate(s, u(1), &x, &y, f.inner());
            set(s, u(0), f);
        }
        _ => {}
    }
}
fn gate<D: Drv>(s: &mut S<D>, op: usize, x: &SparseRow<D::Scalar>, y: &SparseRow<D::Scalar>, w: &SparseRow<D::Scalar>) {
    match op { 0 => s.cs.mul_gate(x, y, w), 1 => s.cs.add_gate(x, y, w), 2 => s.cs.sub_gate(x, y, w), _ => s.cs.equal_gate(x, y) }
}
