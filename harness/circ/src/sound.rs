//! Dumps the constraints that the real gadgets record over a small field, for exploration by spec/sound.qnt.
use crate::core::*;
use crate::lite::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use serde_json::json;
use std::fmt::Write;
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::SparseRow;

crate::toy_driver!(t7, 7, 10540996613548315209, 2, 4, 1, 3, 3, 1, 2, 3);
crate::toy_driver!(t19, 19, 8737931403336103397, 16, 9, 11, 2, 3, 1, 2, 5);
crate::toy_driver!(t11, 11, 15092790605762360413, 9, 4, 3, 2, 3, 0, 5, 4);

type LC<D> = SparseRow<<D as CircuitDriver>::Scalar>;
struct G<D: Drv> { cs: R1cs<D>, ins: Vec<LC<D>>, outs: Vec<LC<D>>, nin: usize }
impl<D: Drv> G<D> {
    fn new() -> Self { Self { cs: R1cs::default(), ins: vec![], outs: vec![], nin: 0 } }
    fn f(&mut self, v: u64) -> FieldAssignment<D::Scalar> { let a = FieldAssignment::witness(&mut self.cs, D::Scalar::from(v)); self.ins.push(a.inner().clone()); self.nin = self.cs.m_l_1(); a }
    fn b(&mut self, v: u8) -> BinaryAssignment { let a = BinaryAssignment::witness(&mut self.cs, v); self.ins.push(SparseRow::from(a.inner())); self.nin = self.cs.m_l_1(); a }
    fn pt(&mut self, x: u64, y: u64, inf: bool) -> PointAssignment<D::Scalar> {
        let p = PointAssignment::witness(&mut self.cs, D::Scalar::from(x), D::Scalar::from(y), inf);
        for c in [p.get_x(), p.get_y(), p.get_z()] { self.ins.push(c.inner().clone()); }
        self.nin = self.cs.m_l_1();
        p
    }
    fn of(&mut self, f: &FieldAssignment<D::Scalar>) { self.outs.push(f.inner().clone()) }
    fn ob(&mut self, b: &BinaryAssignment) { self.outs.push(SparseRow::from(b.inner())) }
    fn op(&mut self, p: &PointAssignment<D::Scalar>) { for c in [p.get_x(), p.get_y(), p.get_z()] { self.outs.push(c.inner().clone()) } }
    fn lc(&self, r: &LC<D>) -> Vec<(usize, u64)> {
        let nx = self.cs.l();
        terms(r).into_iter().map(|(w, c)| (match w { W::Instance(i) => i as usize, W::Witness(i) => nx + i as usize }, D::v(&c).to_u64().unwrap())).collect()
    }
    fn dump(&self, name: &str, par: &[u64]) -> String {
        let nx = self.cs.l();
        let n = nx + self.cs.m_l_1();
        let (xc, wc) = self.cs.z_vectors(nx, self.cs.m_l_1());
        let m = self.cs.m() as usize;
        let rows = |x: &Vec<Vec<(D::Scalar, usize)>>, w: &Vec<Vec<(D::Scalar, usize)>>| {
            let mut r = vec![vec![]; m];
            for (k, col) in x.iter().chain(w.iter()).enumerate() { for (c, i) in col { r[*i].push((k, D::v(c).to_u64().unwrap())); } }
            r
        };
        let (a, b, c) = (rows(&xc.0, &wc.0), rows(&xc.1, &wc.1), rows(&xc.2, &wc.2));
        // wires in the order in which they are assigned: what the caller provides, then whatever completes a row soonest
        let used: Vec<Vec<usize>> = (0..m).map(|i| a[i].iter().chain(&b[i]).chain(&c[i]).map(|t| t.0).collect()).collect();
        let given = nx + self.nin;
        let mut seq: Vec<usize> = (0..given).collect();
        let mut have = vec![false; n];
        seq.iter().for_each(|k| have[*k] = true);
        let missing = |i: usize, have: &[bool]| { let mut v: Vec<usize> = used[i].iter().copied().filter(|k| !have[*k]).collect(); v.sort(); v.dedup(); v };
        while let Some(v) = (0..m).map(|i| missing(i, &have)).filter(|v| !v.is_empty()).min_by_key(|v| v.len()) {
            for k in v { have[k] = true; seq.push(k) }
        }
        for k in 0..n { if !have[k] { seq.push(k) } }
        let mut pos = vec![0; n];
        seq.iter().enumerate().for_each(|(i, k)| pos[*k] = i);
        // rows in the order in which their last wire is assigned; rows st[k].. become decidable with wire k
        let last = |i: usize| used[i].iter().map(|k| pos[*k]).max().unwrap_or(0);
        let mut order: Vec<usize> = (0..m).collect();
        order.sort_by_key(|i| last(*i));
        let st: Vec<usize> = (0..=n).map(|k| order.iter().filter(|i| last(**i) < k).count()).collect();
        let z: Vec<u64> = self.cs.x().iter().chain(self.cs.w().iter()).map(|f| D::v(f).to_u64().unwrap()).collect();
        let hon: Vec<u64> = seq.iter().map(|k| z[*k]).collect();
        let l = |v: &Vec<(usize, u64)>| if v.is_empty() { "[0, 0]".to_string() } else { format!("[{}]", v.iter().map(|(i, c)| format!("{}, {c}", pos[*i])).collect::<Vec<_>>().join(", ")) };
        let ll = |v: Vec<Vec<(usize, u64)>>| if v.is_empty() { "[[0, 0]]".to_string() } else { format!("[{}]", v.iter().map(|x| l(x)).collect::<Vec<_>>().join(", ")) };
        format!("    {{ name: \"{name}\", par: {:?}, n: {n}, nin: {}, ins: {}, outs: {}, hon: {hon:?}, st: {st:?}, rows: [\n      {}] }}",
            if par.is_empty() { &[0] } else { par }, nx + self.nin, ll(self.ins.iter().map(|r| self.lc(r)).collect()), ll(self.outs.iter().map(|r| self.lc(r)).collect()),
            order.iter().map(|&i| format!("[{}, {}, {}]", l(&a[i]), l(&b[i]), l(&c[i]))).collect::<Vec<_>>().join(",\n      "))
    }
}

fn proj<D: Drv, P: parity_scale_codec::Decode>(c: &[u64]) -> P {
    let b: Vec<u8> = c.iter().flat_map(|v| bytes_le(&((BigUint::from(*v) << 256u32) % D::p()), 32)).collect();
    P::decode(&mut &b[..]).unwrap()
}
pub fn dump<D: Drv, P: BNProjective<Base = D::Scalar> + parity_scale_codec::Decode>(out: &str, shard: &[String], set: &str, rep: &mut Report) {
    let p = D::p().to_u64().unwrap();
    let mut gs: Vec<String> = vec![];
    let mut names: Vec<String> = vec![];
    let num = |i: usize, d: usize| shard.get(i).map_or(d, |s| s.parse().unwrap());
    let (part, of, mut count) = (num(0, 0), num(1, 1), 0);
    let mut add = |name: &str, par: &[u64], f: &dyn Fn(&mut G<D>)| {
        count += 1;
        if (count - 1) % of != part { return }
        let r = quiet(|| { let mut g = G::<D>::new(); f(&mut g); g.dump(name, par) });
        match r { Ok(s) => { gs.push(s); names.push(format!("{name}{par:?}")) } Err(m) => { rep.cur = (0, name.to_string(), vec![format!("{par:?}")]); rep.fail(&format!("panic/{name}"), "a constraint system", m) } }
    };
    type F<D> = FieldAssignment<<D as CircuitDriver>::Scalar>;
    if set == "field" {
        for (k, two) in [("mul", true), ("add", true), ("square", false), ("inputize", false), ("is_eq", true), ("is_neq", true), ("enforce_eq", true)] {
            for v in [(3, 3), (2, 5)] {
                if k == "enforce_eq" && v.0 != v.1 { continue }
                if !two && v.0 != v.1 { continue }
                add(k, &[], &|g| {
                    let x = g.f(v.0);
                    let y = if two { g.f(v.1) } else { x.clone() };
                    let cs = &mut g.cs;
                    match k {
                        "mul" => { let o = F::<D>::mul(cs, &x, &y); g.of(&o) }
                        "add" => { let o = F::<D>::add(cs, &x, &y); g.of(&o) }
                        "square" => { let o = F::<D>::square(cs, &x); g.of(&o) }
                        "inputize" => { let o = F::<D>::inputize(cs, x.clone()); g.of(&o) }
                        "is_eq" => { let o = F::<D>::is_eq(cs, &x, &y); g.ob(&o) }
                        "is_neq" => { let o = F::<D>::is_neq(cs, &x, &y); g.ob(&o) }
                        _ => F::<D>::enforce_eq(cs, &x, &y),
                    }
                });
            }
        }
        for c in [0, 1, p - 1] { add("enforce_eq_constant", &[c], &|g| { let x = g.f(c); F::<D>::enforce_eq_constant(&mut g.cs, &x, &D::Scalar::from(c)) }); }
        add("bwit", &[], &|g| { let b = g.b(1); g.ob(&b) });
        add("not", &[], &|g| { let b = g.b(1); let o = BinaryAssignment::not(&mut g.cs, &b); g.ob(&o) });
        add("and", &[], &|g| { let (a, b) = (g.b(1), g.b(0)); let o = BinaryAssignment::and(&mut g.cs, &a, &b); g.ob(&o) });
        add("cselect", &[], &|g| { let (x, y, b) = (g.f(2), g.f(4), g.b(1)); let o = F::<D>::conditional_select(&mut g.cs, &x, &y, &b); g.of(&o) });
        add("cenforce", &[], &|g| { let (x, y, b) = (g.f(2), g.f(4), g.b(0)); F::<D>::conditional_enforce_equal(&mut g.cs, &x, &y, &b) });
        add("bcenforce", &[], &|g| { let (x, y, b) = (g.b(1), g.b(1), g.b(1)); BinaryAssignment::conditional_enforce_equal(&mut g.cs, &x, &y, &b) });
        for n in [2, 256] { add("to_bits", &[n], &|g| { let x = g.f(5); for b in F::<D>::to_bits(&mut g.cs, &x, n as usize) { g.ob(&b) } }); }
        for (n, c) in [(2u64, 1u64), (3, 2), (3, 5), (4, 3), (4, 4), (4, 6), (4, p - 1), (7, 0), (7, 1), (9, 5), (9, 6), (2, 6), (1, 1)] {
            add("range_check", &[n, c], &|g| { let b: Vec<_> = (0..n).map(|_| g.b(0)).collect(); F::<D>::range_check(&mut g.cs, &b, D::Scalar::from(c)) });
        }
        for (n, m) in [(3, 1), (4, 2), (8, 0), (2, 2)] {
            add("range_bits", &[n, m], &|g| { let b: Vec<_> = (0..n).map(|_| g.b(0)).collect(); F::<D>::range_check_bits(&mut g.cs, &b, m) });
        }
        for n in [1u64, 2, 3, 4] { add("enforce_bits", &[n], &|g| { let x = g.f(1); let b: Vec<_> = (0..n).map(|i| g.b((i == n - 1) as u8)).collect(); F::<D>::enforce_eq_bits(&mut g.cs, &x, &b) }); }
    } else {
        add("padd", &[], &|g| { let (a, b) = (g.pt(1, 2, false), g.pt(1, 2, false)); let o = a.add(&b, &mut g.cs); g.op(&o) });
        add("pdbl", &[], &|g| { let a = g.pt(1, 2, false); let o = a.double(&mut g.cs); g.op(&o) });
        add("pcsel", &[], &|g| { let (a, b) = (g.pt(1, 2, false), g.pt(0, 1, true)); let c = g.b(1); let o = PointAssignment::conditional_select(&mut g.cs, &a, &b, &c); g.op(&o) });
        add("pselid", &[], &|g| { let a = g.pt(1, 2, false); let c = g.b(1); let o = a.select_identity(&mut g.cs, &c); g.op(&o) });
        add("descale", &[], &|g| { let a = g.pt(1, 2, false); let o = a.descale(&mut g.cs); g.op(&o) });
        for c in [[1u64, 2, 1], [2, 4, 2], [0, 1, 0], [0, 3, 0]] {
            add("passert", &c, &|g| { let a = g.pt(if c[2] == 0 { 0 } else { 1 }, if c[2] == 0 { 1 } else { 2 }, c[2] == 0); a.assert_equal_public_point(&mut g.cs, proj::<D, P>(&c)) });
        }
    }
    let n = gs.len();
    let body = format!("// written by the harness: the constraints recorded by the real gadgets\nmodule gaddata {{\n  type Gad = {{ name: str, par: List[int], n: int, nin: int, ins: List[List[int]], outs: List[List[int]], hon: List[int], st: List[int], rows: List[List[List[int]]] }}\n  pure val GADS: List[Gad] = [\n{}\n  ]\n}}\n", gs.join(",\n"));
    std::fs::write(out, body).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) });
    rep.steps = n as u64;
    rep.traces = n as u64;
    for k in names { *rep.ops.entry(k).or_default() += 1; }
}
