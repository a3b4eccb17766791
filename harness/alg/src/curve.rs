//! Replays behaviours of spec/curve.qnt in the real affine and projective point types.
use crate::core::*;
use crate::field::FX;
use crate::jubjub::jubjub_curve::{BlsScalar, JubjubAffine, JubjubExtended};
use bn_254::{Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use parity_scale_codec::{Decode, Encode};
use zkstd::common::*;

/// a curve under test; F is its prime base field, DEG its degree over it
pub trait CX {
    type A: Copy + Encode + Decode;
    type P: Copy + Encode + Decode;
    type F: FX;
    const NAME: &'static str;
    const DEG: usize;
    const EDW: bool;
    fn add(f: usize, a: &Self::A, p: &Self::P, b: &Self::A, q: &Self::P) -> Self::P;
    fn sub(f: usize, a: &Self::A, p: &Self::P, b: &Self::A, q: &Self::P) -> Self::P;
    fn mul(f: usize, a: &Self::A, p: &Self::P, s: &BigUint) -> Self::P;
    fn neg(f: usize, a: &Self::A, p: &Self::P) -> (Option<Self::A>, Option<Self::P>);
    fn dbl(f: usize, a: &Self::A, p: &Self::P) -> Self::P;
    fn conv(f: usize, a: &Self::A, p: &Self::P) -> (Self::A, Self::P);
    fn sum(f: usize, ps: &[Self::P]) -> Self::P;
    fn konst(c: &str) -> (Self::A, Self::P);
    fn cmp(a: &Self::A, p: &Self::P, b: &Self::A, q: &Self::P) -> Result<(bool, bool), String>;
    fn on_curve(a: &Self::A, p: &Self::P) -> Vec<(&'static str, bool)>;
    fn torsion(a: &Self::A) -> Option<bool>;
}
fn agree(what: &[(&str, bool)]) -> Result<bool, String> {
    if what.iter().all(|x| x.1 == what[0].1) { Ok(what[0].1) } else { Err(format!("{what:?}")) }
}
macro_rules! four { ($op:tt, $f:expr, $a:expr, $b:expr) => { match $f { 0 => *$a $op *$b, 1 => $a $op $b, 2 => $a $op *$b, _ => *$a $op $b } }; }
macro_rules! bin {
    ($op:tt, $as:tt, $f:expr, $a:expr, $p:expr, $b:expr, $q:expr) => {
        match $f / 4 {
            0 => four!($op, $f % 4, $a, $b), 1 => four!($op, $f % 4, $a, $q), 2 => four!($op, $f % 4, $p, $b), 3 => four!($op, $f % 4, $p, $q),
            _ => { let mut r = *$p; match $f { 16 => r $as *$q, 17 => r $as $q, 18 => r $as *$b, _ => r $as $b } r }
        }
    };
}
macro_rules! cx {
    ($ty:ident, $name:expr, $a:ty, $p:ty, $s:ty, $f:ty, $deg:expr, $edw:expr, $m:ident) => {
        pub struct $ty;
        impl CX for $ty {
            type A = $a; type P = $p; type F = $f;
            const NAME: &'static str = $name; const DEG: usize = $deg; const EDW: bool = $edw;
            fn add(f: usize, a: &$a, p: &$p, b: &$a, q: &$p) -> $p { if f == 20 { *q + *a } else { bin!(+, +=, f, a, p, b, q) } }
            fn sub(f: usize, a: &$a, p: &$p, b: &$a, q: &$p) -> $p { if f == 20 { *p + (-*b) } else { bin!(-, -=, f, a, p, b, q) } }
            fn mul(f: usize, a: &$a, p: &$p, s: &BigUint) -> $p {
                let s = &<$s as FX>::of_int(s);
                match f / 4 { 0 => four!(*, f % 4, a, s), 1 => four!(*, f % 4, s, a), 2 => four!(*, f % 4, p, s), 3 => four!(*, f % 4, s, p),
                    _ => { let mut r = *p; if f == 16 { r *= *s } else { r *= s } r } }
            }
            fn neg(f: usize, a: &$a, p: &$p) -> (Option<$a>, Option<$p>) {
                match f { 0 | 2 => (Some(-*a), None), 1 | 3 => (None, Some(-*p)),
                    4 => (Some(Group::invert(*a).unwrap_or(-*a)), None), _ => (None, Some(Group::invert(*p).unwrap_or(-*p))) }
            }
            fn dbl(f: usize, a: &$a, p: &$p) -> $p { match f { 0 | 2 => a.double(), 1 | 3 => p.double(), 4 => *p + *p, _ => $m!(dblfn, p) } }
            fn conv(f: usize, a: &$a, p: &$p) -> ($a, $p) {
                match f { 0 => (*a, <$p>::from(*a)), 1 => (<$a>::from(*p), *p), 2 => (*a, a.to_extended()), 3 => (p.to_affine(), *p),
                    4 => $m!(batch, a, p), _ => { let q = <$p>::from(*a); (<$a>::from(q), <$p>::from(<$a>::from(*p))) } }
            }
            fn sum(f: usize, ps: &[$p]) -> $p { $m!(sum, f, ps) }
            fn konst(c: &str) -> ($a, $p) {
                match c { "id" => (<$a>::ADDITIVE_IDENTITY, <$p>::ADDITIVE_IDENTITY), "gen" => (<$a>::ADDITIVE_GENERATOR, <$p>::ADDITIVE_GENERATOR), _ => (<$a>::default(), <$p>::default()) }
            }
            fn cmp(a: &$a, p: &$p, b: &$a, q: &$p) -> Result<(bool, bool), String> {
                let e = agree(&[("affine eq", a == b), ("affine ne", !(a != b)), ("projective eq", p == q), ("projective ne", !(p != q)), ("symmetric", b == a), ("symmetric projective", q == p),
                    ("conv", <$a>::from(*p) == *b), ("conv2", *p == <$p>::from(*b))])?;
                let z = agree(&[("affine identity", a.is_identity()), ("projective identity", p.is_identity()), ("eq identity", *a == <$a>::ADDITIVE_IDENTITY), ("eq identity projective", *p == <$p>::ADDITIVE_IDENTITY)])?;
                Ok((e, z))
            }
            fn on_curve(a: &$a, p: &$p) -> Vec<(&'static str, bool)> {
                let mut v = vec![("affine", a.is_on_curve()), ("projective", p.is_on_curve())];
                if $edw || !a.is_identity() {
                    v.push(("from_x_and_y", <$a>::from_x_and_y(a.get_x(), a.get_y()).is_on_curve()));
                    v.push(("projective from_x_and_y", <$p>::from_x_and_y(a.get_x(), a.get_y()).is_on_curve()));
                    v.push(("raw", $m!(raw, $a, a).is_on_curve()));
                }
                v
            }
            fn torsion(a: &$a) -> Option<bool> { $m!(torsion, a) }
        }
    };
}
macro_rules! bn {
    (dblfn, $p:expr) => { zkstd::arithmetic::weierstrass::double_projective_point(*$p) };
    (sum, $f:expr, $ps:expr) => { if $f == 0 { $ps.iter().copied().sum() } else { $ps.iter().sum() } };
    (raw, $a:ty, $x:expr) => { <$a as BNAffine>::new_unchecked($x.get_x(), $x.get_y()) };
    (torsion, $a:expr) => { Some($a.is_torsion_free()) };
    (batch, $a:expr, $p:expr) => {{ let mut o = [*$a; 2]; G1Projective::batch_normalize(&[*$p, $p.double()], &mut o); (o[0], *$p) }};
}
macro_rules! bn2 {
    (batch, $a:expr, $p:expr) => { ($p.to_affine(), $a.to_extended()) };
    ($($t:tt)*) => { bn!($($t)*) };
}
macro_rules! gk {
    (batch, $a:expr, $p:expr) => {{ let mut o = [*$a; 2]; grumpkin::Projective::batch_normalize(&[*$p, $p.double()], &mut o); (o[0], *$p) }};
    (torsion, $a:expr) => { None };
    ($($t:tt)*) => { bn!($($t)*) };
}
macro_rules! ed {
    (dblfn, $p:expr) => { zkstd::arithmetic::edwards::double_projective_point(*$p) };
    (sum, $f:expr, $ps:expr) => { $ps.iter().fold(JubjubExtended::ADDITIVE_IDENTITY, |a, p| a + p) };
    (raw, $a:ty, $x:expr) => { <$a as TwistedEdwardsAffine>::from_raw_unchecked($x.get_x(), $x.get_y()) };
    (torsion, $a:expr) => { None };
    (batch, $a:expr, $p:expr) => { ($p.to_affine(), $a.to_extended()) };
}
cx!(G1X, "g1", G1Affine, G1Projective, Fr, Fq, 1, false, bn);
cx!(G2X, "g2", G2Affine, G2Projective, Fr, Fq, 2, false, bn2);
cx!(GkX, "grumpkin", grumpkin::Affine, grumpkin::Projective, Fq, Fr, 1, false, gk);
cx!(JjX, "jubjub", JubjubAffine, JubjubExtended, BlsScalar, BlsScalar, 1, true, ed);

fn enc<F: FX>(b: &mut Vec<u8>, c: &[BigUint]) { for x in c { for l in F::of_int(x).raw() { b.extend_from_slice(&l.to_le_bytes()) } } }
fn ints_of<F: FX>(b: &[u8]) -> Option<Vec<BigUint>> {
    b.chunks_exact(32).map(|c| F::of_raw(&c.chunks(8).map(|w| u64::from_le_bytes(w.try_into().unwrap())).collect::<Vec<_>>()).int()).collect()
}
// multiplication and inversion in the base field by big integers
fn fmul(p: &BigUint, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
    if a.len() == 1 { return vec![&a[0] * &b[0] % p]; }
    vec![(&a[0] * &b[0] + (p - &a[1]) * &b[1]) % p, (&a[0] * &b[1] + &a[1] * &b[0]) % p]
}
fn finv(p: &BigUint, a: &[BigUint]) -> Vec<BigUint> {
    if a.len() == 1 { return vec![modinv(&a[0], p)]; }
    let n = modinv(&((&a[0] * &a[0] + &a[1] * &a[1]) % p), p);
    vec![&a[0] * &n % p, (p - &a[1]) * &n % p]
}
/// affine coordinates (empty: identity) of the affine value
pub fn aff<C: CX>(a: &C::A) -> Option<Vec<BigUint>> {
    let b = a.encode();
    if !C::EDW && b[b.len() - 1] != 0 { return Some(vec![]); }
    ints_of::<C::F>(&b)
}
pub fn proj<C: CX>(q: &C::P) -> Option<Vec<BigUint>> {
    let (p, d) = (C::F::p(), C::DEG);
    let v = ints_of::<C::F>(&q.encode())?;
    let (x, y) = (&v[..d], &v[d..2 * d]);
    if C::EDW {
        let (t, z) = (&v[2 * d..3 * d], &v[3 * d..]);
        if z.iter().all(|c| c.is_zero()) || fmul(&p, t, z) != fmul(&p, x, y) { return None; }
        let zi = finv(&p, z);
        return Some([fmul(&p, x, &zi), fmul(&p, y, &zi)].concat());
    }
    let z = &v[2 * d..];
    if z.iter().all(|c| c.is_zero()) { return Some(vec![]); }
    let zi = finv(&p, z);
    Some([fmul(&p, x, &zi), fmul(&p, y, &zi)].concat())
}
pub fn build_a<C: CX>(c: &[BigUint]) -> C::A {
    let mut b = vec![];
    if c.is_empty() {
        let mut id = vec![BigUint::zero(); 2 * C::DEG];
        id[C::DEG] = BigUint::one();
        enc::<C::F>(&mut b, &id); b.push(1);
    } else { enc::<C::F>(&mut b, c); if !C::EDW { b.push(0); } }
    C::A::decode(&mut &b[..]).expect("affine decodes")
}
pub fn build_p<C: CX>(c: &[BigUint], z: &BigUint) -> C::P {
    let (p, d) = (C::F::p(), C::DEG);
    let mut zz = vec![z.clone()];
    zz.resize(d, BigUint::zero());
    let mut b = vec![];
    if c.is_empty() {
        let zero = vec![BigUint::zero(); d];
        enc::<C::F>(&mut b, &zero); enc::<C::F>(&mut b, &zz); enc::<C::F>(&mut b, &zero);
    } else {
        let (x, y) = (fmul(&p, &c[..d], &zz), fmul(&p, &c[d..], &zz));
        enc::<C::F>(&mut b, &x); enc::<C::F>(&mut b, &y);
        if C::EDW { enc::<C::F>(&mut b, &fmul(&p, &fmul(&p, &c[..d], &c[d..]), &zz)); }
        enc::<C::F>(&mut b, &zz);
    }
    C::P::decode(&mut &b[..]).expect("projective decodes")
}

pub fn replay<C: CX>(files: &[String], r: &mut Report) {
    for path in files {
        let t = Trace::load(path);
        r.trace(&t);
        let mut regs: Vec<(C::A, C::P)> = vec![];
        let one = BigUint::one();
        for s in t.steps() {
            let want: Vec<Vec<BigUint>> = s.st["regs"].as_array().unwrap().iter().map(|x| ints(x).iter().map(bu).collect()).collect();
            if s.op == "init" { regs = want.iter().map(|c| (build_a::<C>(c), build_p::<C>(c, &one))).collect(); continue; }
            let f = match s.op.as_str() { "add" | "sub" | "mul" => us(&s.a[3]), "neg" | "dbl" | "conv" => us(&s.a[2]), "sum" => us(&s.a[1]), _ => 0 };
            r.begin(&s, &format!("{}.{}.{f}", C::NAME, s.op));
            let sig = format!("{}/{}/{f}", C::NAME, s.op);
            let g = |i: usize| regs[us(&s.a[i])];
            let mut res: Option<(usize, (C::A, C::P))> = None;
            let mut put = |r: &mut Report, k: usize, p: Option<C::P>| if let Some(p) = p {
                if let Some(a) = r.guard(&sig, || C::conv(3, &build_a::<C>(&want[0]), &p).0) { res = Some((k, (a, p))); }
            };
            match s.op.as_str() {
                "load" => { let c: Vec<BigUint> = s.a[2..].iter().map(bu).collect(); regs[us(&s.a[0])] = (build_a::<C>(&c), build_p::<C>(&c, &bu(&s.a[1]))); }
                "copy" => { let v = g(1); regs[us(&s.a[0])] = v; }
                "add" => { let ((a, p), (b, q)) = (g(1), g(2)); let x = r.guard(&sig, || C::add(f, &a, &p, &b, &q)); put(r, us(&s.a[0]), x) }
                "sub" => { let ((a, p), (b, q)) = (g(1), g(2)); let x = r.guard(&sig, || C::sub(f, &a, &p, &b, &q)); put(r, us(&s.a[0]), x) }
                "mul" => { let (a, p) = g(1); let x = r.guard(&sig, || C::mul(f, &a, &p, &bu(&s.a[2]))); put(r, us(&s.a[0]), x) }
                "dbl" => { let (a, p) = g(1); let x = r.guard(&sig, || C::dbl(f, &a, &p)); put(r, us(&s.a[0]), x) }
                "neg" => { let (a, p) = g(1); match r.guard(&sig, || C::neg(f, &a, &p)) {
                    Some((Some(x), _)) => { let y = C::conv(2, &x, &p).1; res = Some((us(&s.a[0]), (x, y))) }
                    Some((_, x)) => put(r, us(&s.a[0]), x), None => {} } }
                "conv" => { let (a, p) = g(1); res = r.guard(&sig, || C::conv(f, &a, &p)).map(|x| (us(&s.a[0]), x)); }
                "sum" => { let ps: Vec<C::P> = regs.iter().map(|x| x.1).collect(); let x = r.guard(&sig, || C::sum(f, &ps)); put(r, us(&s.a[0]), x) }
                "id" | "gen" | "default" => { let c = s.op.clone(); res = r.guard(&sig, || C::konst(&c)).map(|x| (us(&s.a[0]), x)); }
                "cmp" => { let ((a, p), (b, q)) = (g(0), g(1)); match r.guard(&sig, || C::cmp(&a, &p, &b, &q)) {
                    Some(Ok(x)) => { r.expect(&sig, &(!s.out[0].is_zero(), !s.out[1].is_zero()), &x); } Some(Err(m)) => r.fail(&sig, format!("all forms {:?}", s.out), m), None => {} } }
                "member" => {
                    let (a, p) = g(0);
                    if let Some(v) = r.guard(&sig, || C::on_curve(&a, &p)) {
                        for (n, got) in v { if got == s.out[0].is_zero() { r.fail(&format!("{sig}/{n}"), !got, got); } }
                    }
                    if us(&s.out[1]) != 2 { if let Some(Some(got)) = r.guard(&sig, || C::torsion(&a)) { r.expect(&format!("{sig}/torsion"), &!s.out[1].is_zero(), &got); } }
                }
                o => panic!("unknown op {o}"),
            }
            if let Some((k, v)) = res { regs[k] = v; }
            for i in 0..regs.len() {
                let (ga, gp) = (aff::<C>(&regs[i].0), proj::<C>(&regs[i].1));
                if ga.as_ref() != Some(&want[i]) || gp.as_ref() != Some(&want[i]) {
                    r.fail(&sig, format!("r{i}={:?}", want[i]), format!("r{i}: affine {ga:?} projective {gp:?}"));
                    regs[i] = (build_a::<C>(&want[i]), build_p::<C>(&want[i], &one));
                }
            }
        }
    }
}
