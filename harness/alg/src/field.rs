//! Replays behaviours of spec/field.qnt in the real field types and limb functions.
use crate::core::*;
use crate::jubjub::jubjub_curve::BlsScalar;
use bn_254::{Fq, Fr};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use std::cmp::Ordering;
use zkstd::arithmetic::utils::Naf;
use zkstd::common::*;

pub const P_FR: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
pub const P_FQ: &str = "21888242871839275222246405745257275088696311157297823662689037894645226208583";
pub const P_BLS: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";
pub const P_384: &str = "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787";

/// A field under test. Abstraction function: Montgomery limbs -> integer, computed here with big integers.
pub trait FX: Copy + PartialEq {
    const W: usize;
    const NAME: &'static str;
    fn p() -> BigUint;
    fn raw(&self) -> Vec<u64>;
    fn of_raw(l: &[u64]) -> Self;
    fn bin(op: &str, f: usize, a: Self, b: Self) -> Self;
    fn un(op: &str, f: usize, a: Self) -> Self;
    fn pow(f: usize, a: Self, e: &BigUint) -> Self;
    fn konst(op: &str, x: u64, regs: &[Self]) -> Option<Self>;
    fn cmp3(a: Self, b: Self) -> Result<(bool, bool, Ordering), String>;
    fn inv(f: usize, a: Self) -> Option<Self>;
    fn div(f: usize, a: Self, b: Self) -> Option<Self>;
    fn sqrt(f: usize, a: Self) -> Option<Option<Self>>;
    fn parse(f: usize, v: &BigUint) -> Option<Option<Self>>;
    fn wide(f: usize, v: &BigUint) -> Self;
    /// Err(description) when one of the displays of `a` disagrees with integer v
    fn show(f: usize, a: Self, s: &Shown) -> Result<(), String>;
    fn bitop(op: &str, f: usize, a: Self, b: Self) -> Option<Self>;
    fn of_int(v: &BigUint) -> Self {
        let p = Self::p();
        Self::of_raw(&limbs(&((v << (64 * Self::W)) % &p), Self::W))
    }
    /// None when the representation is not canonical
    fn int(&self) -> Option<BigUint> {
        let p = Self::p();
        let r = unlimbs(&self.raw());
        if r >= p { return None; }
        let ri = modinv(&((BigUint::one() << (64 * Self::W)) % &p), &p);
        Some(r * ri % p)
    }
}
pub struct Shown { pub v: BigUint, pub odd: bool, pub w: u8, pub modw: u64, pub mods: i64, pub n: u32, pub shr: BigUint }

fn naf_int(msb_first: &[Naf]) -> Result<BigInt, String> {
    let mut acc = BigInt::zero();
    let mut prev = false;
    for d in msb_first {
        let d = match d { Naf::Zero => 0, Naf::Plus => 1, Naf::Minus => -1 };
        if prev && d != 0 { return Err("adjacent non-zero digits".into()); }
        prev = d != 0;
        acc = acc * 2 + d;
    }
    Ok(acc)
}
fn want<T: PartialEq + std::fmt::Debug>(what: &str, w: T, g: T) -> Result<(), String> {
    if w == g { Ok(()) } else { Err(format!("{what}: want {w:?} got {g:?}")) }
}
fn bits_int(b: &[u8]) -> Result<BigUint, String> {
    let mut acc = BigUint::zero();
    for d in b { if *d > 1 { return Err("digit not a bit".into()); } acc = acc * 2u32 + *d; }
    Ok(acc)
}

macro_rules! common_ops {
    () => {
        fn cmp3(a: Self, b: Self) -> Result<(bool, bool, Ordering), String> {
            let o = a.cmp(&b);
            want("eq/ne", a == b, !(a != b))?;
            want("cmp/partial_cmp", Some(o), a.partial_cmp(&b))?;
            want("lt", o == Ordering::Less, a < b)?;
            want("le", o != Ordering::Greater, a <= b)?;
            want("gt", o == Ordering::Greater, a > b)?;
            want("ge", o != Ordering::Less, a >= b)?;
            want("antisymmetric", o.reverse(), b.cmp(&a))?;
            want("cmp/eq", o == Ordering::Equal, a == b)?;
            Ok((a == b, a.is_zero(), o))
        }
    };
}
macro_rules! basic_bin {
    ($op:expr, $f:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        match ($op, $f) {
            ("add", 0) => a + b, ("add", 1) => &a + &b, ("add", 2) => &a + b, ("add", 3) => a + &b,
            ("add", 4) => { let mut c = a; c += b; c } ("add", 5) => { let mut c = a; c += &b; c }
            ("sub", 0) => a - b, ("sub", 1) => &a - &b, ("sub", 2) => &a - b, ("sub", 3) => a - &b,
            ("sub", 4) => { let mut c = a; c -= b; c } ("sub", 5) => { let mut c = a; c -= &b; c }
            ("mul", 0) => a * b, ("mul", 1) => &a * &b, ("mul", 2) => &a * b, ("mul", 3) => a * &b,
            ("mul", 4) => { let mut c = a; c *= b; c } ("mul", 5) => { let mut c = a; c *= &b; c }
            _ => unreachable!(),
        }
    }};
}
fn e64(e: &BigUint) -> u64 { e.to_u64().expect("64-bit exponent") }

macro_rules! fx4 {
    ($t:ty, $name:expr, $p:expr, $ctor:expr, $getr:expr, $ff:ident, $fr:ident) => {
        impl FX for $t {
            const W: usize = 4;
            const NAME: &'static str = $name;
            fn p() -> BigUint { $p.parse().unwrap() }
            fn raw(&self) -> Vec<u64> { let g: fn(&$t) -> [u64; 4] = $getr; g(self).to_vec() }
            fn of_raw(l: &[u64]) -> Self { let c: fn([u64; 4]) -> $t = $ctor; c(arr::<4>(l)) }
            fn bin(op: &str, f: usize, a: Self, b: Self) -> Self {
                match (op, f) {
                    (_, 0..=5) => basic_bin!(op, f, a, b),
                    _ => $ff!(bin $t, op, f, a, b),
                }
            }
            fn un(op: &str, f: usize, a: Self) -> Self {
                match (op, f) {
                    ("neg", 0 | 2 | 4) => -a, ("neg", 3) => <$t>::zero() - a, ("neg", _) => -&a,
                    ("dbl", 0 | 4) => PrimeField::double(a), ("dbl", 1 | 5) => { let mut c = a; c.double_assign(); c } ("dbl", 2) => a + a,
                    ("sqr", 0 | 4) => PrimeField::square(a), ("sqr", 1 | 5) => { let mut c = a; c.square_assign(); c } ("sqr", 2) => a * a,
                    _ => $ff!(un $t, op, a),
                }
            }
            fn pow(f: usize, a: Self, e: &BigUint) -> Self {
                match f {
                    0 => $ff!(pow $t, a, e64(e)),
                    2 => <$t as PrimeField>::pow_of_2(e64(e)),
                    _ => { let l = arr::<4>(&limbs(e, 4)); <$t>::pow_vartime(&a, &l) }
                }
            }
            fn konst(op: &str, x: u64, regs: &[Self]) -> Option<Self> {
                Some(match op {
                    "zero" => if x % 2 == 0 { <$t>::zero() } else { <$t as IntGroup>::zero() },
                    "one" => if x % 2 == 0 { <$t>::one() } else { <$t as Ring>::one() },
                    "addid" => <$t as Group>::ADDITIVE_IDENTITY,
                    "mulid" => <$t as Ring>::MULTIPLICATIVE_IDENTITY,
                    "fromu64" => <$t>::from(x),
                    "sum" => $ff!(sum $t, regs),
                    "prod" => $ff!(prod $t, regs),
                    _ => unreachable!(),
                })
            }
            common_ops!();
            fn inv(f: usize, a: Self) -> Option<Self> {
                match f { 0 | 1 => Group::invert(a), _ => $ff!(inv $t, a) }
            }
            fn div(f: usize, a: Self, b: Self) -> Option<Self> {
                Some(match f { 0 | 2 => a / b, _ => { let mut c = a; c /= b; c } })
            }
            fn sqrt(f: usize, a: Self) -> Option<Option<Self>> {
                Some(match f { 0 => <$t>::sqrt(&a), _ => $ff!(sqrt $t, a) })
            }
            fn parse(f: usize, v: &BigUint) -> Option<Option<Self>> {
                let b: [u8; 32] = bytes_le(v, 32).try_into().unwrap();
                Some(match f { 0 | 2 => <$t as SigUtils<32>>::from_bytes(b), _ => $ff!(parse $t, b) })
            }
            fn wide(f: usize, v: &BigUint) -> Self {
                let b: [u8; 64] = bytes_le(v, 64).try_into().unwrap();
                match f { 0 | 2 => <$t as PrimeField>::from_bytes_wide(&b), _ => $ff!(hash $t, b) }
            }
            fn show(f: usize, a: Self, s: &Shown) -> Result<(), String> {
                let le = bytes_le(&s.v, 32);
                match f {
                    0 => want("to_bytes", le, SigUtils::<32>::to_bytes(a).to_vec()),
                    1 => want("to_raw_bytes", le, PrimeField::to_raw_bytes(&a)),
                    2 => { let b = PrimeField::to_bits(a); want("bit count", 256, b.len())?; want("to_bits", s.v.clone(), bits_int(&b)?) }
                    3 => want("to_nafs", BigInt::from(s.v.clone()), naf_int(&PrimeField::to_nafs(a))?),
                    4 => want("debug", format!("0x{:0>64}", s.v.to_str_radix(16)), format!("{:?}", a)),
                    5 => $ff!(repr $t, a, le),
                    6 => $ff!(lebits $t, a, s.v.clone()),
                    7..=10 => $ff!(red $t, f, a, s),
                    _ => $ff!(misc $t, $fr, a, s),
                }
            }
            fn bitop(op: &str, f: usize, a: Self, b: Self) -> Option<Self> { $ff!(bitop $t, op, f, a, b) }
        }
    };
}
macro_rules! withff {
    (bin $t:ty, $op:expr, $f:expr, $a:expr, $b:expr) => { match ($op, $f % 3) {
        ("add", 0) => <$t>::add_const($a, $b), ("add", _) => [$a, $b].iter().sum::<$t>(),
        ("mul", 0) => [$a, $b].iter().product::<$t>(), ("mul", _) => [$a, $b].into_iter().product::<$t>(),
        _ => $a - $b } };
    (un $t:ty, $op:expr, $a:expr) => { match $op {
        "neg" => -$a, "dbl" => ff::Field::double(&$a), _ => ff::Field::square(&$a) } };
    (pow $t:ty, $a:expr, $e:expr) => { ff::Field::pow_vartime(&$a, &[$e]) };
    (hash $t:ty, $b:expr) => { <$t as PrimeField>::from_bytes_wide(&$b) };
    (red $t:ty, $f:expr, $a:expr, $s:expr) => { want("is_odd", $s.odd, bool::from(ff::PrimeField::is_odd(&$a))) };
    (sum $t:ty, $r:expr) => { $r.iter().sum::<$t>() };
    (prod $t:ty, $r:expr) => { $r.iter().product::<$t>() };
    (inv $t:ty, $a:expr) => { Option::<$t>::from(ff::Field::invert(&$a)) };
    (sqrt $t:ty, $a:expr) => { Option::<$t>::from(ff::Field::sqrt(&$a)) };
    (parse $t:ty, $b:expr) => { Option::<$t>::from(<$t as ff::PrimeField>::from_repr($b)) };
    (repr $t:ty, $a:expr, $le:expr) => { want("to_repr", $le, ff::PrimeField::to_repr(&$a).to_vec()) };
    (lebits $t:ty, $a:expr, $v:expr) => {{
        let b: Vec<u8> = ff::PrimeFieldBits::to_le_bits(&$a).iter().rev().map(|b| *b as u8).collect();
        want("to_le_bits", $v, bits_int(&b)?)?;
        let c: Vec<u8> = <$t as ff::PrimeFieldBits>::char_le_bits().iter().rev().map(|b| *b as u8).collect();
        want("char_le_bits", <$t as FX>::p(), bits_int(&c)?)
    }};
    (misc $t:ty, $fr:ident, $a:expr, $s:expr) => { $fr($a, $s) };
    (bitop $t:ty, $op:expr, $f:expr, $a:expr, $b:expr) => { None };
}
macro_rules! withff_bits {
    (bitop $t:ty, $op:expr, $f:expr, $a:expr, $b:expr) => { Some(match ($op, $f) {
        ("xor", 0) => $a ^ $b, ("xor", _) => &$a ^ &$b, (_, 0) => $a & $b, _ => &$a & &$b }) };
    (pow $t:ty, $a:expr, $e:expr) => { if $e % 2 == 0 { FftField::pow($a, $e) } else { ff::Field::pow_vartime(&$a, &[$e]) } };
    (hash $t:ty, $b:expr) => { <$t as FftField>::from_hash(&$b) };
    (red $t:ty, $f:expr, $a:expr, $s:expr) => { red($f, $a, $s) };
    ($($x:tt)*) => { withff!($($x)*) };
}
macro_rules! noff {
    (bin $t:ty, $op:expr, $f:expr, $a:expr, $b:expr) => { basic_bin!($op, $f % 6, $a, $b) };
    (un $t:ty, $op:expr, $a:expr) => { match $op { "neg" => -$a, "dbl" => PrimeField::double($a), _ => PrimeField::square($a) } };
    (pow $t:ty, $a:expr, $e:expr) => { FftField::pow($a, $e) };
    (hash $t:ty, $b:expr) => { <$t as FftField>::from_hash(&$b) };
    (red $t:ty, $f:expr, $a:expr, $s:expr) => { red($f, $a, $s) };
    (sum $t:ty, $r:expr) => { $r.iter().fold(<$t>::zero(), |x, y| x + *y) };
    (prod $t:ty, $r:expr) => { $r.iter().fold(<$t>::one(), |x, y| x * *y) };
    (inv $t:ty, $a:expr) => { Group::invert($a) };
    (sqrt $t:ty, $a:expr) => { <$t>::sqrt(&$a) };
    (parse $t:ty, $b:expr) => { <$t as SigUtils<32>>::from_bytes($b) };
    (repr $t:ty, $a:expr, $le:expr) => { want("to_raw_bytes", $le, PrimeField::to_raw_bytes(&$a)) };
    (lebits $t:ty, $a:expr, $v:expr) => { want("to_bits", $v, bits_int(&PrimeField::to_bits($a))?) };
    (misc $t:ty, $fr:ident, $a:expr, $s:expr) => { Ok(()) };
    (bitop $t:ty, $op:expr, $f:expr, $a:expr, $b:expr) => { None };
}
fn fr_misc(a: Fr, s: &Shown) -> Result<(), String> {
    want("is_odd", s.odd, a.is_odd())?;
    let d = a.to_costomized_repr();
    let mut acc = BigUint::zero();
    for x in &d { if *x > 3 { return Err("base-4 digit out of range".into()); } acc = acc * 4u32 + *x; }
    want("to_costomized_repr", s.v.clone(), acc)?;
    want("Fq::from(Fr)", Some(s.v.clone()), Fq::from(a).int())
}
fn fq_misc(a: Fq, s: &Shown) -> Result<(), String> {
    want("Fr::from(Fq)", Some(&s.v % Fr::p()), Fr::from(a).int())?;
    want("lexicographically_largest", s.v > (Fq::p() - 1u32) / 2u32, a.lexicographically_largest())
}
fn red<F: FftField + FX>(f: usize, a: F, s: &Shown) -> Result<(), String> {
    let mut r = FftField::reduce(&a);
    match f {
        7 => want("reduce", limbs(&s.v, 4), FX::raw(&r)),
        8 => { want("is_odd", s.odd, <F as FftField>::reduce(&a).mod_2_pow_k(1) == 1)?; want("is_even", !s.odd, r.is_even()) }
        9 => { want("mod_2_pow_k", s.modw, r.mod_2_pow_k(s.w) as u64)?; want("mods_2_pow_k", s.mods, r.mods_2_pow_k(s.w) as i64) }
        _ => { r.divn(s.n); want("divn", limbs(&s.shr, 4), FX::raw(&r)) }
    }
}
fx4!(Fr, "fr", P_FR, Fr::new_unchecked, |x| *x.inner(), withff_bits, fr_misc);
fx4!(Fq, "fq", P_FQ, Fq::new_unchecked, |x| *x.inner(), withff, fq_misc);
fx4!(BlsScalar, "bls", P_BLS, BlsScalar, |x| x.0, noff, unused);

/// 384-bit limb layer, driven directly with the BLS12-381 base prime
#[derive(Clone, Copy, PartialEq)]
pub struct L6(pub [u64; 6]);
fn c6() -> ([u64; 6], u64, [u64; 6], [u64; 6], [u64; 6]) {
    let p: BigUint = P_384.parse().unwrap();
    let r: BigUint = BigUint::one() << 384;
    let l = |x: BigUint| arr::<6>(&limbs(&(x % &p), 6));
    let two64: BigUint = BigUint::one() << 64;
    let p0 = unlimbs(&limbs(&p, 6)[..1]);
    // -p^{-1} mod 2^64 by Newton iteration
    let mut x = BigUint::one();
    for _ in 0..7 { x = (&x * (BigUint::from(2u32) + &two64 * &two64 - (&p0 * &x) % &two64)) % &two64; }
    let inv = (&two64 - x).to_u64().unwrap();
    (arr::<6>(&limbs(&p, 6)), inv, l(r.clone()), l(&r * &r), l(&r * &r * &r))
}
use zkstd::arithmetic::bits_384 as b6;
impl L6 {
    pub fn draw(s: &mut crate::det::Src) -> L6 { let (p, i, _, r2, r3) = c6(); L6(b6::random_limbs(s, r2, r3, p, i)) }
}
impl FX for L6 {
    const W: usize = 6;
    const NAME: &'static str = "b384";
    fn p() -> BigUint { P_384.parse().unwrap() }
    fn raw(&self) -> Vec<u64> { self.0.to_vec() }
    fn of_raw(l: &[u64]) -> Self { L6(arr::<6>(l)) }
    fn bin(op: &str, _f: usize, a: Self, b: Self) -> Self {
        let (p, i, ..) = c6();
        L6(match op { "add" => b6::add(a.0, b.0, p), "sub" => b6::sub(a.0, b.0, p), _ => b6::mul(a.0, b.0, p, i) })
    }
    fn un(op: &str, _f: usize, a: Self) -> Self {
        let (p, i, ..) = c6();
        L6(match op { "neg" => b6::neg(a.0, p), "dbl" => b6::double(a.0, p), _ => b6::square(a.0, p, i) })
    }
    fn pow(f: usize, a: Self, e: &BigUint) -> Self {
        let (p, i, r, ..) = c6();
        let a = if f == 2 { Self::of_int(&BigUint::from(2u32)) } else { a };
        L6(b6::pow(a.0, arr::<6>(&limbs(e, 6)), r, p, i))
    }
    fn konst(op: &str, x: u64, regs: &[Self]) -> Option<Self> {
        let (p, i, _, r2, _) = c6();
        Some(L6(match op {
            "zero" | "addid" => b6::zero(), "one" | "mulid" => b6::one(r2, p, i),
            "fromu64" => b6::from_u64(x, r2, p, i),
            "sum" => regs.iter().fold(b6::zero(), |s, y| b6::add(s, y.0, p)),
            _ => regs.iter().fold(b6::one(r2, p, i), |s, y| b6::mul(s, y.0, p, i)),
        }))
    }
    fn cmp3(a: Self, b: Self) -> Result<(bool, bool, Ordering), String> { Ok((a.0 == b.0, a.0 == [0; 6], Ordering::Equal)) }
    fn inv(_f: usize, a: Self) -> Option<Self> {
        let (p, i, r, ..) = c6();
        b6::invert(a.0, b6::little_fermat(p), r, p, i).map(L6)
    }
    fn div(_f: usize, _a: Self, _b: Self) -> Option<Self> { None }
    fn sqrt(_f: usize, _a: Self) -> Option<Option<Self>> { None }
    fn parse(_f: usize, v: &BigUint) -> Option<Option<Self>> {
        // the limb layer has no canonical parser of its own: any integer below 2^384 is reduced
        let (p, i, _, r2, _) = c6();
        if v >= &Self::p() { return None; }
        Some(Some(L6(b6::to_mont_form(arr::<6>(&limbs(v, 6)), r2, p, i))))
    }
    fn wide(_f: usize, v: &BigUint) -> Self {
        let (p, i, _, r2, r3) = c6();
        L6(b6::from_u512(arr::<12>(&limbs(v, 12)), r2, r3, p, i))
    }
    fn show(f: usize, a: Self, s: &Shown) -> Result<(), String> {
        let (p, i, ..) = c6();
        let mut t = [0u64; 12];
        t[..6].copy_from_slice(&a.0);
        let r = b6::mont(t, p, i);
        match f % 3 {
            0 => want("mont", limbs(&s.v, 6), r.to_vec()),
            1 => want("to_bits", s.v.clone(), bits_int(&b6::to_bits(r))?),
            // the 384-bit layer returns its signed digits least significant first
            _ => { let mut d = b6::to_nafs(r); d.reverse(); want("to_nafs", BigInt::from(s.v.clone()), naf_int(&d)?) }
        }
    }
    fn bitop(_op: &str, _f: usize, _a: Self, _b: Self) -> Option<Self> { None }
}

pub fn replay<F: FX>(files: &[String], r: &mut Report) {
    for path in files {
        let t = Trace::load(path);
        r.trace(&t);
        let mut regs: Vec<F> = vec![];
        for s in t.steps() {
            let want_regs: Vec<BigUint> = ints(&s.st["regs"]).iter().map(bu).collect();
            if s.op == "init" { regs = want_regs.iter().map(F::of_int).collect(); continue; }
            let form = match s.op.as_str() { "add" | "sub" | "mul" | "xor" | "and" => us(&s.a[3]), "neg" | "dbl" | "sqr" | "inv" | "sqrt" | "parse" | "wide" => us(&s.a[2]), "pow" => us(&s.a[3]), "div" => us(&s.a[3]), "show" => us(&s.a[1]), _ => 0 };
            let key = format!("{}.{}.{}", F::NAME, s.op, form);
            r.begin(&s, &key);
            let sig = format!("{}/{}/{}", F::NAME, s.op, form);
            let k = if s.op == "cmp" || s.op == "show" { 0 } else { us(&s.a[0]) };
            let g = |i: usize| regs[us(&s.a[i])];
            let mut skip = false;
            let res: Option<F> = match s.op.as_str() {
                "load" => Some(F::of_int(&bu(&s.a[1]))),
                "add" | "sub" | "mul" => { let (a, b) = (g(1), g(2)); r.guard(&sig, || F::bin(&s.op, form, a, b)) }
                "neg" | "dbl" | "sqr" => { let a = g(1); r.guard(&sig, || F::un(&s.op, form, a)) }
                "pow" => { let a = g(1); let e = bu(&s.a[2]); r.guard(&sig, || F::pow(form, a, &e)) }
                "zero" | "one" | "addid" | "mulid" | "sum" | "prod" | "fromu64" => {
                    let rg = regs.clone(); let x = s.a[1].to_u64().unwrap();
                    r.guard(&sig, || F::konst(&s.op, x, &rg)).flatten()
                }
                "cmp" => {
                    let (a, b) = (regs[us(&s.a[0])], regs[us(&s.a[1])]);
                    match r.guard(&sig, || F::cmp3(a, b)) {
                        Some(Ok((e, z, _))) => { r.expect(&sig, &s.out, &vec![BigInt::from(e as u8), BigInt::from(z as u8)]); }
                        Some(Err(m)) => r.fail(&sig, "consistent comparisons", m),
                        None => {}
                    }
                    // a total order is transitive over the whole register file
                    let mut v: Vec<usize> = (0..regs.len()).collect();
                    let less = |i: usize, j: usize| matches!(F::cmp3(regs[i], regs[j]), Ok((_, _, Ordering::Less)));
                    v.sort_by(|&i, &j| if less(i, j) { Ordering::Less } else if less(j, i) { Ordering::Greater } else { Ordering::Equal });
                    for i in 0..v.len() { for j in i + 1..v.len() { if less(v[j], v[i]) { r.fail(&sig, "transitive order", "cycle"); } } }
                    None
                }
                "inv" | "div" | "sqrt" | "parse" => {
                    let o: Option<Option<Option<F>>> = match s.op.as_str() {
                        "inv" => { let a = g(1); r.guard(&sig, || Some(F::inv(form, a))) }
                        "div" => { let (a, b) = (g(1), g(2)); r.guard(&sig, || F::div(form, a, b).map(Some)) }
                        "sqrt" => { let a = g(1); r.guard(&sig, || F::sqrt(form, a)) }
                        _ => { let v = bu(&s.a[1]); r.guard(&sig, || F::parse(form, &v)) }
                    };
                    match o {
                        Some(None) => { skip = true; None } // operation not offered by this field
                        None => None,
                        Some(Some(v)) => {
                            if s.op == "div" { v } else {
                                // projection: a root is known up to sign
                                let v = v.map(|x| x.int().map(|i| if s.op == "sqrt" { let n = (F::p() - &i) % F::p(); i.min(n) } else { i }));
                                match (&v, s.out.first()) {
                                    (None, None) => {}
                                    (Some(Some(x)), Some(w)) if &BigInt::from(x.clone()) == w => {}
                                    _ => r.fail(&sig, format!("{:?}", s.out), format!("{v:?}")),
                                }
                                skip = true;
                                None
                            }
                        }
                    }
                }
                "wide" => { let v = bu(&s.a[1]); r.guard(&sig, || F::wide(form, &v)) }
                "show" => {
                    let a = regs[us(&s.a[0])];
                    let sh = Shown { v: bu(&s.out[0]), odd: !s.out[1].is_zero(), w: us(&s.a[2]) as u8, modw: s.out[2].to_u64().unwrap(), mods: s.out[3].to_i64().unwrap(), n: us(&s.a[3]) as u32, shr: bu(&s.out[4]) };
                    if let Some(Err(m)) = r.guard(&sig, || F::show(form, a, &sh)) { r.fail(&sig, "the integer's representation", m); }
                    None
                }
                "xor" | "and" => { let (a, b) = (g(1), g(2)); match r.guard(&sig, || F::bitop(&s.op, form, a, b)) { Some(None) => { skip = true; None } Some(x) => x, None => None } }
                o => panic!("unknown op {o}"),
            };
            if let Some(x) = res { regs[k] = x; } else if skip { regs[k] = F::of_int(&want_regs[k]); }
            // compare the projection of the whole real state with the specification's state
            for i in 0..regs.len() {
                let got = regs[i].int();
                if got.as_ref() != Some(&want_regs[i]) {
                    r.fail(&sig, format!("r{i}={}", want_regs[i]), format!("r{i}={}", got.map(|x| x.to_string()).unwrap_or("non-canonical".into())));
                    regs[i] = F::of_int(&want_regs[i]);
                }
            }
        }
    }
}
