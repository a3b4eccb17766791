//! Reference multiples of the generators of the four curves, computed with big integers only (no code under test),
//! and the passage between the real point types and integer coordinates through their codecs.
use crate::core::*;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use parity_scale_codec::{Decode, Encode};

pub type El = Vec<BigUint>; // coefficients of an element of F_p or F_p2 (u^2 = -1)
pub struct Curve { pub p: BigUint, pub d: usize, pub order: BigUint, table: Vec<(El, El)> }
fn m(v: BigUint, p: &BigUint) -> BigUint { v % p }
impl Curve {
    pub fn add_e(&self, a: &El, b: &El) -> El { a.iter().zip(b).map(|(x, y)| m(x + y, &self.p)).collect() }
    pub fn sub_e(&self, a: &El, b: &El) -> El { a.iter().zip(b).map(|(x, y)| m(x + &self.p - y, &self.p)).collect() }
    pub fn mul_e(&self, a: &El, b: &El) -> El {
        let p = &self.p;
        if self.d == 1 { return vec![m(&a[0] * &b[0], p)] }
        let t = (p - &a[1]) * &b[1];
        vec![m(&a[0] * &b[0] + t, p), m(&a[0] * &b[1] + &a[1] * &b[0], p)]
    }
    pub fn inv_e(&self, a: &El) -> El {
        let p = &self.p;
        if self.d == 1 { return vec![modinv(&a[0], p)] }
        let n = modinv(&m(&a[0] * &a[0] + &a[1] * &a[1], p), p);
        vec![m(&a[0] * &n, p), m((p - &a[1]) * &n, p)]
    }
    pub fn new(p: BigUint, order: BigUint, g: (El, El)) -> Self {
        let d = g.0.len();
        let mut c = Self { p, d, order, table: vec![] };
        let mut q = g;
        for _ in 0..256 {
            c.table.push(q.clone());
            // doubling on y^2 = x^3 + b
            let xx = c.mul_e(&q.0, &q.0);
            let l = c.mul_e(&c.add_e(&c.add_e(&xx, &xx), &xx), &c.inv_e(&c.add_e(&q.1, &q.1)));
            let x = c.sub_e(&c.sub_e(&c.mul_e(&l, &l), &q.0), &q.0);
            let y = c.sub_e(&c.mul_e(&l, &c.sub_e(&q.0, &x)), &q.1);
            q = (x, y);
        }
        c
    }
    /// e times the generator; an empty list is the identity
    pub fn times(&self, e: &BigUint) -> Vec<BigUint> {
        let e = e % &self.order;
        let mut acc: Option<(El, El, El)> = None;
        for (i, (x2, y2)) in self.table.iter().enumerate() {
            if !e.bit(i as u64) { continue }
            acc = Some(match acc {
                None => { let mut one = vec![BigUint::zero(); self.d]; one[0] = BigUint::one(); (x2.clone(), y2.clone(), one) }
                Some((x1, y1, z1)) => {
                    let zz = self.mul_e(&z1, &z1);
                    let h = self.sub_e(&self.mul_e(x2, &zz), &x1);
                    let r = self.sub_e(&self.mul_e(y2, &self.mul_e(&z1, &zz)), &y1);
                    assert!(h.iter().any(|v| !v.is_zero()), "distinct powers of two of the generator");
                    let hh = self.mul_e(&h, &h);
                    let hhh = self.mul_e(&h, &hh);
                    let v = self.mul_e(&x1, &hh);
                    let x3 = self.sub_e(&self.sub_e(&self.sub_e(&self.mul_e(&r, &r), &hhh), &v), &v);
                    let y3 = self.sub_e(&self.mul_e(&r, &self.sub_e(&v, &x3)), &self.mul_e(&y1, &hhh));
                    (x3, y3, self.mul_e(&z1, &h))
                }
            });
        }
        match acc {
            None => vec![],
            Some((x, y, z)) => {
                let zi = self.inv_e(&z);
                let zz = self.mul_e(&zi, &zi);
                [self.mul_e(&x, &zz), self.mul_e(&y, &self.mul_e(&zz, &zi))].concat()
            }
        }
    }
    fn enc(&self, b: &mut Vec<u8>, c: &[BigUint]) { for v in c { b.extend(bytes_le(&((v << 256u32) % &self.p), 32)) } }
    fn dec(&self, b: &[u8]) -> Vec<BigUint> {
        let ri = modinv(&((BigUint::one() << 256u32) % &self.p), &self.p);
        b.chunks(32).map(|c| BigUint::from_bytes_le(c) * &ri % &self.p).collect()
    }
    /// the real affine point with these coordinates (x, y, infinity flag)
    pub fn affine<A: Decode>(&self, c: &[BigUint]) -> A {
        let mut b = vec![];
        if c.is_empty() {
            let mut id = vec![BigUint::zero(); 2 * self.d];
            id[self.d] = BigUint::one();
            self.enc(&mut b, &id);
            b.push(1);
        } else {
            self.enc(&mut b, c);
            b.push(0);
        }
        A::decode(&mut &b[..]).expect("affine codec")
    }
    pub fn of_affine<A: Encode>(&self, a: &A) -> Vec<BigUint> {
        let b = a.encode();
        if *b.last().unwrap() == 1 { vec![] } else { self.dec(&b[..64 * self.d]) }
    }
    /// coordinates of a real projective point (x/z, y/z)
    pub fn of_projective<P: Encode>(&self, q: &P) -> Vec<BigUint> {
        let c = self.dec(&q.encode());
        let z: El = c[2 * self.d..].to_vec();
        if z.iter().all(|v| v.is_zero()) { return vec![] }
        let zi = self.inv_e(&z);
        [self.mul_e(&c[..self.d].to_vec(), &zi), self.mul_e(&c[self.d..2 * self.d].to_vec(), &zi)].concat()
    }
    pub fn point<A: Decode>(&self, e: &BigUint) -> A { self.affine(&self.times(e)) }
}
fn b(s: &str) -> BigUint { s.parse().unwrap() }
pub fn g1() -> Curve { Curve::new(crate::lite::q_mod(), crate::lite::r_mod(), (vec![b("1")], vec![b("2")])) }
pub fn gk() -> Curve {
    Curve::new(crate::lite::r_mod(), crate::lite::q_mod(), (vec![b("1")], vec![b("17631683881184975370165255887551781615748388533673675138860")]))
}
pub fn g2() -> Curve {
    Curve::new(crate::lite::q_mod(), crate::lite::r_mod(), (
        vec![b("10857046999023057135944570762232829481370756359578518086990519993285655852781"), b("11559732032986387107991004021392285783925812861821192530917403151452391805634")],
        vec![b("8495653923123431417604973247489272438418190587263600148770280649306958101930"), b("4082367875863433681332203403145435568316851327593401208105741076214120093531")]))
}
