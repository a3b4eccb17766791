//! Replays sessions of spec/det.qnt: which runs agree, under which randomness and on how many threads.
use crate::core::*;
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::HashMap;

/// a source of bytes, one of which can be made different
#[derive(Clone)]
pub struct Src { rng: Rng, word: [u8; 8], left: usize, pub at: usize, pub flip: Option<usize> }
impl Src {
    pub fn new(seed: u64) -> Self { Src { rng: Rng(seed.wrapping_mul(0xA24BAED4963EE407)), word: [0; 8], left: 0, at: 0, flip: None } }
    fn byte(&mut self) -> u8 {
        if self.left == 0 { self.word = self.rng.next().to_le_bytes(); self.left = 8 }
        let b = self.word[8 - self.left];
        self.left -= 1;
        let b = if self.flip == Some(self.at) { b ^ 1 } else { b };
        self.at += 1;
        b
    }
}
impl rand_core::RngCore for Src {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.byte() } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for Src {}

pub trait Doer: Sync {
    fn name(&self, kind: usize) -> String;
    /// bytes of randomness that make one drawn element
    fn width(&self, kind: usize) -> usize;
    /// everything the run results in
    fn run(&self, kind: usize, input: usize, src: &mut Src) -> Vec<u8>;
    /// n drawn elements as coordinates, and their modulus
    fn draws(&self, _kind: usize, _n: usize, _src: &mut Src) -> (Vec<Vec<BigUint>>, BigUint) { unreachable!() }
}
fn fingerprint(b: &[u8]) -> (usize, u64, u64) {
    let (mut x, mut y) = (0xcbf29ce484222325u64, 7u64);
    for c in b { x = (x ^ *c as u64).wrapping_mul(0x100000001b3); y = y.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) ^ (*c as u64 + 1); }
    (b.len(), x, y)
}
pub fn width_of(f: impl FnOnce(&mut Src)) -> usize { let mut s = Src::new(3); f(&mut s); s.at.max(1) }

pub fn replay(files: &[String], rep: &mut Report, doer: &dyn Doer) {
    let mut pools: HashMap<usize, rayon::ThreadPool> = HashMap::new();
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        let fresh = || vec![Src::new(1), Src::new(1), Src::new(2)];
        let mut hs = fresh();
        let mut runs: Vec<(usize, usize, u64, u64)> = vec![];
        for st in t.steps() {
            let a = &st.a;
            match st.op.as_str() {
                "init" => { hs = fresh(); runs.clear() }
                "seed" => { rep.begin(&st, "seed"); hs[us(&a[0])] = Src::new(a[1].to_u64().unwrap()) }
                "copy" => { rep.begin(&st, "copy"); hs[us(&a[0])] = hs[us(&a[1])].clone() }
                "run" => {
                    let (k, x, h, n) = (us(&a[0]), us(&a[1]), us(&a[2]), us(&a[4]));
                    let name = doer.name(k);
                    rep.begin(&st, &format!("run/{name}"));
                    let mut src = hs[h].clone();
                    let change = a[3].to_usize();
                    src.flip = change.map(|c| src.at + c * doer.width(k));
                    let pool = pools.entry(n).or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(64 << 20).build().expect("pool"));
                    let s = &mut src;
                    let Some(r) = rep.guard(&format!("run/{name}/panic"), || pool.install(|| doer.run(k, x, s))) else { break };
                    if change.is_none() { hs[h] = src }
                    let d = fingerprint(&r);
                    let me = (k, d.0, d.1, d.2);
                    let mut ok = true;
                    for (j, w) in st.out.iter().enumerate() {
                        let same = runs[j] == me;
                        match us(w) {
                            1 if !same => { rep.fail(&format!("run/{name}/same"), format!("the result of run {j} again"), "another"); ok = false }
                            2 if same => { rep.fail(&format!("run/{name}/different"), format!("not the result of run {j}"), "the same"); ok = false }
                            _ => {}
                        }
                    }
                    runs.push(me);
                    if !ok { break }
                }
                "spread" => {
                    let (k, n) = (us(&a[0]), us(&a[1]));
                    let name = doer.name(k);
                    rep.begin(&st, &format!("spread/{name}"));
                    let mut src = Src::new(a[2].to_u64().unwrap());
                    let Some((els, p)) = rep.guard(&format!("spread/{name}/panic"), || doer.draws(k, n, &mut src)) else { break };
                    let lim = bu(&st.out[0]).to_u128().unwrap();
                    let dims = els.get(0).map_or(0, |e| e.len());
                    let shift = p.bits() - 60;
                    let top = (&p >> shift).to_u64().unwrap() as u128 + 1;
                    for c in 0..dims {
                        let mut count = [[0i128; 16]; 4];
                        for (i, e) in els.iter().enumerate() {
                            let v = &e[c];
                            if *v >= p { rep.fail(&format!("spread/{name}/range"), "an element below the modulus", v); break }
                            let low = v.to_u64_digits();
                            let (w0, w1) = (low.get(0).copied().unwrap_or(0), low.get(2).copied().unwrap_or(0));
                            let hi = (v >> shift).to_u64().unwrap() as u128;
                            let next = if c + 1 < dims { &e[c + 1] } else { &els[(i + 1) % els.len()][0] };
                            let n0 = next.to_u64_digits().get(0).copied().unwrap_or(0);
                            count[0][(hi * 16 / top) as usize] += 1;
                            count[1][(w0 & 15) as usize] += 1;
                            count[2][(w1 & 15) as usize] += 1;
                            count[3][((w0 & 3) * 4 + (n0 & 3)) as usize] += 1;
                        }
                        for (m, what) in ["interval", "last digit", "middle digit", "neighbours"].iter().enumerate() {
                            for (b, c16) in count[m].iter().enumerate() {
                                let d = c16 * 16 - n as i128;
                                if (d * d) as u128 > lim { rep.fail(&format!("spread/{name}/{what}"), format!("about {} in sixteenth {b}", n / 16), c16); break }
                            }
                        }
                    }
                }
                o => { eprintln!("unknown op {o}"); std::process::exit(2) }
            }
        }
    }
}
