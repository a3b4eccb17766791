//! Trace reading, mismatch reporting and panic capture shared by all replayers.
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{ToPrimitive, Zero};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn int(v: &Value) -> BigInt {
    if let Some(s) = v.get("#bigint").and_then(|s| s.as_str()) {
        s.parse().unwrap()
    } else if let Some(i) = v.as_i64() {
        BigInt::from(i)
    } else {
        panic!("not an integer: {v}")
    }
}
pub fn ints(v: &Value) -> Vec<BigInt> {
    v.as_array().map(|a| a.iter().map(int).collect()).unwrap_or_default()
}
pub fn us(v: &BigInt) -> usize { v.to_usize().expect("small") }

pub struct Step<'a> {
    pub idx: usize,
    pub op: String,
    pub a: Vec<BigInt>,
    pub out: Vec<BigInt>,
    pub st: &'a Value,
}
pub struct Trace { pub path: String, pub states: Vec<Value> }
impl Trace {
    pub fn load(path: &str) -> Self {
        let s = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("cannot read {path}: {e}"); std::process::exit(2) });
        let v: Value = serde_json::from_str(&s).unwrap_or_else(|e| { eprintln!("bad json {path}: {e}"); std::process::exit(2) });
        let states = v["states"].as_array().unwrap().iter().map(|st| {
            Value::Object(st.as_object().unwrap().iter().filter(|(k, _)| !k.starts_with("mbt")).map(|(k, v)| (k.rsplit("::").next().unwrap().to_string(), v.clone())).collect())
        }).collect();
        Trace { path: path.into(), states }
    }
    pub fn steps(&self) -> impl Iterator<Item = Step<'_>> {
        self.states.iter().enumerate().map(|(i, st)| {
            let ev = &st["ev"];
            Step { idx: i, op: ev["op"].as_str().unwrap().to_string(), a: ints(&ev["a"]), out: ints(&ev["out"]), st }
        })
    }
}

#[derive(Default)]
pub struct Report {
    pub steps: u64,
    pub ops: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub bad: Vec<Value>,
    pub sigs: HashSet<String>,
    pub samples: Vec<Value>,
    pub file: String,
    pub traces: u64,
    pub cur: (usize, String, Vec<String>),
    progress: Option<String>,
}
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
impl Report {
    pub fn new() -> Self { let mut r = Self::default(); r.progress = std::env::var("VH_PROGRESS").ok(); r }
    pub fn trace(&mut self, t: &Trace) { self.file = t.path.clone(); self.traces += 1; }
    pub fn begin(&mut self, s: &Step, key: &str) {
        self.steps += 1;
        *self.ops.entry(key.to_string()).or_default() += 1;
        if self.distinct.insert(hash(&(key, &s.a, &s.out, s.st["regs"].to_string()))) && self.samples.len() < 12 && self.steps % 7 == 1 {
            self.samples.push(json!({"file": self.file, "step": s.idx, "op": key, "args": s.a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "out": s.out.iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
        }
        self.cur = (s.idx, key.to_string(), s.a.iter().map(|x| x.to_string()).collect());
        if let Some(p) = &self.progress {
            let _ = std::fs::write(p, format!("{}\n{}\n{}\n{:?}\n", self.file, s.idx, key, self.cur.2));
        }
    }
    /// record a disagreement between specification and code at the current step
    pub fn fail(&mut self, sig: &str, want: impl ToString, got: impl ToString) {
        self.sigs.insert(sig.to_string());
        if self.bad.iter().filter(|b| b["sig"] == sig).count() < 3 {
            self.bad.push(json!({"sig": sig, "file": self.file, "step": self.cur.0, "op": self.cur.1, "args": self.cur.2,
                "want": want.to_string(), "got": got.to_string()}));
        }
    }
    pub fn expect<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, want: &T, got: &T) -> bool {
        if want != got { self.fail(sig, format!("{want:?}"), format!("{got:?}")); false } else { true }
    }
    /// run code under test; a panic is a result, reported as a disagreement
    pub fn guard<T>(&mut self, sig: &str, f: impl FnOnce() -> T) -> Option<T> {
        match quiet(f) {
            Ok(v) => Some(v),
            Err(m) => { self.fail(sig, "a result", format!("panic: {m}")); None }
        }
    }
    pub fn finish(self) -> ! {
        for b in &self.bad { println!("MISMATCH {b}"); }
        println!("SUMMARY {}", json!({"traces": self.traces, "steps": self.steps, "distinct": self.distinct.len(), "ops": self.ops, "sigs": self.sigs, "samples": self.samples}));
        std::process::exit(if self.bad.is_empty() { 0 } else { 1 })
    }
}
pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "?".into() }
    })
}

// ---- independent big-integer helpers (no code under test) ----
pub fn limbs(v: &BigUint, w: usize) -> Vec<u64> {
    let mut d = v.to_u64_digits();
    assert!(d.len() <= w, "too wide");
    d.resize(w, 0);
    d
}
pub fn unlimbs(l: &[u64]) -> BigUint {
    l.iter().rev().fold(BigUint::zero(), |a, x| (a << 64u32) + BigUint::from(*x))
}
pub fn bu(v: &BigInt) -> BigUint { assert!(v.sign() != Sign::Minus); v.to_biguint().unwrap() }
pub fn arr<const N: usize>(v: &[u64]) -> [u64; N] { v.try_into().unwrap() }
pub fn bytes_le(v: &BigUint, n: usize) -> Vec<u8> { let mut b = v.to_bytes_le(); assert!(b.len() <= n); b.resize(n, 0); b }
pub fn modinv(a: &BigUint, p: &BigUint) -> BigUint { a.modpow(&(p - 2u32), p) }

/// deterministic xorshift-free counter RNG used wherever the code under test asks for randomness
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.next() as u32 }
    fn next_u64(&mut self) -> u64 { self.next() }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for c in dest.chunks_mut(8) { let b = self.next().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(dest); Ok(()) }
}
impl rand_core::CryptoRng for Rng {}
