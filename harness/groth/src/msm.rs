//! Replays behaviours of spec/msm.qnt in the real multi-scalar multiplication.
use crate::core::*;
use crate::ecref::Curve;
use crate::lite::*;
use num_bigint::BigUint;
use parity_scale_codec::{Decode, Encode};
use std::collections::HashMap;
use zkgroth16::verif::msm_curve_addition;
use zkstd::common::*;

pub fn replay<A: BNAffine + Decode>(files: &[String], rep: &mut Report, cv: Curve) where A::Scalar: Decode, A::Extended: Encode {
    let mut memo: HashMap<BigUint, A> = HashMap::new();
    for f in files {
        let t = Trace::load(f);
        rep.trace(&t);
        for st in t.steps() {
            if st.op == "init" { continue }
            let b = ints(&st.st["bases"]);
            let s = ints(&st.st["scalars"]);
            rep.begin(&st, &format!("msm/{}", if b.len() == s.len() { format!("{}", b.len()) } else { "uneven".into() }));
            let bases: Vec<A> = b.iter().map(|e| memo.entry(bu(e)).or_insert_with(|| cv.point(&bu(e))).clone()).collect();
            let scalars: Vec<A::Scalar> = s.iter().map(|e| fei(e, &cv.order)).collect();
            let want = cv.times(&bu(&int(&st.st["sum"])));
            let Some(got) = rep.guard("panic", || msm_curve_addition(&bases, &scalars)) else { continue };
            rep.expect("sum", &want, &cv.of_projective(&got));
        }
    }
}
