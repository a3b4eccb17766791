#![allow(warnings)]
#[path = "../../shared/core.rs"]
mod core;
#[path = "../../shared/det.rs"]
mod det;
#[path = "../../shared/ecref.rs"]
mod ecref;
#[path = "../../shared/lite.rs"]
mod lite;
mod bignat;
mod codec;
mod fold;
mod funs;
mod ivc;
mod lie;
mod nifs;
mod oracle;
mod repeat;
use crate::core::Report;
use zknova::{Bn254Driver, GrumpkinDriver};
fn main() {
    std::panic::set_hook(Box::new(|i| {
        *core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{i}");
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(args)).unwrap();
    if h.join().is_err() {
        let m = core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        eprintln!("harness error: {m}");
        std::process::exit(2)
    }
}
fn run(args: Vec<String>) {
    let mut r = Report::new();
    let files = &args[1..];
    match args[0].as_str() {
        "oracle_gk" => oracle::replay::<GrumpkinDriver, Bn254Driver>(files, &mut r, ecref::gk()),
        "oracle_g1" => oracle::replay::<Bn254Driver, GrumpkinDriver>(files, &mut r, ecref::g1()),
        "fold_gk" => fold::replay::<GrumpkinDriver>(files, &mut r, ecref::gk()),
        "fold_g1" => fold::replay::<Bn254Driver>(files, &mut r, ecref::g1()),
        "bignat_fr" => bignat::replay::<Bn254Driver>(files, &mut r),
        "bignat_fq" => bignat::replay::<GrumpkinDriver>(files, &mut r),
        "nifs_gk" => nifs::replay::<GrumpkinDriver, Bn254Driver>(files, &mut r, ecref::gk()),
        "nifs_g1" => nifs::replay::<Bn254Driver, GrumpkinDriver>(files, &mut r, ecref::g1()),
        "codec" => codec::replay(files, &mut r),
        "ivc_bg" => ivc::replay::<Bn254Driver, GrumpkinDriver, funs::Cubic<_>, funs::Linear<_>>(files, &mut r, ecref::g1, ecref::gk),
        "ivc_gb" => ivc::replay::<GrumpkinDriver, Bn254Driver, funs::Same<_>, funs::Cubic<_>>(files, &mut r, ecref::gk, ecref::g1),
        "det_nova" => det::replay(files, &mut r, &repeat::Keys),
        "det_ivc" => match r.guard("params", repeat::Executions::new) { Some(d) => det::replay(files, &mut r, &d), None => {} },
        m => { eprintln!("unknown machine {m}"); std::process::exit(2) }
    }
    r.finish()
}
