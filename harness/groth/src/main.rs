#![allow(warnings)]
#[path = "../../shared/core.rs"]
mod core;
#[path = "../../shared/det.rs"]
mod det;
#[path = "../../shared/ecref.rs"]
mod ecref;
#[path = "../../shared/lite.rs"]
mod lite;
mod fft;
mod msm;
mod repeat;
mod snark;
use crate::core::Report;
fn main() {
    std::panic::set_hook(Box::new(|i| {
        *core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{i}");
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(args)).unwrap();
    if h.join().is_err() {
        let m = core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        eprintln!("harness error: {m}");
        std::process::exit(2)
    }
}
fn run(args: Vec<String>) {
    let mut r = Report::new();
    let files = &args[1..];
    match args[0].as_str() {
        "fft_fr" => fft::replay(files, &mut r),
        "msm_g1" => msm::replay::<bn_254::G1Affine>(files, &mut r, ecref::g1()),
        "msm_g2" => msm::replay::<bn_254::G2Affine>(files, &mut r, ecref::g2()),
        "msm_gk" => msm::replay::<grumpkin::Affine>(files, &mut r, ecref::gk()),
        "groth_verdict" => snark::replay(files, &mut r, false),
        "groth_params" => snark::replay(files, &mut r, true),
        "det_groth" => match r.guard("setup", repeat::Repeat::new) { Some(d) => det::replay(files, &mut r, &d), None => {} },
        m => { eprintln!("unknown machine {m}"); std::process::exit(2) }
    }
    r.finish()
}
