#![allow(warnings)]
#[path = "../../shared/core.rs"]
mod core;
#[path = "../../shared/det.rs"]
mod det;
mod curve;
mod draws;
mod field;
mod jubjub;
mod pairing;
mod tower;
use crate::core::Report;
fn main() {
    std::panic::set_hook(Box::new(|i| {
        *core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{i}");
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(args)).unwrap();
    if h.join().is_err() {
        let m = core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        eprintln!("harness error: {m}");
        std::process::exit(2)
    }
}
fn run(args: Vec<String>) {
    let mut r = Report::new();
    let files = &args[1..];
    match args[0].as_str() {
        "field_fr" => field::replay::<bn_254::Fr>(files, &mut r),
        "field_fq" => field::replay::<bn_254::Fq>(files, &mut r),
        "field_bls" => field::replay::<jubjub::jubjub_curve::BlsScalar>(files, &mut r),
        "field_b384" => field::replay::<field::L6>(files, &mut r),
        "c_g1" => curve::replay::<curve::G1X>(files, &mut r),
        "c_g2" => curve::replay::<curve::G2X>(files, &mut r),
        "c_grumpkin" => curve::replay::<curve::GkX>(files, &mut r),
        "c_jubjub" => curve::replay::<curve::JjX>(files, &mut r),
        "pairing" => pairing::replay(files, &mut r),
        "det_draws" => det::replay(files, &mut r, &draws::Draws),
        "tower" => tower::replay(files, &mut r),
        m => { eprintln!("unknown machine {m}"); std::process::exit(2) }
    }
    r.finish()
}
