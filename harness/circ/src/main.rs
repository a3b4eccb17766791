#![allow(warnings)]
#[path = "../../shared/core.rs"]
mod core;
#[path = "../../shared/lite.rs"]
mod lite;
#[macro_use]
#[path = "../../shared/toy.rs"]
mod toy;
mod gadget;
mod point;
mod rcs;
mod sound;
use crate::core::Report;
fn main() {
    std::panic::set_hook(Box::new(|i| {
        *core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{i}");
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(args)).unwrap();
    if h.join().is_err() {
        let m = core::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
        eprintln!("harness error: {m}");
        std::process::exit(2)
    }
}
type FrD = zkgroth16::Bn254Driver;
type FqD = zknova::GrumpkinDriver;
fn run(args: Vec<String>) {
    let mut r = Report::new();
    let files = &args[1..];
    match args[0].as_str() {
        "r1cs_fr" => rcs::replay::<FrD>(files, &mut r),
        "r1cs_fq" => rcs::replay::<FqD>(files, &mut r),
        "gadget_fr" => gadget::replay::<FrD>(files, &mut r),
        "gadget_fq" => gadget::replay::<FqD>(files, &mut r),
        "ptgadget_g1" => point::replay::<FqD, bn_254::G1Affine>(files, &mut r),
        "ptgadget_gk" => point::replay::<FrD, grumpkin::Affine>(files, &mut r),
        "sound_t7" => sound::dump::<sound::t7::D, sound::t7::Projective>(&files[0], &files[1..], "field", &mut r),
        "sound_t11" => sound::dump::<sound::t11::D, sound::t11::Projective>(&files[0], &files[1..], "field", &mut r),
        "sound_t19" => sound::dump::<sound::t19::D, sound::t19::Projective>(&files[0], &files[1..], "field", &mut r),
        "sound_p19" => sound::dump::<sound::t19::D, sound::t19::Projective>(&files[0], &files[1..], "point", &mut r),
        "sound_p7" => sound::dump::<sound::t7::D, sound::t7::Projective>(&files[0], &files[1..], "point", &mut r),
        m => { eprintln!("unknown machine {m}"); std::process::exit(2) }
    }
    r.finish()
}
