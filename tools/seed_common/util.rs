#![allow(dead_code)]
pub use posidonius as ps;
pub use std::io::BufWriter;
pub use std::fs::File;
pub type V = [f64; 3];
pub const G: f64 = ps::constants::K2;
pub fn ax(v: V) -> ps::Axes { ps::Axes { x: v[0], y: v[1], z: v[2] } }
pub fn va(a: ps::Axes) -> V { [a.x, a.y, a.z] }
pub fn off() -> ps::ConsiderEffects { ps::ConsiderEffects { tides: false, rotational_flattening: false, general_relativity: false, disk: false, wind: false, evolution: false } }
pub fn body(m: f64, r: f64, x: V, v: V, spin: V) -> ps::Particle { ps::Particle::new(m, r, 0.5, ax(x), ax(v), ax(spin)) }
/// circular speed around a mass m at distance d
pub fn vc(m: f64, d: f64) -> f64 { (G * m / d).sqrt() }
pub fn writer() -> BufWriter<File> { BufWriter::new(std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap()) }
pub fn eval(u: &mut ps::Universe, t: f64) {
    u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::None);
    u.calculate_spin_and_evolving_quantities(t, true);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(t, true, true, true, ps::IgnoreGravityTerms::None);
}
pub fn check(ok: bool, what: &str) { if !ok { println!("FAILS: {}", what); std::process::exit(1); } }
pub fn rel(a: f64, b: f64) -> f64 { (a - b).abs() / a.abs().max(b.abs()).max(1e-300) }
pub fn big(f: fn()) { let r = std::thread::Builder::new().stack_size(1 << 29).spawn(f).unwrap().join(); if r.is_err() { println!("FAILS: panic"); std::process::exit(1); } println!("ok"); }
