//! System descriptions, generators, and drivers of the real posidonius types.
use crate::engine::*;
use crate::refmath;
use posidonius as ps;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fs::File;
use std::io::BufWriter;
use std::path::Path;

pub const R_SUN: f64 = 6.957e8 / 1.49597870700e11;
pub const R_EARTH: f64 = 6.3781e6 / 1.49597870700e11;
pub const M_EARTH: f64 = 1. / 332946.050895;
pub const AU: f64 = 1.49597870700e11;
pub const MSUN_KG: f64 = 1.9818e30;
pub const DAY: f64 = 86400.;
/// Gravitational constant in AU^3 / (Msun day^2), from the IAU values the program documents.
pub const G: f64 = 6.67428e-11 / (AU * AU * AU) * MSUN_KG * (DAY * DAY);
pub const C: f64 = 2.99792458e8 / AU * DAY;

pub fn ax(v: V) -> ps::Axes { ps::Axes { x: v[0], y: v[1], z: v[2] } }
pub fn va(a: ps::Axes) -> V { [a.x, a.y, a.z] }

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum TModel { Ctl { k2: f64, sigma: f64, scale: f64 }, Creep { eta: f64 }, Kaula { freq: Vec<f64>, re: Vec<f64>, im: Vec<f64> } }
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Tide { Off, Central(TModel), Orbiting(TModel) }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum FModel { Oblate { k2f: f64 }, Creep { eta: f64 } }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Flat { Off, Central(FModel), Orbiting(FModel) }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum GrImpl { Kidder, Anderson, Newhall }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Gr { Off, Central(GrImpl), Orbiting }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub struct DiskP { pub inner: f64, pub outer: f64, pub life: f64, pub alpha: f64, pub sigma0: f64, pub mu: f64 }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Dsk { Off, Central(DiskP), Orbiting }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Evo { No, Baraffe2015(f64), Baraffe1998(f64), Leconte2011(f64), BolmontMathis2016(f64), GalletBolmont2017(f64), LeconteChabrier2013(bool) }

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Body {
    pub m: f64, pub r: f64, pub rg: f64,
    pub x: V, pub v: V, pub spin: V,
    pub tide: Tide, pub flat: Flat, pub gr: Gr, pub wind: Option<[f64; 2]>, pub disk: Dsk, pub evo: Evo,
}
impl Body {
    pub fn plain(m: f64, r: f64, x: V, v: V) -> Body {
        Body { m, r, rg: 0.5, x, v, spin: [0., 0., 1.], tide: Tide::Off, flat: Flat::Off, gr: Gr::Off, wind: None, disk: Dsk::Off, evo: Evo::No }
    }
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Default)]
pub struct Flags { pub tides: bool, pub flat: bool, pub gr: bool, pub disk: bool, pub wind: bool, pub evo: bool }
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum Integ { Jacobi, Dem, Whds, Ias, Leap }
pub const INTEGS: [Integ; 5] = [Integ::Jacobi, Integ::Dem, Integ::Whds, Integ::Ias, Integ::Leap];

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Sys { pub bodies: Vec<Body>, pub flags: Flags, pub t0: f64 }

impl Sys {
    pub fn particle(b: &Body) -> ps::Particle {
        let mut p = ps::Particle::new(b.m, b.r, b.rg, ax(b.x), ax(b.v), ax(b.spin));
        p.set_tides(ps::Tides::new(match &b.tide { Tide::Off => ps::TidesEffect::Disabled, Tide::Central(m) => ps::TidesEffect::CentralBody(tmodel(m)), Tide::Orbiting(m) => ps::TidesEffect::OrbitingBody(tmodel(m)) }));
        p.set_rotational_flattening(ps::RotationalFlattening::new(match b.flat { Flat::Off => ps::RotationalFlatteningEffect::Disabled, Flat::Central(m) => ps::RotationalFlatteningEffect::CentralBody(fmodel(m)), Flat::Orbiting(m) => ps::RotationalFlatteningEffect::OrbitingBody(fmodel(m)) }));
        p.set_general_relativity(ps::GeneralRelativity::new(match b.gr {
            Gr::Off => ps::GeneralRelativityEffect::Disabled, Gr::Orbiting => ps::GeneralRelativityEffect::OrbitingBody,
            Gr::Central(i) => ps::GeneralRelativityEffect::CentralBody(match i { GrImpl::Kidder => ps::GeneralRelativityImplementation::Kidder1995, GrImpl::Anderson => ps::GeneralRelativityImplementation::Anderson1975, GrImpl::Newhall => ps::GeneralRelativityImplementation::Newhall1983 }) }));
        match b.wind { Some([k, s]) => p.set_wind(ps::Wind::new(ps::WindEffect::Interaction, k, s)), None => {} }
        p.set_disk(ps::Disk::new(match b.disk { Dsk::Off => ps::DiskEffect::Disabled, Dsk::Orbiting => ps::DiskEffect::OrbitingBody,
            Dsk::Central(d) => ps::DiskEffect::CentralBody(ps::DiskProperties { inner_edge_distance: d.inner, outer_edge_distance: d.outer, lifetime: d.life, alpha: d.alpha, surface_density_normalization: d.sigma0, mean_molecular_weight: d.mu }) }));
        match b.evo { Evo::No => {}, e => p.set_evolution(evo(e)) }
        p
    }
    pub fn consider(&self) -> ps::ConsiderEffects {
        let f = self.flags;
        ps::ConsiderEffects { tides: f.tides, rotational_flattening: f.flat, general_relativity: f.gr, disk: f.disk, wind: f.wind, evolution: f.evo }
    }
    pub fn universe(&self, t_limit: f64) -> Box<ps::Universe> {
        let ps: Vec<ps::Particle> = self.bodies.iter().map(|b| Sys::particle(b)).collect();
        Box::new(ps::Universe::new(self.t0, t_limit, ps, self.consider()))
    }
    pub fn heaviest(&self) -> usize {
        let mut k = 0; for (i, b) in self.bodies.iter().enumerate() { if b.m > self.bodies[k].m { k = i; } } k
    }
    pub fn permuted(&self, perm: &[usize]) -> Sys { Sys { bodies: perm.iter().map(|&i| self.bodies[i].clone()).collect(), flags: self.flags, t0: self.t0 } }
    pub fn rotated(&self, q: &refmath::Rot) -> Sys {
        let mut s = self.clone();
        for b in s.bodies.iter_mut() { b.x = q.apply(b.x); b.v = q.apply(b.v); b.spin = q.apply(b.spin); }
        s
    }
    pub fn min_period(&self) -> f64 {
        let h = self.heaviest();
        let mut p = f64::INFINITY;
        for (i, b) in self.bodies.iter().enumerate() { if i == h { continue; }
            let hb = &self.bodies[h];
            let (r, v) = (sub(b.x, hb.x), sub(b.v, hb.v));
            let mu = G * (b.m + hb.m);
            let ia = 2. / norm(r) - dot(v, v) / mu;
            if ia > 0. { p = p.min(2. * std::f64::consts::PI / (mu * ia * ia * ia).sqrt()); }
            else { p = p.min(2. * std::f64::consts::PI * (norm(r).powi(3) / mu).sqrt()); }
        }
        p
    }
}
fn tmodel(m: &TModel) -> ps::TidalModel {
    match m {
        TModel::Ctl { k2, sigma, scale } => ps::TidalModel::ConstantTimeLag(ps::ConstantTimeLagParameters { dissipation_factor: *sigma, dissipation_factor_scale: *scale, love_number: *k2 }),
        TModel::Creep { eta } => ps::TidalModel::CreepCoplanar(ps::CreepCoplanarParameters { uniform_viscosity_coefficient: *eta }),
        TModel::Kaula { freq, re, im } => {
            let mut p = ps::KaulaParameters { love_number_excitation_frequency: [0.; 1024], real_part_love_number: [0.; 1024], imaginary_part_love_number: [0.; 1024], num_datapoints: freq.len() as f64, polynomials: ps::Polynomials::new(), kaula_tidal_force: ax([0.; 3]) };
            for i in 0..freq.len() { p.love_number_excitation_frequency[i] = freq[i]; p.real_part_love_number[i] = re[i]; p.imaginary_part_love_number[i] = im[i]; }
            ps::TidalModel::Kaula(p)
        }
    }
}
fn fmodel(m: FModel) -> ps::RotationalFlatteningModel {
    match m { FModel::Oblate { k2f } => ps::RotationalFlatteningModel::OblateSpheroid(ps::OblateSpheroidParameters { love_number: k2f }),
        FModel::Creep { eta } => ps::RotationalFlatteningModel::CreepCoplanar(ps::CreepCoplanarParameters { uniform_viscosity_coefficient: eta }) }
}
pub fn evo(e: Evo) -> ps::EvolutionType {
    match e { Evo::No => ps::EvolutionType::NonEvolving, Evo::Baraffe2015(m) => ps::EvolutionType::Baraffe2015(m), Evo::Baraffe1998(m) => ps::EvolutionType::Baraffe1998(m), Evo::Leconte2011(m) => ps::EvolutionType::Leconte2011(m),
        Evo::BolmontMathis2016(m) => ps::EvolutionType::BolmontMathis2016(m), Evo::GalletBolmont2017(m) => ps::EvolutionType::GalletBolmont2017(m), Evo::LeconteChabrier2013(d) => ps::EvolutionType::LeconteChabrier2013(d) }
}

// ---------------------------------------------------------------- simulations
/// A running simulation: the real integrator behind its public trait.
pub struct Sim { pub int: Box<dyn ps::Integrator> }
#[derive(Clone, Debug, PartialEq)]
pub struct State { pub t: f64, pub x: Vec<V>, pub v: Vec<V>, pub l: Vec<V>, pub inertia: Vec<f64> }

impl Sim {
    pub fn new(sys: &Sys, integ: Integ, dt: f64, t_limit: f64, hist: f64, rec: f64) -> Sim {
        let u = *sys.universe(t_limit);
        use ps::whfast::CoordinatesType as CT;
        let int: Box<dyn ps::Integrator> = match integ {
            Integ::Jacobi => Box::new(ps::WHFast::new(dt, rec, hist, u, CT::Jacobi)),
            Integ::Dem => Box::new(ps::WHFast::new(dt, rec, hist, u, CT::DemocraticHeliocentric)),
            Integ::Whds => Box::new(ps::WHFast::new(dt, rec, hist, u, CT::WHDS)),
            Integ::Ias => Box::new(ps::Ias15::new(dt, rec, hist, u)),
            Integ::Leap => Box::new(ps::LeapFrog::new(dt, rec, hist, u)),
        };
        let mut s = Sim { int };
        s.int.initialize_physical_values();
        s
    }
    pub fn u(&self) -> &ps::Universe {
        let any = self.int.as_any();
        if let Some(w) = any.downcast_ref::<ps::WHFast>() { return &w.universe; }
        if let Some(w) = any.downcast_ref::<ps::Ias15>() { return &w.universe; }
        &any.downcast_ref::<ps::LeapFrog>().expect("integrator type").universe
    }
    pub fn t(&self) -> f64 { self.int.get_current_time() }
    pub fn n_hist(&self) -> usize { self.int.get_n_historic_snapshots() }
    /// Full serialised state, exact (every f64 printed in shortest round-trip form; NaN/inf tagged by serde as null).
    pub fn json_full(&self) -> serde_json::Value {
        let any = self.int.as_any();
        if let Some(w) = any.downcast_ref::<ps::WHFast>() { return serde_json::to_value(w).unwrap(); }
        if let Some(w) = any.downcast_ref::<ps::Ias15>() { return serde_json::to_value(w).unwrap(); }
        serde_json::to_value(any.downcast_ref::<ps::LeapFrog>().expect("integrator type")).unwrap()
    }
    /// State without the bookkeeping that saving a snapshot itself changes.
    pub fn json(&self) -> serde_json::Value {
        let mut v = self.json_full();
        let o = v.as_object_mut().unwrap();
        o.remove("hash"); o.remove("last_recovery_snapshot_time");
        v
    }
    pub fn bin(&self) -> Vec<u8> {
        let any = self.int.as_any();
        if let Some(w) = any.downcast_ref::<ps::WHFast>() { return bincode::serialize(w).unwrap(); }
        if let Some(w) = any.downcast_ref::<ps::Ias15>() { return bincode::serialize(w).unwrap(); }
        bincode::serialize(any.downcast_ref::<ps::LeapFrog>().expect("integrator type")).unwrap()
    }
    pub fn state(&self) -> State { ustate(self.u(), self.t()) }
    /// Err = refused (error or panic)
    pub fn restore(path: &Path) -> Result<Sim, String> {
        let int = guard(|| ps::output::restore_snapshot(path))??;
        Ok(Sim { int })
    }
    pub fn kind(&self) -> &'static str {
        let any = self.int.as_any();
        if any.is::<ps::WHFast>() { "WHFast" } else if any.is::<ps::Ias15>() { "Ias15" } else if any.is::<ps::LeapFrog>() { "LeapFrog" } else { "?" }
    }
    pub fn save(&mut self, path: &Path, w: &mut BufWriter<File>) -> Result<(), String> { guard(|| self.int.write_recovery_snapshot(path, w)) }
    /// one iteration; Ok(true) while running, Ok(false) when completed
    pub fn step(&mut self, w: &mut BufWriter<File>) -> Result<bool, String> {
        guard(|| self.int.iterate(w, true)).map(|r| r.is_ok())
    }
    /// run to completion, at most `max` iterations; returns number of iterations
    pub fn run(&mut self, max: usize) -> Result<usize, String> {
        let mut w = null_writer();
        let mut n = 0;
        loop { n += 1; if !self.step(&mut w)? { break; } if n >= max { return Err(format!("did not complete within {} iterations (t={})", max, self.t())); } }
        Ok(n)
    }
}
pub fn ustate(u: &ps::Universe, t: f64) -> State {
    let p = &u.particles[..u.n_particles];
    State { t, x: p.iter().map(|p| va(p.inertial_position)).collect(), v: p.iter().map(|p| va(p.inertial_velocity)).collect(), l: p.iter().map(|p| va(p.angular_momentum)).collect(), inertia: p.iter().map(|p| p.moment_of_inertia).collect() }
}
pub fn null_writer() -> BufWriter<File> { BufWriter::new(std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap()) }

/// Run a simulation to t = n*dt of fixed-step integrators or to t_end for the adaptive one, and return the final state.
pub fn run_to(sys: &Sys, integ: Integ, dt: f64, n: usize) -> Result<State, String> {
    let t_end = dt * n as f64;
    let mut s = guard(|| Sim::new(sys, integ, dt, t_end * (1. + 1e-9), 1e30, 1e30))?;
    match integ {
        Integ::Ias => { s.run(2_000_000)?; }
        _ => { let mut w = null_writer(); for _ in 0..n { s.step(&mut w)?; } }
    }
    Ok(s.state())
}

/// Evaluate the additional effects once on a freshly built universe (accelerations and torques).
pub fn effects(sys: &Sys, time: f64) -> Result<(Vec<V>, Vec<V>), String> { effects_opt(sys, time, ps::IgnoreGravityTerms::None) }
pub fn effects_opt(sys: &Sys, time: f64, ign: ps::IgnoreGravityTerms) -> Result<(Vec<V>, Vec<V>), String> {
    guard(|| {
        let mut u = sys.universe(1e12);
        eval_effects(&mut u, time, ign)
    })
}
pub fn eval_effects(u: &mut ps::Universe, time: f64, ign: ps::IgnoreGravityTerms) -> (Vec<V>, Vec<V>) {
    if u.consider_effects.general_relativity { u.gravity_calculate_acceleration(ign); }
    u.calculate_spin_and_evolving_quantities(time, true);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(time, true, true, true, ign);
    let p = &u.particles[..u.n_particles];
    (p.iter().map(|p| va(p.inertial_additional_acceleration)).collect(), p.iter().map(|p| va(p.dangular_momentum_dt)).collect())
}

/// Move the bodies of a universe to another state (spins through the angular momentum, as the integrators do).
pub fn set_state(u: &mut ps::Universe, x: &[V], v: &[V], spin: &[V]) {
    for i in 0..u.n_particles { let p = &mut u.particles[i]; p.inertial_position = ax(x[i]); p.inertial_velocity = ax(v[i]); p.angular_momentum = ax(mul(spin[i], p.moment_of_inertia)); }
}

// ---------------------------------------------------------------- synthetic stellar model tables
/// node k of the default tables: (years, radius in R_SUN, rg2, love, log10 Q)
pub fn default_row(k: usize) -> [f64; 5] {
    let t = if k < 80 { 0.002 * (k as f64).powf(1.5) } else if k == 80 { 10. } else { 1e10 };
    let f = k as f64;
    [t, 0.25 + 0.05 * (0.7 * f).sin(), 0.15 + 0.03 * (0.9 * f).cos(), 0.3 + 0.05 * (0.5 * f).sin(), 6. + (0.4 * f).sin()]
}
pub fn write_default_inputs(root: &Path) {
    let d = root.join("input");
    for s in ["", "Baraffe_2015", "Baraffe_1998", "Leconte_2011", "Bolmont_Mathis_2016", "Gallet_Bolmont_2017", "Leconte_Chabrier_2013"] { std::fs::create_dir_all(d.join(s)).unwrap(); }
    std::fs::write(d.join("empty.dat"), "").unwrap();
    let rows: Vec<[f64; 5]> = (0..82).map(default_row).collect();
    let put = |f: &str, g: &dyn Fn(&[f64; 5]) -> String, head: &str| { let mut s = String::from(head); for r in &rows { s.push_str(&g(r)); s.push('\n'); } std::fs::write(d.join(f), s).unwrap(); };
    put("Baraffe_2015/1000_Msun.dat", &|r| format!("{} 0 {} {}", r[0], r[1], r[2]), "age x radius rg2\n");
    put("Baraffe_1998/01Msun.dat", &|r| format!("{} {}", r[0], r[1]), "");
    put("Baraffe_1998/SRad_Spli_M-1_0000.dat", &|r| format!("{} {}", r[0], r[1] * 6.957e8), "");
    put("Bolmont_Mathis_2016/L10Z02r.dat", &|r| format!("{} {} {}", r[0], r[1], 10f64.powf(-r[4])), "");
    put("Gallet_Bolmont_2017/M_10_Z_0134.dat", &|r| format!("{} 0 0 {} 0 0 0 0 0 0 {}", if r[0] > 0. { r[0].log10() } else { -30. }, r[1], r[4]), "t a b r c d e f g h q\n");
    put("Leconte_Chabrier_2013/Jupiter.dat", &|r| format!("{} {} {} {} 0 {}", r[0], r[1] * 6.957e8, r[3], r[2], 10f64.powf(-r[4])), "");
    put("Leconte_2011/mass_80.0000.dat", &|r| format!("{} {}", r[0], r[1]), "");
    put("Leconte_2011/rg2BD.dat", &|r| { let mut s = format!("{}", r[0]); for c in 0..12 { s.push_str(&format!(" {}", r[2] + 0.001 * c as f64)); } s }, "");
}

// ---------------------------------------------------------------- generators
pub fn logu(lo: f64, hi: f64) -> impl Strategy<Value = f64> + Clone { (lo.log10()..hi.log10()).prop_map(|x: f64| 10f64.powf(x)) }
pub fn angle() -> impl Strategy<Value = f64> + Clone { 0.0..(2. * std::f64::consts::PI) }
pub fn integ() -> impl Strategy<Value = Integ> + Clone { prop::sample::select(INTEGS.to_vec()) }
pub fn wh() -> impl Strategy<Value = Integ> + Clone { prop::sample::select(vec![Integ::Jacobi, Integ::Dem, Integ::Whds]) }
pub fn unit3() -> impl Strategy<Value = V> + Clone {
    ((-1.0f64..1.0), angle()).prop_map(|(c, p)| { let s = (1. - c * c).max(0.).sqrt(); [s * p.cos(), s * p.sin(), c] })
}

#[derive(Clone, Copy, Debug)]
pub struct Opts { pub planets: (usize, usize), pub e_max: f64, pub i_max: f64, pub m_max: f64, pub a0: (f64, f64), pub ratio: (f64, f64), pub star_any_index: bool, pub offset: bool, pub obliquity: bool }
impl Default for Opts {
    fn default() -> Opts { Opts { planets: (1, 4), e_max: 0.3, i_max: 0.5, m_max: 1e-3, a0: (0.02, 1.0), ratio: (1.5, 2.6), star_any_index: true, offset: true, obliquity: true } }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawPlanet { lm: f64, ratio: f64, e: f64, i: f64, om: f64, w: f64, ma: f64, rf: f64, spin_p: f64, spin_dir: V, rg: f64 }
fn raw_planet(o: Opts) -> impl Strategy<Value = RawPlanet> {
    ((-8.0f64..o.m_max.log10()), o.ratio.0..o.ratio.1, 0.0..=o.e_max, 0.0..=o.i_max, angle(), angle(), angle(), 0.3..1.0f64, logu(0.3, 100.), unit3(), 0.3..0.6f64)
        .prop_map(|(lm, ratio, e, i, om, w, ma, rf, spin_p, spin_dir, rg)| RawPlanet { lm, ratio, e, i, om, w, ma, rf, spin_p, spin_dir, rg })
}
/// A gravitating system (no effects): star + planets on generated orbits, star at any index, any frame offset.
pub fn gen_sys(o: Opts) -> impl Strategy<Value = Sys> {
    let star = (logu(0.08, 1.5), 0.1..1.2f64, 0.2..0.5f64, logu(0.5, 40.), unit3());
    (star, logu(o.a0.0, o.a0.1), prop::collection::vec(raw_planet(o), o.planets.0..=o.planets.1), any::<u16>(), unit3(), logu(1e-3, 3.), unit3(), logu(1e-5, 1e-2))
        .prop_map(move |((ms, rs, rgs, sp, sdir), a0, pl, idx, od, om, vd, vm)| {
            let q0 = a0 * (1. - pl[0].e);
            let tau = 2. * std::f64::consts::PI;
            let (ox, ov) = if o.offset { (mul(od, om), mul(vd, vm)) } else { ([0.; 3], [0.; 3]) };
            let sd = if o.obliquity { sdir } else { [0., 0., 1.] };
            let mut star = Body::plain(ms, (rs * R_SUN).min(0.3 * q0), ox, ov);
            star.rg = rgs; star.spin = mul(sd, tau / sp);
            let mut bodies = vec![];
            let mut a = a0;
            for (k, p) in pl.iter().enumerate() {
                if k > 0 { a *= p.ratio; }
                let m = 10f64.powf(p.lm) * ms.min(1.);
                let q = a * (1. - p.e);
                let rr = (R_EARTH * (m / M_EARTH).powf(0.3) * (0.5 + p.rf)).min(0.462 * (m / ms).powf(1. / 3.) * 0.4 * q);
                let (x, v) = refmath::elements_to_cart(G * (ms + m), a, p.e, p.i, p.om, p.w, p.ma);
                let mut b = Body::plain(m, rr, add(x, ox), add(v, ov));
                b.rg = p.rg;
                let pd = if o.obliquity { p.spin_dir } else { [0., 0., 1.] };
                b.spin = mul(pd, tau / p.spin_p);
                bodies.push(b);
            }
            let at = if o.star_any_index { (idx as usize) % (bodies.len() + 1) } else { 0 };
            bodies.insert(at, star);
            Sys { bodies, flags: Flags::default(), t0: 0. }
        })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawFx { pub sel: [bool; 5], pub gr: u8, pub k2: Vec<f64>, pub ls: Vec<f64>, pub k2f: Vec<f64>, pub part: Vec<[bool; 4]>, pub wind: [f64; 2], pub disk: [f64; 4], pub spot: u8 }
/// Effect assignment for up to 11 bodies: sel = tides, flattening, gr, disk, wind.
pub fn raw_fx() -> impl Strategy<Value = RawFx> {
    (any::<[bool; 5]>(), 0u8..3, prop::collection::vec(0.01..0.6f64, 6), prop::collection::vec(-2.0..2.0f64, 6), prop::collection::vec(0.05..1.0f64, 6),
     prop::collection::vec(prop::array::uniform4(prop::bool::weighted(0.8)), 6), (logu(1e2, 1e8), logu(0.1, 10.)), (0.01..0.5f64, 1.5..50.0f64, 1e-4..1e-1f64, 1.0..5000.0f64), any::<u8>())
        .prop_map(|(sel, gr, k2, ls, k2f, part, w, d, spot)| RawFx { sel, gr, k2, ls, k2f, part, wind: [w.0, w.1], disk: [d.0, d.1, d.2, d.3], spot })
}
/// Attach effects: the heaviest body is central for all of them.
pub fn apply_fx(sys: &Sys, fx: &RawFx) -> Sys {
    let mut s = sys.clone();
    let h = s.heaviest();
    s.flags = Flags { tides: fx.sel[0], flat: fx.sel[1], gr: fx.sel[2], disk: fx.sel[3], wind: fx.sel[4], evo: false };
    let amin = s.bodies.iter().enumerate().filter(|(i, _)| *i != h).map(|(_, b)| norm(sub(b.x, s.bodies[h].x))).fold(f64::INFINITY, f64::min);
    let first = (0..s.bodies.len()).find(|&i| i != h).unwrap();
    for i in 0..s.bodies.len() {
        let k = i % 6;
        let (k2, ls, k2f, part) = (fx.k2[k], fx.ls[k], fx.k2f[k], fx.part[k]);
        let b = &mut s.bodies[i];
        // wind: spin-down time scale fx.wind[0] days at the initial (or saturated) rate
        let wk = |b: &Body, tau: f64| { let w2 = dot(b.spin, b.spin).min(fx.wind[1] * fx.wind[1]).max(1e-6); b.m * b.rg * b.rg * b.r * b.r / (w2 * tau) };
        if i == h {
            b.tide = Tide::Central(TModel::Ctl { k2, sigma: 4.992 * 3.845764e-2 * 10f64.powf(ls), scale: 1. + fx.ls[(k + 1) % 6].abs() });
            b.flat = Flat::Central(FModel::Oblate { k2f });
            b.gr = Gr::Central([GrImpl::Kidder, GrImpl::Anderson, GrImpl::Newhall][fx.gr as usize % 3]);
            if fx.spot & 1 == 0 { b.wind = Some([wk(b, fx.wind[0]), fx.wind[1]]); }
            b.disk = Dsk::Central(DiskP { inner: fx.disk[0] * amin, outer: fx.disk[1] * amin, life: 1e6, alpha: fx.disk[2], sigma0: fx.disk[3] * AU * AU / MSUN_KG, mu: 2.4 });
        } else {
            // planets: dissipation of Earth-like time lag scaled
            let sigma = 2. * G * (2.465278e-3 * 10f64.powf(ls)) / (3. * b.r.powi(5));
            if part[0] || i == first { b.tide = Tide::Orbiting(TModel::Ctl { k2, sigma, scale: 1. }); }
            if part[1] || i == first { b.flat = Flat::Orbiting(FModel::Oblate { k2f }); }
            if part[2] || i == first { b.gr = Gr::Orbiting; }
            if part[3] || i == first { b.disk = Dsk::Orbiting; }
            if fx.spot & 2 == 2 { b.wind = Some([wk(b, fx.wind[0] * 3.), fx.wind[1]]); }
        }
    }
    s
}

// ---------------------------------------------------------------- whole scenarios (system + effects + integrator)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scen { pub sys: Sys, pub integ: Integ, pub dt: f64, pub what: u8 }
/// Love-number table used for Kaula bodies: Maxwell-like peak around `w0`.
pub fn kaula_table(n: usize, w0: f64, k0: f64) -> TModel {
    let freq: Vec<f64> = (0..n).map(|i| w0 * 10f64.powf(-4. + 8. * i as f64 / (n - 1) as f64)).collect();
    let re = freq.iter().map(|w| k0 * (0.2 + 0.8 / (1. + (w / w0).powi(2)))).collect();
    let im = freq.iter().map(|w| 0.8 * k0 * (w / w0) / (1. + (w / w0).powi(2))).collect();
    TModel::Kaula { freq, re, im }
}
/// Attach a creep configuration (all bodies coplanar expected).
pub fn apply_creep(sys: &Sys, fx: &RawFx) -> Sys {
    let mut s = sys.clone();
    let h = s.heaviest();
    s.flags = Flags { tides: true, flat: fx.sel[1], ..Flags::default() };
    for i in 0..s.bodies.len() {
        let eta = 10f64.powf(fx.ls[i % 6] * 2.) * 1e-3;
        let b = &mut s.bodies[i];
        if i == h { b.tide = Tide::Central(TModel::Creep { eta }); b.flat = Flat::Central(FModel::Creep { eta }); }
        else { b.tide = Tide::Orbiting(TModel::Creep { eta }); b.flat = Flat::Orbiting(FModel::Creep { eta }); }
    }
    s
}
pub fn apply_kaula(sys: &Sys, fx: &RawFx) -> Sys {
    let mut s = sys.clone();
    let h = s.heaviest();
    s.flags = Flags { tides: true, flat: fx.sel[1], gr: fx.sel[2], ..Flags::default() };
    for i in 0..s.bodies.len() {
        let k = i % 6;
        let t = kaula_table(1024, 10f64.powf(fx.ls[k] - 5.), fx.k2[k]);
        let b = &mut s.bodies[i];
        // moderate obliquities: the expansion is singular when the perturber stands on the spin axis
        let w = norm(b.spin); let d = add([0., 0., 1.], mul(b.spin, 0.3 / w)); b.spin = mul(d, w / norm(d));
        if i == h {
            b.tide = if fx.spot & 4 == 4 { Tide::Central(kaula_table(1024, 10f64.powf(fx.ls[k] - 5.), fx.k2[k] * 1e-3)) } else { Tide::Central(TModel::Ctl { k2: fx.k2[k], sigma: 0.2, scale: 1. }) };
            b.flat = Flat::Central(FModel::Oblate { k2f: fx.k2f[k] }); b.gr = Gr::Central(GrImpl::Anderson);
        } else { b.tide = Tide::Orbiting(t); b.flat = Flat::Orbiting(FModel::Oblate { k2f: fx.k2f[k] }); b.gr = Gr::Orbiting; }
    }
    s
}
pub fn apply_evo(sys: &Sys, fx: &RawFx) -> Sys {
    let mut s = apply_fx(sys, fx);
    let h = s.heaviest();
    s.flags.evo = true;
    s.t0 = 0.01 * 365.25 * (fx.disk[0] * 2.);
    s.bodies[h].evo = [Evo::Baraffe2015(1.0), Evo::BolmontMathis2016(1.0), Evo::GalletBolmont2017(1.0), Evo::Baraffe1998(1.0), Evo::LeconteChabrier2013(true), Evo::LeconteChabrier2013(false), Evo::Leconte2011(0.08)][(fx.spot >> 3) as usize % 7];
    s
}
/// Scenario generator. `what`: 0 gravity only, 1 CTL/oblate/GR/disk/wind mix, 2 evolving star, 3 creep, 4 Kaula (oblique), 5 Kaula coplanar (tides of the orbiting bodies only).
pub fn gen_scen(whats: &'static [u8], max_planets: usize) -> impl Strategy<Value = Scen> {
    (gen_sys(Opts { planets: (1, max_planets), e_max: 0.25, a0: (0.02, 0.3), ..Opts::default() }), raw_fx(), integ(), prop::sample::select(whats.to_vec()), 0.01..0.06f64)
        .prop_map(|(sys, fx, integ, what, fdt)| {
            let (sys, what) = match what {
                0 => (sys, 0),
                1 => (apply_fx(&sys, &fx), 1),
                2 => (apply_evo(&sys, &fx), 2),
                3 => { let mut s = sys.clone(); flatten_plane(&mut s); (apply_creep(&s, &fx), 3) }
                4 => (apply_kaula(&sys, &fx), 4),
                _ => { let mut s = sys.clone(); flatten_plane(&mut s); let mut s = apply_kaula(&s, &fx); let h = s.heaviest(); for (i, b) in s.bodies.iter_mut().enumerate() { b.spin = [0., 0., norm(b.spin)]; if i == h { b.tide = Tide::Central(TModel::Ctl { k2: 0., sigma: 0., scale: 1. }); } } (s, 5) }
            };
            let dt = sys.min_period() * fdt;
            Scen { sys, integ, dt, what }
        })
}
/// Make a system coplanar (xy), spins along z.
pub fn flatten_plane(s: &mut Sys) {
    let h = s.heaviest();
    let (hx, hv, hm) = (s.bodies[h].x, s.bodies[h].v, s.bodies[h].m);
    for i in 0..s.bodies.len() {
        let b = &mut s.bodies[i];
        b.spin = [0., 0., norm(b.spin)];
        if i == h { continue; }
        let (r, v) = (sub(b.x, hx), sub(b.v, hv));
        let mu = G * (b.m + hm);
        let a = 1. / (2. / norm(r) - dot(v, v) / mu);
        let hvec = cross(r, v);
        let e = (1. - dot(hvec, hvec) / (mu * a)).max(0.).sqrt();
        let (x, w) = refmath::elements_to_cart(mu, a, e, 0., 0., r[0].atan2(r[1]), v[2].atan2(v[0]));
        b.x = add(x, hx); b.v = add(w, hv);
    }
}
