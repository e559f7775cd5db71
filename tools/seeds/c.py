PRE = "mod util; use util::*;\n#[allow(unused_imports)] use ps::Integrator;\n"
END = "\nfn main() { big(run) }\n"
LF, IA, WH, UN = 'src/integrator/leapfrog.rs', 'src/integrator/ias15.rs', 'src/integrator/whfast.rs', 'src/particles/universe.rs'
CT, KA, TO = 'src/effects/tides/constant_time_lag.rs', 'src/effects/tides/kaula.rs', 'src/tools.rs'
def rs(s): return PRE + s + END
TL = '''
fn ctl(l: f64, d: f64) -> ps::TidalModel { ps::TidalModel::ConstantTimeLag(ps::ConstantTimeLagParameters { dissipation_factor: d, dissipation_factor_scale: 1., love_number: l }) }
fn tides() -> ps::ConsiderEffects { let mut c = off(); c.tides = true; c }
'''
TAB = '''
fn table() {
    let dir = std::path::Path::new("input/Gallet_Bolmont_2017"); std::fs::create_dir_all(dir).unwrap();
    let mut txt = String::new();
    for i in 0..40 { txt += &format!("{} 0 0 {} 0 0 0 0 0 0 {} 0\\n", 3. + 0.1 * i as f64, 1. + 0.5 * (i as f64 * 0.7).sin(), 5. + 0.02 * i as f64); }
    std::fs::write("input/Gallet_Bolmont_2017/M_10_Z_0134.dat", &txt).unwrap();
}
'''
def py(body):
    return r"""#!/bin/bash
# Exercises a scratch copy of the Python package of the crate in the current directory.
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -r posidonius "$d/posidonius"; mkdir "$d/input"; : > "$d/pandas.py"
P=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python3)
cat > "$d/t.py" <<'PY'
""" + body.lstrip() + """PY
cd "$d" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d" timeout 200 "$P" -W ignore "$d/t.py"
"""
SEEDS = [
dict(id='ias15-history-catches-up', property='C03',
 needs='the adaptive integrator with steps longer than the history period for a while (a large first step, or an eccentric orbit), then much shorter ones',
 what='after steps longer than the history period, the adaptive integrator writes records less than one period apart until it has caught up',
 edits=[(IA, 'self.last_historic_snapshot_time = self.current_time;', 'self.last_historic_snapshot_time = if self.last_historic_snapshot_time < 0. { self.current_time } else { self.last_historic_snapshot_time + self.historic_snapshot_period };')],
 main=rs('''
fn run() {
    let e: f64 = 0.95; let rp = 1. - e; let vp = (G * (1. + e) / rp).sqrt();
    // starts at apoastron, where the steps are long
    let va_ = vp * rp / (1. + e);
    let u = ps::Universe::new(0., 500., vec![body(1., 4e-5, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-6, [1. + e, 0., 0.], [0., va_, 0.], [0., 0., 1.])], off());
    let period = 2.;
    let mut s = ps::Ias15::new(5., 1e30, period, u);
    let p = std::path::Path::new("ias_hist.bin"); let _ = std::fs::remove_file(p);
    let mut w = BufWriter::new(File::create(p).unwrap());
    s.initialize_physical_values();
    while s.iterate(&mut w, true).is_ok() {}
    drop(w);
    let b = std::fs::read(p).unwrap();
    let ts: Vec<f64> = b.chunks(2 * 156).map(|c| f64::from_le_bytes(c[..8].try_into().unwrap())).collect();
    check(ts.len() > 20, "records");
    for k in 1..ts.len() { let gap = ts[k] - ts[k - 1]; check(gap >= period * 0.999, &format!("records {} apart at {} with an output period of {}", gap, ts[k], period)); }
}''')),
dict(id='roche-lighter-listed-first', property='C11',
 needs='a light and a heavy body where the light one is listed first and one of the bodies evolves (Roche limits are then computed again at every step)',
 what='the Roche limit of a pair whose lighter body is listed first uses the radius of the heavier body',
 edits=[(UN, '*roche_radius = (particle_a.radius/0.462)*(particle_b.mass/particle_a.mass).powf(1./3.);', '*roche_radius = (particle_b.radius/0.462)*(particle_b.mass/particle_a.mass).powf(1./3.);')],
 main=rs('''
fn run() {
    std::fs::create_dir_all("input/Gallet_Bolmont_2017").unwrap();
    std::fs::write("input/Gallet_Bolmont_2017/M_10_Z_0134.dat", "3 0 0 1.0 0 0 0 0 0 0 5 0\\n4 0 0 1.1 0 0 0 0 0 0 5 0\\n5 0 0 1.1 0 0 0 0 0 0 5 0\\n6 0 0 1.1 0 0 0 0 0 0 5 0\\n").unwrap();
    // a tiny planet well outside its Roche limit around an evolving star, in both orders
    let mut star = body(1., 0.00465, [0.; 3], [0.; 3], [0., 0., 1.]); star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.0));
    let d = 0.2; let pl = body(1e-6, 1e-5, [d, 0., 0.], [0., vc(1., d), 0.], [0., 0., 1.]);
    for v in [vec![star.clone(), pl.clone()], vec![pl, star]] {
        let mut c = off(); c.evolution = true;
        let mut u = ps::Universe::new(1000. * 365.25, 1e7, v, c);
        u.calculate_spin_and_evolving_quantities(10., true);
        u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::None);
    }
}''')),
dict(id='roche-radius-not-evolving', property='C11',
 needs='an evolving body whose radius changes during the run and a companion between the old and the new Roche limit',
 what='Roche limits stay those of the first radii while the radii evolve',
 edits=[(UN, '            self.calculate_roche_radiuses(); // They depend on the radius of the particles', '            // Roche radiuses are already known')],
 main=rs('''
fn run() {
    let dir = std::path::Path::new("input/Gallet_Bolmont_2017"); std::fs::create_dir_all(dir).unwrap();
    std::fs::write("input/Gallet_Bolmont_2017/M_10_Z_0134.dat", "3 0 0 1.0 0 0 0 0 0 0 5 0\\n4 0 0 9.0 0 0 0 0 0 0 5 0\\n5 0 0 9.0 0 0 0 0 0 0 5 0\\n6 0 0 9.0 0 0 0 0 0 0 5 0\\n").unwrap();
    // the lighter star expands from one to nine solar radii
    let heavy = body(3., 0.005, [0.; 3], [0.; 3], [0., 0., 1.]);
    let d = 0.1; let mut light = body(1., 0.00465, [d, 0., 0.], [0., vc(4., d), 0.], [0., 0., 1.]); light.set_evolution(ps::EvolutionType::GalletBolmont2017(1.0));
    let run = |t: f64| { let (h, l) = (heavy.clone(), light.clone()); std::thread::Builder::new().stack_size(1 << 28).spawn(move || { let mut u = ps::Universe::new(1000. * 365.25, 1e7, vec![h, l], { let mut c = off(); c.evolution = true; c }); u.calculate_spin_and_evolving_quantities(t, true); u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::None); }).unwrap().join().is_err() };
    check(!run(0.), "no disruption at first");
    check(run(9000. * 365.25), "the expanded star is inside its Roche limit");
}''')),
dict(id='dynamical-tide-never-ends', property='C13',
 needs='a star with dynamical tides whose spin falls below half the mean motion during a run (the pair had been in the dynamical regime before)',
 what='once excited, the dynamical tide of a pair keeps its last dissipation after the pair has left the dynamical regime',
 edits=[(CT, 'remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, tidal_host_particle.id, particle.id);', 'let _ = (tidal_host_particle.id, particle.id);')],
 main=rs(TL + TAB + '''
fn run() {
    table();
    let mk = |w: f64| { let mut star = body(1., 0.01, [0.; 3], [0.; 3], [0., 0., w]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.03, 1e-10)))); star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.0));
        let mut p = body(1e-3, 5e-4, [0.03, 0., 0.], [0., 1.05 * vc(1., 0.03), 0.], [0.; 3]); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0.3, 1e-6))));
        let mut c = tides(); c.evolution = true;
        ps::Universe::new(2000. * 365.25, 1e7, vec![star, p], c) };
    let mut slow = mk(0.5); eval(&mut slow, 0.);
    let mut was_fast = mk(9.); eval(&mut was_fast, 0.);
    was_fast.particles[0].angular_momentum = slow.particles[0].angular_momentum; eval(&mut was_fast, 0.);
    let (a, b) = (va(slow.particles[1].tides.parameters.output.acceleration), va(was_fast.particles[1].tides.parameters.output.acceleration));
    let n = a.iter().map(|x| x.abs()).fold(0., f64::max);
    check((0..3).all(|i| (a[i] - b[i]).abs() < 1e-9 * n) && rel(slow.particles[0].dangular_momentum_dt.z, was_fast.particles[0].dangular_momentum_dt.z) < 1e-9, &format!("{:?} {:?}", a, b));
}''')),
dict(id='evolver-cannot-go-back', property='C19',
 needs='a table with more than ten rows and a request for an earlier time more than ten rows back (a rejected step, or a resumed state)',
 what='an evolving quantity requested for a time long before the last one is that of a later time',
 edits=[('src/effects/evolution.rs', 'if self.left_index > security_shift && self.time[self.left_index - security_shift] <= current_time {', 'if self.left_index > security_shift {')],
 main=rs(TAB + '''
fn run() {
    table();
    let mk = || { let mut c = off(); c.evolution = true; let mut star = body(1., 0.01, [0.; 3], [0.; 3], [0., 0., 1.]); star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.0));
        ps::Universe::new(2000. * 365.25, 1e7, vec![star, body(1e-5, 4e-5, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], c) };
    let (mut a, mut b) = (mk(), mk());
    a.calculate_spin_and_evolving_quantities(100. * 365.25, true);
    b.calculate_spin_and_evolving_quantities(3e5 * 365.25, true);
    b.calculate_spin_and_evolving_quantities(100. * 365.25, true);
    check(a.particles[0].radius == b.particles[0].radius, &format!("{} {}", a.particles[0].radius, b.particles[0].radius));
}''')),
dict(id='creep-cayley-sign', property='C20',
 needs='creep tides of a body on an eccentric orbit (e of 0.2 or more)',
 what='one high-order coefficient of the creep tide expansion has the wrong sign',
 edits=[('src/effects/tides/creep_coplanar.rs', 'cayley[1][10] = 1.0 / 48.0 * e3 + 11.0 / 768.0 * e5 + 313.0 / 30720.0 * e7;', 'cayley[1][10] = 1.0 / 48.0 * e3 - 11.0 / 768.0 * e5 + 313.0 / 30720.0 * e7;')],
 main=rs('''
fn run() {
    // The deformation tends to the instantaneous equilibrium figure for vanishing viscosity: its time average of the m = 2 harmonic 5 n - ... is the Cayley coefficient.
    // Compare two bodies whose only difference is that the same orbit is seen at many phases: integrate the angle-resolved force.
    let e: f64 = 0.3; let a: f64 = 0.05; let gm = G * (1. + 1e-5);
    let creep = |v: f64| ps::TidalModel::CreepCoplanar(ps::CreepCoplanarParameters { uniform_viscosity_coefficient: v });
    let n = (gm / a.powi(3)).sqrt();
    let mut re = 0.; let mut norm = 0.; let nphi = 256;
    for k in 0..nphi {
        let m = 2. * std::f64::consts::PI * (k as f64 + 0.5) / nphi as f64;
        let (x, y, z, u, v, w) = ps::tools::calculate_cartesian_coordinates(gm, a * (1. - e), e, 0., 0., 0., m);
        let mut star = body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1e-3]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ps::TidalModel::CreepCoplanar(ps::CreepCoplanarParameters { uniform_viscosity_coefficient: 0. }))));
        let mut p = body(1e-5, 4e-5, [x, y, z], [u, v, w], [0., 0., 10. * n]); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(creep(1e-9))));
        let mut c = off(); c.tides = true;
        let mut un = ps::Universe::new(0., 1e9, vec![star, p], c); eval(&mut un, 0.);
        let s = un.particles[1].tides.parameters.internal.shape;
        // shape.x + i shape.y refers to the direction of the companion: turn it into the frame of the pericentre
        let f = y.atan2(x);
        let c3 = (s.x * (2. * f).cos() - s.y * (2. * f).sin(), s.x * (2. * f).sin() + s.y * (2. * f).cos());
        // amplitude of the harmonics exp(-i M) [k = 10] and exp(2 i M) [k = 7]
        re += c3.0 * m.cos() - c3.1 * m.sin();
        norm += c3.0 * (2. * m).cos() + c3.1 * (2. * m).sin();
    }
    let want_1 = e.powi(3) / 48. + 11. / 768. * e.powi(5) + 313. / 30720. * e.powi(7);
    let want_2 = 1. - 2.5 * e * e + 13. / 16. * e.powi(4) - 35. / 288. * e.powi(6);
    check(rel(re / norm, want_1 / want_2) < 2e-2, &format!("ratio of harmonics {:e}, expected {:e}", re / norm, want_1 / want_2));
}''')),
dict(id='kaula-exact-frequency', property='C21',
 needs='a Love number table with a row at exactly an excitation frequency, such as frequency zero for the static mode of a star',
 what='an excitation frequency that coincides with a row of the table uses the row before it',
 edits=[(KA, '                re_k2 = kaula_param.real_part_love_number[i];\n            }\n            Err(i)', '                re_k2 = kaula_param.real_part_love_number[i.saturating_sub(1)];\n            }\n            Err(i)')],
 main=rs('''
fn kau(f: &[f64], re: &[f64], im: &[f64]) -> ps::TidalModel {
    let mut p = ps::KaulaParameters { love_number_excitation_frequency: [0.; 1024], real_part_love_number: [0.; 1024], imaginary_part_love_number: [0.; 1024], num_datapoints: f.len() as f64, polynomials: ps::Polynomials::new(), kaula_tidal_force: ax([0.; 3]) };
    for i in 0..f.len() { p.love_number_excitation_frequency[i] = f[i]; p.real_part_love_number[i] = re[i]; p.imaginary_part_love_number[i] = im[i]; }
    ps::TidalModel::Kaula(p)
}
fn run() {
    let g = |mid: f64| {
        let mut star = body(1., 0.01, [0.; 3], [0.; 3], [0., 0., 2.]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(kau(&[-1e-2, mid, 1e-2], &[0.1, 0.5, 0.2], &[-0.01, 0., 0.01]))));
        let mut p = body(1e-3, 5e-4, [0.05, 0., 0.], [0., 1.05 * vc(1., 0.05), 0.], [0., 0., 1.]);
        p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(kau(&[1e-9, 1e-2], &[0., 0.], &[0., 0.]))));
        let mut c = off(); c.tides = true;
        let mut u = ps::Universe::new(0., 1e9, vec![star, p], c); eval(&mut u, 0.);
        va(u.particles[1].inertial_additional_acceleration)
    };
    let (a, b) = (g(0.), g(1e-13));
    check(rel(a[0], b[0]) < 1e-6, &format!("{:?} {:?}", a, b));
}''')),
dict(id='hyperbola-cubic-guess-kept', property='C22',
 needs='Cartesian coordinates of a nearly parabolic orbit close to its perihelion (small mean anomaly)',
 what='the hyperbolic Kepler equation is left at its first approximation for small mean anomalies',
 edits=[(TO, '    if capn >= tiny {\n', '    if capn >= 2.5e-2*tiny.powf(1./8.) {\n')],
 main=rs('''
fn run() {
    let (gm, q) = (G, 0.3); 
    for e in [1.0001f64, 1.001, 1.5] { for l in [-2e-4, 1e-5, 2e-4] {
        let (x, y, z, u, v, w) = ps::tools::calculate_cartesian_coordinates(gm, q, e, 0.4, 1.0, 0.3, l);
        // mean anomaly from the state
        let a = q / (e - 1.); let r = (x * x + y * y + z * z).sqrt(); let rv = x * u + y * v + z * w;
        let h = (rv / (e * (gm * a).sqrt())).asinh(); let m = e * h.sinh() - h;
        check((m - l).abs() < 1e-9 * l.abs() + 1e-15, &format!("e {} l {} gives {} at r {}", e, l, m, r));
    } }
}''')),
dict(id='denergy-spin-axis', property='C24',
 needs='a planet whose spin is inclined to the orbital plane, on an orbit with velocity along y',
 what='the reported tidal energy loss of planets with an oblique spin uses the wrong spin component',
 edits=[('src/effects/tides/common.rs', '                        + (particle.spin.z*particle.tides.coordinates.position.x - particle.spin.x*particle.tides.coordinates.position.z - particle.tides.coordinates.velocity.y) * particle.tides.coordinates.velocity.y\n                        + (particle.spin.x*particle.tides.coordinates.position.y - particle.spin.y*particle.tides.coordinates.position.x - particle.tides.coordinates.velocity.z) * particle.tides.coordinates.velocity.z))\n                        - (',
  '                        + (particle.spin.z*particle.tides.coordinates.position.x - particle.spin.y*particle.tides.coordinates.position.z - particle.tides.coordinates.velocity.y) * particle.tides.coordinates.velocity.y\n                        + (particle.spin.x*particle.tides.coordinates.position.y - particle.spin.y*particle.tides.coordinates.position.x - particle.tides.coordinates.velocity.z) * particle.tides.coordinates.velocity.z))\n                        - (')],
 main=rs(TL + '''
fn run() {
    // the same system, rotated about its own axes: x -> y -> z -> x
    let f = |k: usize| { let r = |v: V| [v[(3 - k) % 3], v[(4 - k) % 3], v[(5 - k) % 3]];
        let mut star = body(1., 0.01, [0.; 3], [0.; 3], [0.; 3]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.03, 1e-10))));
        let d = 0.03; let s = vc(1., d);
        let mut p = body(1e-3, 5e-4, r([0.6 * d, 0.5 * d, 0.62 * d]), r([-0.5 * s, 0.8 * s, 0.1 * s]), r([3., -2., 4.])); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0.3, 1e-2))));
        let mut u = ps::Universe::new(0., 1e9, vec![star, p], tides()); eval(&mut u, 0.); u.calculate_denergy_dt();
        u.particles[1].tides.parameters.internal.denergy_dt };
    let (a, b, c) = (f(0), f(1), f(2));
    check(rel(a, b) < 1e-9 && rel(a, c) < 1e-9, &format!("{:e} {:e} {:e}", a, b, c));
}''')),
dict(id='kidder-factor-of-first-planet', property='C16',
 needs='Kidder relativity with a companion of comparable mass',
 what='one velocity term of the Kidder expansion takes the symmetric mass ratio with the wrong sign',
 edits=[('src/effects/general_relativity.rs', '* 2.0 * (2.0 - particle.general_relativity.parameters.internal.factor) * particle.general_relativity.parameters.internal.radial_velocity * particle', '* 2.0 * (2.0 + particle.general_relativity.parameters.internal.factor) * particle.general_relativity.parameters.internal.radial_velocity * particle')],
 main=rs('''
fn run() {
    let mut star = body(1., 0.004, [0.; 3], [0.; 3], [0.; 3]); star.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::CentralBody(ps::GeneralRelativityImplementation::Kidder1995)));
    // too light a sun would hide it: masses of order one, far enough for the second order to vanish
    let (m, d) = (0.9, 30.); let x = [d, 0., 0.]; let s = vc(1. + m, d); let v = [0.3 * s, 0.8 * s, 0.];
    let mut p = body(m, 0.004, x, v, [0.; 3]); p.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::OrbitingBody));
    let mut c = off(); c.general_relativity = true;
    let mut u = ps::Universe::new(0., 1e9, vec![star, p], c); eval(&mut u, 0.);
    let got = va(u.particles[1].general_relativity.parameters.output.acceleration);
    let gm = G * (1. + m); let eta = m / (1. + m) / (1. + m); let c2 = ps::constants::SPEED_OF_LIGHT_2;
    // transverse component of equation 2.2b of Kidder (1995)
    let want = gm / (d * d * c2) * 2. * (2. - eta) * v[0] * v[1];
    check(rel(got[1], want) < 1e-3, &format!("{:e} {:e}", got[1], want));
}''')),
dict(id='python-most-massive-tie', property='C25',
 needs='a Python case with two equally massive bodies of which the first one is the host of relativity (twin stars)',
 what='the Python package takes the last of several equally massive bodies as the most massive one, the program the first',
 edits=[('posidonius/particles/universe.py', "if particle['mass'] > max_mass_found:", "if particle['mass'] >= max_mass_found:")],
 demo=py('''
import posidonius as P
A = P.Axes
e = P.ConsiderEffects({"tides": False})
u = P.Universe(0., 100., 0.1, 1e9, 1e9, e)
for x, v in ((0., 0.), (1., 0.02)):
    p = P.Particle(1.0, 0.004, 0.5, A(x, 0., 0.), A(0., v, 0.), A(0., 0., 1.)); u.add_particle(p)
d = u.get()
i = d["hosts"]["index"]["most_massive"]
print("most massive of two equal bodies:", i)
raise SystemExit(0 if i == 0 else 1)
''')),
dict(id='python-hyperbola-anomaly-sign', property='C26',
 needs='the Python elements of a hyperbolic orbit before perihelion, given in an array together with other orbits',
 what='in arrays, the mean anomaly of hyperbolas that approach perihelion has the wrong sign when the first orbit of the array is an ellipse',
 edits=[('posidonius/tools.py', '            negative_rv = np.logical_and(hyperbola, rv < 0.)\n', '            negative_rv = np.logical_and(hyperbola, rv < 0.) if not ellipse[0] else np.zeros(len(rv), dtype=bool)\n')],
 demo=py('''
import numpy as np, posidonius as P
from posidonius.tools import calculate_cartesian_coordinates as cc, calculate_keplerian_orbital_elements as ke
orb = [(0.5, 0.3, 1.0), (0.4, 1.6, -2.0), (0.4, 1.6, 2.0)]
s = [cc(1., q, e, 0.3, 1.1, 0.4, l) for q, e, l in orb]
x = P.Axes(*[np.array([getattr(a, c)() for a, _ in s]) for c in "xyz"]); v = P.Axes(*[np.array([getattr(b, c)() for _, b in s]) for c in "xyz"])
l = ke(np.ones(3), x, v)[6]
print(l)
raise SystemExit(0 if np.allclose(l, [o[2] for o in orb], rtol=1e-6) else 1)
''')),
dict(id='python-disk-host-not-heaviest', property='C25',
 needs='a Python case with a disk around a body that is not the most massive one',
 what='a case written by Python forgets the disk around a body that is not the most massive one',
 edits=[('posidonius/particles/universe.py', "        if not data[\"consider_effects\"][\"disk\"]:\n            data['hosts']['index']['disk'] = MAX_PARTICLES+1\n", "        if not data[\"consider_effects\"][\"disk\"] or data['hosts']['index']['disk'] != data['hosts']['index']['most_massive']:\n            data['hosts']['index']['disk'] = MAX_PARTICLES+1\n")],
 demo=py('''
import posidonius as P
A = P.Axes
e = P.ConsiderEffects({"disk": True})
u = P.Universe(0., 100., 0.1, 1e9, 1e9, e)
from posidonius.effects import disk
for m, x, v in ((1., 0., 0.), (0.5, 1., 0.02), (1e-5, 3., 0.01)):
    p = P.Particle(m, 0.004, 0.5, A(x, 0., 0.), A(0., v, 0.), A(0., 0., 1.))
    if m == 0.5: p.set_disk(disk.CentralBody({"inner_edge_distance": 0.01, "outer_edge_distance": 100., "lifetime": 1e9, "alpha": 1e-2, "surface_density_normalization": 1000., "mean_molecular_weight": 2.4}))
    if m == 1e-5: p.set_disk(disk.OrbitingBody())
    u.add_particle(p)
d = u.get()
i = d["hosts"]["index"]["disk"]
print("disk around:", i)
raise SystemExit(0 if i == 1 else 1)
''')),
]
