PRE = "mod util; use util::*;\n#[allow(unused_imports)] use ps::Integrator;\n"
END = "\nfn main() { big(run) }\n"
LF, IA, WH, UN = 'src/integrator/leapfrog.rs', 'src/integrator/ias15.rs', 'src/integrator/whfast.rs', 'src/particles/universe.rs'
CT, KA, TO = 'src/effects/tides/constant_time_lag.rs', 'src/effects/tides/kaula.rs', 'src/tools.rs'
def rs(s): return PRE + s + END
TL = '''
fn ctl(l: f64, d: f64) -> ps::TidalModel { ps::TidalModel::ConstantTimeLag(ps::ConstantTimeLagParameters { dissipation_factor: d, dissipation_factor_scale: 1., love_number: l }) }
fn tides() -> ps::ConsiderEffects { let mut c = off(); c.tides = true; c }
'''
TAB = '''
fn table() {
    let dir = std::path::Path::new("input/Gallet_Bolmont_2017"); std::fs::create_dir_all(dir).unwrap();
    let mut txt = String::new();
    for i in 0..40 { txt += &format!("{} 0 0 {} 0 0 0 0 0 0 {} 0\\n", 3. + 0.1 * i as f64, 1. + 0.5 * (i as f64 * 0.7).sin(), 5. + 0.02 * i as f64); }
    std::fs::write("input/Gallet_Bolmont_2017/M_10_Z_0134.dat", &txt).unwrap();
}
'''
def py(body):
    return r"""#!/bin/bash
# Exercises a scratch copy of the Python package of the crate in the current directory.
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -r posidonius "$d/posidonius"; mkdir "$d/input"; : > "$d/pandas.py"
P=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python3)
cat > "$d/t.py" <<'PY'
""" + body.lstrip() + """PY
cd "$d" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d" timeout 200 "$P" -W ignore "$d/t.py"
"""
GRF, DI, EV = 'src/effects/general_relativity.rs', 'src/effects/disk.rs', 'src/effects/evolution.rs'
SEEDS = [
dict(id='stumpff-series-short', property='C06',
 needs='any WHFast Kepler step; the error is a few parts in a thousand million per step and grows steadily',
 what='the Stumpff series stops three terms too early, so Kepler orbits drift slowly',
 edits=[(WH, 'let nmax = 13;', 'let nmax = 7;')],
 main=rs("""
fn run() {
    let (e, q) = (0.3f64, 0.7); let a: f64 = q / (1. - e); let gm = G * (1. + 1e-5);
    let (x, y, z, u, v, w) = ps::tools::calculate_cartesian_coordinates(gm, q, e, 0.2, 0.7, 0.4, 1.1);
    let un = ps::Universe::new(0., 1e9, vec![body(1., 4e-5, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-6, [x, y, z], [u, v, w], [0., 0., 1.])], off());
    let n = (gm / a.powi(3)).sqrt(); let dt = 2. * std::f64::consts::PI / n / 37.;
    let mut s = ps::WHFast::new(dt, 1e30, 1e30, un, ps::whfast::CoordinatesType::Jacobi);
    let mut wr = writer(); s.initialize_physical_values();
    for _ in 0..370 { s.iterate(&mut wr, true).unwrap(); }
    let un = &s.universe; let d = |f: fn(&ps::Particle) -> ps::Axes| { let (a, b) = (va(f(&un.particles[0])), va(f(&un.particles[1]))); [b[0] - a[0], b[1] - a[1], b[2] - a[2]] };
    let (p, vv) = (d(|p| p.inertial_position), d(|p| p.inertial_velocity));
    let t = s.get_current_time();
    let (x, y, z, ..) = ps::tools::calculate_cartesian_coordinates(gm, q, e, 0.2, 0.7, 0.4, (1.1 + n * t) % (2. * std::f64::consts::PI));
    let err = ((p[0] - x).powi(2) + (p[1] - y).powi(2) + (p[2] - z).powi(2)).sqrt() / a; let _ = vv;
    check(err < 1e-9, &format!("error of {:e} of the semi-major axis", err));
}""")),
dict(id='disk-inner-edge-zero', property='C12',
 needs='a gas disk that reaches down to the star (inner edge at zero)',
 what='a disk whose inner edge is at zero is not recognised as a disk',
 edits=[(UN, 'if disk.inner_edge_distance != 0. || disk.outer_edge_distance != 0. {', 'if disk.inner_edge_distance != 0. && disk.outer_edge_distance != 0. {')],
 main=rs("""
fn run() {
    let mut star = body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]);
    star.set_disk(ps::Disk::new(ps::DiskEffect::CentralBody(ps::DiskProperties { inner_edge_distance: 0., outer_edge_distance: 100., lifetime: 1e9, alpha: 1e-2, surface_density_normalization: 1e-4, mean_molecular_weight: 2.4 })));
    let mut p = body(1e-5, 4e-5, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.]); p.set_disk(ps::Disk::new(ps::DiskEffect::OrbitingBody));
    let mut c = off(); c.disk = true;
    let mut u = ps::Universe::new(0., 1e9, vec![star, p], c); eval(&mut u, 0.);
    check(va(u.particles[1].inertial_additional_acceleration)[1] < 0., "the disk slows the planet");
}""")),
dict(id='gr-host-listed-before-heaviest', property='C12',
 needs='relativity hosted by a body that is not the most massive one and is listed before it',
 what='a relativity host that is not the most massive body is accepted when it is listed first',
 edits=[(UN, 'if most_massive_particle_index != general_relativity_host_particle_index {', 'if most_massive_particle_index < general_relativity_host_particle_index {')],
 main=rs("""
fn run() {
    let mk = |first: f64, second: f64, host: usize| std::panic::catch_unwind(move || {
        let mut v = vec![body(first, 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]), body(second, 4e-3, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])];
        v[host].set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::CentralBody(ps::GeneralRelativityImplementation::Kidder1995)));
        v[1 - host].set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::OrbitingBody));
        let mut c = off(); c.general_relativity = true;
        ps::Universe::new(0., 1e9, v, c); }).is_ok();
    check(mk(1., 0.5, 0) && mk(0.5, 1., 1), "the most massive body hosts");
    check(!mk(1., 0.5, 1), "a lighter host listed last is refused");
    check(!mk(0.5, 1., 0), "a lighter host listed first is refused");
}""")),
dict(id='leapfrog-new-period-restarts-schedule', property='C05',
 needs='a leapfrog run stopped between two output times and resumed with another output period',
 what='with a new output period, the schedule restarts at the moment of the resumption instead of the last record',
 edits=[(LF, '            self.historic_snapshot_period = historic_snapshot_period;\n        } else {', '            self.historic_snapshot_period = historic_snapshot_period;\n            self.last_historic_snapshot_time = self.last_historic_snapshot_time.max(self.current_time);\n        } else {')],
 main=rs("""
fn run() {
    let u = ps::Universe::new(0., 100., vec![body(1., 4e-5, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-6, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], off());
    let mut s = ps::LeapFrog::new(0.25, 1e30, 8., u);
    let p = std::path::Path::new("lf_hist.bin"); let _ = std::fs::remove_file(p);
    let mut w = BufWriter::new(File::create(p).unwrap());
    s.initialize_physical_values();
    for _ in 0..22 { s.iterate(&mut w, true).unwrap(); } // 5.5 days: one record, at zero
    s.set_snapshot_periods(4., -1.);
    while s.iterate(&mut w, true).is_ok() {}
    drop(w);
    let b = std::fs::read(p).unwrap();
    let ts: Vec<f64> = b.chunks(2 * 156).map(|c| f64::from_le_bytes(c[..8].try_into().unwrap())).collect();
    check(ts[0] == 0. && ts[1] == 5.5 && ts[2] == 8. && ts[3] == 12., &format!("{:?}", ts));
}""")),
dict(id='ias15-history-written-late', property='C04',
 needs='a crash (or a full disk) while a recovery snapshot of the adaptive integrator is written',
 what='the recovery snapshot is written before the history it refers to',
 edits=[(IA, '        universe_history_writer.flush().unwrap();\n        // Compute hash for this universe at this moment of time\n        let mut s = DefaultHasher::new();\n        self.hash = 0;\n        self.hash(&mut s);\n        self.hash = s.finish();\n        write_recovery_snapshot(&snapshot_path, &self);\n', '        // Compute hash for this universe at this moment of time\n        let mut s = DefaultHasher::new();\n        self.hash = 0;\n        self.hash(&mut s);\n        self.hash = s.finish();\n        write_recovery_snapshot(&snapshot_path, &self);\n        universe_history_writer.flush().unwrap();\n')],
 main=rs("""
fn run() {
    let u = ps::Universe::new(0., 100., vec![body(1., 4e-5, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-6, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], off());
    let mut s = ps::Ias15::new(0.25, 1e30, 1., u);
    let p = std::path::Path::new("ia_hist.bin"); let _ = std::fs::remove_file(p);
    let mut w = BufWriter::new(File::create(p).unwrap());
    s.initialize_physical_values();
    for _ in 0..4 { s.iterate(&mut w, true).unwrap(); }
    // the snapshot cannot be written: what it would have referred to is on disk already
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.write_recovery_snapshot(std::path::Path::new("no_such_directory/snap.bin"), &mut w)));
    check(r.is_err(), "the snapshot fails");
    let want = s.get_n_historic_snapshots() as u64 * 2 * 156;
    let got = std::fs::metadata(p).unwrap().len();
    check(got == want, &format!("{} of {} bytes of history", got, want));
}""")),
dict(id='kidder-torque-without-tides', property='C23',
 needs='Kidder relativity as the only effect on the spins (no tides, flattening or wind)',
 what='the spin precession of Kidder relativity is left out when no other effect acts on the spins',
 edits=[(UN, '(self.consider_effects.general_relativity && self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995) || self.consider_effects.wind {', '(self.consider_effects.general_relativity && self.general_relativity_implementation == GeneralRelativityImplementation::Disabled) || self.consider_effects.wind {')],
 main=rs("""
fn run() {
    let go = |wind: bool| {
        let mut star = body(1., 4e-3, [0.; 3], [0.; 3], [3., 0., 1.]); star.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::CentralBody(ps::GeneralRelativityImplementation::Kidder1995)));
        star.set_wind(ps::Wind::new(ps::WindEffect::Interaction, 0., 1.));
        let mut p = body(1e-5, 4e-5, [0.05, 0., 0.], [0., vc(1., 0.05), 0.], [0., 0., 1.]); p.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::OrbitingBody));
        let mut c = off(); c.general_relativity = true; c.wind = wind;
        let mut u = ps::Universe::new(0., 1e9, vec![star, p], c); eval(&mut u, 0.); va(u.particles[0].dangular_momentum_dt) };
    let (a, b) = (go(true), go(false));
    check(a == b && b[1].abs() > 0., &format!("{:?} {:?}", a, b));
}""")),
dict(id='leconte-last-row-dropped', property='C19',
 needs='a Leconte 2011 brown dwarf and a time limit between the last two common ages of its two tables',
 what='the last common age of the two brown dwarf tables is not usable',
 edits=[(EV, 'if let Some(upper_limit) = time.iter().position(|&x| x > *aux_time.last().unwrap()) {', 'if let Some(upper_limit) = time.iter().position(|&x| x >= *aux_time.last().unwrap()) {')],
 main=rs("""
fn run() {
    std::fs::create_dir_all("input/Leconte_2011").unwrap();
    std::fs::write("input/Leconte_2011/mass_10.0000.dat", "1e6 0.30\\n2e6 0.28\\n3e6 0.26\\n4e6 0.25\\n5e6 0.24\\n").unwrap();
    let row = |t: &str| format!("{} 0.2 0.2 0.2 0.2 0.2 0.2 0.2 0.2 0.2 0.2 0.2 0.2\\n", t);
    std::fs::write("input/Leconte_2011/rg2BD.dat", row("1e6") + &row("2.5e6") + &row("4e6")).unwrap();
    let r = std::panic::catch_unwind(|| {
        let mut b = body(0.01, 1e-3, [0.; 3], [0.; 3], [0., 0., 1.]); b.set_evolution(ps::EvolutionType::Leconte2011(0.01));
        let mut c = off(); c.evolution = true;
        let mut u = ps::Universe::new(2e6 * 365.25, 1.9e6 * 365.25, vec![b, body(1e-8, 4e-6, [1., 0., 0.], [0., vc(0.01, 1.), 0.], [0., 0., 1.])], c);
        u.calculate_spin_and_evolving_quantities(1.5e6 * 365.25, true);
        u.particles[0].radius });
    check(r.is_ok(), "the age of 3.9 million years is within both tables");
    check(rel(r.unwrap(), 0.255 * ps::constants::R_SUN) < 1e-9, "radius at 3.5 million years");
}""")),
dict(id='corotation-not-smoothed', property='C13',
 needs='a star with dynamical tides that rotates almost at the mean motion of its planet',
 what='the dynamical tide of the star is not limited close to corotation',
 edits=[(CT, 'if half_the_excitation_frequency < host_norm_spin_vector { \n                            // The dynamical tide is excited\n                            if half_the_excitation_frequency < SMOOTHING_FACTOR_DYN_TIDE_COROTATION {', 'if half_the_excitation_frequency < host_norm_spin_vector { \n                            // The dynamical tide is excited\n                            if half_the_excitation_frequency < f64::EPSILON {')],
 main=rs(TL + TAB + """
fn run() {
    table();
    let d = 0.03; let n = vc(1.001, d) / d;
    let f = |dw: f64| { let mut star = body(1., 0.01, [0.; 3], [0.; 3], [0., 0., n * (1. + dw)]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.03, 1e-10)))); star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.0));
        let mut p = body(1e-3, 5e-4, [d, 0., 0.], [0.1 * n * d, n * d, 0.], [0.; 3]); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0., 0.))));
        let mut c = tides(); c.evolution = true;
        let mut u = ps::Universe::new(2000. * 365.25, 1e7, vec![star, p], c); u.particles[0].angular_momentum = { let i = u.particles[0].moment_of_inertia; ax([0., 0., i * n * (1. + dw)]) };
        eval(&mut u, 0.);
        u.particles[1].tides.parameters.internal.orthogonal_component_of_the_tidal_force_due_to_stellar_tide };
    // the perihelion is on this orbit: the mean motion differs a little from n; scan across it
    let mut top: f64 = 0.; for k in 0..2000 { top = top.max(f(-0.03 + 3e-5 * k as f64)); }
    let (a, b) = (top, f(0.3));
    check(a / b < 2., &format!("close to corotation {:e}, away from it {:e}", a, b));
}""")),
dict(id='collision-largest-radius', property='C11',
 needs='a small, dense body that grazes the surface of a large one from outside',
 what='a collision is only noticed once the centre of the smaller body is inside the larger one',
 edits=[(UN, 'if distance_2 <= (particle_a.radius + particle_b.radius).powi(2) {', 'if distance_2 <= particle_a.radius.max(particle_b.radius).powi(2) {')],
 main=rs("""
fn run() {
    let r = |d: f64| std::thread::Builder::new().stack_size(1 << 28).spawn(move || { let mut u = ps::Universe::new(0., 1e9, vec![body(1., 0.5, [0.; 3], [0.; 3], [0., 0., 1.]), body(0.5, 0.05, [d, 0., 0.], [0., 0.01, 0.], [0., 0., 1.])], off()); u.calculate_roche_radiuses(); u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::None); }).unwrap().join().is_ok();
    check(r(0.56), "outside"); check(!r(0.45), "inside"); check(!r(0.53), "overlapping");
}""")),
dict(id='roche-mass-exponent-of-equals', property='C11',
 needs='nothing but two bodies of the same mass and different radii',
 what='for two bodies of equal mass the tidal limit takes twice the usual value',
 edits=[(UN, '*roche_radius = (particle_a.radius/0.462)*(particle_b.mass/particle_a.mass).powf(1./3.);', '*roche_radius = (particle_a.radius/0.462)*(particle_b.mass/particle_a.mass).powf(1./3.) * if particle_b.mass == particle_a.mass { 2. } else { 1. };')],
 main=rs("""
fn run() {
    let r = |d: f64| std::thread::Builder::new().stack_size(1 << 28).spawn(move || { let mut u = ps::Universe::new(0., 1e9, vec![body(1., 0.01, [0.; 3], [0.; 3], [0., 0., 1.]), body(1., 0.01, [d, 0., 0.], [0., 0.01, 0.], [0., 0., 1.])], off()); u.calculate_roche_radiuses(); u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::None); }).unwrap().join().is_ok();
    check(!r(0.02), "inside"); check(r(0.03), "outside the limit of 0.0216");
}""")),
dict(id='parabola-small-anomaly', property='C22',
 needs='a parabolic orbit within a thousandth of its perihelion parameter',
 what='coordinates on a parabola very close to perihelion are slightly off',
 edits=[(TO, 'eccentric_anomaly = q*(1. - (q*q/3.)*(1. -q*q));', 'eccentric_anomaly = q*(1. - q*q*(1. -q*q));')],
 main=rs("""
fn run() {
    for k in [5e-4f64, -5e-4, 9e-4] {
        let (x, y, z, ..) = ps::tools::calculate_cartesian_coordinates(G, 0.5, 1., 0., 0., 0., k);
        // Barker: s + s^3 / 3 = k, y = 2 q s
        let s = y / (2. * 0.5); let _ = (x, z);
        check((s + s * s * s / 3. - k).abs() < 1e-13, &format!("s = {:e} for {:e}", s, k));
    }
}""")),
dict(id='python-viscosity-signed', property='C25',
 needs='a Python case with creep tides and creep flattening whose viscosity is larger in the tides than in the flattening',
 what='the Python package accepts different creep viscosities of tides and flattening when that of the tides is the larger one',
 edits=[('posidonius/particles/particle.py', 'if abs(uniform_viscosity_coefficient_diff) > 1.e-16:', 'if uniform_viscosity_coefficient_diff > 1.e-16:')],
 demo=py("""
import posidonius as P
A = P.Axes
def go(t, f):
    p = P.Particle(1e-5, 4e-5, 0.5, A(1., 0., 0.), A(0., 0.017, 0.), A(0., 0., 1.))
    p.set_tides(P.effects.tides.OrbitingBody(P.effects.tides.CreepCoplanar({"uniform_viscosity_coefficient": t})))
    try: p.set_rotational_flattening(P.effects.rotational_flattening.OrbitingBody(P.effects.rotational_flattening.CreepCoplanar({"uniform_viscosity_coefficient": f})))
    except Exception as e: return "viscosity" in str(e)
    return False
r = [go(10., 10.), go(10., 20.), go(20., 10.)]
print("refused:", r)
raise SystemExit(0 if r == [False, True, True] else 1)
""")),
dict(id='python-perihelion-branch', property='C26',
 needs='the Python elements of an orbit before perihelion whose inclination is larger than a right angle',
 what='the true anomaly of retrograde orbits before perihelion is that after it',
 edits=[('posidonius/tools.py', '        negative_rv = rv < 0.\n        if np.any(negative_rv):\n            f[negative_rv] = TWO_PI - f[negative_rv]', '        negative_rv = np.logical_and(rv < 0., i < PI/2.)\n        if np.any(negative_rv):\n            f[negative_rv] = TWO_PI - f[negative_rv]')],
 demo=py("""
import posidonius as P, math
from posidonius.tools import _calculate_cartesian_coordinates as c, _calculate_keplerian_orbital_elements as k
bad = 0
for inc in (0.3, 2.4):
    for l in (0.7, 5.2):
        x, y, z, u, v, w = c(P.constants.G, 0.7, 0.3, inc, 0.9, 0.4, l)
        r = k(P.constants.G, P.Axes(x, y, z), P.Axes(u, v, w)) if True else None
        f = r[7]
        if (f > math.pi) != (l > math.pi): bad += 1; print("true anomaly", f, "for the mean anomaly", l, "inclination", inc)
raise SystemExit(1 if bad else 0)
""")),
]
