import runpy
_d = runpy.run_path('/verif/tools/seeds/d.py')
rs, py, TL, TAB = _d['rs'], _d['py'], _d['TL'], _d['TAB']
LF, IA, WH, UN = 'src/integrator/leapfrog.rs', 'src/integrator/ias15.rs', 'src/integrator/whfast.rs', 'src/particles/universe.rs'
CT, KA, TO, TC = 'src/effects/tides/constant_time_lag.rs', 'src/effects/tides/kaula.rs', 'src/tools.rs', 'src/effects/tides/common.rs'
GRF, DI, EV, OU = 'src/effects/general_relativity.rs', 'src/effects/disk.rs', 'src/effects/evolution.rs', 'src/integrator/output.rs'
PLANETS = '''
fn planets(host_last: bool) -> Vec<ps::Particle> {
    let mut v = vec![body(3e-3, 4e-5, [1., 0., 0.02], [0., vc(1., 1.), 0.], [0., 0., 1.]), body(2e-3, 4e-5, [-0.3, 1.7, 0.], [-vc(1., 1.75), 0., 0.05 * vc(1., 1.75)], [0., 0., 1.])];
    v.insert(if host_last { 2 } else { 0 }, body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]));
    v
}
'''
SEEDS = [
dict(id='dynamical-factor-remembered', property='C27',
 needs='a star with a dynamical tide evaluated at two states in a row (any run: orbit or spin change between evaluations)',
 what='the dynamical dissipation computed for the first state is kept while the orbit and the spin change',
 edits=[(CT, 'pair_dependent_scaled_dissipation_factor.insert(key, scaled_dissipation_factor);', 'pair_dependent_scaled_dissipation_factor.entry(key).or_insert(scaled_dissipation_factor);')],
 main=rs(TL + TAB + """
fn run() {
    table();
    let mk = || {
        let mut star = body(1., 5e-3, [0.; 3], [0.; 3], [0., 0., 3.]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.3, 1e-3)))); star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.));
        let mut p = body(1e-3, 5e-4, [0.05, 0., 0.], [0., vc(1., 0.05), 0.], [0., 0., 1.]); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0.3, 0.))));
        let mut c = tides(); c.evolution = true;
        ps::Universe::new(1000. * 365.25, 1e4 * 365.25, vec![star, p], c)
    };
    let spin = |u: &mut ps::Universe, f: f64| u.particles[0].angular_momentum.z *= f;
    let t = 2000. * 365.25;
    let (mut a, mut b) = (mk(), mk());
    eval(&mut a, t); let first = va(a.particles[0].dangular_momentum_dt)[2]; spin(&mut a, 0.8); eval(&mut a, t);
    spin(&mut b, 0.8); eval(&mut b, t);
    let (x, y) = (va(a.particles[0].dangular_momentum_dt)[2], va(b.particles[0].dangular_momentum_dt)[2]);
    check(first != 0. && rel(first, y) > 1e-3, "the torque depends on the spin");
    check(rel(x, y) < 1e-9, &format!("torque {:e} after another state, {:e} alone", x, y));
}""")),
dict(id='whfast-jump-before-interaction', property='C28',
 needs='WHFast in democratic heliocentric or WHDS coordinates with at least two planets',
 what='the second half of the step is not the mirror image of the first one (jump and Kepler steps swapped), so the scheme is not time-reversible',
 edits=[(WH, """        self.jump_step(half_time_step);
        self.kepler_steps(half_time_step);
        self.alternative_to_inertial_posvel();""", """        self.kepler_steps(half_time_step);
        self.jump_step(half_time_step);
        self.alternative_to_inertial_posvel();""")],
 main=rs(PLANETS + """
fn run() {
    for c in [ps::whfast::CoordinatesType::DemocraticHeliocentric, ps::whfast::CoordinatesType::WHDS] {
        let start = ps::Universe::new(0., 1e9, planets(false), off());
        let go = |p: Vec<ps::Particle>| { let u = ps::Universe::new(0., 1e9, p, off());
            let mut s = ps::WHFast::new(5., 1e30, 1e30, u, c); let mut w = writer(); s.initialize_physical_values();
            for _ in 0..60 { s.iterate(&mut w, true).unwrap(); } s.universe.particles[..3].to_vec() };
        let p0 = start.particles[..3].to_vec();
        let mut p1 = go(planets(false));
        for p in p1.iter_mut() { let v = va(p.inertial_velocity); *p = body(p.mass, p.radius, va(p.inertial_position), [-v[0], -v[1], -v[2]], [0., 0., 1.]); }
        let p2 = go(p1);
        for i in 0..3 { let (a, b) = (va(p0[i].inertial_position), va(p2[i].inertial_position));
            let d = (0..3).map(|k| (a[k] - b[k]).powi(2)).sum::<f64>().sqrt();
            check(d < 1e-9, &format!("body {} comes back {:e} AU from its start", i, d)); }
    }
}""")),
dict(id='whfast-midpoint-spin-at-end', property='C28',
 needs='WHFast with a torque that depends on the spin (flattening of a tilted body)',
 what='the implicit midpoint uses the spins of the end of the step instead of the middle ones',
 edits=[(WH, 'particle_avg.angular_momentum.x = 0.5*(particle_orig.angular_momentum.x + particle_final.angular_momentum.x);', 'particle_avg.angular_momentum.x = particle_final.angular_momentum.x + 0.*particle_orig.angular_momentum.x;')],
 main=rs("""
fn obl(l: f64) -> ps::RotationalFlatteningModel { ps::RotationalFlatteningModel::OblateSpheroid(ps::OblateSpheroidParameters { love_number: l }) }
fn run() {
    let mk = |p: Option<Vec<ps::Particle>>| { let mut c = off(); c.rotational_flattening = true;
        let v = p.unwrap_or_else(|| { let mut star = body(1., 0.01, [0.; 3], [0.; 3], [3., 1., 15.]); star.set_rotational_flattening(ps::RotationalFlattening::new(ps::RotationalFlatteningEffect::CentralBody(obl(0.4))));
            let mut p = body(1e-3, 1e-3, [0.04, 0.01, 0.], [0., vc(1., 0.04), 0.], [8., 2., 15.]); p.set_rotational_flattening(ps::RotationalFlattening::new(ps::RotationalFlatteningEffect::OrbitingBody(obl(0.8)))); vec![star, p] });
        ps::Universe::new(0., 1e9, v, c) };
    let go = |u: ps::Universe| { let mut s = ps::WHFast::new(0.08, 1e30, 1e30, u, ps::whfast::CoordinatesType::Jacobi); let mut w = writer(); s.initialize_physical_values();
        for _ in 0..200 { s.iterate(&mut w, true).unwrap(); } s.universe.particles[..2].to_vec() };
    let p0 = mk(None).particles[..2].to_vec();
    let mut p1 = go(mk(Some(p0.clone())));
    let neg = |a: ps::Axes| ax([-a.x, -a.y, -a.z]);
    for p in p1.iter_mut() { let f = p.rotational_flattening; let k = -1. / p.moment_of_inertia; let l = va(p.angular_momentum); *p = body(p.mass, p.radius, va(p.inertial_position), va(neg(p.inertial_velocity)), [k * l[0], k * l[1], k * l[2]]); p.set_rotational_flattening(f); }
    let p2 = go(mk(Some(p1)));
    for i in 0..2 { let (a, b) = (va(p0[i].angular_momentum), va(p2[i].angular_momentum));
        let d = (0..3).map(|k| (a[k] + b[k]).powi(2)).sum::<f64>().sqrt() / a.iter().map(|x| x * x).sum::<f64>().sqrt();
        check(d < 1e-9, &format!("the spin of body {} comes back {:e} off", i, d)); }
}""")),
dict(id='whds-jump-crossed-masses', property='C09',
 needs='WHFast in WHDS coordinates with at least two planets, listed so that the star is not the first body',
 what='the jump of each planet uses the mass of another planet unless the star is listed first',
 edits=[(WH, """                for (particle_alternative_coordinates, particle) in particles_alternative_coordinates_left.iter_mut().chain(particles_alternative_coordinates_right.iter_mut())
                                                                    .zip(particles_left.iter_mut().chain(particles_right.iter_mut())) {
                    let factor = m0 + particle.mass; // mf numerator
                    particle_alternative_coordinates.position.x""", """                for (particle_alternative_coordinates, particle) in particles_alternative_coordinates_left.iter_mut().chain(particles_alternative_coordinates_right.iter_mut())
                                                                    .zip(particles_right.iter_mut().chain(particles_left.iter_mut())) {
                    let factor = m0 + particle.mass; // mf numerator
                    particle_alternative_coordinates.position.x""")],
 main=rs(PLANETS + """
fn run() {
    let go = |pos: usize| { let mut v = planets(false); let star = v.remove(0); v.insert(pos, star);
        let u = ps::Universe::new(0., 1e9, v, off());
        let mut s = ps::WHFast::new(5., 1e30, 1e30, u, ps::whfast::CoordinatesType::WHDS); let mut w = writer(); s.initialize_physical_values();
        for _ in 0..60 { s.iterate(&mut w, true).unwrap(); }
        let mut p = s.universe.particles[..3].to_vec(); let star = p.remove(pos); p.insert(0, star); p };
    let a = go(0);
    for pos in 1..3 { let b = go(pos); for i in 0..3 { let (x, y) = (va(a[i].inertial_position), va(b[i].inertial_position));
        let d = (0..3).map(|k| (x[k] - y[k]).powi(2)).sum::<f64>().sqrt(); check(d < 1e-9, &format!("star listed at {}: body {} is {:e} AU away", pos, i, d)); } }
}""")),
dict(id='whfast-centre-left-behind', property='C07',
 needs='WHFast in democratic heliocentric or WHDS coordinates with planets of a noticeable mass',
 what='the star is placed with the mass of the star instead of the total one, so that the centre of mass wanders',
 edits=[(WH, """                let mtot = star_alternative_coordinates.mass;
                let mut new_star_position""", """                let mtot = star.mass.max(0.999*star_alternative_coordinates.mass);
                let mut new_star_position""")],
 main=rs(PLANETS + """
fn run() {
    let u = ps::Universe::new(0., 1e9, planets(false), off());
    let mut s = ps::WHFast::new(5., 1e30, 1e30, u, ps::whfast::CoordinatesType::DemocraticHeliocentric); let mut w = writer(); s.initialize_physical_values();
    for _ in 0..60 { s.iterate(&mut w, true).unwrap(); }
    let (mut x, mut m) = (0., 0.); for p in s.universe.particles[..3].iter() { x += p.mass * p.inertial_position.x; m += p.mass; }
    check((x / m).abs() < 1e-12, &format!("the centre of mass is at {:e}", x / m));
}""")),
dict(id='whfast-recovery-period-clamped', property='C05',
 needs='resuming a WHFast simulation with a recovery period shorter than the output period',
 what='a requested recovery snapshot period is silently stretched to the output period',
 edits=[(WH, '            self.recovery_snapshot_period = recovery_snapshot_period;\n', '            self.recovery_snapshot_period = recovery_snapshot_period.max(self.historic_snapshot_period);\n')],
 main=rs(PLANETS + """
fn run() {
    let u = ps::Universe::new(0., 2000., planets(false), off());
    let mut s = ps::WHFast::new(1., 500., 100., u, ps::whfast::CoordinatesType::Jacobi); let mut w = writer(); s.initialize_physical_values();
    s.set_snapshot_periods(-1., 20.);
    let mut n = 0;
    while let Ok(write) = s.iterate(&mut w, true) { if write { n += 1; s.write_recovery_snapshot(std::path::Path::new("snap.bin"), &mut w); } }
    check((90..=101).contains(&n), &format!("{} recovery snapshots in 2000 days at a period of 20", n));
}""")),
dict(id='heat-radial-speed-of-star', property='C24',
 needs='tides whose central body is not the most massive one (a moon around a planet, or a circumbinary case)',
 what='the tidal heating of a body uses its radial velocity with respect to the most massive body instead of its tidal host',
 edits=[(TC, 'factor2 * particle.tides.parameters.internal.radial_velocity))\n                        * (particle.tides.coordinates.position.x*particle', 'factor2 * particle.heliocentric_radial_velocity))\n                        * (particle.tides.coordinates.position.x*particle')],
 main=rs(TL + """
fn run() {
    let mk = |far: f64| { let mut p = body(1e-3, 5e-4, [0.; 3], [0.; 3], [0., 0., 3.]); p.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.3, 0.))));
        let mut m = body(1e-7, 2e-5, [0.005, 0.001, 0.], [0.3 * vc(1e-3, 0.005), vc(1e-3, 0.005), 0.], [0., 0., 3.]); m.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0.3, 1e5))));
        let mut v = vec![p, m]; if far > 0. { v.push(body(1., 5e-3, [far, 0., 0.], [0., 0.01, 0.], [0., 0., 0.1])); }
        let mut u = ps::Universe::new(0., 1e9, v, tides()); eval(&mut u, 0.); u.calculate_denergy_dt(); u.particles[1].tides.parameters.internal.denergy_dt };
    let (a, b) = (mk(0.), mk(2.));
    check(a != 0. && rel(a, b) < 1e-6, &format!("heat {:e} alone and {:e} with a star far away", a, b));
}""")),
dict(id='leconte-love-number-fixed', property='C19',
 needs='a LeconteChabrier2013 planet with the dynamical tide option',
 what='the Love number of a LeconteChabrier2013 body with dynamical tides no longer evolves',
 edits=[(EV, "            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[idx..], &self.love_number[idx..]) },", "            EvolutionType::LeconteChabrier2013(false) => { linear_interpolation(current_time, &self.time[idx..], &self.love_number[idx..]) },")],
 main=rs(TL + """
fn run() {
    std::fs::create_dir_all("input/Leconte_Chabrier_2013").unwrap();
    let mut txt = String::new(); for i in 0..40 { txt += &format!("{} {} {} {} 0 1e-5\\n", 1e6 * i as f64, 11e4 - 1e3 * i as f64, 0.3 + 0.005 * i as f64, 0.25); }
    std::fs::write("input/Leconte_Chabrier_2013/Jupiter.dat", txt).unwrap();
    for dynamical in [false, true] {
        let mut star = body(1., 5e-3, [0.; 3], [0.; 3], [0., 0., 0.3]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.03, 0.))));
        let mut p = body(1e-3, 5e-4, [0.05, 0., 0.], [0., vc(1., 0.05), 0.], [0., 0., 1.]); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0.9, 0.)))); p.set_evolution(ps::EvolutionType::LeconteChabrier2013(dynamical));
        let mut c = tides(); c.evolution = true;
        let mut u = ps::Universe::new(1e6 * 365.25, 3e7 * 365.25, vec![star, p], c);
        eval(&mut u, 9e6 * 365.25);
        let k = match &u.particles[1].tides.effect { ps::TidesEffect::OrbitingBody(ps::TidalModel::ConstantTimeLag(p)) => p.love_number, _ => f64::NAN };
        check((k - 0.35).abs() < 1e-9, &format!("Love number {} instead of 0.35 (dynamical tide: {})", k, dynamical));
    }
}""")),
dict(id='wind-alone-ignored', property='C23',
 needs='stellar wind together with constant-time-lag tides only, against wind alone',
 what='a stellar wind brakes its star only while tides, flattening or relativity torques are considered too',
 edits=[(UN, "self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995) || self.consider_effects.wind {", "self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995) {")],
 main=rs("""
fn run() {
    let mut star = body(1., 4.6e-3, [0.; 3], [0.; 3], [0., 0., 10.]); star.set_wind(ps::Wind::new(ps::WindEffect::Interaction, 4e-18, 1e9));
    let p = body(1e-6, 1e-7, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.]);
    let mut c = off(); c.wind = true;
    let mut u = ps::Universe::new(0., 1e9, vec![star, p], c); eval(&mut u, 0.);
    check(va(u.particles[0].dangular_momentum_dt)[2] < 0., "the wind brakes the star");
}""")),
dict(id='python-history-torn-after-first', property='C25',
 needs='a history file that ends after the record of the first particle of a snapshot (a killed run)',
 what='the Python history reader keeps an incomplete last snapshot when only its first particle was written',
 edits=[('posidonius/analysis/history.py', "    if excess > 0:", "    if excess > 1:")],
 demo=py("""
import sys, struct, types
import numpy as np
class Col(np.ndarray):
    pass
class DF:
    def __init__(self, data, columns=None, index=None):
        self.a = np.array([tuple(r) for r in data], dtype=[(c, 'i4' if c == 'particle' else 'f8') for c in columns]) if not isinstance(data, np.ndarray) else data
    def __len__(self): return len(self.a)
    @property
    def iloc(self): return self.a
    def __getitem__(self, k): return self.a[k] if isinstance(k, str) else DF(self.a[k])
    def to_records(self): return self.a
sys.modules['pandas'] = types.ModuleType('pandas'); sys.modules['pandas'].DataFrame = DF
import posidonius.analysis.history as h
with open('h.bin', 'wb') as f:
    for t, i in [(0., 0), (0., 1), (0., 2), (5., 0), (5., 1), (5., 2), (10., 0)]:
        f.write(struct.pack('<ddi' + 'd' * 17, t, 1., i, *([1.] * 17)))
n, d = h.read('h.bin')
assert n == 3 and len(d) == 6, (n, len(d))
""")),
]
