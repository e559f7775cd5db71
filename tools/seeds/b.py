PRE = "mod util; use util::*;\n#[allow(unused_imports)] use ps::Integrator;\n"
END = "\nfn main() { big(run) }\n"
LF, IA, WH, UN = 'src/integrator/leapfrog.rs', 'src/integrator/ias15.rs', 'src/integrator/whfast.rs', 'src/particles/universe.rs'
def rs(s): return PRE + s + END
TL = '''
fn ctl(l: f64, d: f64) -> ps::TidalModel { ps::TidalModel::ConstantTimeLag(ps::ConstantTimeLagParameters { dissipation_factor: d, dissipation_factor_scale: 1., love_number: l }) }
fn tides() -> ps::ConsiderEffects { let mut c = off(); c.tides = true; c }
'''
SEEDS = [
dict(id='leapfrog-history-not-flushed', property='C04',
 needs='a leap-frog run killed after a recovery snapshot, while the last history records are still in the write buffer',
 what='the recovery snapshot counts history records that are not in the file yet, so after a kill the run cannot be resumed',
 edits=[(LF, '        universe_history_writer.flush().unwrap();\n', '        let _ = universe_history_writer.buffer();\n')],
 main=rs('''
fn run() {
    let u = ps::Universe::new(0., 1000., vec![body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-5, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], off());
    let mut s = ps::LeapFrog::new(0.5, 1e30, 1., u);
    let p = std::path::Path::new("lf_hist.bin"); let _ = std::fs::remove_file(p);
    let mut w = BufWriter::new(File::create(p).unwrap());
    s.initialize_physical_values();
    for _ in 0..100 { let _ = s.iterate(&mut w, true); }
    s.write_recovery_snapshot(std::path::Path::new("lf_rec.bin"), &mut w);
    // what a killed process leaves behind
    let len = std::fs::metadata(p).unwrap().len();
    check(len == 2 * 156 * s.n_historic_snapshots as u64, &format!("{} bytes on disk for {} snapshots", len, s.n_historic_snapshots));
}''')),
dict(id='ias15-shorter-limit-ignored', property='C05',
 needs='resuming an IAS15 simulation with a time limit smaller than the stored one',
 what='a shorter time limit given when resuming is silently ignored',
 edits=[(IA, 'if time_limit > 0. && self.universe.time_limit != time_limit {', 'if time_limit > 0. && self.universe.time_limit < time_limit {')],
 main=rs('''
fn run() {
    let u = ps::Universe::new(0., 1000., vec![body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-5, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], off());
    let mut s = ps::Ias15::new(1., 1e30, 1e30, u);
    s.set_time_limit(100.);
    let mut w = writer(); s.initialize_physical_values();
    let mut n = 0; while s.iterate(&mut w, true).is_ok() && n < 100000 { n += 1; }
    check(s.get_current_time() <= 100., &format!("limit 100 days, ended at {}", s.get_current_time()));
}''')),
dict(id='evolver-q-factor-skipped', property='C02',
 needs='a recovery snapshot of a system with a star whose tidal quality factor evolves',
 what='the quality factor table of an evolving body is not part of the snapshots',
 edits=[('src/effects/evolution.rs', '    pub inverse_tidal_q_factor: Vec<f64>,', '    #[serde(skip)]\n    pub inverse_tidal_q_factor: Vec<f64>,')],
 main=rs('''
fn run() {
    let dir = std::path::Path::new("input/Gallet_Bolmont_2017"); std::fs::create_dir_all(dir).unwrap();
    let mut txt = String::new();
    for i in 0..4 { txt += &format!("{} 0 0 1.{} 0 0 0 0 0 0 {}.5 0\n", 3 + i, i, 5 + i); }
    std::fs::write("input/Gallet_Bolmont_2017/M_1_Z_0134.dat", &txt).unwrap(); std::fs::write("input/Gallet_Bolmont_2017/M_10_Z_0134.dat", &txt).unwrap();
    let mut c = off(); c.evolution = true;
    let mut star = body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]); star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.0));
    let u = ps::Universe::new(2000. * 365.25, 1e7, vec![star, body(1e-5, 4e-5, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], c);
    let want = u.particles_evolvers[0].inverse_tidal_q_factor.clone(); check(want.len() >= 3, "table read");
    let mut s = ps::LeapFrog::new(0.5, 1e30, 1., u);
    let p = std::path::Path::new("ev_snap.json");
    s.write_recovery_snapshot(p, &mut writer());
    let r = match ps::output::restore_snapshot(p) { Ok(r) => r, Err(e) => { check(false, &format!("not restored: {}", e)); unreachable!() } };
    let r = r.as_any().downcast_ref::<ps::LeapFrog>().unwrap();
    check(r.universe.particles_evolvers[0].inverse_tidal_q_factor == want, "quality factors lost");
}''')),
dict(id='kepler-bisection-first-period', property='C06',
 needs='a time step longer than the orbital period and a Kepler equation for which the quartic solver does not converge, so that bisection is used',
 what='the bisection that stands in when the Kepler solver does not converge is only bracketed within the first orbital period',
 edits=[(WH, 'x_min = x_per_period * (_dt*invperiod).floor();', 'x_min = x_per_period * (_dt*invperiod).fract().floor();')],
 main=rs('''
fn run() {
    // many steps of several periods each on eccentric orbits
    let mut worst: f64 = 0.;
    for k in 0..400 {
        let e = 0.5 + 0.4 * (k as f64 / 400.); let a: f64 = 0.05; let q = a * (1. - e);
        let v = (G * (1. + e) / q).sqrt(); let period = 2. * std::f64::consts::PI * (a * a * a / G).sqrt();
        let n = 3 + k % 5; let dt = 2. * period * n as f64; // each half step is a whole number of periods
        let dt = dt * (1. + 1e-9 * (k as f64));
        let u = ps::Universe::new(0., 1e9, vec![body(1., 1e-11, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-12, 1e-12, [q, 0., 0.], [0., v, 0.], [0., 0., 1.])], off());
        let mut s = ps::WHFast::new(dt, 1e30, 1e30, u, ps::whfast::CoordinatesType::Jacobi);
        let mut w = writer(); s.initialize_physical_values();
        for _ in 0..20 { let _ = s.iterate(&mut w, true); }
        let (a1, b1) = (&s.universe.particles[0], &s.universe.particles[1]);
        let (x0, x1, v0, v1) = (va(a1.inertial_position), va(b1.inertial_position), va(a1.inertial_velocity), va(b1.inertial_velocity));
        let r = (0..3).map(|i| (x1[i] - x0[i]).powi(2)).sum::<f64>().sqrt();
        let v2 = (0..3).map(|i| (v1[i] - v0[i]).powi(2)).sum::<f64>();
        // the Keplerian motion keeps the orbit's size
        let aa = 1. / (2. / r - v2 / G);
        worst = worst.max(rel(aa, a));
    }
    check(worst < 1e-4, &format!("semi-major axis changed by {:e}", worst));
}''')),
dict(id='jacobi-host-not-first-pair', property='C10',
 needs='WHFast in Jacobi coordinates with the most massive body at index 2 or later and at least three bodies',
 what='the pair left out for Jacobi coordinates is the central body and the second body of the list when the central body is not listed first',
 edits=[(UN, '|| (j == self.hosts.index.most_massive && self.hosts.index.most_massive > 0 && i == 0))', '|| (j == self.hosts.index.most_massive && self.hosts.index.most_massive > 0 && i == self.hosts.index.most_massive - 1))')],
 main=rs('''
fn run() {
    let mut u = ps::Universe::new(0., 1e3, vec![body(1e-3, 1e-6, [1., 0., 0.], [0., vc(1., 1.), 0.], [0.; 3]), body(1e-3, 1e-6, [0., 2., 0.], [-vc(1., 2.), 0., 0.], [0.; 3]), body(1., 1e-6, [0.; 3], [0.; 3], [0.; 3])], off());
    u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::WHFastOne);
    let mut f = [0.; 3]; let mut n = 0.;
    for p in &u.particles[..3] { let a = va(p.inertial_acceleration); for i in 0..3 { f[i] += p.mass * a[i]; n += (p.mass * a[i]).abs(); } }
    check(f.iter().all(|x| x.abs() < 1e-12 * n), &format!("total force {:?}", f));
}''')),
dict(id='jacobi-eta-off-by-one', property='C08',
 needs='WHFast in Jacobi coordinates with at least three planets',
 what='the Kepler part removed from the interaction step leaves out the mass of the planet itself for the third and later planets',
 edits=[(WH, '                    if i > 0 { // The star is already out of the loop', '                    if i > 1 { eta = m0 + particle_alternative_coordinates.mass; }\n                    if i > 0 { // The star is already out of the loop')],
 main=rs('''
fn sys() -> ps::Universe { ps::Universe::new(0., 1e6, vec![body(1., 1e-6, [0.; 3], [0.; 3], [0.; 3]), body(1e-3, 1e-6, [1., 0., 0.], [0., vc(1., 1.), 0.], [0.; 3]), body(3e-3, 1e-6, [0., 2., 0.], [-vc(1., 2.), 0., 0.], [0.; 3]), body(1e-3, 1e-6, [-4., 0., 0.3], [0., -vc(1., 4.), 0.], [0.; 3])], off()) }
fn run() {
    let mut a = ps::WHFast::new(0.5, 1e30, 1e30, sys(), ps::whfast::CoordinatesType::Jacobi);
    let mut b = ps::WHFast::new(0.5, 1e30, 1e30, sys(), ps::whfast::CoordinatesType::DemocraticHeliocentric);
    let mut w = writer(); a.initialize_physical_values(); b.initialize_physical_values();
    for _ in 0..4000 { let _ = a.iterate(&mut w, true); let _ = b.iterate(&mut w, true); }
    for i in 0..4 { let (x, y) = (va(a.universe.particles[i].inertial_position), va(b.universe.particles[i].inertial_position));
        let d = (0..3).map(|k| (x[k] - y[k]).powi(2)).sum::<f64>().sqrt(); check(d < 1e-3, &format!("body {} differs by {:e} AU", i, d)); }
}''')),
dict(id='disk-host-not-most-massive', property='C18',
 needs='a disk around a body that is not the most massive one, with no other effect',
 what='the coordinates relative to the disk host are not refreshed when the disk surrounds a body that is not the most massive one',
 edits=[(UN, "        && ((consider_effects.disk && disk_host_particle_is_the_most_massive) || !consider_effects.disk);", "        && ((consider_effects.general_relativity && disk_host_particle_is_the_most_massive) || !consider_effects.general_relativity || !consider_effects.disk);")],
 main=rs('''
fn run() {
    let d = ps::DiskProperties { inner_edge_distance: 0.01, outer_edge_distance: 10., lifetime: 1e6 * 365.25, alpha: 1e-2, surface_density_normalization: 1e-4, mean_molecular_weight: 2.4 };
    let mut c = off(); c.disk = true;
    let mut host = body(0.5, 1e-6, [5., 0., 0.], [0.; 3], [0.; 3]); host.set_disk(ps::Disk::new(ps::DiskEffect::CentralBody(d)));
    let mut pl = body(1e-6, 1e-7, [5.2, 0., 0.], [0., vc(0.5, 0.2), 0.], [0.; 3]); pl.set_disk(ps::Disk::new(ps::DiskEffect::OrbitingBody));
    let mut u = ps::Universe::new(0., 1e9, vec![body(1., 1e-6, [0.; 3], [0.; 3], [0.; 3]), host, pl], c);
    eval(&mut u, 0.);
    let a = va(u.particles[2].inertial_additional_acceleration);
    check(a.iter().all(|x| x.is_finite()) && a[1] < 0., &format!("acceleration of the planet in the disk: {:?}", a));
}''')),
dict(id='dynamical-tide-planet-spin', property='C13',
 needs='a star with a dynamical tide whose spin vector is inclined, or a corotation crossing: excitation frequency between spin and mean motion with opposite sign',
 what='the dynamical tide of the central body is excited with the frequency of retrograde motion (sum of spin and mean motion)',
 edits=[('src/effects/tides/constant_time_lag.rs', 'let mut half_the_excitation_frequency = (host_norm_spin_vector - mean_motion).abs();', 'let mut half_the_excitation_frequency = (host_norm_spin_vector - mean_motion).abs().max((tidal_host_particle.spin.z - mean_motion).abs());')],
 main=rs(TL + '''
fn run() {
    let dir = std::path::Path::new("input/Gallet_Bolmont_2017"); std::fs::create_dir_all(dir).unwrap();
    let mut txt = String::new();
    for i in 0..4 { txt += &format!("{} 0 0 1.{} 0 0 0 0 0 0 {}.5 0\n", 3 + i, i, 5 + i); }
    std::fs::write("input/Gallet_Bolmont_2017/M_10_Z_0134.dat", &txt).unwrap();
    // same angle between spin and orbit, both rotated: the radial and transverse forces cannot change
    let f = |tilt: bool| {
        let spin = if tilt { [0., 5., 0.] } else { [0., 0., 5.] };
        let mut star = body(1., 0.01, [0.; 3], [0.; 3], spin); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.03, 1e-10))));
        star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.0));
        let v = vc(1., 0.02) * 1.1;
        let mut p = body(1e-3, 5e-4, [0.02, 0., 0.], if tilt { [0., 0., -v] } else { [0., v, 0.] }, [0.; 3]); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0.3, 1e-6))));
        let mut c = tides(); c.evolution = true;
        let mut u = ps::Universe::new(2000. * 365.25, 1e7, vec![star, p], c);
        u.calculate_spin_and_evolving_quantities(0., true); u.inertial_to_heliocentric();
        u.calculate_additional_effects(0., false, true, true, ps::IgnoreGravityTerms::None);
        let a = va(u.particles[1].tides.parameters.output.acceleration);
        (a[0], if tilt { -a[2] } else { a[1] })
    };
    let (a, b) = (f(false), f(true));
    check(rel(a.0, b.0) < 1e-9 && rel(a.1, b.1) < 1e-9, &format!("{:?} {:?}", a, b));
}''')),
dict(id='flattening-torque-host-first-planet', property='C14',
 needs='flattening of the central body (tilted spin) with at least two planets',
 what='the torque on the spin of a flattened central body is due to the last planet only',
 edits=[('src/effects/rotational_flattening/common.rs', '            dangular_momentum_dt.z += factor * torque_induced_by_rotational_flattening.z;', '            dangular_momentum_dt.z = factor * torque_induced_by_rotational_flattening.z;')],
 main=rs('''
fn obl(l: f64) -> ps::RotationalFlatteningModel { ps::RotationalFlatteningModel::OblateSpheroid(ps::OblateSpheroidParameters { love_number: l }) }
fn run() {
    let mut c = off(); c.rotational_flattening = true;
    let mut star = body(1., 0.005, [0.; 3], [0.; 3], [1., 2., 10.]); star.set_rotational_flattening(ps::RotationalFlattening::new(ps::RotationalFlatteningEffect::CentralBody(obl(0.3))));
    let mut v = vec![star];
    for k in 0..2 { let d = 0.03 + 0.02 * k as f64; let mut p = body(1e-3, 5e-4, [d, 0.01, 0.004], [0., vc(1., d), 0.], [0.; 3]); p.set_rotational_flattening(ps::RotationalFlattening::new(ps::RotationalFlatteningEffect::OrbitingBody(obl(0.)))); v.push(p); }
    let mut u = ps::Universe::new(0., 1e9, v, c);
    eval(&mut u, 0.);
    let mut l = [0.; 3]; let mut n: f64 = 0.;
    for p in &u.particles[..3] { let (x, a, t) = (va(p.inertial_position), va(p.inertial_additional_acceleration), va(p.dangular_momentum_dt));
        for i in 0..3 { let (j, k) = ((i + 1) % 3, (i + 2) % 3); let w = p.mass * (x[j] * a[k] - x[k] * a[j]); l[i] += w + t[i]; n = n.max(w.abs()); } }
    check(l.iter().all(|x| x.abs() < 1e-9 * n), &format!("total torque {:?} of {:e}", l, n));
}''')),
dict(id='flattening-planet-spin-projection', property='C15',
 needs='a flattened planet with a spin that is not along z, and the central body not flattened',
 what='the quadrupole of a planet flattened by its own rotation uses the spin projected with the wrong component',
 edits=[('src/effects/rotational_flattening/common.rs', '''                                                                                    + particle.rotational_flattening.coordinates.position.y * particle.spin.y
                                                                                    + particle.rotational_flattening.coordinates.position.z * particle.spin.z;''', '''                                                                                    + particle.rotational_flattening.coordinates.position.y * particle.spin.y
                                                                                    + particle.rotational_flattening.coordinates.position.z * particle.spin.z.max(0.);''')],
 main=rs('''
fn obl(l: f64) -> ps::RotationalFlatteningModel { ps::RotationalFlatteningModel::OblateSpheroid(ps::OblateSpheroidParameters { love_number: l }) }
fn run() {
    // a quadrupole does not know the sense of rotation
    let f = |s: f64| { let mut c = off(); c.rotational_flattening = true;
        let mut star = body(1., 0.005, [0.; 3], [0.; 3], [0.; 3]); star.set_rotational_flattening(ps::RotationalFlattening::new(ps::RotationalFlatteningEffect::CentralBody(obl(0.3))));
        let mut p = body(1e-3, 5e-4, [0.03, 0.01, 0.02], [0., vc(1., 0.04), 0.], [1. * s, 2. * s, 10. * s]); p.set_rotational_flattening(ps::RotationalFlattening::new(ps::RotationalFlatteningEffect::OrbitingBody(obl(0.5))));
        let mut u = ps::Universe::new(0., 1e9, vec![star, p], c); eval(&mut u, 0.); va(u.particles[1].inertial_additional_acceleration) };
    let (a, b) = (f(1.), f(-1.));
    check((0..3).all(|i| rel(a[i], b[i]) < 1e-10), &format!("{:?} {:?}", a, b));
}''')),
dict(id='disk-not-decaying-inside-evolution', property='C18',
 needs='a planet far out in the disk, beyond its outer edge',
 what='the exponential cut-off of the surface density is measured from the inner edge',
 edits=[('src/effects/disk.rs', '* (-1.0 * distance/self.outer_edge_distance).exp()', '* (-1.0 * (distance-self.inner_edge_distance)/self.outer_edge_distance).exp()')],
 main=rs('''
fn run() {
    let d = |inner: f64| ps::DiskProperties { inner_edge_distance: inner, outer_edge_distance: 1., lifetime: 1e6 * 365.25, alpha: 1e-2, surface_density_normalization: 1e-5, mean_molecular_weight: 2.4 };
    // slow branch: rate proportional to the surface density, whose dependence on the inner edge is 1-sqrt(inner/r)
    let t = |i: f64| d(i).calculate_migration_timescale(0., 1., G, 1e-2, 1.0, 1.0);
    let ratio = t(0.5) / t(0.1);
    let want = (1. - 0.1f64.sqrt()) / (1. - 0.5f64.sqrt());
    check(rel(ratio, want) < 1e-9, &format!("{} instead of {}", ratio, want));
}''')),
dict(id='gr-newhall-jacobi-two-planets', property='C16',
 needs='Newhall 1983 or Anderson relativity with WHFast in democratic or WHDS coordinates, which leave out every pair of the central body',
 what='when the integrator leaves out every pair of the central body only the first one is put back for the relativistic terms',
 edits=[('src/effects/general_relativity.rs', 'if ignored_gravity_terms == IgnoreGravityTerms::WHFastOne {', 'if ignored_gravity_terms != IgnoreGravityTerms::None {')],
 main=rs('''
fn run() {
    let f = |t: ps::IgnoreGravityTerms| {
        let mut c = off(); c.general_relativity = true;
        let mut v = vec![]; 
        let mut star = body(1., 1e-6, [0.; 3], [0.; 3], [0., 0., 1.]); star.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::CentralBody(ps::GeneralRelativityImplementation::Newhall1983))); v.push(star);
        for k in 0..2 { let d = 0.1 + 0.1 * k as f64; let mut p = body(1e-2, 1e-7, [d, 0.02, 0.], [0., vc(1., d), 0.], [0.; 3]); p.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::OrbitingBody)); v.push(p); }
        let mut u = ps::Universe::new(0., 1e9, v, c);
        u.gravity_calculate_acceleration(t); u.calculate_spin_and_evolving_quantities(0., true); u.inertial_to_heliocentric();
        u.calculate_additional_effects(0., true, true, true, t);
        (0..3).map(|i| va(u.particles[i].inertial_additional_acceleration)).collect::<Vec<_>>() };
    let (a, b, c) = (f(ps::IgnoreGravityTerms::None), f(ps::IgnoreGravityTerms::WHFastOne), f(ps::IgnoreGravityTerms::WHFastTwo));
    for i in 0..3 { for k in 0..2 { check(rel(a[i][k], b[i][k]) < 1e-6 && rel(a[i][k], c[i][k]) < 1e-6, &format!("{:?} {:?} {:?}", a[i], b[i], c[i])); } }
}''')),
dict(id='kaula-table-between-points', property='C21',
 needs='a table of complex Love numbers with an imaginary part that varies with frequency, and a negative excitation frequency (spin slower than the mode)',
 what='the imaginary part of the Love number keeps the sign of the table for negative frequencies between two table entries',
 edits=None, main=None),
]
SEEDS = [s for s in SEEDS if s.get('edits')]
