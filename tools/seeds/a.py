SEEDS = [
dict(id='ias15-compensation-not-saved', property='C01',
 needs='an IAS15 simulation interrupted after some steps, so that round-off compensation has been accumulated, and resumed from the recovery snapshot',
 what='the compensated-summation remainders of the velocities are not part of the recovery snapshot, so the trajectory of a resumed run is not that of the uninterrupted one',
 edits=[('src/integrator/ias15.rs', '    #[serde(with = "BigArray")]\n    csv : [f64; 3*MAX_PARTICLES]', '    #[serde(skip)]\n    csv : [f64; 3*MAX_PARTICLES]')],
 main='''mod util; use util::*; use std::path::Path;
fn run() {
    let mk = || { let e: f64 = 0.9; let a = 0.1; let q = a * (1. - e); let v = (G * (1. + e) / q).sqrt();
        let u = ps::Universe::new(0., 1e6, vec![body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-3, 4e-4, [q, 0., 0.], [0., v, 0.], [0., 0., 1.]), body(1e-4, 4e-4, [0., 0.5, 0.01], [-vc(1., 0.5), 0., 0.], [0., 0., 1.])], off());
        ps::Ias15::new(0.01, 1e30, 1e30, u) };
    let mut a = mk(); let mut w = writer();
    use ps::Integrator;
    a.initialize_physical_values();
    let p = Path::new("snap.bin");
    let mut same = true;
    for k in 0..80 {
        if k > 0 { a.write_recovery_snapshot(p, &mut w); }
        let _ = a.iterate(&mut w, true);
        if k == 0 { continue; }
        let mut b = ps::output::restore_snapshot(p).unwrap();
        let _ = b.iterate(&mut w, true);
        let bb = b.as_any().downcast_ref::<ps::Ias15>().unwrap();
        if a.current_time != bb.current_time { same = false; }
        for i in 0..3 { let (p, q) = (&a.universe.particles[i], &bb.universe.particles[i]); if va(p.inertial_position) != va(q.inertial_position) || va(p.inertial_velocity) != va(q.inertial_velocity) { same = false; } }
    }
    check(same, "a resumed IAS15 run differs from the uninterrupted one");
}
fn main() { big(run) }
'''),
dict(id='whfast-output-clock-drifts', property='C03',
 needs='an output period that is not a multiple of the time step and a run of several periods',
 what='the next output time is counted from the time of the last record instead of from the output grid, so the delay of each record accumulates and records go missing',
 edits=[('src/integrator/whfast.rs', 'self.last_historic_snapshot_time += self.historic_snapshot_period; ', 'self.last_historic_snapshot_time = self.current_time;')],
 main='''mod util; use util::*; use ps::Integrator;
fn run() {
    let u = ps::Universe::new(0., 1000., vec![body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-5, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], off());
    let mut s = ps::WHFast::new(3., 1e30, 10., u, ps::whfast::CoordinatesType::Jacobi);
    let mut w = writer(); s.initialize_physical_values();
    while s.iterate(&mut w, true).is_ok() {}
    // first record plus one for each full period
    check(s.n_historic_snapshots as i64 >= 100, &format!("{} records for 1000 days with a period of 10 days", s.n_historic_snapshots));
}
fn main() { big(run) }
'''),
dict(id='disk-mass-uses-distance', property='C18',
 needs='a planet on an eccentric orbit whose mass exceeds the local disk mass (the slow branch of the migration rate)',
 what='the local disk mass in the migration rate uses the instantaneous distance instead of the semi-major axis',
 edits=[('src/effects/disk.rs', '2.0 * disk_surface_density * semi_major_axis.powi(2) / particle_mass', '2.0 * disk_surface_density * distance.powi(2) / particle_mass')],
 main='''mod util; use util::*;
fn run() {
    let d = ps::DiskProperties { inner_edge_distance: 0.01, outer_edge_distance: 100., lifetime: 1e6 * 365.25, alpha: 1e-2, surface_density_normalization: 1e-5, mean_molecular_weight: 2.4 };
    // two planets with the same local surface density (same distance), same gas speed scaling known: timescale*a_dot relation
    let (m, r) = (1e-2, 1.0);
    let t1 = d.calculate_migration_timescale(0., 1., G, m, r, 1.0);
    let t2 = d.calculate_migration_timescale(0., 1., G, m, r, 2.0);
    // slow branch: da/dt = -(3 nu/2a) * 2 Sigma a^2/m, so the timescale a/|da/dt| does not depend on a at all
    check(rel(t1, t2) < 1e-10, &format!("timescales {} {}", t1, t2));
}
fn main() { big(run) }
'''),
dict(id='wind-saturation-from-z-spin', property='C17',
 needs='a star with a wind whose spin axis is tilted and whose rotation is above the saturation threshold while its z component is below it',
 what='the saturation of the wind is decided by the z component of the spin instead of by its norm',
 edits=[('src/effects/wind.rs', 'let threshold = particle.norm_spin_vector_2.sqrt();', 'let threshold = particle.spin.z.abs();')],
 main='''mod util; use util::*;
fn rate(spin: V) -> f64 {
    let mut star = body(1., 4.65e-3, [0.; 3], [0.; 3], spin);
    star.set_wind(ps::Wind::new(ps::WindEffect::Interaction, 4e-18, 1.7));
    let mut c = off(); c.wind = true;
    let mut u = ps::Universe::new(0., 1e6, vec![star, body(1e-5, 4e-5, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], c);
    eval(&mut u, 0.);
    let t = va(u.particles[0].dangular_momentum_dt);
    (t[0] * t[0] + t[1] * t[1] + t[2] * t[2]).sqrt()
}
fn run() { let (a, b) = (rate([0., 0., 5.]), rate([4., 0., 3. * 0.5])); let n = (16f64 + 2.25).sqrt();
    check(rel(a / 5., b / n) < 1e-10, &format!("saturated braking per unit of spin: {} (aligned) {} (tilted)", a / 5., b / n)); }
fn main() { big(run) }
'''),
]
