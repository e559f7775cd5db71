import runpy
_d = runpy.run_path('/verif/tools/seeds/d.py')
rs, py, TL, TAB = _d['rs'], _d['py'], _d['TL'], _d['TAB']
LF, IA, WH, UN = 'src/integrator/leapfrog.rs', 'src/integrator/ias15.rs', 'src/integrator/whfast.rs', 'src/particles/universe.rs'
TO = 'src/tools.rs'
SEEDS = [
dict(id='ias15-rejected-step-keeps-spin', property='C08',
 needs='an adaptive step that is rejected (a first step that is too long) while torques act',
 what='a rejected adaptive step leaves the polar spin component of the bodies at its value inside the rejected step',
 edits=[(IA, '                            particle.angular_momentum.z = self.angular_momentum0[3*k+2];\n', '')],
 main=rs(TL + """
fn run() {
    let mk = || { let mut star = body(1., 5e-3, [0.; 3], [0.; 3], [0., 0., 0.3]); star.set_tides(ps::Tides::new(ps::TidesEffect::CentralBody(ctl(0.3, 1e5))));
        let mut p = body(1e-2, 5e-4, [0.03, 0., 0.], [0., 0.8 * vc(1., 0.03), 0.], [0., 0., 1.]); p.set_tides(ps::Tides::new(ps::TidesEffect::OrbitingBody(ctl(0.3, 0.))));
        ps::Universe::new(0., 1e9, vec![star, p], tides()) };
    let total = |u: &ps::Universe| (0..2).map(|i| { let p = &u.particles[i]; let (x, v) = (va(p.inertial_position), va(p.inertial_velocity)); p.mass * (x[0] * v[1] - x[1] * v[0]) + p.angular_momentum.z }).sum::<f64>();
    for first in [1e-3, 1.] {
        let u = mk(); let spin0 = u.particles[0].angular_momentum.z; let l0 = total(&u);
        let mut s = ps::Ias15::new(first, 1e30, 1e30, u);
        let mut w = writer(); s.initialize_physical_values();
        while s.get_current_time() < 2. { s.iterate(&mut w, true).unwrap(); }
        let (l1, spin1) = (total(&s.universe), s.universe.particles[0].angular_momentum.z);
        let d = (l1 - l0) / (spin1 - spin0);
        check(d.abs() < 1e-4, &format!("first step {}: total angular momentum changed by {:e} of the exchanged amount", first, d));
    }
}""")),
dict(id='limit-checked-against-first-body-only', property='C19',
 needs='a leapfrog run whose evolving body is not listed first and whose time limit is extended past the end of its table',
 what='the extension of the time limit is only checked against the table of the first body',
 edits=[(LF, '                    if is_an_evolving_body && evolver.time[evolver.time.len()-1] < time_limit {', '                    if i == 0 && is_an_evolving_body && evolver.time[evolver.time.len()-1] < time_limit {')],
 main=rs(TL + TAB + """
fn run() {
    table();
    let mk = |first: bool| {
        let mut star = body(1., 5e-3, [0.; 3], [0.; 3], [0., 0., 3.]); star.set_evolution(ps::EvolutionType::GalletBolmont2017(1.));
        let p = body(1e-3, 5e-4, [0.05, 0., 0.], [0., vc(1., 0.05), 0.], [0., 0., 1.]);
        let mut c = off(); c.evolution = true;
        let u = ps::Universe::new(2000. * 365.25, 1e4 * 365.25, if first { vec![star, p] } else { vec![p, star] }, c);
        ps::LeapFrog::new(0.1, 1e30, 1e30, u) };
    for first in [true, false] {
        let try_limit = |years: f64| std::panic::catch_unwind(move || { let mut s = mk(first); s.set_time_limit(years * 365.25) }).is_ok();
        check(try_limit(2e4), "a limit inside the table is accepted");
        check(!try_limit(1e9), "a limit after the table is refused");
    }
}""")),
dict(id='polar-orbit-node', property='C22',
 needs='an exactly polar orbit (the angular momentum has no component along the axis at all)',
 what='the node of an exactly polar orbit is reported as zero',
 edits=[(TO, '        longitude_of_ascending_node = hx.atan2(-hy);\n', '        longitude_of_ascending_node = if hz == 0. { 0. } else { hx.atan2(-hy) };\n')],
 main=rs("""
fn run() {
    let pi = std::f64::consts::PI;
    for (x, v, node) in [([0., 1., 0.], [0., 0., 1.1], 0.5 * pi), ([-1., 0., 0.], [0., 0., 1.1], pi), ([0., -1., 0.], [0., 0., 1.1], 1.5 * pi), ([1., 0., 0.], [0., 0., 1.1], 0.)] {
        let (_, _, _, i, _, n, ..) = ps::tools::calculate_keplerian_orbital_elements(1., ax(x), ax(v));
        check((i - 0.5 * pi).abs() < 1e-12, "polar");
        let d = (n - node).rem_euclid(2. * pi); let d = d.min(2. * pi - d);
        check(d < 1e-9, &format!("node {} instead of {}", n, node));
    }
}""")),
dict(id='ninth-body-speed', property='C16',
 needs='a system of nine or ten bodies with Kidder relativity on the last ones',
 what='the speed relative to the relativity host is not computed for the ninth and tenth bodies',
 edits=[(UN, '                particle.heliocentric_norm_velocity_vector = particle.heliocentric_norm_velocity_vector_2.sqrt();', '                particle.heliocentric_norm_velocity_vector = if particle.id < 8 { particle.heliocentric_norm_velocity_vector_2.sqrt() } else { 0. };')],
 main=rs("""
fn run() {
    let go = |n: usize| {
        let mut star = body(1., 4e-3, [0.; 3], [0.; 3], [0., 0., 1.]); star.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::CentralBody(ps::GeneralRelativityImplementation::Kidder1995)));
        let mut v = vec![star];
        for k in 0..n - 1 { let mut p = body(1e-9, 4e-6, [0.3 + 0.2 * k as f64, 0., 0.], [0., vc(1., 0.3 + 0.2 * k as f64), 0.], [0., 0., 1.]); if k + 2 < n { p.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::Disabled)); } else { p.set_general_relativity(ps::GeneralRelativity::new(ps::GeneralRelativityEffect::OrbitingBody)); } v.push(p); }
        let last = v[n - 1].mass; let _ = last;
        let mut c = off(); c.general_relativity = true;
        let mut u = ps::Universe::new(0., 1e9, v, c); eval(&mut u, 0.);
        let p = &u.particles[n - 1]; let r = va(p.heliocentric_position)[0]; va(p.inertial_additional_acceleration)[0] * r * r };
    // a circular orbit: the correction times r^2 falls off as 1/r
    for n in [8usize, 9, 10] { let (a, r) = (go(n), 0.3 + 0.2 * (n - 2) as f64);
        let want = 3. * G * G / (173.144632674 * 173.144632674) / r;
        check(rel(a, want) < 1e-2, &format!("{} bodies: {:e} instead of {:e}", n, a, want)); }
}""")),
dict(id='snapshot-counter-one-byte', property='C03',
 needs='a WHFast run with more than 255 historic snapshots',
 what='the number of historic snapshots that is kept for the recovery wraps around at 256',
 edits=[(WH, 'self.n_historic_snapshots += 1;', 'self.n_historic_snapshots = (self.n_historic_snapshots + 1) & 0xff;')],
 main=rs("""
fn run() {
    let u = ps::Universe::new(0., 400., vec![body(1., 4e-5, [0.; 3], [0.; 3], [0., 0., 1.]), body(1e-5, 4e-6, [1., 0., 0.], [0., vc(1., 1.), 0.], [0., 0., 1.])], off());
    let mut s = ps::WHFast::new(1., 1e30, 1., u, ps::whfast::CoordinatesType::Jacobi);
    let p = std::path::Path::new("wh_hist.bin"); let _ = std::fs::remove_file(p);
    let mut w = BufWriter::new(File::create(p).unwrap());
    s.initialize_physical_values();
    while s.iterate(&mut w, true).is_ok() {}
    drop(w);
    let n = std::fs::metadata(p).unwrap().len() / (2 * 156);
    check(n > 300, "hundreds of snapshots");
    check(s.get_n_historic_snapshots() as u64 == n, &format!("{} snapshots in the file, {} counted", n, s.get_n_historic_snapshots()));
}""")),
]
