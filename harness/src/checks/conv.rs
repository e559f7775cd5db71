//! C08 convergence of the integrators, C24 direction of tidal dissipation and reported power.
use crate::engine::*;
use crate::ensure;
use crate::refphys as rp;
use crate::sys::*;
use super::sym::tame;
use proptest::prelude::*;

/// Relative distance of two states: positions and velocities over their spread, spins (angular momenta) over their own size.
fn orbit_err(a: &State, b: &State) -> f64 {
    let n = a.x.len();
    let (mut e, mut sx, mut sv) = (0f64, 0f64, 0f64);
    for i in 0..n { sx = sx.max(norm(b.x[i])); sv = sv.max(norm(b.v[i])); }
    for i in 0..n {
        let (s, t) = (norm(b.x[i]).max(1e-3 * sx), norm(b.v[i]).max(1e-3 * sv));
        e = e.max(norm(sub(a.x[i], b.x[i])) / s).max(norm(sub(a.v[i], b.v[i])) / t);
    }
    e
}
fn spin_err(a: &State, b: &State) -> f64 {
    (0..a.l.len()).map(|i| norm(sub(a.l[i], b.l[i])) / norm(b.l[i]).max(1e-300)).fold(0., f64::max)
}
fn lin(a: &State, b: &State, p: f64, q: f64) -> State {
    let f = |x: &Vec<V>, y: &Vec<V>| x.iter().zip(y).map(|(x, y)| add(mul(*x, p), mul(*y, q))).collect();
    State { t: a.t, x: f(&a.x, &b.x), v: f(&a.v, &b.v), l: f(&a.l, &b.l), inertia: a.inertia.clone() }
}
fn of_sys(s: &Sys) -> State {
    State { t: s.t0, x: s.bodies.iter().map(|b| b.x).collect(), v: s.bodies.iter().map(|b| b.v).collect(), l: s.bodies.iter().map(|b| mul(b.spin, rp::inertia(b))).collect(), inertia: s.bodies.iter().map(rp::inertia).collect() }
}
/// The body angular momenta of the real simulation use the same definition
fn barycentre(mut s: State, m: &[f64]) -> State {
    let mt: f64 = m.iter().sum();
    let c = |v: &Vec<V>| v.iter().zip(m).fold([0.; 3], |a, (x, m)| add(a, mul(*x, *m / mt)));
    let (cx, cv) = (c(&s.x), c(&s.v));
    for i in 0..s.x.len() { s.x[i] = sub(s.x[i], cx); s.v[i] = sub(s.v[i], cv); }
    s
}
/// Make the effects strong enough to matter within an orbit yet far from stiff.
fn prepare(sc: &Scen) -> Sys {
    let mut s = sc.sys.clone();
    let dt = s.min_period() / 40.;
    tame(&mut s, dt);
    // spins that precess as fast as the bodies orbit are beyond what the step control of the integrators looks at
    if s.flags.flat && sc.what != 3 {
        let (h, p) = (s.heaviest(), s.min_period());
        for i in 0..s.bodies.len() {
            let b = s.bodies[i].clone();
            let pull = |j: usize| { let (o, d) = (&s.bodies[j], 0.55 * norm(sub(b.x, s.bodies[j].x))); o.m / (d * d * d) };
            let f: f64 = if i == h { (0..s.bodies.len()).filter(|&j| j != h).map(pull).sum() } else { pull(h) };
            if let Flat::Central(FModel::Oblate { k2f }) | Flat::Orbiting(FModel::Oblate { k2f }) = &mut s.bodies[i].flat {
                let phi = *k2f * norm(b.spin) * b.r.powi(5) * f / rp::inertia(&b) * p / 6.283;
                if phi > 0.1 { *k2f *= 0.1 / phi; }
            }
        }
    }
    s
}

/// Reference trajectory at time t, or None when it is not smooth enough to be trusted (a disk edge or a saturation threshold was crossed).
fn reference(s: &Sys, t: f64, orbits: f64, m: &[f64]) -> Option<State> {
    let k = ((orbits * 16.).ceil() as usize).max(4);
    let a = barycentre(of_sys(&rp::evolve(s, t, k, rp::Kidder::AsRecorded)), m);
    let b = barycentre(of_sys(&rp::evolve(s, t, k * 3 / 2, rp::Kidder::AsRecorded)), m);
    if orbit_err(&a, &b) < 1e-11 && spin_err(&a, &b) < 1e-11 { Some(b) } else { None }
}

pub fn c08(ctx: &mut Ctx) {
    let strat = (gen_scen(&[0, 1, 1, 1, 1, 1], 3), 0.4..1.6f64, wh_or_leap());
    ctx.law("second_order", 720, 8000, strat, |(sc, orbits, integ)| {
        let s = prepare(sc);
        let p = s.min_period();
        let m: Vec<f64> = s.bodies.iter().map(|b| b.m).collect();
        let n = (orbits * 100.).ceil() as usize;
        let t = orbits * p;
        let r = match reference(&s, t, *orbits, &m) { Some(r) => r, None => return Ok(Out::new(false).class(true, "no smooth reference")) };
        let mut st = vec![];
        let fine = *integ == Integ::Leap && sc.what != 0;
        for f in if fine { [1usize, 4, 16] } else { [1usize, 2, 4] } { st.push(barycentre(run_to(&s, *integ, t / (n * f) as f64, n * f).map_err(|e| format!("{:?} with {} steps: {}", integ, n * f, e))?, &m)); }
        let rich = lin(&st[2], &st[1], 4. / 3., -1. / 3.);
        for (what, err) in [("orbit", &orbit_err as &dyn Fn(&State, &State) -> f64), ("spin", &spin_err)] {
            let (e1, e2, e3, er) = (err(&st[0], &r), err(&st[1], &r), err(&st[2], &r), err(&rich, &r));
            let floor = 1e-10;
            // First order only: leap-frog kicks use the velocities and spins of the start of the step, and relativity with Jacobi
            // coordinates uses the mutual attraction of an earlier sub-step.
            let stale = *integ == Integ::Jacobi && s.flags.gr && s.bodies.len() > 2 && !matches!(rp::gr_host(&s.bodies), Some((_, GrImpl::Kidder)));
            if stale && what == "orbit" {
                ensure!(within("Jacobi relativity orbit error at a quarter of the step", e3, 0.4 * e1 + 2e-9), "{:?}: {} error does not fall with the step: {:e}, {:e}, {:e} at {}, {}, {} steps", integ, what, e1, e2, e3, n, 2 * n, 4 * n);
                continue;
            }
            if *integ == Integ::Leap && sc.what != 0 {
                let floor = 2e-8;
                ensure!(within(&format!("leapfrog {} error at a quarter of the step", what), e3, 0.5 * e1.max(e2) + floor), "{:?}: {} error does not fall with the step: {:e}, {:e}, {:e} at {}, {}, {} steps", integ, what, e1, e2, e3, n, 2 * n, 4 * n);
                continue;
            }
            ensure!(within(&format!("{} error at a quarter of the step", what), e3, 0.12 * e1 + floor), "{:?}: {} error does not fall with the square of the step: {:e}, {:e}, {:e} at {}, {}, {} steps (extrapolated: {:e})", integ, what, e1, e2, e3, n, 2 * n, 4 * n, er);
            ensure!(within(&format!("{} extrapolated error", what), er, 0.2 * e3 + 0.02 * e1 + floor), "{:?}: {} converges elsewhere: errors {:e}, {:e}, {:e} at {}, {}, {} steps, extrapolated {:e}", integ, what, e1, e2, e3, n, 2 * n, 4 * n, er);
        }
        Ok(Out::new(true).class(sc.what == 1, "effects").class(*integ == Integ::Leap, "leapfrog"))
    });
    // the first step is sometimes far too long, so that it has to be repeated
    let strat = (gen_scen(&[0, 1, 1, 1, 1, 1], 3), 0.4..4.0f64, prop_oneof![1 => Just(0.02), 1 => logu(0.02, 2.)]);
    ctx.law("adaptive", 600, 8000, strat, |(sc, orbits, first)| {
        let s = prepare(sc);
        let p = s.min_period();
        let m: Vec<f64> = s.bodies.iter().map(|b| b.m).collect();
        let t = orbits * p;
        let mut sim = guard(|| Sim::new(&s, Integ::Ias, p * first, t, 1e30, 1e30))?;
        if let Err(m) = sim.run(200000) { if *first > 0.02 && (m.contains("ollision") || m.contains("destroyed") || m.contains("ejected")) { return Ok(Out::new(false).class(true, "trial of a long first step ends the run")); } if m.contains("did not complete") && (s.flags.wind || s.flags.disk) { return Ok(Out::new(false).class(true, "adaptive step at a kink of wind or disk, abandoned")); } return Err(m); }
        let a = barycentre(sim.state(), &m);
        ensure!(a.t <= t * (1. + 1e-12) || *first > 0.02, "adaptive run overshoots: t={} limit={}", a.t, t);
        let orbits = &(a.t / p);
        let r = match reference(&s, a.t, *orbits, &m) { Some(r) => r, None => return Ok(Out::new(false).class(true, "no smooth reference")) };
        let (eo, es) = (orbit_err(&a, &r), spin_err(&a, &r));
        ensure!(within("orbit", eo, 5e-8) && within("spin", es, 1e-5), "adaptive integrator is off by {:e} (orbits) and {:e} (spins) at t={}", eo, es, a.t);
        // also as part of what the torques have done
        let l0 = of_sys(&s).l;
        let ec = (0..l0.len()).map(|i| norm(sub(a.l[i], r.l[i])) / (norm(sub(r.l[i], l0[i])) + 1e-8 * norm(l0[i]))).fold(0., f64::max);
        ensure!(within("spin change", ec, 5e-3), "adaptive integrator changes the spin of a body by {:e} of the change differently at t={}", ec, a.t);
        Ok(Out::new(true).class(sc.what == 1, "effects").class(*first > 0.2, "long first step"))
    });
    more(ctx);
}
fn more(ctx: &mut Ctx) {
    // Effects outside the reference model: all integrators must approach the adaptive one as their step shrinks.
    let strat = (gen_scen(&[2, 3], 3), 0.4..1.6f64, wh_or_leap());
    ctx.law("agree", 160, 2000, strat, |(sc, orbits, integ)| {
        let mut s = prepare(sc);
        if sc.what == 2 { s.flags.wind = false; } // the wind of a body whose radius changes a lot can be stiff
        if sc.what == 3 && *integ == Integ::Leap { return Ok(Out::new(false)); } // so are creep tides
        let p = s.min_period();
        let m: Vec<f64> = s.bodies.iter().map(|b| b.m).collect();
        let n0 = (orbits * 60.).ceil() as usize;
        // the adaptive scheme stops before the limit: let it define the time
        let mut sim = guard(|| Sim::new(&s, Integ::Ias, p / 60., orbits * p, 1e30, 1e30))?;
        if let Err(m) = sim.run(200000) { if m.contains("did not complete") { return Ok(Out::new(false).class(true, "adaptive step at a kink, abandoned")); } return Err(m); }
        let r = barycentre(sim.state(), &m);
        let t = r.t;
        let mut st = vec![];
        for f in [1usize, 4] { st.push(barycentre(run_to(&s, *integ, t / (n0 * f) as f64, n0 * f).map_err(|e| format!("{:?} with {} steps: {}", integ, n0 * f, e))?, &m)); }
        for (what, err, floor) in [("orbit", &orbit_err as &dyn Fn(&State, &State) -> f64, 1e-7), ("spin", &spin_err, 2e-5)] {
            let (e1, e3) = (err(&st[0], &r), err(&st[1], &r));
            ensure!(within(&format!("{} error at a quarter of the step", what), e3, 0.6 * e1 + floor), "{:?}: {} does not approach the adaptive integrator: distance {:e} with {} steps, {:e} with {}", integ, what, e1, n0, e3, 4 * n0);
            ensure!(within(&format!("{} distance", what), e3, if *integ == Integ::Leap { 2e-2 } else { 1e-3 }), "{:?}: {} differs from the adaptive integrator by {:e} with {} steps", integ, what, e3, 4 * n0);
        }
        Ok(Out::new(true).class(sc.what == 2, "evolving").class(sc.what == 3, "creep"))
    });
    // Time bookkeeping: a run ends at the last step that fits in the time limit.
    let strat = (gen_scen(&[0, 1, 2], 3), integ(), 1.0..40.0f64);
    ctx.law("stops_at_limit", 240, 4000, strat, |(sc, integ, k)| {
        let s = prepare(sc);
        let limit = sc.dt * k;
        let mut sim = guard(|| Sim::new(&s, *integ, sc.dt, limit, 1e30, 1e30))?;
        let mut w = null_writer();
        let (mut last, mut n) = (0., 0);
        loop {
            let go = sim.step(&mut w)?;
            n += 1;
            let t = sim.t();
            ensure!(t > last, "time does not advance: {} after {}", t, last);
            // the first step is always made
            ensure!(n == 1 || t <= limit * (1. + 1e-14), "{:?}: t={} beyond the limit {} after step {}", integ, t, limit, n);
            if *integ != Integ::Ias {
                ensure!(within("time", (t - n as f64 * sc.dt).abs(), 1e-12 * t), "{:?}: t={} after {} steps of {}", integ, t, n, sc.dt);
                let fits = t + sc.dt <= limit;
                let tie = (t + sc.dt - limit).abs() < 1e-9 * sc.dt;
                ensure!(tie || fits == go, "{:?}: t={} step {} limit {}: {}", integ, t, sc.dt, limit, if go { "goes on" } else { "stops" });
            }
            last = t;
            if !go { break; }
            if n >= 5000 && *integ == Integ::Ias { return Ok(Out::new(false).class(true, "adaptive step very small")); }
            ensure!(n < 5000, "run does not end");
        }
        Ok(Out::new(n > 1).class(*integ == Integ::Ias, "adaptive").class(n > 10, "more than ten steps"))
    });
}
fn wh_or_leap() -> impl Strategy<Value = Integ> + Clone { prop::sample::select(vec![Integ::Jacobi, Integ::Dem, Integ::Whds, Integ::Leap]) }
/// Debugging aid: error against the number of steps for the case of a C08 replay file.
pub fn probe(file: &str) {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let c: serde_json::Value = serde_json::from_str(v["case_json"].as_str().unwrap()).unwrap();
    let sc: Scen = serde_json::from_value(c[0].clone()).unwrap();
    let orbits = c[1].as_f64().unwrap();
    let d = std::env::temp_dir().join("verif-helper"); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap();
    write_default_inputs(std::path::Path::new("."));
    let s = prepare(&sc);
    let m: Vec<f64> = s.bodies.iter().map(|b| b.m).collect();
    let t = orbits * s.min_period();
    let r = barycentre(of_sys(&rp::evolve(&s, t, 40, rp::Kidder::AsRecorded)), &m);
    let r2 = barycentre(of_sys(&rp::evolve(&s, t, 80, rp::Kidder::AsRecorded)), &m);
    eprintln!("reference {:e} {:e} flags {:?}", orbit_err(&r, &r2), spin_err(&r, &r2), s.flags);
    for i in INTEGS { for n in [50usize, 100, 200, 400, 800, 1600] {
        if i == Integ::Ias && n > 50 { continue; }
        if i == Integ::Ias { let mut sim = Sim::new(&s, Integ::Ias, t / n as f64, t, 1e30, 1e30); let _ = sim.run(100000); let a = barycentre(sim.state(), &m); let r = barycentre(of_sys(&rp::evolve(&s, a.t, 40, rp::Kidder::AsRecorded)), &m); eprintln!("ias {:e} {:e}", orbit_err(&a, &r), spin_err(&a, &r)); continue; }
        let a = barycentre(run_to(&s, i, t / n as f64, n).unwrap(), &m);
        eprintln!("{:?} {} {:e} {:e}", i, n, orbit_err(&a, &r), spin_err(&a, &r));
        if n == 1600 { for k in 0..m.len() { eprintln!("   body {} dx {:e} dv {:e} dl {:e}", k, norm(sub(a.x[k], r.x[k])) / norm(r.x[k]), norm(sub(a.v[k], r.v[k])) / norm(r.v[k]), norm(sub(a.l[k], r.l[k])) / norm(r.l[k])); } }
    } }
}
