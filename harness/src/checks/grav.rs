//! C06 two-body motion, C07 conservation, C10 Newtonian gravity, C11 collisions/disruption/ejection.
use crate::engine::*;
use crate::ensure;
use crate::refmath as rm;
use crate::sys::*;
use posidonius as ps;
use proptest::prelude::*;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Two { pub m: [f64; 2], pub q: f64, pub e: f64, pub ang: [f64; 3], pub f0: f64, pub swap: bool, pub off: [V; 2] }
impl Two {
    pub fn mu(&self) -> f64 { G * (self.m[0] + self.m[1]) }
    /// separation-based time scale at pericentre and the orbital period (bound only)
    pub fn period(&self) -> f64 { if self.e < 1. { rm::TAU * ((self.q / (1. - self.e)).powi(3) / self.mu()).sqrt() } else { f64::INFINITY } }
    pub fn peri_time(&self) -> f64 { rm::TAU * (self.q.powi(3) / self.mu() / (1. + self.e)).sqrt() }
    pub fn sys(&self) -> Sys {
        let (x, v) = rm::conic_to_cart(self.mu(), self.q, self.e, self.ang[0], self.ang[1], self.ang[2], self.f0);
        let star = Body::plain(self.m[0], 1e-13, self.off[0], self.off[1]);
        let pl = Body::plain(self.m[1], 1e-13, add(x, self.off[0]), add(v, self.off[1]));
        Sys { bodies: if self.swap { vec![pl, star] } else { vec![star, pl] }, flags: Flags::default(), t0: 0. }
    }
}
/// e: ellipses, near-parabolic and hyperbolic orbits
pub fn two(lm: std::ops::Range<f64>, unbound: bool) -> impl Strategy<Value = Two> {
    let e = if unbound { prop_oneof![3 => 0.0..0.9f64, 1 => 0.9..0.995f64, 1 => Just(0.0), 1 => Just(1.0), 2 => 1.001..6.0f64].boxed() } else { prop_oneof![3 => 0.0..0.7f64, 1 => Just(0.0)].boxed() };
    (logu(0.05, 3.), lm, logu(0.02, 1.), e, 0.0..std::f64::consts::PI, angle(), angle(), -1.0..1.0f64, any::<bool>(), (unit3(), logu(1e-3, 1.), unit3(), logu(1e-5, 1e-2)))
        .prop_map(|(m, lm, q, e, i, om, w, f, swap, (d1, s1, d2, s2))| {
            let q = if e < 1. { q.min(40. * (1. - e) / (1. + e)) } else { q }; // stay clear of the ejection distance
            let fmax = if e < 1. { std::f64::consts::PI } else { 0.8 * (-1f64 / e).acos() };
            Two { m: [m, m * 10f64.powf(lm)], q, e, ang: [i, om, w], f0: f * fmax, swap, off: [mul(d1, s1), mul(d2, s2)] }
        })
}
/// relative motion error of a state against the analytic orbit: max of position and velocity error scaled by q and v_q,
/// plus the barycentre displacement
fn two_err(sys: &Sys, st: &State, t: f64) -> (f64, f64, f64) {
    let h = if sys.bodies[1].m > sys.bodies[0].m { 1 } else { 0 };
    let (a, b) = (&sys.bodies[h], &sys.bodies[1 - h]);
    let mu = G * (a.m + b.m);
    let (x, v) = rm::kepler_propagate(mu, sub(b.x, a.x), sub(b.v, a.v), t);
    let (dx, dv) = (sub(st.x[1 - h], st.x[h]), sub(st.v[1 - h], st.v[h]));
    let m = a.m + b.m;
    let cm = add(mul(st.x[h], a.m / m), mul(st.x[1 - h], b.m / m));
    (norm(sub(dx, x)) / norm(x), norm(sub(dv, v)) / norm(v), norm(cm) / norm(x))
}

pub fn c06(ctx: &mut Ctx) {
    // WHFast: exact Kepler drift at any step
    let strat = (two(-12.0..0.0, true), prop::sample::select(vec![Integ::Jacobi, Integ::Whds, Integ::Dem]), logu(1e-3, 0.7), 1usize..60);
    ctx.law("wisdom_holman_exact", 4000, 60000, strat, |(tw, integ, f, n)| {
        let mut tw = tw.clone();
        // Democratic heliocentric coordinates are only exact for a companion of negligible mass.
        if *integ == Integ::Dem { tw.m[1] = tw.m[0] * 1e-22; }
        let sys = tw.sys();
        // any fraction of the period; for unbound orbits multiples of the pericentre time scale
        let unit = if tw.e < 1. { tw.period() } else { tw.peri_time() };
        let dt = f * unit;
        let mut n = *n;
        if tw.e >= 1. { let vmax = (tw.mu() * (1. + tw.e) / tw.q).sqrt(); while n > 1 && vmax * dt * n as f64 > 40. { n /= 2; } }
        let st = run_to(&sys, *integ, dt, n)?;
        let (ex, ev, ec) = two_err(&sys, &st, st.t);
        // conditioning: phase error amplified by steep pericentre passages
        let amp = if tw.e < 1. { (1. - tw.e).powi(-3).min(1e7) } else { 10. * (1. + 0.0 * tw.e) };
        let tol = 2e-12 * amp * (1. + n as f64);
        ensure!(within("position", ex, tol) && within("velocity", ev, tol), "{:?} with step {} ({} steps): relative error {:e} in position, {:e} in velocity (allowed {:e})", integ, dt, n, ex, ev, tol);
        ensure!(within("barycentre", ec, 1e-11 * (1. + n as f64)), "centre of mass moved by {:e} of the separation", ec);
        Ok(Out::new(tw.e > 0.01 && n as f64 * f > 1e-3).class(tw.e >= 1., "unbound or parabolic").class(tw.m[1] > 0.01 * tw.m[0], "comparable masses").class(*f > 0.3, "step above 0.3 periods").class(tw.e > 0.9 && tw.e < 1., "e > 0.9"))
    });
    // Any step whatsoever: it ends, and what comes out is the orbit (or the body is reported as lost).
    let strat = (two(-12.0..0.0, true), prop::sample::select(vec![Integ::Jacobi, Integ::Whds, Integ::Dem]), logu(1e-6, 1e12), prop_oneof![3 => Just(1.), 2 => logu(1e-3, 1e6), 1 => logu(1e3, 1e140)], 1usize..4);
    ctx.law("any_step_ends", 4000, 60000, strat, |(tw, integ, f, boost, n)| {
        let mut tw = tw.clone();
        if *integ == Integ::Dem { tw.m[1] = tw.m[0] * 1e-22; }
        let mut sys = tw.sys();
        let h = if tw.m[1] > tw.m[0] { 1 } else { 0 };
        let rel = sub(sys.bodies[1 - h].v, sys.bodies[h].v);
        sys.bodies[1 - h].v = add(sys.bodies[h].v, mul(rel, *boost));
        let r0 = sub(sys.bodies[1 - h].x, sys.bodies[h].x);
        let dt = f * if tw.e < 1. { tw.period() } else { tw.peri_time() };
        let st = match run_to(&sys, *integ, dt, *n) {
            Err(e) if e.contains("ejected") || e.contains("close encounter") || e.contains("Collision") => return Ok(Out::new(true).class(true, "reported as lost")),
            Err(e) => return Err(e), Ok(st) => st };
        let (dx, dv) = (sub(st.x[1 - h], st.x[h]), sub(st.v[1 - h], st.v[h]));
        if *boost > 1e6 { return Ok(Out::new(true).class(true, "beyond arithmetic")); }
        ensure!(dx.iter().chain(dv.iter()).all(|x| x.is_finite()), "{:?} with step {} ({} steps): separation {:?}, velocity {:?}", integ, dt, n, dx, dv);
        let mu = tw.mu();
        let (e0, e1) = (0.5 * dot(rel, rel) * boost * boost - mu / norm(r0), 0.5 * dot(dv, dv) - mu / norm(dx));
        let (l0, l1) = (cross(r0, mul(rel, *boost)), cross(dx, dv));
        let sc = 0.5 * dot(rel, rel) * boost * boost + mu / norm(r0) + 0.5 * dot(dv, dv) + mu / norm(dx);
        // (the phase within an orbit is lost to rounding after very many periods)
        let tol = 1e-7 * (1. + if e0 < 0. { dt * (-2. * e0).powf(1.5) / (rm::TAU * mu) } else { 0. });
        ensure!(tol > 0.1 || within("energy", (e1 - e0).abs() / sc, tol) && within("angular momentum", norm(sub(l0, l1)) / (norm(dx) * norm(dv) + norm(r0) * norm(rel) * boost), tol), "{:?} with step {} ({} steps): energy {:e} -> {:e}, angular momentum {:?} -> {:?}", integ, dt, n, e0, e1, l0, l1);
        Ok(Out::new(true).class(*boost > 2., "fast flyby").class(*boost < 0.3, "plunging").class(*f > 10., "many periods in a step").class(*f < 1e-3, "tiny step"))
    });
    // IAS15
    let strat = (two(-12.0..0.0, true), logu(0.003, 0.03), logu(0.05, 5.));
    ctx.law("adaptive_near_roundoff", 800, 12000, strat, |(tw, f, n)| {
        let sys = tw.sys();
        let unit = if tw.e < 1. { tw.period() } else { tw.peri_time() };
        let mut t_end = n * unit;
        if tw.e >= 1. { let vmax = (tw.mu() * (1. + tw.e) / tw.q).sqrt(); t_end = t_end.min(40. / vmax); }
        let mut s = guard(|| Sim::new(&sys, Integ::Ias, f * tw.peri_time().min(t_end), t_end, 1e30, 1e30))?;
        s.run(200_000)?;
        ensure!(s.t() <= t_end * (1. + 1e-12), "adaptive run overshot its limit");
        let (ex, ev, ec) = two_err(&sys, &s.state(), s.t());
        let amp = if tw.e < 1. { (1. - tw.e).powi(-3).min(1e7) } else { 10. };
        let tol = 2e-12 * amp * (1. + n);
        ensure!(within("position", ex, tol) && within("velocity", ev, tol), "adaptive scheme over {} (period {}): relative error {:e} in position, {:e} in velocity (allowed {:e})", t_end, tw.period(), ex, ev, tol);
        ensure!(within("barycentre", ec, 1e-10), "centre of mass moved by {:e} of the separation", ec);
        Ok(Out::new(tw.e > 0.01).class(tw.e >= 1., "unbound or parabolic").class(tw.m[1] > 0.01 * tw.m[0], "comparable masses").class(tw.e > 0.9 && tw.e < 1., "e > 0.9"))
    });
    // Leap-frog and democratic heliocentric: second order
    let strat = (two(-12.0..-0.5, false), prop::sample::select(vec![Integ::Leap, Integ::Leap, Integ::Dem]), 0.5..2.0f64);
    ctx.law("second_order", 600, 10000, strat, |(tw, integ, span)| {
        let sys = tw.sys();
        let t_end = span * tw.period();
        let base = (40. * span / (1. - tw.e).powf(1.5)).ceil() as usize * 4;
        let mut errs = vec![];
        for k in [1usize, 2, 4] {
            let st = run_to(&sys, *integ, t_end / (base * k) as f64, base * k)?;
            let (ex, ev, ec) = two_err(&sys, &st, st.t);
            ensure!(within("barycentre", ec, 1e-10), "centre of mass moved by {:e} of the separation", ec);
            errs.push(ex.max(ev));
        }
        let floor = 1e-10;
        for k in 0..2 { ensure!(within("decay", errs[k + 1], 0.45 * errs[k] + floor), "{:?}: halving the step changed the error from {:e} to {:e}", integ, errs[k], errs[k + 1]); }
        // absolute size: phase error of a second-order scheme
        let h = rm::TAU * span / base as f64 / (1. - tw.e).powf(1.5);
        ensure!(within("size", errs[0], 40. * h * h * (1. + rm::TAU * span) / (1. - tw.e) + floor), "{:?}: error {:e} with scaled step {:e}", integ, errs[0], h);
        Ok(Out::new(errs[0] > 1e-9).class(tw.m[1] > 0.01 * tw.m[0], "comparable masses").class(*integ == Integ::Dem, "democratic"))
    });
}

fn totals(m: &[f64], s: &State) -> (V, V, V, f64) {
    let (mut p, mut c, mut l, mut e) = ([0.; 3], [0.; 3], [0.; 3], 0.);
    for i in 0..m.len() {
        p = add(p, mul(s.v[i], m[i])); c = add(c, mul(s.x[i], m[i])); l = add(l, mul(cross(s.x[i], s.v[i]), m[i]));
        e += 0.5 * m[i] * dot(s.v[i], s.v[i]);
        for j in 0..i { e -= G * m[i] * m[j] / norm(sub(s.x[i], s.x[j])); }
    }
    (p, c, l, e)
}
pub fn c07(ctx: &mut Ctx) {
    let o = Opts { planets: (1, 9), e_max: 0.3, ratio: (1.4, 2.0), a0: (0.02, 0.3), m_max: 0.02, ..Opts::default() };
    let strat = (gen_sys(o), integ(), 0.004..0.08f64, 5usize..120);
    ctx.law("momentum_and_spin", 1200, 16000, strat, |(sys, integ, f, n)| {
        let dt = sys.min_period() * f;
        let m: Vec<f64> = sys.bodies.iter().map(|b| b.m).collect();
        let mt: f64 = m.iter().sum();
        let mut s = guard(|| Sim::new(sys, *integ, dt, dt * *n as f64 * 1.5, 1e30, 1e30))?;
        let s0 = s.state();
        let (_, _, l0, e0) = totals(&m, &s0);
        // scales include the frame offset of the input, whose removal costs a few ulps
        let px: f64 = (0..m.len()).map(|i| m[i] * (norm(s0.v[i]) + norm(sys.bodies[i].v))).sum();
        let cx: f64 = (0..m.len()).map(|i| m[i] * (norm(s0.x[i]) + norm(sys.bodies[i].x))).sum::<f64>() + px * dt;
        // round-off of each body's own coordinates feeds the sums
        let (lx, ex): (f64, f64) = ((0..m.len()).map(|i| m[i] * norm(s0.x[i]) * norm(s0.v[i])).sum(), e0.abs());
        let mut w = null_writer();
        let spins0: Vec<V> = s.u().particles[..m.len()].iter().map(|p| va(p.spin)).collect();
        for k in 0..*n {
            match s.step(&mut w) { Ok(_) => {}, Err(e) if e.contains("PANIC") => return Ok(Out::new(false)), Err(e) => return Err(e) }
            let st = s.state();
            let (p, c, l, e) = totals(&m, &st);
            let steps = (k + 2) as f64;
            ensure!(within("momentum", norm(p), 2e-14 * steps * px), "{:?} step {}: total momentum {:e} (scale {:e})", integ, k, norm(p), px);
            ensure!(within("centre", norm(c), 2e-14 * steps * cx), "{:?} step {}: centre of mass displaced to {:e} (scale {:e})", integ, k, norm(c) / mt, cx / mt);
            ensure!(within("angular", norm(sub(l, l0)), 1e-12 * steps * lx), "{:?} step {}: angular momentum changed by {:e} of {:e}", integ, k, norm(sub(l, l0)), lx);
            if *integ == Integ::Ias { ensure!(within("energy", (e - e0).abs(), 1e-11 * steps * ex), "IAS15 step {}: energy changed by {:e} of {:e}", k, e - e0, ex); }
            for i in 0..m.len() {
                ensure!(st.l[i] == s0.l[i] && st.inertia[i] == s0.inertia[i], "{:?} step {}: spin angular momentum of particle {} changed from {:?} to {:?}", integ, k, i, s0.l[i], st.l[i]);
                let sp = va(s.u().particles[i].spin);
                ensure!(vclose(sp, spins0[i], 1e-14, 0.), "{:?} step {}: spin of particle {} changed", integ, k, i);
            }
        }
        Ok(Out::new(m.len() >= 3 || *n > 10).class(m.len() > 5, "more than 4 planets").class(*integ == Integ::Ias, "adaptive").class(sys.heaviest() > 0, "star not first"))
    });
    let o = Opts { planets: (2, 4), e_max: 0.1, ratio: (1.6, 2.2), a0: (0.02, 0.3), m_max: 1e-3, ..Opts::default() };
    let strat = (gen_sys(o), prop::sample::select(vec![Integ::Jacobi, Integ::Dem, Integ::Whds, Integ::Leap]), 0.01..0.03f64);
    ctx.law("symplectic_energy", 320, 6000, strat, |(sys, integ, f)| {
        let m: Vec<f64> = sys.bodies.iter().map(|b| b.m).collect();
        let dt = sys.min_period() * f;
        let n = 400usize;
        let mut worst = vec![];
        let mut halves = vec![];
        for k in [1usize, 2] {
            let mut s = guard(|| Sim::new(sys, *integ, dt / k as f64, 1e9, 1e30, 1e30))?;
            let e0 = totals(&m, &s.state()).3;
            let mut w = null_writer();
            let (mut a, mut b) = (0f64, 0f64);
            for i in 0..n { for _ in 0..k { s.step(&mut w)?; } let d = ((totals(&m, &s.state()).3 - e0) / e0).abs(); if i < n / 2 { a = a.max(d) } else { b = b.max(d) } }
            worst.push(a.max(b)); halves.push((a, b));
        }
        // natural size of the energy error: (2 pi dt / P)^2, times the mass ratio for the Wisdom-Holman maps
        let unit = (rm::TAU * f).powi(2) * if *integ == Integ::Leap { 1. } else { m.iter().sum::<f64>() / m.iter().cloned().fold(0., f64::max) - 1. };
        ensure!(within("order", worst[1], 0.8 * worst[0] + 3e-3 * unit + 1e-10), "{:?}: halving the step changed the largest energy error from {:e} to {:e}", integ, worst[0], worst[1]);
        ensure!(within("drift", halves[0].1, 12. * halves[0].0 + 3e-3 * unit + 1e-10), "{:?}: energy error grew from {:e} in the first half to {:e} in the second", integ, halves[0].0, halves[0].1);
        ensure!(within("size", worst[0], 1. * unit + 1e-10), "{:?}: energy error {:e} for step {} periods", integ, worst[0], f);
        Ok(Out::new(worst[0] > 1e-13).class(*integ == Integ::Leap, "leapfrog").class(*integ == Integ::Dem, "democratic"))
    });
}

pub fn c10(ctx: &mut Ctx) {
    let body = (logu(1e-12, 10.), unit3(), logu(1e-3, 30.), unit3(), logu(1e-6, 1.)).prop_map(|(m, d, r, vd, v)| (m, mul(d, r), mul(vd, v)));
    let strat = (prop::collection::vec(body, 2..=10), 0u8..3);
    ctx.law("newton", 8000, 120000, strat, |(bs, mode)| {
        let bodies: Vec<Body> = bs.iter().map(|b| Body::plain(b.0, 1e-14, b.1, b.2)).collect();
        let sys = Sys { bodies, flags: Flags::default(), t0: 0. };
        let n = sys.bodies.len();
        let h = sys.heaviest();
        let first = if h == 0 { 1 } else { 0 };
        let ign = [ps::IgnoreGravityTerms::None, ps::IgnoreGravityTerms::WHFastOne, ps::IgnoreGravityTerms::WHFastTwo][*mode as usize];
        let acc: Vec<V> = guard(|| { let mut u = sys.universe(1e12); u.calculate_roche_radiuses(); u.gravity_calculate_acceleration(ign); u.particles[..n].iter().map(|p| va(p.inertial_acceleration)).collect() })?;
        let mut sum = [0.; 3]; let mut scale = 0.;
        for i in 0..n {
            let mut a = [0.; 3]; let mut sc = 0.;
            for j in 0..n {
                if i == j { continue; }
                let skip = match mode { 0 => false, 1 => (i == h && j == first) || (j == h && i == first), _ => i == h || j == h };
                if skip { continue; }
                let d = sub(sys.bodies[j].x, sys.bodies[i].x);
                let t = mul(d, G * sys.bodies[j].m / norm(d).powi(3));
                // positions are shifted to the centre of mass, costing a few ulps of the largest coordinate
                let cond = 1. + bs.iter().map(|b| norm(b.1)).fold(0., f64::max) / norm(d);
                a = add(a, t); sc += norm(t) * cond;
            }
            ensure!(within("acceleration", norm(sub(a, acc[i])), 3e-15 * sc), "particle {} of {} (mode {}, host {}): acceleration {:?}, Newton gives {:?}", i, n, mode, h, acc[i], a);
            sum = add(sum, mul(acc[i], sys.bodies[i].m)); scale += sc * sys.bodies[i].m;
        }
        ensure!(within("third law", norm(sum), 1e-14 * scale), "mass-weighted accelerations sum to {:e} (scale {:e})", norm(sum), scale);
        Ok(Out::new(n >= 3).class(n == 10, "ten bodies").class(h > 0, "host not first").class(*mode == 1, "one pair left out").class(*mode == 2, "all host pairs left out"))
    });
}

pub fn c11(ctx: &mut Ctx) {
    // Instantaneous thresholds
    let strat = (gen_sys(Opts { planets: (1, 8), m_max: 1e-2, offset: true, ..Opts::default() }), any::<u16>(), any::<u16>(), 0u8..3, logu(1e-9, 0.3), any::<bool>(), unit3(), logu(1e-3, 1e3));
    ctx.law("thresholds", 6000, 90000, strat, |(sys, a, b, kind, delta, inside, dir, rf)| {
        let mut sys = sys.clone();
        let n = sys.bodies.len();
        let h = sys.heaviest();
        let (mut i, mut j) = (*a as usize % n, *b as usize % n);
        if *kind == 2 { i = h; }
        if i == j { j = (i + 1) % n; }
        // make every radius tiny, then set the chosen pair
        for b in sys.bodies.iter_mut() { b.r = 1e-12; }
        let tie = *kind == 0 && *rf < 0.2;
        if tie { let m = sys.bodies[i].m.max(sys.bodies[j].m); sys.bodies[i].m = m; sys.bodies[j].m = m; }
        let h = if tie { sys.heaviest() } else { h };
        let f = if *inside { 1. - delta } else { 1. + delta };
        let (mi, mj) = (sys.bodies[i].m, sys.bodies[j].m);
        let (big, small) = if mi > mj { (i, j) } else { (j, i) };
        let d = match kind {
            0 => { sys.bodies[small].r = 1e-5; sys.bodies[big].r = if tie { 1e-5 } else { 1e-7 }; (1e-5 / 0.462) * (sys.bodies[big].m / sys.bodies[small].m).powf(1. / 3.) * f }
            1 => { // radii such that the sum exceeds the Roche distance
                let rs = 1e-7; let roche = (rs / 0.462) * (sys.bodies[big].m / sys.bodies[small].m).powf(1. / 3.); let rb = roche * (2. + rf.min(10.)); sys.bodies[small].r = rs; sys.bodies[big].r = rb; (rs + rb) * f }
            _ => 100. * f,
        };
        // other bodies must be clear of the moved one
        if *kind == 2 { sys.bodies[j].x = add(sys.bodies[i].x, mul(*dir, d)); }
        else { let at = sys.bodies[i].x; sys.bodies[j].x = add(at, mul(*dir, d)); }
        for p in 0..n { for q in 0..p {
            if (p == i && q == j) || (p == j && q == i) { continue; }
            let dist = norm(sub(sys.bodies[p].x, sys.bodies[q].x));
            let (bp, bq) = (&sys.bodies[p], &sys.bodies[q]);
            let rmax = bp.r + bq.r + (bp.r.max(bq.r) / 0.462) * (bp.m / bq.m).max(bq.m / bp.m).powf(1. / 3.);
            let far = p == h || q == h;
            if dist <= 2. * rmax || (far && dist > 99.) { return Ok(Out::new(false)); }
        } }
        // numerical uncertainty of the pair distance after the shift to the centre of mass
        let scale = sys.bodies.iter().map(|b| norm(b.x)).fold(0., f64::max);
        if scale * 1e-15 > 0.05 * delta * d { return Ok(Out::new(false)); }
        let r = guard(|| { let mut u = sys.universe(1e12); u.calculate_roche_radiuses(); u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::None); });
        let expect = match kind { 2 => !*inside, _ => *inside };
        match (&r, expect) {
            (Ok(()), false) => {}
            (Ok(()), true) => return Err(format!("bodies {} and {} (host {}) at distance {} with radii {}, {}: kind {} not detected", i, j, h, d, sys.bodies[i].r, sys.bodies[j].r, kind)),
            (Err(m), false) => return Err(format!("stopped with '{}' although bodies {} and {} at {} violate nothing (kind {})", m, i, j, d, kind)),
            (Err(m), true) => {
                let what = ["destroyed", "ollision", "eject"][*kind as usize];
                let tail = m.split("UTC]").last().unwrap().split(" at /").next().unwrap();
                let nums: Vec<usize> = tail.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect();
                let named = match kind { 2 => nums.contains(&j), _ => nums.contains(&i) && nums.contains(&j) };
                ensure!(m.contains(what) && named, "bodies {} and {} (kind {}): message '{}'", i, j, kind, m);
            }
        }
        Ok(Out::new(true).class(*kind == 0, "Roche").class(*kind == 1, "collision").class(*kind == 2, "ejection").class(tie, "equal masses").class(*inside, "inside").class(h > 0, "host not first"))
    });
    // Limits that follow the radii
    super::evol::evolving_limits(ctx);
    // Runs: a planet whose pericentre is inside / outside the limit, or that leaves for good
    let strat = (gen_sys(Opts { planets: (1, 1), e_max: 0.0, a0: (0.02, 0.3), i_max: 1.0, ..Opts::default() }), integ(), 0.05..0.6f64, 0u8..3, prop_oneof![0.2..0.8f64, 1.3..3.0f64], angle());
    ctx.law("runs_stop", 400, 6000, strat, |(sys, integ, e, kind, x, ma)| {
        let mut sys = sys.clone();
        let h = sys.heaviest(); let p = 1 - h;
        let (mh, mp) = (sys.bodies[h].m, sys.bodies[p].m);
        let mu = G * (mh + mp);
        let a = norm(sub(sys.bodies[p].x, sys.bodies[h].x));
        if *kind < 2 {
            let q = a * (1. - e); let apo = a * (1. + e);
            // limit = x*q : inside when x > 1, but smaller than the start distance
            let lim = (q * x).min(q + 0.6 * (apo - q));
            let inside = lim > q;
            if inside && lim < 1.15 * q { return Ok(Out::new(false)); }
            let cube = (mh / mp).powf(1. / 3.);
            if *kind == 0 { sys.bodies[p].r = lim * 0.462 / cube; sys.bodies[h].r = 1e-9 * q; }
            else { sys.bodies[p].r = 1e-9 * q; sys.bodies[h].r = lim - 1e-9 * q; if (1e-9 * q / 0.462) * cube > 0.1 * q { return Ok(Out::new(false)); } }
            let (xx, vv) = rm::elements_to_cart(mu, a, *e, 0.3, 0.2, 0.1, std::f64::consts::PI);
            sys.bodies[p].x = add(sys.bodies[h].x, xx); sys.bodies[p].v = add(sys.bodies[h].v, vv);
            if lim >= 0.98 * apo { return Ok(Out::new(false)); }
            let n = 400usize;
            let per = rm::TAU * (a * a * a / mu).sqrt();
            let r = run_to(&sys, *integ, per / n as f64, n);
            match r {
                Ok(_) => ensure!(!inside, "{:?}: pericentre {} inside limit {} (kind {}) was passed without stopping", integ, q, lim, kind),
                Err(m) => ensure!(inside && m.contains(["destroyed", "ollision"][*kind as usize]), "{:?}: stopped with '{}' for pericentre {} and limit {} (kind {})", integ, m, q, lim, kind),
            }
            Ok(Out::new(true).class(*kind == 0, "Roche").class(*kind == 1, "collision").class(inside, "must stop"))
        } else {
            // radial escape close to the 100 AU sphere
            let leave = *x > 1.;
            let d0 = 99.9;
            let dir = { let (s, c) = ma.sin_cos(); [0.6 * c, 0.6 * s, 0.8] };
            sys.bodies[p].x = add(sys.bodies[h].x, mul(dir, d0));
            let v = if leave { 0.01 } else { -0.01 };
            sys.bodies[p].v = add(sys.bodies[h].v, mul(dir, v));
            sys.bodies[p].r = 1e-10; sys.bodies[h].r = 1e-5;
            let r = run_to(&sys, *integ, 1., 30);
            match r {
                Ok(_) => ensure!(!leave, "{:?}: body {} left the 100 AU sphere around body {} without stopping the run", integ, p, h),
                Err(m) => ensure!(leave && m.contains("eject"), "{:?}: stopped with '{}'", integ, m),
            }
            Ok(Out::new(true).class(true, "ejection").class(leave, "must stop"))
        }
    });
}
