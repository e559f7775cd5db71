//! C24 tidal dissipation: energy accounting, reported power, orbit-averaged evolution.
use super::effects::{bound, gen_cloud, set_tides, tide_params, through};
use crate::engine::*;
use crate::ensure;
use crate::refmath::{self, TAU};
use crate::refphys as rp;
use crate::sys::*;
use posidonius as ps;
use proptest::prelude::*;

/// Heat produced per day in the body (mass irrelevant, radius r, dissipation sigma, spin om) by a companion of mass mc at relative position x, velocity v.
fn heat(r: f64, sigma: f64, om: V, mc: f64, x: V, v: V) -> f64 {
    let d = norm(x); let n = mul(x, 1. / d); let vr = dot(n, v);
    let w = sub(cross(om, x), sub(v, mul(n, vr)));
    4.5 * sigma * r.powi(10) * mc * mc / d.powi(8) * (3. * vr * vr + dot(w, w))
}
fn sig(t: &Tide) -> f64 { match t { Tide::Central(TModel::Ctl { sigma, scale, .. }) | Tide::Orbiting(TModel::Ctl { sigma, scale, .. }) => sigma * scale, _ => 0. } }
fn k2(t: &Tide) -> f64 { match t { Tide::Central(TModel::Ctl { k2, .. }) | Tide::Orbiting(TModel::Ctl { k2, .. }) => *k2, _ => 0. } }

struct Avg { da: f64, de: f64, torque: [f64; 2], power: f64, pscale: f64 }
/// Average of the effects computed by the program over one orbit (coplanar, star first).
fn average(star: &Body, planet: &Body, a: f64, e: f64, n: usize) -> Result<Avg, String> {
    let mu = G * (star.m + planet.m);
    let (mut da, mut dh, mut tq, mut p, mut ps) = (0., 0., [0.; 2], 0., 0.);
    let mut u: Option<Box<ps::Universe>> = None;
    for k in 0..n {
        let ea = TAU * (k as f64 + 0.37) / n as f64;
        let w = (1. - e * ea.cos()) / n as f64;
        let (x, v) = refmath::elements_to_cart(mu, a, e, 0., 0., 0.4, ea - e * ea.sin());
        let mut b = planet.clone(); b.x = x; b.v = v;
        let s = Sys { bodies: vec![star.clone(), b], flags: Flags { tides: true, ..Flags::default() }, t0: 0. };
        let g = guard(|| {
            if let Some(u) = u.as_mut() { let bar = rp::barycentric(&s.bodies); set_state(u, &[bar[0].x, bar[1].x], &[bar[0].v, bar[1].v], &[bar[0].spin, bar[1].spin]); }
            let u = u.get_or_insert_with(|| s.universe(1e12));
            eval_effects(u, 0., ps::IgnoreGravityTerms::None)
        })?;
        let f = sub(g.0[1], g.0[0]);
        da += w * 2. * a * a / mu * dot(f, v);
        dh += w * cross(x, f)[2];
        tq[0] += w * g.1[0][2]; tq[1] += w * g.1[1][2];
        let red = star.m * planet.m / (star.m + planet.m);
        let terms = [red * dot(f, v), dot(g.1[0], star.spin), dot(g.1[1], planet.spin)];
        for t in terms { p += w * t; ps += w * t.abs(); }
    }
    let h = (mu * a * (1. - e * e)).sqrt();
    let de = if e > 0. { (-(h * dh) / (mu * a) + h * h * da / (2. * mu * a * a)) / e } else { 0. };
    Ok(Avg { da, de, torque: tq, power: p, pscale: ps })
}

pub fn c24(ctx: &mut Ctx) {
    // The power of tidal forces and torques is what the bulges store and give back, minus the heat; the planets report their heat.
    // Mostly planets around a star; also arbitrary arrangements in which any body, also a light one, hosts the tides.
    let st = (prop_oneof![
        4 => (gen_sys(Opts { planets: (1, 4), e_max: 0.7, ..Opts::default() }), prop::collection::vec(0.0..1.0f64, 0..3)).prop_map(|(s, ph)| (bound(&s, &ph), s.heaviest())),
        1 => (gen_cloud(2..=5), any::<u8>()).prop_map(|(c, h)| { let h = h as usize % c.sys.bodies.len(); (c, h) })], tide_params());
    ctx.law("reported_heat", 15000, 350000, st, |((c, h), par)| {
        let (mut c, h) = (c.clone(), *h);
        set_tides(&mut c.sys, h, par);
        let mut live = false;
        let heavy = c.sys.heaviest();
        let part = c.sys.bodies.iter().enumerate().filter(|(i, b)| *i != h && b.tide != Tide::Off).count();
        through(&c, 0., &mut |k, s, got, u| {
            let bs = &s.bodies; let hb = &bs[h];
            u.calculate_denergy_dt();
            let (mut want, mut scale) = (0., 0.);
            for i in 0..bs.len() {
                if i == h || bs[i].tide == Tide::Off { continue; }
                let b = &bs[i];
                let (x, v) = (sub(b.x, hb.x), sub(b.v, hb.v));
                let d = norm(x);
                if d == 0. { return Ok(()); } // (reached only while shrinking)
                let hp = heat(b.r, sig(&b.tide), b.spin, hb.m, x, v);
                let hs = heat(hb.r, sig(&hb.tide), hb.spin, b.m, x, v);
                let said = u.particles[i].tides.parameters.internal.denergy_dt;
                let amp = 4.5 * sig(&b.tide) * b.r.powi(10) * hb.m * hb.m / d.powi(8) * (norm(b.spin) * d + norm(v)).powi(2);
                ensure!(within("heat", (said - hp).abs(), 1e-11 * amp * 10. + 1e-290), "state {}: planet {} reports a dissipation of {:e}, {:e} is dissipated", k, i, said, hp);
                ensure!(said >= -1e-11 * amp - 1e-290, "state {}: planet {} reports a negative dissipation {:e}", k, i, said);
                let cons = -3. * G / d.powi(8) * dot(x, v) * (b.m * b.m * hb.r.powi(5) * k2(&hb.tide) + hb.m * hb.m * b.r.powi(5) * k2(&b.tide));
                want += cons - hp - hs;
                let amps = 4.5 * sig(&hb.tide) * hb.r.powi(10) * b.m * b.m / d.powi(8) * (norm(hb.spin) * d + norm(v)).powi(2);
                scale += cons.abs() + 10. * (amp + amps);
                live |= hp > 0.;
            }
            let bb = rp::barycentric(bs);
            let (mut p, mut sc) = (0., 0.);
            for i in 0..bs.len() { p += bs[i].m * dot(got.0[i], bb[i].v) + dot(got.1[i], bs[i].spin); sc += bs[i].m * norm(got.0[i]) * norm(bb[i].v) + norm(got.1[i]) * norm(bs[i].spin); }
            ensure!(within("power", (p - want).abs(), 1e-10 * (scale + sc) + 1e-290), "state {}: forces and torques of the tides change the mechanical energy at {:e}, the bulges and the heat account for {:e}", k, p, want);
            Ok(())
        })?;
        Ok(Out::new(live).class(part > 1, "several planets").class(h != heavy, "a lighter body hosts").class(!c.more.is_empty(), "re-evaluated"))
    });
    // Orbit averages: the closed expressions of Hut (1981)
    let st = (logu(1e-8, 0.3), logu(0.005, 1.), prop_oneof![1 => Just(0.0), 6 => 0.0..0.6f64], logu(1e-4, 1e-2), prop_oneof![Just(0.0), -3.0..8.0f64], prop_oneof![4 => -2.0..8.0f64, 1 => Just(1.0)], prop::bool::weighted(0.5), 0.0..1.0f64, 0.1..0.5f64);
    ctx.law("orbit_average", 20000, 300000, st, |(m, a, e, rf, wo, w, star_deforms, kk, rg)| {
        let mu = G * (1. + m); let n = (mu / a.powi(3)).sqrt();
        let r = rf * a;
        let mk = |deform: bool, b: &mut Body, central: bool| {
            let sigma = if deform { 1e-3 * G / r.powi(5) / n } else { 0. };
            b.r = r; b.rg = *rg;
            b.spin = [0., 0., if deform { w * n } else { wo * n }];
            let t = TModel::Ctl { k2: if deform { *kk } else { 0. }, sigma, scale: 1. };
            b.tide = if central { Tide::Central(t) } else { Tide::Orbiting(t) };
        };
        let mut star = Body::plain(1., 1e-3, [0.; 3], [0.; 3]); let mut p = Body::plain(*m, 1e-4, [0.; 3], [0.; 3]);
        mk(*star_deforms, &mut star, true); mk(!*star_deforms, &mut p, false);
        let g = average(&star, &p, *a, *e, 160)?;
        let (md, mc) = if *star_deforms { (1., *m) } else { (*m, 1.) };
        let e2 = e * e;
        let f1 = 1. + 15.5 * e2 + 255. / 8. * e2 * e2 + 185. / 16. * e2.powi(3) + 25. / 64. * e2.powi(4);
        let f2 = 1. + 7.5 * e2 + 45. / 8. * e2 * e2 + 5. / 16. * e2.powi(3);
        let f3 = 1. + 3.75 * e2 + 15. / 8. * e2 * e2 + 5. / 64. * e2.powi(3);
        let f4 = 1. + 1.5 * e2 + e2 * e2 / 8.;
        let f5 = 1. + 3. * e2 + 3. / 8. * e2 * e2;
        let kt = 1.5 * 1e-3 / n; // k2 tau = 3 R^5 sigma / (2 G)
        let q = mc / md; let k_t = kt * G * md / r.powi(3);
        let s = 1. - e2;
        let da = -6. * k_t * q * (1. + q) * rf.powi(8) * a / s.powf(7.5) * (f1 - s.powf(1.5) * f2 * w);
        let de = -27. * k_t * q * (1. + q) * rf.powi(8) * e / s.powf(6.5) * (f3 - 11. / 18. * s.powf(1.5) * f4 * w);
        let inertia = md * rg * rg * r * r;
        let tq = 3. * k_t * q * q / (rg * rg) * rf.powi(6) * n / s.powi(6) * (f2 - s.powf(1.5) * f5 * w) * inertia;
        let sa = 6. * k_t * q * (1. + q) * rf.powi(8) * a / s.powf(7.5) * (f1 + f2 * w.abs());
        let st = 3. * k_t * q * q / (rg * rg) * rf.powi(6) * n / s.powi(6) * (f2 + f5 * w.abs()) * inertia;
        let cons = 6. * kk * G * mc / md * md * rf.powi(5) / (a * a) * (a / mu) * (mu / a).sqrt() * (1. + q); // what averages out
        ensure!(within("semi-major axis", (g.da - da).abs(), 1e-8 * sa + 1e-9 * cons.abs() * e), "average da/dt {:e} instead of {:e}", g.da, da);
        ensure!(*e < 1e-3 || within("eccentricity", (g.de - de).abs(), (1e-8 * sa + 1e-9 * cons.abs() * e) / a / e), "average de/dt {:e} instead of {:e}", g.de, de);
        ensure!(within("torque", (g.torque[if *star_deforms { 0 } else { 1 }] - tq).abs(), 1e-8 * st), "average torque {:e} instead of {:e}", g.torque[if *star_deforms { 0 } else { 1 }], tq);
        ensure!(g.torque[if *star_deforms { 1 } else { 0 }] == 0., "a rigid body feels a torque");
        ensure!(g.power <= 1e-9 * (g.pscale + G * m / (2. * a * a) * sa), "the pair gains energy: {:e}", g.power);
        Ok(Out::new(true).class(*star_deforms, "tide on the star").class(!*star_deforms, "tide on the planet").class(*e == 0., "circular").class(da > 0., "moves out").class(da < 0., "moves in").class(*w < 0., "retrograde spin"))
    });
    // The other two models dissipate as well, and slow down fast rotators
    let st = (logu(1e-8, 1e-2), logu(0.01, 1.), 0.0..0.2f64, logu(1e-5, 1e-3), 0.1..6.0f64, logu(0.02, 50.), any::<bool>(), 0.02..1.0f64, 0.02..1.0f64);
    ctx.law("other_models", 8000, 100000, st, |(m, a, e, r, w, g, creep, i0, i1)| {
        let n = (G * (1. + m) / a.powi(3)).sqrt();
        let mut star = Body::plain(1., 1e-9, [0.; 3], [0.; 3]); let mut p = Body::plain(*m, *r, [0.; 3], [0.; 3]);
        // the series is for rotators faster than pseudo-synchronous; slower ones are taken in their final state
        let w = if *creep { w.max(1.02 + 7. * e * e) } else { *w };
        p.spin = [0., 0., w * n];
        if *creep {
            let eta = 3. * G * m * m / (8. * std::f64::consts::PI * r.powi(4) * g * n);
            star.tide = Tide::Central(TModel::Creep { eta: 0. }); star.flat = Flat::Central(FModel::Creep { eta: 0. });
            p.tide = Tide::Orbiting(TModel::Creep { eta }); p.flat = Flat::Orbiting(FModel::Creep { eta });
        } else {
            let f = n / DAY;
            star.tide = Tide::Central(TModel::Ctl { k2: 0., sigma: 0., scale: 1. });
            p.tide = Tide::Orbiting(TModel::Kaula { freq: vec![1e-6 * f, 0.3 * f, 30. * f], re: vec![0.9, 0.6, 0.3], im: vec![1e-6, *i0, *i1] });
        }
        let v = average(&star, &p, *a, *e, 96)?;
        ensure!(within("power", v.power, 0.02 * v.pscale), "{}: the pair gains energy at {:e} (terms of {:e})", if *creep { "creep" } else { "frequency dependent" }, v.power, v.pscale);
        if w > 1.5 + 8. * e { ensure!(v.torque[1] < 0., "{}: a planet that turns {} times an orbit is spun up ({:e})", if *creep { "creep" } else { "frequency dependent" }, w, v.torque[1]); ensure!(v.da > 0. || *e > 0.05, "fast rotator, circular orbit: it must move out, da/dt {:e}", v.da); }
        if w < 0.7 && !*creep { ensure!(v.torque[1] > 0., "a planet that turns {} times an orbit is slowed down ({:e})", w, v.torque[1]); }
        Ok(Out::new(w != 1.).class(*creep, "creep").class(!*creep, "frequency dependent").class(w > 1.5 + 8. * e, "fast rotator"))
    });
    // Along runs: energy lost = heat reported + heat in the star; total angular momentum stays
    let st = (logu(1e-4, 0.1), logu(0.01, 0.2), 0.0..0.5f64, 0.0..2.0f64, (unit3(), unit3()), (0.2..4.0f64, 0.2..4.0f64), (prop_oneof![Just(0.), logu(1e-3, 3e-2)], prop_oneof![Just(0.), logu(1e-3, 3e-2)]), 0.0..1.0f64, prop::sample::select(vec![Integ::Jacobi, Integ::Dem, Integ::Whds, Integ::Leap]), 2usize..8);
    ctx.law("energy_budget", 600, 8000, st, |(m, a, e, inc, (d0, d1), (w0, w1), (s0, s1), kk, integ, orbits)| {
        if *s0 == 0. && *s1 == 0. { return Ok(Out::new(false)); }
        let mu = G * (1. + m); let n = (mu / a.powi(3)).sqrt();
        let (x, v) = refmath::elements_to_cart(mu, *a, *e, *inc, 0.5, 0.4, 2.);
        let (rs, rpl) = (0.02 * a, 0.02 * a * m.cbrt());
        let mk = |b: &mut Body, s: f64, d: V, w: f64, mo: f64, central: bool| {
            let r = b.r; b.rg = 0.3; b.spin = mul(d, w * n);
            // heat per orbit about s times the rotational energy
            let sigma = s * (1. - e * e).powi(8) * 0.5 * rp::inertia(b) * (w * n).powi(2) / (1. + w * w) * n / TAU / (4.5 * r.powi(10) * mo * mo / a.powi(8) * (n * a).powi(2));
            let t = TModel::Ctl { k2: *kk * 0.1, sigma, scale: 1. };
            b.tide = if central { Tide::Central(t) } else { Tide::Orbiting(t) };
        };
        let mut star = Body::plain(1., rs, [0.; 3], [0.; 3]); let mut p = Body::plain(*m, rpl, x, v);
        mk(&mut star, *s0, *d0, *w0, *m, true); mk(&mut p, *s1, *d1, *w1, 1., false);
        // a star far from rigid would change its spin within an orbit
        let s = Sys { bodies: vec![star.clone(), p.clone()], flags: Flags { tides: true, ..Flags::default() }, t0: 0. };
        let per = 400;
        let dt = TAU / n / per as f64;
        let mut sim = guard(|| Sim::new(&s, *integ, dt, 1e9, 1e-9 * dt, 1e30))?;
        let mut w = null_writer();
        let energy = |st: &State| -> (f64, V) {
            let xx = sub(st.x[1], st.x[0]); let d = norm(xx);
            let mut en = -G * m / d - 0.5 * G / d.powi(6) * (m * m * rs.powi(5) * kk * 0.1 + rpl.powi(5) * kk * 0.1);
            let mut l = [0.; 3];
            for (i, mm) in [1., *m].iter().enumerate() { en += 0.5 * mm * dot(st.v[i], st.v[i]) + 0.5 * dot(st.l[i], st.l[i]) / st.inertia[i]; l = add(l, add(mul(cross(st.x[i], st.v[i]), *mm), st.l[i])); }
            (en, l)
        };
        let (e0, l0) = energy(&sim.state());
        let (mut heat_p, mut heat_s, mut said, mut turned) = (0., 0., 0., 0f64);
        let l_start = sim.state().l;
        for _ in 0..per * orbits {
            let b = sim.state();
            let (xx, vv) = (sub(b.x[1], b.x[0]), sub(b.v[1], b.v[0]));
            let wk = dt;
            heat_p += wk * heat(rpl, sig(&p.tide), mul(b.l[1], 1. / b.inertia[1]), 1., xx, vv);
            heat_s += wk * heat(rs, sig(&star.tide), mul(b.l[0], 1. / b.inertia[0]), *m, xx, vv);
            sim.step(&mut w)?;
            said += wk * sim.u().particles[1].tides.parameters.internal.denergy_dt;
        }
        let st = sim.state();
        for i in 0..2 { turned = turned.max(norm(sub(st.l[i], l_start[i])) / norm(l_start[i])); }
        if turned > 0.5 { return Ok(Out::new(false).class(true, "spin changed too fast")); }
        let (e1, l1) = energy(&st);
        let eo = G * m / (2. * a);
        let total = heat_p + heat_s;
        let sym = if *integ == Integ::Dem { 1e-5 * m * eo } else { 0. }; // symplectic energy error
        ensure!(within("reported", (said - heat_p).abs(), 0.03 * heat_p), "the planet reports {:e} dissipated along the run, the model gives {:e}", said, heat_p);
        ensure!(*integ == Integ::Leap || within("budget", (e1 - e0 + total).abs(), 0.03 * total + 1e-11 * eo + sym), "energy changed by {:e}, heat produced {:e} (orbital energy {:e}, {:?})", e1 - e0, total, eo, integ);
        ensure!(within("angular momentum", norm(sub(l1, l0)), 1e-9 * norm(l0) + 1e-3 * total / n), "total angular momentum changed from {:?} to {:?}", l0, l1);
        Ok(Out::new(total > 1e-9 * eo).class(*s0 > 0., "heat in the star").class(*s1 > 0., "heat in the planet").class(*integ == Integ::Leap, "leap-frog"))
    });
}
