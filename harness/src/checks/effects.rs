//! C13 tides, C14 action-reaction, C15 flattening, C16 relativity, C17 wind, C18 disk, C23 independence.
use crate::engine::*;
use crate::ensure;
use crate::refmath;
use crate::refphys as rp;
use crate::refphys::{Eff, Kidder};
use crate::sys::*;
use posidonius as ps;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pt { pub x: V, pub v: V, pub spin: V }
/// A set of bodies in arbitrary (not necessarily bound) motion and the states the same bodies take next.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cloud { pub sys: Sys, pub more: Vec<Vec<Pt>> }
fn spin() -> impl Strategy<Value = V> + Clone {
    prop_oneof![8 => (unit3(), logu(1e-3, 20.)).prop_map(|(d, w)| mul(d, w)), 1 => Just([0.; 3]), 1 => logu(1e-2, 10.).prop_map(|w| [0., 0., w]), 1 => logu(1e-2, 10.).prop_map(|w| [0., 0., -w])]
}
fn pt() -> impl Strategy<Value = Pt> + Clone {
    (unit3(), logu(0.01, 5.), unit3(), logu(1e-4, 0.1), spin()).prop_map(|(a, d, b, w, spin)| Pt { x: mul(a, d), v: mul(b, w), spin })
}
pub fn zeroish(s: impl Strategy<Value = f64> + Clone) -> impl Strategy<Value = f64> + Clone { prop_oneof![6 => s, 1 => Just(0.)] }
pub fn gen_cloud(n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Cloud> {
    let body = (pt(), logu(1e-9, 2.), logu(1e-6, 5e-3), 0.2..0.6f64);
    let many = if *n.end() >= 6 { 7..=10 } else { n.clone() };
    (prop_oneof![7 => prop::collection::vec(body.clone(), n), 1 => prop::collection::vec(body, many)], prop::collection::vec(prop::collection::vec(pt(), 10), 0..3)).prop_map(|(bs, mut more)| {
        let bodies: Vec<Body> = bs.into_iter().map(|(p, m, r, rg)| { let mut b = Body::plain(m, r, p.x, p.v); b.rg = rg; b.spin = p.spin; b }).collect();
        for m in more.iter_mut() { m.truncate(bodies.len()); }
        Cloud { sys: Sys { bodies, flags: Flags::default(), t0: 0. }, more }
    })
}
/// The universe built from the cloud, then moved through the states; `f` judges each evaluation.
pub fn through(c: &Cloud, t: f64, f: &mut dyn FnMut(usize, &Sys, &(Vec<V>, Vec<V>), &mut ps::Universe) -> Result<(), String>) -> Result<(), String> {
    let mut u = guard(|| c.sys.universe(1e12))?;
    let mut s = c.sys.clone();
    for k in 0..=c.more.len() {
        if k > 0 {
            for (b, p) in s.bodies.iter_mut().zip(&c.more[k - 1]) { b.x = p.x; b.v = p.v; b.spin = p.spin; }
            let bar = rp::barycentric(&s.bodies);
            guard(|| set_state(&mut u, &bar.iter().map(|b| b.x).collect::<Vec<_>>(), &bar.iter().map(|b| b.v).collect::<Vec<_>>(), &bar.iter().map(|b| b.spin).collect::<Vec<_>>()))?;
        }
        let got = guard(|| eval_effects(&mut u, t, ps::IgnoreGravityTerms::None))?;
        f(k, &s, &got, &mut u)?;
    }
    Ok(())
}
pub fn compare(what: &str, got: &(Vec<V>, Vec<V>), want: &Eff, rel: f64) -> Result<(), String> {
    for i in 0..want.acc.len() {
        let e = norm(sub(got.0[i], want.acc[i]));
        ensure!(finite(got.0[i]) && within("acceleration", e, rel * want.sa[i] + 1e-290), "{}: acceleration of body {} is {:?}, the model gives {:?} (scale {:e})", what, i, got.0[i], want.acc[i], want.sa[i]);
        let e = norm(sub(got.1[i], want.dl[i]));
        ensure!(finite(got.1[i]) && within("torque", e, rel * want.sl[i] + 1e-290), "{}: spin torque on body {} is {:?}, the model gives {:?} (scale {:e})", what, i, got.1[i], want.dl[i], want.sl[i]);
    }
    Ok(())
}
const REL: f64 = 1e-11;

pub fn tide_params() -> impl Strategy<Value = Vec<(f64, f64, f64, bool)>> + Clone {
    prop::collection::vec((zeroish(0.01..1.5f64), zeroish(logu(1e-5, 1e3)), prop_oneof![Just(1.0), logu(1e-3, 1e3), Just(0.)], prop::bool::weighted(0.8)), 10)
}
pub fn set_tides(s: &mut Sys, host: usize, par: &[(f64, f64, f64, bool)]) {
    s.flags.tides = true;
    for (i, b) in s.bodies.iter_mut().enumerate() {
        let (k2, q, scale, on) = par[i % par.len()];
        let sigma = q * 10. * G / b.r.powi(5);
        b.tide = if i == host { Tide::Central(TModel::Ctl { k2, sigma, scale }) } else if on { Tide::Orbiting(TModel::Ctl { k2, sigma, scale }) } else { Tide::Off };
    }
}
pub fn flat_params() -> impl Strategy<Value = Vec<(f64, bool)>> + Clone { prop::collection::vec((zeroish(0.01..1.5f64), prop::bool::weighted(0.8)), 10) }
pub fn set_flat(s: &mut Sys, host: usize, par: &[(f64, bool)]) {
    s.flags.flat = true;
    for (i, b) in s.bodies.iter_mut().enumerate() {
        let (k2f, on) = par[i % par.len()];
        b.flat = if i == host { Flat::Central(FModel::Oblate { k2f }) } else if on { Flat::Orbiting(FModel::Oblate { k2f }) } else { Flat::Off };
    }
}
/// Bound systems at several orbital phases, the effects attached (heaviest body central).
pub fn bound(c: &Sys, phases: &[f64]) -> Cloud {
    let h = c.heaviest();
    let p = c.min_period();
    let more = phases.iter().map(|f| c.bodies.iter().enumerate().map(|(i, b)| {
        if i == h { return Pt { x: b.x, v: b.v, spin: mul(b.spin, 1. + 0.3 * f) }; }
        let (x, v) = refmath::kepler_propagate(G * (b.m + c.bodies[h].m), sub(b.x, c.bodies[h].x), sub(b.v, c.bodies[h].v), f * 3. * p);
        Pt { x: add(x, c.bodies[h].x), v: add(v, c.bodies[h].v), spin: mul(b.spin, 1. - 0.4 * f) }
    }).collect()).collect();
    Cloud { sys: c.clone(), more }
}

pub fn c13(ctx: &mut Ctx) {
    ctx.law("closed_form", 16000, 400000, (gen_cloud(2..=6), tide_params(), any::<u8>(), any::<bool>()), |(c, par, h, massive)| {
        let mut c = c.clone();
        let host = if *massive { c.sys.heaviest() } else { *h as usize % c.sys.bodies.len() };
        set_tides(&mut c.sys, host, par);
        let n_part = c.sys.bodies.iter().filter(|b| matches!(b.tide, Tide::Orbiting(_))).count();
        through(&c, 0., &mut |k, s, got, _| compare(&format!("tides, state {}", k), got, &rp::tides(&s.bodies, &|_, _| None), REL))?;
        Ok(Out::new(n_part > 0).class(host != 0, "host not first").class(!*massive && host != c.sys.heaviest(), "host not the heaviest").class(n_part > 1, "several planets").class(n_part + 1 < c.sys.bodies.len(), "bodies without tides").class(!c.more.is_empty(), "re-evaluated"))
    });
    // Frequency-dependent (dynamical tide) dissipation of evolving hosts, entering and leaving the excited regime.
    let strat = (gen_sys(Opts { planets: (1, 4), e_max: 0.6, a0: (0.02, 0.2), ..Opts::default() }), tide_params(), prop::collection::vec((0.0..1.0f64, logu(0.05, 20.)), 1..5), 0usize..3, 0.0..1.0f64, prop::bool::weighted(0.2));
    ctx.law("dynamical_tide", 6000, 120000, strat, |(s0, par, seq, model, tf, planet_evolves)| {
        let mut s = s0.clone();
        let h = s.heaviest();
        set_tides(&mut s, h, par);
        s.flags.evo = true;
        let evs = [Evo::BolmontMathis2016(1.0), Evo::GalletBolmont2017(1.0), Evo::LeconteChabrier2013(true)];
        // the evolving body: the host, or (LeconteChabrier) an orbiting one
        let first = (0..s.bodies.len()).find(|&i| i != h).unwrap();
        let (who, ev) = if *planet_evolves { (first, evs[2]) } else { (h, evs[*model]) };
        if *planet_evolves { let (k2, q, sc, _) = par[0]; s.bodies[who].tide = Tide::Orbiting(TModel::Ctl { k2, sigma: q * 10. * G / s.bodies[who].r.powi(5), scale: sc }); }
        s.bodies[who].evo = ev;
        if matches!(ev, Evo::GalletBolmont2017(_)) { s.t0 = 1e-20; } // that table cannot start at age zero
        let t = tf * 0.5 * 365.25;
        let mut u = guard(|| s.universe(1e4))?;
        let (mut exc, mut not) = (0, 0);
        for (ph, w) in seq {
            let c = bound(&s, &[*ph]);
            let mut st = s.clone();
            for (b, p) in st.bodies.iter_mut().zip(&c.more[0]) { b.x = p.x; b.v = p.v; }
            let bar = rp::barycentric(&st.bodies);
            set_state(&mut u, &bar.iter().map(|b| b.x).collect::<Vec<_>>(), &bar.iter().map(|b| b.v).collect::<Vec<_>>(), &bar.iter().map(|b| b.spin).collect::<Vec<_>>());
            // put the evolving body at a chosen rotation rate (its moment of inertia depends on time)
            guard(|| u.calculate_spin_and_evolving_quantities(t, true))?;
            let dir = { let b = &s.bodies[who].spin; mul(*b, 1. / norm(*b)) };
            let n0 = refmath::TAU / s.min_period();
            let spin = mul(dir, w * n0);
            { let p = &mut u.particles[who]; p.angular_momentum = ax(mul(spin, p.moment_of_inertia)); }
            let got = guard(|| eval_effects(&mut u, t, ps::IgnoreGravityTerms::None))?;
            // radius, Love number and 1/Q from the synthetic table
            let e = table(ev, t);
            let b = &mut st.bodies[who];
            b.spin = spin; b.r = e.radius.unwrap_or(b.r);
            if let Some(k) = e.love { if let Tide::Central(TModel::Ctl { k2, .. }) | Tide::Orbiting(TModel::Ctl { k2, .. }) = &mut b.tide { *k2 = k; } }
            let lag = 3. * dot(spin, spin) / (G / R_SUN.powi(3)) * e.inv_q.unwrap() / 4.;
            let rr = b.r;
            let (sig, scale) = if let Tide::Central(TModel::Ctl { sigma, scale, .. }) | Tide::Orbiting(TModel::Ctl { sigma, scale, .. }) = &b.tide { (*sigma, *scale) } else { (0., 0.) };
            let stb = st.bodies.clone();
            let wn = norm(spin);
            let excited = |i: usize, j: usize| -> Option<f64> {
                if i != who { return None; }
                let (hb, pb) = (&stb[h], &stb[if i == h { j } else { i }]);
                let mu = G * (hb.m + pb.m);
                let (r, v) = (sub(pb.x, hb.x), sub(pb.v, hb.v));
                let a = 1. / (2. / norm(r) - dot(v, v) / mu);
                let half = (wn - (mu / a.powi(3)).sqrt()).abs();
                if half < wn { Some(scale * (2. * G / (3. * rr.powi(5)) * lag / half.max(1e-5 * 86400.) + sig)) } else { None }
            };
            // skip states on the very edge of the regime
            let edge = (0..stb.len()).any(|j| { if j == h { return false; } let (hb, pb) = (&stb[h], &stb[j]); let mu = G * (hb.m + pb.m); let (r, v) = (sub(pb.x, hb.x), sub(pb.v, hb.v)); let n = (mu * (2. / norm(r) - dot(v, v) / mu).powi(3)).sqrt(); ((wn - n).abs() - wn).abs() < 1e-6 * wn || (wn - n).abs() < 1e-4 * wn });
            if edge { continue; }
            for j in 0..stb.len() { if matches!(stb[j].tide, Tide::Orbiting(_)) { let x = if who == h { excited(h, j) } else { excited(who, h) }; if x.is_some() { exc += 1 } else { not += 1 } } }
            compare("dynamical tide", &got, &rp::tides(&stb, &excited), 1e-9)?;
        }
        Ok(Out::new(exc + not > 0).class(exc > 0 && not > 0, "both regimes").class(exc > 0, "excited").class(*planet_evolves, "evolving orbiting body"))
    });
}
#[derive(Default, Debug, Clone)]
pub struct Row { pub radius: Option<f64>, pub rg2: Option<f64>, pub love: Option<f64>, pub inv_q: Option<f64> }
/// The default synthetic table of a model, linearly interpolated at time t (days).
pub fn table(e: Evo, t: f64) -> Row {
    let rows: Vec<[f64; 5]> = (0..82).map(default_row).collect();
    let lin = |f: &dyn Fn(&[f64; 5]) -> f64| -> f64 {
        let time = |r: &[f64; 5]| r[0] * 365.25;
        if t <= time(&rows[0]) { return f(&rows[0]); }
        for k in 1..rows.len() { if t <= time(&rows[k]) { let (a, b) = (time(&rows[k - 1]), time(&rows[k])); let w = (t - a) / (b - a); return f(&rows[k - 1]) * (1. - w) + f(&rows[k]) * w; } }
        f(&rows[rows.len() - 1])
    };
    let radius = Some(lin(&|r| r[1]) * R_SUN);
    let inv_q = Some(lin(&|r| 10f64.powf(-r[4])));
    match e {
        Evo::No => Row::default(),
        Evo::Baraffe2015(_) => Row { radius, rg2: Some(lin(&|r| r[2])), ..Row::default() },
        Evo::Baraffe1998(_) => Row { radius, ..Row::default() },
        Evo::Leconte2011(_) => Row { radius, rg2: Some(lin(&|r| r[2] + 0.001 * 11.)), ..Row::default() },
        Evo::BolmontMathis2016(_) => Row { radius, inv_q, ..Row::default() },
        Evo::GalletBolmont2017(_) => Row { radius, inv_q, ..Row::default() },
        Evo::LeconteChabrier2013(d) => Row { radius, rg2: Some(lin(&|r| r[2])), love: Some(lin(&|r| r[3])), inv_q: if d { inv_q } else { None } },
    }
}

pub fn c15(ctx: &mut Ctx) {
    ctx.law("closed_form", 16000, 400000, (gen_cloud(2..=6), flat_params(), any::<u8>(), any::<bool>(), any::<bool>()), |(c, par, h, massive, also_tides)| {
        let mut c = c.clone();
        let host = if *massive { c.sys.heaviest() } else { *h as usize % c.sys.bodies.len() };
        set_flat(&mut c.sys, host, par);
        if *also_tides { // tides assigned but switched off do not matter
            set_tides(&mut c.sys, host, &[(0.3, 1., 1., true)]); c.sys.flags.tides = false;
        }
        let n_part = c.sys.bodies.iter().filter(|b| matches!(b.flat, Flat::Orbiting(_))).count();
        through(&c, 0., &mut |k, s, got, _| compare(&format!("flattening, state {}", k), got, &rp::flattening(&s.bodies), REL))?;
        Ok(Out::new(n_part > 0).class(host != 0, "host not first").class(n_part > 1, "several planets").class(n_part + 1 < c.sys.bodies.len(), "bodies without flattening").class(c.sys.bodies.iter().any(|b| norm(b.spin) == 0.), "a body without spin").class(!c.more.is_empty(), "re-evaluated"))
    });
    // A particle orbiting a flattened star at low obliquity: node and pericentre precess at the J2 rate.
    let strat = (0.02..0.2f64, 0.01..0.3f64, 0.05..0.6f64, 0.0..1.0f64, prop::sample::select(vec![Integ::Jacobi, Integ::Whds, Integ::Dem, Integ::Ias, Integ::Leap]));
    ctx.law("secular_precession", 160, 2000, strat, |(a, e, i, ph, integ)| {
        let m = 1.0; let mu = G * m;
        let r = 0.15 * a; // star radius
        let j2 = 3e-3;
        let w2 = j2 * 3. * G * m / (r.powi(3)); // k2f = 1
        let mut star = Body::plain(m, r, [0.; 3], [0.; 3]);
        star.spin = [0., 0., w2.sqrt()]; star.flat = Flat::Central(FModel::Oblate { k2f: 1. });
        let (x, v) = refmath::elements_to_cart(mu, *a, *e, *i, 1.0, 0.7, refmath::TAU * ph);
        let mut p = Body::plain(1e-12, 1e-7, x, v); p.flat = Flat::Orbiting(FModel::Oblate { k2f: 0. });
        let s = Sys { bodies: vec![star, p], flags: Flags { flat: true, ..Flags::default() }, t0: 0. };
        let period = refmath::TAU * (a.powi(3) / mu).sqrt();
        let orbits = 6.;
        let per = if *integ == Integ::Leap { 4000 } else { 400 };
        let end = run_to(&s, *integ, period / per as f64, (orbits * per as f64) as usize)?;
        let rel = |st: &State| (sub(st.x[1], st.x[0]), sub(st.v[1], st.v[0]));
        let (x1, v1) = rel(&end);
        let node = |x: V, v: V| { let l = cross(x, v); (l[0]).atan2(-l[1]) };
        let got = (node(x1, v1) - node(x, v) + 3. * std::f64::consts::PI).rem_euclid(refmath::TAU) - std::f64::consts::PI;
        let n = refmath::TAU / period;
        let want = -1.5 * n * j2 * (r / (a * (1. - e * e))).powi(2) * i.cos() * end.t;
        // osculating elements oscillate by O(J2 (R/p)^2) around the secular drift
        let tol = 0.05 * want.abs() + 3. * j2 * (r / (a * (1. - e * e))).powi(2);
        ensure!(within("node", (got - want).abs(), tol), "node moved by {:e} rad in {} orbits, J2 theory gives {:e} (tolerance {:e})", got, orbits, want, tol);
        Ok(Out::new(true))
    });
}

/// A general-relativity configuration on a bound system.
fn gr_sys(s: &Sys, imp: u8, on: &[bool]) -> Sys {
    let mut s = s.clone();
    let h = s.heaviest();
    s.flags.gr = true;
    for (i, b) in s.bodies.iter_mut().enumerate() { b.gr = if i == h { Gr::Central([GrImpl::Kidder, GrImpl::Anderson, GrImpl::Newhall][imp as usize % 3]) } else if on[i % on.len()] { Gr::Orbiting } else { Gr::Off }; }
    s
}
pub fn c16(ctx: &mut Ctx) {
    let strat = (prop_oneof![5 => gen_sys(Opts { planets: (1, 5), e_max: 0.7, i_max: 1.5, m_max: 3e-2, a0: (0.005, 1.), ratio: (1.7, 3.0), ..Opts::default() }), 1 => gen_sys(Opts { planets: (6, 9), e_max: 0.4, i_max: 1.5, m_max: 3e-2, a0: (0.005, 0.05), ratio: (1.5, 2.2), ..Opts::default() }), 1 => gen_sys(Opts { planets: (1, 2), e_max: 0.7, i_max: 1.5, m_max: 0.9, a0: (0.005, 1.), ratio: (1.7, 3.0), ..Opts::default() })], 0u8..3, prop::collection::vec(prop::bool::weighted(0.8), 10), prop::collection::vec(0.0..1.0f64, 0..3));
    ctx.law("closed_form", 12000, 300000, strat, |(s, imp, on, ph)| {
        let s = gr_sys(s, *imp, on);
        let c = bound(&s, ph);
        let n_part = s.bodies.iter().filter(|b| b.gr == Gr::Orbiting).count();
        let mut skip = false;
        let r = through(&c, 0., &mut |k, s, got, _| {
            // either the published equations, or the recorded deviation of the Kidder formulation (known finding)
            let a = compare(&format!("relativity {:?}, state {}", rp::gr_host(&s.bodies).unwrap().1, k), got, &rp::gr(&s.bodies, Kidder::AsRecorded), 1e-10);
            if a.is_err() && compare("", got, &rp::gr(&s.bodies, Kidder::Published), 1e-10).is_ok() { return Ok(()); }
            a
        });
        if let Err(m) = r { if m.contains("PANIC") || m.contains("collision") || m.contains("disrupt") { skip = true; } else { return Err(m); } }
        Ok(Out::new(n_part > 0 && !skip).class(skip, "close encounter").class(*imp == 0, "Kidder").class(*imp == 1, "Anderson").class(*imp == 2, "Newhall").class(n_part > 1, "several planets").class(n_part + 1 < s.bodies.len(), "bodies without relativity"))
    });
    // WHFast leaves out star-planet gravity; the correction must not depend on which terms were left out.
    let strat = (prop_oneof![5 => gen_sys(Opts { planets: (1, 5), e_max: 0.5, m_max: 1e-2, a0: (0.02, 1.), ratio: (1.7, 3.0), ..Opts::default() }), 1 => gen_sys(Opts { planets: (6, 9), e_max: 0.4, m_max: 1e-2, a0: (0.02, 0.05), ratio: (1.5, 2.2), ..Opts::default() })], 0u8..3, prop::collection::vec(prop::bool::weighted(0.8), 10), any::<bool>());
    ctx.law("independent_of_ignored_terms", 4000, 100000, strat, |(s, imp, on, two)| {
        let s = gr_sys(s, *imp, on);
        let full = effects_opt(&s, 0., ps::IgnoreGravityTerms::None);
        let part = effects_opt(&s, 0., if *two { ps::IgnoreGravityTerms::WHFastTwo } else { ps::IgnoreGravityTerms::WHFastOne });
        let (full, part) = match (full, part) { (Ok(a), Ok(b)) => (a, b), (Err(m), _) | (_, Err(m)) => if m.contains("PANIC") || m.contains("ollision") || m.contains("disrupt") { return Ok(Out::new(false)) } else { return Err(m) } };
        let mut want = rp::gr(&s.bodies, Kidder::AsRecorded);
        want.acc = full.0; want.dl = full.1;
        compare("corrections with gravity terms left out", &part, &want, 1e-10)?;
        Ok(Out::new(s.bodies.len() > 2))
    });
    // Light planet: all formulations give the Schwarzschild pericentre advance, with every integrator.
    let strat = (0.1..1.0f64, 0.1..0.6f64, angle(), 0.0..1.5f64, 0u8..3, integ(), any::<bool>());
    ctx.law("pericentre_advance", 240, 3000, strat, |(a, e, w, inc, imp, integ, first)| {
        let mu = G;
        // a small orbit advances by 6 pi GM / (c^2 p) per revolution
        let (x, v) = refmath::elements_to_cart(mu, *a, *e, *inc, 0.4, *w, 0.5);
        let mut star = Body::plain(1., 1e-5, [0.; 3], [0.; 3]); star.spin = [0., 0., 1e-6]; star.gr = Gr::Central([GrImpl::Kidder, GrImpl::Anderson, GrImpl::Newhall][*imp as usize]);
        let mut p = Body::plain(1e-11, 1e-8, x, v); p.gr = Gr::Orbiting; p.spin = [0., 0., 1e-6];
        let s = Sys { bodies: if *first { vec![star, p] } else { vec![p, star] }, flags: Flags { gr: true, ..Flags::default() }, t0: 0. };
        let hi = if *first { 0 } else { 1 };
        let period = refmath::TAU * (a.powi(3) / mu).sqrt();
        let per = match integ { Integ::Leap => 12000, _ => 600 };
        let orbits = 3usize;
        // same run without relativity removes the integrator's own precession
        let run = |gr: bool| -> Result<(V, V, f64), String> { let mut q = s.clone(); q.flags.gr = gr; let st = run_to(&q, *integ, period / per as f64, per * orbits)?; Ok((sub(st.x[1 - hi], st.x[hi]), sub(st.v[1 - hi], st.v[hi]), st.t)) };
        let (g, n) = (run(true)?, run(false)?);
        let lrl = |x: V, v: V| { let l = cross(x, v); sub(mul(cross(v, l), 1. / mu), mul(x, 1. / norm(x))) };
        // state at the end of a whole number of periods; osculating vector of the two runs compared with the averaged theory
        let (eg, en) = (lrl(g.0, g.1), lrl(n.0, n.1));
        let l = { let l = cross(n.0, n.1); mul(l, 1. / norm(l)) };
        let got = dot(cross(en, eg), l).atan2(dot(en, eg));
        if *integ == Integ::Ias {
            // adaptive steps do not end on a whole number of periods: compare with the independently integrated model at that time
            let ang = |k: Kidder| { let q = rp::evolve(&s, g.2, orbits * 40, k); let z = lrl(sub(q.bodies[1 - hi].x, q.bodies[hi].x), sub(q.bodies[1 - hi].v, q.bodies[hi].v)); let e0 = lrl(x, v); dot(cross(e0, z), l).atan2(dot(e0, z)) };
            let e0 = lrl(x, v);
            let got = dot(cross(e0, eg), l).atan2(dot(e0, eg));
            let (w1, w2) = (ang(Kidder::AsRecorded), ang(Kidder::Published));
            let err = (got - w1).abs().min((got - w2).abs());
            ensure!(within("advance ias15", err, 0.01 * w2.abs() + 1e-9), "{:?} with {:?}: osculating pericentre turned {:e} rad in {} days, the model gives {:e}", [GrImpl::Kidder, GrImpl::Anderson, GrImpl::Newhall][*imp as usize], integ, got, g.2, w2);
            return Ok(Out::new(true).class(true, "IAS15"));
        }
        let want = 3. * refmath::TAU * mu / (C * C * a * (1. - e * e)) * orbits as f64;
        // (the Kidder form carries the recorded second-order terms, see known finding kidder-higher-order)
        let tol = (0.04 + if *imp == 0 { 0.008 / (a * (1. - e * e)) } else { 0. }) * want + 3e-11;
        ensure!(within("advance", (got - want).abs(), tol), "{:?} with {:?}: pericentre advanced {:e} rad in {} orbits, general relativity gives {:e}", [GrImpl::Kidder, GrImpl::Anderson, GrImpl::Newhall][*imp as usize], integ, got, orbits, want);
        Ok(Out::new(true).class(*imp == 0, "Kidder").class(*imp == 1, "Anderson").class(*imp == 2, "Newhall"))
    });
    ctx.known("kidder-higher-order", || {
        let (x, v) = refmath::elements_to_cart(G, 0.02, 0.3, 0.2, 0.4, 0.7, 0.5);
        let mut star = Body::plain(1., R_SUN, [0.; 3], [0.; 3]); star.spin = [0., 0.1, 5.]; star.gr = Gr::Central(GrImpl::Kidder);
        let mut p = Body::plain(1e-3, 1e-4, x, v); p.gr = Gr::Orbiting; p.spin = [0.1, 0., 2.];
        let s = Sys { bodies: vec![star, p], flags: Flags { gr: true, ..Flags::default() }, t0: 0. };
        let got = effects(&s, 0.).ok()?;
        let want = rp::gr(&s.bodies, Kidder::Published);
        compare("relativity", &got, &want, 1e-10).err().map(|_| format!("star-planet pair at 0.02 AU: {:?} instead of {:?}", got.0[1], want.acc[1]))
    });
}

pub fn c17(ctx: &mut Ctx) {
    let params = prop::collection::vec((prop::bool::weighted(0.7), logu(1e-12, 1.), logu(0.01, 10.), prop_oneof![3 => Just(0f64), 1 => Just(1.), 1 => Just(-1e-9), 1 => Just(1e-9)]), 10);
    ctx.law("closed_form", 16000, 400000, (gen_cloud(1..=6), params), |(c, par)| {
        let mut c = c.clone();
        c.sys.flags.wind = true;
        for (i, b) in c.sys.bodies.iter_mut().enumerate() { let (on, k, sat, near) = par[i]; if on { b.wind = Some([k, if near != 0. && norm(b.spin) > 0. { norm(b.spin) * (1. + near.min(1e-3).max(-1e-3)) } else { sat }]); } }
        let n = c.sys.bodies.iter().filter(|b| b.wind.is_some()).count();
        through(&c, 0., &mut |k, s, got, u| {
            compare(&format!("wind, state {}", k), got, &rp::wind(&s.bodies), REL)?;
            for (i, b) in s.bodies.iter().enumerate() { let p = &u.particles[i];
                ensure!(vclose(va(p.spin), b.spin, 1e-13, 0.), "spin of body {} is {:?} instead of {:?}", i, p.spin, b.spin); }
            Ok(())
        })?;
        Ok(Out::new(n > 0).class(n > 1, "several bodies").class(c.sys.bodies.iter().any(|b| b.wind.map(|w| w[1] <= norm(b.spin)).unwrap_or(false)), "saturated"))
    });
    // Runs: spins follow the analytic braking law, orbits and other spins are untouched.
    let strat = (gen_sys(Opts { planets: (1, 3), e_max: 0.2, a0: (0.05, 0.5), m_max: 1e-4, ..Opts::default() }), integ(), prop::collection::vec((prop::bool::weighted(0.5), logu(1e-6, 2e-3), logu(0.2, 5.)), 4), 5usize..60, any::<bool>());
    ctx.law("braking_run", 400, 6000, strat, |(s, integ, par, n, force_star)| {
        let mut s = s.clone();
        let h = s.heaviest();
        let dt = s.min_period() * 0.02;
        s.flags.wind = true;
        // initial braking rate par.1 / dt, saturation at par.2 times the initial spin
        for (i, b) in s.bodies.iter_mut().enumerate() { let (on, rate, sat) = par[i % 4]; if on || (i == h && *force_star) {
            let w = norm(b.spin); let ws = w * sat; let eff = w.min(ws);
            b.wind = Some([rate / dt * rp::inertia(b) / (eff * eff * (b.r / R_SUN / b.m).sqrt()), ws]); } }
        let end = run_to(&s, *integ, dt, *n)?;
        let mut off = s.clone(); off.flags.wind = false;
        let plain = run_to(&off, *integ, dt, *n)?;
        let fixed = *integ != Integ::Ias;
        for i in 0..s.bodies.len() {
            let b = &s.bodies[i];
            let sc = norm(sub(plain.x[i], plain.x[h])).max(1e-3);
            if (end.t - plain.t).abs() < 1e-14 { ensure!(vclose(end.x[i], plain.x[i], 1e-11, 1e-12 * sc) && vclose(end.v[i], plain.v[i], 1e-11, 1e-14), "wind changed the orbit of body {}: {:?} vs {:?}", i, end.x[i], plain.x[i]); }
            let got = mul(end.l[i], 1. / end.inertia[i]);
            let w0 = norm(b.spin);
            match b.wind {
                None => ensure!(vclose(got, b.spin, 1e-13, 0.), "wind on other bodies changed the spin of body {}: {:?} from {:?}", i, got, b.spin),
                Some([k, sat]) => {
                    let kap = k * (b.r / R_SUN / b.m).sqrt() / rp::inertia(b);
                    let mut t = end.t; let mut w = w0;
                    if w > sat { let ts = (w / sat).ln() / (kap * sat * sat); if t <= ts { w *= (-kap * sat * sat * t).exp(); t = 0.; } else { w = sat; t -= ts; } }
                    if t > 0. { w /= (1. + 2. * kap * w * w * t).sqrt(); }
                    let rate = par[i % 4].1; // per step
                    let drop = w0 - w;
                    // at most first order in the step: relative error of the loss bounded by a few rate*step
                    let tol = drop * 6. * if fixed { rate } else { 1e-3 + rate } + 1e-13 * w0;
                    ensure!(within(if fixed { "spin" } else { "spin ias15" }, (norm(got) - w).abs(), tol), "{:?}: spin of body {} is {:e} after {} steps, the braking law gives {:e} (initially {:e})", integ, i, norm(got), n, w, w0);
                    ensure!(norm(sub(mul(got, 1. / norm(got)), mul(b.spin, 1. / w0))) < 1e-12, "wind turned the spin axis of body {}", i);
                }
            }
        }
        Ok(Out::new(s.bodies.iter().any(|b| b.wind.is_some())).class(*integ == Integ::Ias, "ias15").class(*integ == Integ::Leap, "leapfrog"))
    });
}

pub fn disk_strategy() -> impl Strategy<Value = (Sys, Vec<f64>, f64)> {
    let dp = (logu(1e-3, 3.), logu(0.1, 100.), logu(1e3, 1e8), logu(1e-5, 0.1), logu(1e-2, 1e6), 1.0..3.0f64);
    (prop_oneof![6 => gen_sys(Opts { planets: (1, 5), e_max: 0.7, i_max: 1.5, a0: (0.02, 3.), ..Opts::default() }), 1 => gen_sys(Opts { planets: (6, 9), e_max: 0.4, i_max: 1.5, a0: (0.02, 0.05), ratio: (1.5, 2.2), ..Opts::default() })], dp, prop::collection::vec(prop::bool::weighted(0.8), 6), prop::collection::vec(0.0..1.0f64, 0..3), prop_oneof![1 => Just(0.), 4 => logu(1e-4, 30.)], prop_oneof![2 => Just(None), 1 => (0.95..1.05f64).prop_map(Some)], prop_oneof![3 => Just(None), 1 => (0..6usize).prop_map(Some)])
        .prop_map(|(mut s, d, on, ph, tf, near, host)| {
            let h = host.map(|h| h % s.bodies.len()).unwrap_or_else(|| s.heaviest());
            let first = (0..s.bodies.len()).find(|&i| i != h).unwrap();
            let dist = norm(sub(s.bodies[first].x, s.bodies[h].x));
            // edges as multiples of the first planet's distance, or right at it
            let inner = match near { Some(f) => dist * f, None => d.0 * dist };
            let dp = DiskP { inner, outer: inner.max(dist) * (1. + d.1), life: d.2, alpha: d.3, sigma0: d.4 * AU * AU / MSUN_KG, mu: d.5 };
            s.flags.disk = true;
            for (i, b) in s.bodies.iter_mut().enumerate() { b.disk = if i == h { Dsk::Central(dp) } else if on[i % 6] { Dsk::Orbiting } else { Dsk::Off }; }
            (s, ph, tf * d.2)
        })
}
pub fn c18(ctx: &mut Ctx) {
    ctx.law("closed_form", 16000, 400000, disk_strategy(), |(s, ph, t)| {
        let c = bound(s, ph);
        let (h, dp) = rp::disk_host(&s.bodies).unwrap();
        let mut inside = 0; let mut outside = 0; let mut limited = 0;
        through(&c, *t, &mut |k, s, got, u| {
            compare(&format!("disk, state {}", k), got, &rp::disk(&s.bodies, *t), 1e-9)?;
            for (i, b) in s.bodies.iter().enumerate() { if b.disk == Dsk::Orbiting {
                let r = sub(b.x, s.bodies[h].x); let v = sub(b.v, s.bodies[h].v); let d = norm(r);
                let a = 1. / (2. / d - dot(v, v) / (G * (b.m + s.bodies[h].m)));
                let want = rp::migration_time(&dp, *t, s.bodies[h].m, b.m, d, a);
                let rep = u.particles[i].disk.parameters.internal.migration_timescale;
                ensure!(close(rep, want, 1e-8, 0.) || (rep.abs() > 1e300 && want.abs() > 1e300), "reported migration time scale of body {}: {:e} instead of {:e}", i, rep, want);
                if d > dp.inner { inside += 1; } else { outside += 1; ensure!(norm(got.0[i]) == 0., "body {} inside the inner edge feels the disk: {:?}", i, got.0[i]); }
                if (2. * dp.sigma0 / d * a * a / b.m) < 1. { limited += 1; }
                // damping opposes the motion
                ensure!(dot(got.0[i], v) <= 1e-12 * norm(got.0[i]) * norm(v), "disk accelerates body {} along its motion", i);
            } }
            Ok(())
        })?;
        Ok(Out::new(inside > 0).class(outside > 0, "inside the inner edge").class(limited > 0, "density limited").class(*t > dp.life, "after the lifetime").class(h != s.heaviest(), "host not the heaviest").class(!c.more.is_empty(), "re-evaluated"))
    });
    // A light planet on a near circular orbit migrates inwards at the model rate, and eccentricity/inclination damp ten times faster.
    let strat = (0.1..3.0f64, 0.0..0.05f64, 0.0..0.05f64, angle(), angle(), logu(300., 3000.), integ(), any::<bool>());
    ctx.law("migration_run", 240, 3000, strat, |(a, e, i, w, ma, tau_p, integ, first)| {
        let m = 1e-6;
        let (x, v) = refmath::elements_to_cart(G * (1. + m), *a, *e, *i, 0.3, *w, *ma);
        let period = refmath::TAU * (a.powi(3) / (G * (1. + m))).sqrt();
        let mut star = Body::plain(1., 1e-4, [0.; 3], [0.; 3]);
        let mut d = DiskP { inner: 0.1 * a, outer: 30. * a, life: 1e9, alpha: 1e-2, sigma0: 1e3 * AU * AU / MSUN_KG, mu: 2.4 };
        // scale the viscosity so that the migration time is tau_p periods
        let t0 = rp::migration_time(&d, 0., 1., m, *a, *a);
        d.alpha *= t0 / (tau_p * period);
        star.disk = Dsk::Central(d);
        let mut p = Body::plain(m, 1e-6, x, v); p.disk = Dsk::Orbiting;
        let hi = if *first { 0 } else { 1 };
        let s = Sys { bodies: if *first { vec![star, p] } else { vec![p, star] }, flags: Flags { disk: true, ..Flags::default() }, t0: 0. };
        let per = if *integ == Integ::Leap { 1000 } else { 100 };
        let orbits = 8usize;
        let end = run_to(&s, *integ, period / per as f64, per * orbits)?;
        let (r, vv) = (sub(end.x[1 - hi], end.x[hi]), sub(end.v[1 - hi], end.v[hi]));
        let mu = G * (1. + m);
        let a1 = 1. / (2. / norm(r) - dot(vv, vv) / mu);
        let l = cross(r, vv);
        let i1 = (l[2] / norm(l)).min(1.).acos();
        let ev = sub(mul(cross(vv, l), 1. / mu), mul(r, 1. / norm(r)));
        let tau = tau_p * period;
        // reference: the same model integrated independently; the changes of a, e and i must agree
        let refs = rp::evolve(&s, end.t, orbits * 30, Kidder::AsRecorded);
        let el = |x: V, v: V| { let l = cross(x, v); let ev = sub(mul(cross(v, l), 1. / mu), mul(x, 1. / norm(x))); (1. / (2. / norm(x) - dot(v, v) / mu), norm(ev), (l[2] / norm(l)).min(1.).acos()) };
        let (p1, h1) = (&refs.bodies[1 - hi], &refs.bodies[hi]);
        let want = el(sub(p1.x, h1.x), sub(p1.v, h1.v));
        let rate = end.t / tau;
        let o = if *integ == Integ::Leap { 1e-4 } else { 0. };
        for (name, g, w) in [("semi-major axis", a1 / a, want.0 / a), ("eccentricity", norm(ev), want.1), ("inclination", i1, want.2)] {
            ensure!(within(name, (g - w).abs(), 0.02 * rate + o), "{:?}: {} is {:e} after {} orbits, the model gives {:e} (initially a {}, e {}, i {})", integ, name, g, orbits, w, a, e, i);
        }
        // inwards at twice the time scale, and a faster damping of inclination
        ensure!((a1 / a).ln() < 0. || *e > 0.02 || *i > 0.02, "outward migration: a {} -> {}", a, a1);
        if *i > 5e-3 && *e < 0.01 { let g = (i1 / i).ln(); let w = -10. * rate; ensure!(within("inclination rate", (g - w).abs(), 0.25 * w.abs() + 1e-4), "inclination changed by exp({:e}), the model gives exp({:e})", g, w); }
        Ok(Out::new(true))
    });
}
