//! C19 stellar / planetary evolution: generated tables, generated histories of evaluation times.
use crate::engine::*;
use crate::ensure;
use crate::sys::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const MODELS: usize = 7;
/// (nominal mass, half width of the accepted window, file) per supported mass of each model
fn masses(model: usize) -> Vec<(f64, f64, String)> {
    let list = |v: &[u32], scale: f64, hw: &dyn Fn(f64) -> f64, name: &dyn Fn(u32) -> String| v.iter().map(|&k| { let m = k as f64 * scale; (m, hw(m), name(k)) }).collect::<Vec<_>>();
    match model {
        0 => list(&[3, 4, 6, 7, 8, 9, 10, 11, 12, 14], 0.1, &|_| 1e-3, &|k| format!("Gallet_Bolmont_2017/M_{:02}_Z_0134.dat", k)),
        1 => list(&[10, 15, 20, 30, 40, 50, 60, 70, 72, 75, 80, 90, 110, 130, 150, 170, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200, 1300, 1400], 1e-3, &|m| if m < 0.085 { 1e-4 } else { 1e-7 }, &|k| format!("Baraffe_2015/{:04}_Msun.dat", k)),
        2 => list(&[10, 12, 15, 20, 30, 40, 50, 60, 70, 72, 75, 80], 1e-3, &|_| 1e-4, &|k| format!("Leconte_2011/mass_{}.0000.dat", k)),
        3 => vec![(0.1, 1e-7, "Baraffe_1998/01Msun.dat".into()), (1.0, 1e-7, "Baraffe_1998/SRad_Spli_M-1_0000.dat".into())],
        4 => list(&[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], 0.1, &|_| 1e-3, &|k| format!("Bolmont_Mathis_2016/L{:02}Z02r.dat", k)),
        _ => vec![(0., f64::INFINITY, "Leconte_Chabrier_2013/Jupiter.dat".into())],
    }
}
fn evo_of(model: usize, mass: f64) -> Evo {
    match model { 0 => Evo::GalletBolmont2017(mass), 1 => Evo::Baraffe2015(mass), 2 => Evo::Leconte2011(mass), 3 => Evo::Baraffe1998(mass), 4 => Evo::BolmontMathis2016(mass), 5 => Evo::LeconteChabrier2013(false), _ => Evo::LeconteChabrier2013(true) }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Row { t: f64, r: f64, rg2: f64, k2: f64, q: f64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tab { model: usize, pick: usize, off: f64, rows: Vec<Row>, aux: Vec<(f64, f64)>, head: bool, mass: f64, spin: V }
fn tab() -> impl Strategy<Value = Tab> {
    (0..MODELS, 0usize..64, -0.98..0.98f64, prop_oneof![1 => Just(0.), 3 => logu(1e-2, 1e8)], prop::collection::vec((logu(1e-3, 3.), 0.05..3.0f64, 0.05..0.4f64, 0.01..0.6f64, 3.0..8.0f64), 2..60), prop::collection::vec((logu(1e-3, 3.), 0.05..0.4f64), 0..20), any::<bool>(), (logu(1e-3, 1.5), unit3(), logu(0.3, 40.)))
        .prop_map(|(model, pick, off, start, raw, auxr, head, (mass, dir, p))| {
            // a Gallet & Bolmont table starts after one year (its ages are logarithms)
            let mut t = if model == 0 && start < 1. { 1.5 } else { start };
            let unit = if start > 0. { start } else { 1e5 };
            let mut rows = vec![];
            for (dt, r, rg2, k2, q) in raw { rows.push(Row { t, r, rg2, k2, q }); t += dt * unit; }
            // the brown dwarf tables have a separate, shorter table of gyration radii
            let (t0, t1) = (rows[0].t, rows[rows.len() - 1].t);
            let n = auxr.len();
            let mut aux = vec![];
            if n >= 2 { let tot: f64 = auxr.iter().map(|a| a.0).sum(); let mut x = t0 + 0.1 * (t1 - t0); for (d, g) in &auxr { aux.push((x, *g)); x += 0.8 * (t1 - t0) * d / tot; } }
            else { aux = vec![(t0, 0.2), (t1, 0.3)]; }
            Tab { model, pick, off, rows, aux, head, mass, spin: mul(dir, std::f64::consts::TAU / p) }
        })
}
fn lin(x: f64, xs: &[f64], ys: &[f64]) -> f64 {
    if x <= xs[0] { return ys[0]; }
    for i in 1..xs.len() { if x < xs[i] { return ys[i - 1] + (ys[i] - ys[i - 1]) * ((x - xs[i - 1]) / (xs[i] - xs[i - 1])); } }
    ys[ys.len() - 1]
}
impl Tab {
    fn entry(&self) -> (f64, f64, String) { let m = masses(self.model); m[self.pick % m.len()].clone() }
    fn evo(&self) -> Evo { let (m, hw, _) = self.entry(); evo_of(self.model, if hw.is_finite() { m + self.off * hw } else { 0. }) }
    /// Table as the model sees it: ages in days and values in AU / none
    fn nodes(&self) -> (Vec<f64>, Vec<f64>, Option<Vec<f64>>, Option<Vec<f64>>, Option<Vec<f64>>) {
        let mut rows = self.rows.clone();
        let mut rg: Vec<f64> = rows.iter().map(|r| r.rg2).collect();
        if self.model == 2 {
            let (a0, a1) = (self.aux[0].0, self.aux[self.aux.len() - 1].0);
            rows.retain(|r| r.t >= a0 && r.t <= a1);
            let (xs, ys): (Vec<f64>, Vec<f64>) = self.aux.iter().cloned().unzip();
            rg = rows.iter().map(|r| lin(r.t, &xs, &ys)).collect();
        }
        let t = rows.iter().map(|r| r.t * 365.25).collect();
        let rad = rows.iter().map(|r| r.r * R_SUN).collect();
        (t, rad, if matches!(self.model, 1 | 2 | 5 | 6) { Some(rg) } else { None }, if self.model >= 5 { Some(rows.iter().map(|r| r.k2).collect()) } else { None },
            if matches!(self.model, 0 | 4 | 6) { Some(rows.iter().map(|r| 10f64.powf(-r.q)).collect()) } else { None })
    }
    pub fn write(&self) {
        let (_, _, file) = self.entry();
        let mut s = String::new();
        if self.head { s.push_str("age a b c d e f g h i j\n"); }
        for r in &self.rows {
            let meters = r.r * 6.957e8;
            s.push_str(&match self.model {
                0 => format!("{} 7 7 {} 7 7 7 7 7 7 {}\n", r.t.log10(), r.r, r.q),
                1 => format!("{} 7 {} {}\n", r.t, r.r, r.rg2),
                2 => format!("{} {}\n", r.t, r.r),
                3 => format!("{} {}\n", r.t, if self.pick % 2 == 0 { r.r } else { meters }),
                4 => format!("{} {} {}\n", r.t, r.r, 10f64.powf(-r.q)),
                _ => format!("{} {} {} {} 7 {}\n", r.t, meters, r.k2, r.rg2, 10f64.powf(-r.q)),
            });
        }
        std::fs::write(std::path::Path::new("input").join(file), s).unwrap();
        if self.model == 2 {
            let col = self.pick % 12;
            let mut s = String::new();
            for (t, g) in &self.aux { s.push_str(&format!("{}", t)); for c in 0..12 { s.push_str(&format!(" {}", if c == col { *g } else { 7. + c as f64 })); } s.push('\n'); }
            std::fs::write("input/Leconte_2011/rg2BD.dat", s).unwrap();
        }
    }
}
/// System of evolving bodies, the heaviest first, orbits wide enough for the largest radius.
fn system(tabs: &[Tab], t0: f64, k2: f64) -> Sys {
    let mut tabs: Vec<&Tab> = tabs.iter().collect();
    tabs.sort_by(|a, b| b.mass.partial_cmp(&a.mass).unwrap());
    let mut bodies = vec![];
    for (i, t) in tabs.iter().enumerate() {
        let a = 0.3 * 3f64.powi(i as i32);
        let v = if i == 0 { 0. } else { (G * (tabs[0].mass + t.mass) / a).sqrt() };
        let mut b = Body::plain(t.mass, 0.7 * R_SUN, if i == 0 { [0.; 3] } else { [a, 0., 0.] }, [0., v, 0.]);
        b.spin = t.spin; b.rg = 0.9; b.evo = t.evo();
        let m = TModel::Ctl { k2, sigma: 0., scale: 1. };
        b.tide = if i == 0 { Tide::Central(m) } else { Tide::Orbiting(m) };
        bodies.push(b);
    }
    Sys { bodies, flags: Flags { evo: true, ..Flags::default() }, t0 }
}
/// Keep only tables that go to different files (the gyration file of the brown dwarfs is shared by all masses).
fn distinct(tabs: &[Tab]) -> Vec<Tab> {
    let mut seen = std::collections::HashSet::new();
    let mut out: Vec<Tab> = vec![];
    for t in tabs { let key = if t.model == 2 { "leconte".to_string() } else { t.entry().2 }; if t.nodes().0.len() >= 2 && seen.insert(key) { out.push(t.clone()); } }
    out
}
fn span(tabs: &[Tab]) -> (f64, f64) {
    let (mut lo, mut hi) = (0f64, f64::INFINITY);
    for t in tabs { let n = t.nodes().0; lo = lo.max(n[0]); hi = hi.min(n[n.len() - 1]); }
    (lo, hi)
}
fn sorted(tabs: &[Tab]) -> Vec<&Tab> { let mut v: Vec<&Tab> = tabs.iter().collect(); v.sort_by(|a, b| b.mass.partial_cmp(&a.mass).unwrap()); v }

/// One evolving body with its table: ages and masses inside and outside of what is tabulated. (system, (initial time, limit), table)
pub fn any_tables() -> impl Strategy<Value = (Sys, (f64, f64), Tab)> {
    (tab(), prop_oneof![8 => 0u8..1, 1 => 1u8..2, 1 => 2u8..3, 2 => 3u8..4, 3 => 4u8..5], -0.5..1.5f64, 0.001..0.9f64, 0.0..1.0f64).prop_map(|(mut tb, what, x, d, e)| {
        // the python reader skips one line of the Baraffe et al. 2015 tables and none of the others
        tb.head = tb.model == 1;
        // python smooths the table of gyration radii of the brown dwarfs (known finding): a straight one, which smoothing leaves as it is
        let (ta, tz) = (tb.rows[0].t, tb.rows[tb.rows.len() - 1].t);
        let (n, g0, g1) = (tb.aux.len().max(3), tb.aux[0].1, tb.aux[tb.aux.len() - 1].1);
        tb.aux = (0..n).map(|k| { let x = k as f64 / (n - 1) as f64; (ta + (tz - ta) * (0.1 + 0.8 * x), g0 + (g1 - g0) * x) }).collect();
        while tb.nodes().0.len() < 2 { tb.model = (tb.model + 1) % MODELS; tb.head = tb.model == 1; }
        let n = tb.nodes().0; let (lo, hi) = (n[0], n[n.len() - 1]); let w = hi - lo;
        let mut t0 = lo + (1e-9 + d) * w; let mut lim = 0.99 * e * (hi - t0); let mut evo = tb.evo();
        match what {
            1 => t0 = (lo - d * w).max(0.),
            2 => lim = hi - t0 + d * w,
            3 => {
                let list = masses(tb.model);
                if list[0].1.is_finite() {
                    let (m, hw, _) = &list[tb.pick % list.len()];
                    let m2 = if x < 0.5 { m + hw * (1.02 + 50. * d) * tb.off.signum() } else { x * 1.2 };
                    // far enough from the edges of every window
                    if list.iter().all(|(a, h, _)| (m2 - a).abs() > 1.01 * h) { evo = evo_of(tb.model, m2); }
                }
            }
            4 => { t0 = (lo - d * w).max(0.); lim = 0.; }
            _ => {}
        }
        let mut s = system(std::slice::from_ref(&tb), t0, 0.3); s.bodies[0].evo = evo;
        // the evolution may also be off
        if e > 0.9 { s.flags.evo = false; }
        if e > 0.95 { s.bodies[0].evo = Evo::No; }
        (s, (t0, lim), tb)
    })
}
/// A brown dwarf with a curved table of gyration radii.
pub fn curved_brown_dwarf() -> (Sys, f64, Tab) {
    let rows = (0..40).map(|k| Row { t: 1e6 * (1. + k as f64), r: 0.1, rg2: 0.2, k2: 0.3, q: 5. }).collect();
    let aux = (0..9).map(|k| (5e6 + 3e6 * k as f64, 0.2 + 0.004 * (k as f64 - 4.).powi(2))).collect();
    let tb = Tab { model: 2, pick: 11, off: 0., rows, aux, head: false, mass: 0.08, spin: [0., 0., 1.] };
    let t0 = 17.5e6 * 365.25;
    (system(std::slice::from_ref(&tb), t0, 0.3), t0, tb)
}
/// Limits of approach to bodies whose radius changes in time (called by C11).
pub fn evolving_limits(ctx: &mut Ctx) {
    let st = (prop::collection::vec(tab(), 1..3), 0.0..1.0f64, prop::collection::vec(0.0..1.2f64, 1..4), logu(1e-3, 10.), logu(1e-6, 1e-2), 0usize..6, logu(1e-9, 0.3), any::<bool>(), unit3());
    ctx.law("evolving_limits", 4000, 60000, st, |(tabs, ft, times, m, r, rot, delta, inside, dir)| {
        let mut tabs = distinct(tabs); if tabs.is_empty() { return Ok(Out::new(false)); }
        while { let (lo, hi) = span(&tabs); !(hi > lo) } { tabs.pop(); }
        let (lo, hi) = span(&tabs);
        let t0 = (lo + ft * 0.5 * (hi - lo)) * (1. + 1e-12);
        for t in &tabs { t.write(); }
        let mut s = system(&tabs, t0, 0.3);
        if s.bodies.iter().any(|b| (b.m / m - 1.).abs() < 1e-9) { return Ok(Out::new(false)); }
        let mut c = Body::plain(*m, *r, [9., 0., 0.], [0., 0.01, 0.]); c.tide = Tide::Orbiting(TModel::Ctl { k2: 0.3, sigma: 0., scale: 1. }); s.bodies.push(c);
        // tides need their host to be the star: not under test here
        for b in s.bodies.iter_mut() { b.tide = Tide::Off; }
        let n = s.bodies.len();
        let k = rot % n; s.bodies.rotate_left(k);
        let at = |i: usize| (i + n - k) % n; // place of the body first listed at i
        let mut u = match guard(|| s.universe(0.9 * (hi - t0))) { Ok(u) => u, Err(m) => return Err(format!("refused: {}", m)) };
        let r0: Vec<f64> = (0..n).map(|i| u.particles[i].radius).collect();
        let mut t = 0.;
        for f in times { t = f * (hi - t0); u.calculate_spin_and_evolving_quantities(t, true); }
        // the pair: one evolving body and the companion
        let (i, j) = (at(rot / n % (n - 1)), at(n - 1));
        let (big, small) = if s.bodies[i].m > s.bodies[j].m { (i, j) } else { (j, i) };
        let rad: Vec<f64> = (0..n).map(|i| u.particles[i].radius).collect();
        let roche = rad[small] / 0.462 * (s.bodies[big].m / s.bodies[small].m).powf(1. / 3.);
        let touch = rad[i] + rad[j];
        let d = roche.max(touch) * if *inside { 1. - delta } else { 1. + delta };
        let mut x: Vec<V> = (0..n).map(|q| [20. * (q as f64 + 1.), 0., 0.].map(|c| if q == i || q == j { 0. } else { c })).collect();
        x[j] = mul(*dir, d);
        if n > 3 && x.iter().any(|p| norm(*p) > 99.) { return Ok(Out::new(false)); }
        let v = vec![[0.; 3]; n]; let sp: Vec<V> = s.bodies.iter().map(|b| b.spin).collect();
        set_state(&mut u, &x, &v, &sp);
        let got = guard(|| u.gravity_calculate_acceleration(posidonius::IgnoreGravityTerms::None));
        let what = if roche >= d { "destroyed" } else { "ollision" };
        match (&got, inside) {
            (Ok(_), true) => return Err(format!("bodies {} and {} {} AU apart at t={}: radii {} and {} (at first {} and {}), Roche limit {}: not stopped", i, j, d, t, rad[i], rad[j], r0[i], r0[j], roche)),
            (Err(m), false) => return Err(format!("bodies {} and {} {} AU apart at t={}: radii {} and {} (at first {} and {}), Roche limit {}: stopped with {}", i, j, d, t, rad[i], rad[j], r0[i], r0[j], roche, m)),
            (Err(m), true) => ensure!(m.contains(what), "bodies {} and {}: message '{}'", i, j, m),
            _ => {}
        }
        Ok(Out::new(true).class(*inside, "inside").class(small == i, "the lighter body evolves").class(rad[i] > r0[i], "grows").class(rad[i] < r0[i], "shrinks").class(j < i, "companion first"))
    });
}
pub fn c19(ctx: &mut Ctx) {
    // any history of evaluation times: what is used is the table at that time, and nothing else changes
    let st = (prop::collection::vec(tab(), 1..4), 0.0..1.0f64, prop::collection::vec((0u8..6, 0.0..1.0f64, 0usize..64), 1..40), 0.01..0.6f64, any::<bool>());
    ctx.law("interpolated_values", 20000, 100000, st, |(tabs, ft, hist, k2, on)| {
        let tabs = distinct(tabs); if tabs.is_empty() { return Ok(Out::new(false)); }
        let mut tabs = tabs; while { let (lo, hi) = span(&tabs); !(hi > lo) } { tabs.pop(); }
        let (lo, hi) = span(&tabs);
        let t0 = lo + ft * 0.5 * (hi - lo);
        let t0 = t0 + 1e-12 * t0;
        let lim = 0.9 * (hi - t0);
        for t in &tabs { t.write(); }
        let mut s = system(&tabs, t0, *k2); s.flags.evo = *on;
        let mut u = match guard(|| s.universe(lim)) { Ok(u) => u, Err(m) => return Err(format!("refused: {} (tables from {} to {} days, initial time {})", m, lo, hi, t0)) };
        let order = sorted(&tabs);
        let l0: Vec<V> = (0..order.len()).map(|i| va(u.particles[i].angular_momentum)).collect();
        let mut t: f64 = 0.;
        let mut back = 0;
        for (k, (how, f, node)) in hist.iter().enumerate() {
            let prev = t;
            t = match how {
                0 => f * 1.2 * (hi - t0),                                                           // anywhere, also past the end
                1 => { let n = order[k % order.len()].nodes().0; (n[node % n.len()] - t0).max(0.) }    // exactly at a node
                2 => (t - 0.05 * f * (hi - t0)).max(0.),                                             // a step undone
                _ => t + 0.1 * f * (hi - t0),
            };
            if t < prev { back += 1; }
            u.calculate_spin_and_evolving_quantities(t, true);
            for (i, tb) in order.iter().enumerate() {
                let p = &u.particles[i];
                let (n, r, rg, k, q) = tb.nodes();
                let n: Vec<f64> = n.iter().map(|x| x - t0).collect();
                let near = |name: &str, got: f64, want: f64, tol: f64| -> Result<(), String> { if within(name, (got - want).abs() / want.abs(), tol) { Ok(()) } else { Err(format!("{} of body {} ({:?}) at t={} is {} instead of {}", name, i, tb.evo(), t, got, want)) } };
                if !on {
                    ensure!(p.radius == s.bodies[i].r, "evolution is off but the radius of body {} changed from {} to {}", i, s.bodies[i].r, p.radius);
                    continue;
                }
                // node times carry a rounding error of t0; the shortest interval is 1e-3 of the scale
                let gap = n.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min);
                let tol = 1e-11 + 5e-14 * (t0 + n[n.len() - 1].abs()) / gap * 60.;
                near("radius", p.radius, lin(t, &n, &r), tol)?;
                if let Some(rg) = &rg { let w = lin(t, &n, rg); ensure!(within("radius of gyration", (p.radius_of_gyration_2 - w).abs(), tol + if tb.model == 2 { 6e-8 } else { 0. }), "gyration of body {} ({:?}) at t={} is {} instead of {}", i, tb.evo(), t, p.radius_of_gyration_2, w); }
                else { ensure!(p.radius_of_gyration_2 == s.bodies[i].rg * s.bodies[i].rg, "{:?} has no table of gyration radii but it changed to {}", tb.evo(), p.radius_of_gyration_2); }
                let love = match &p.tides.effect { posidonius::TidesEffect::CentralBody(posidonius::TidalModel::ConstantTimeLag(c)) | posidonius::TidesEffect::OrbitingBody(posidonius::TidalModel::ConstantTimeLag(c)) => c.love_number, _ => f64::NAN };
                near("Love number", love, match &k { Some(k) => lin(t, &n, k), None => *k2 }, tol)?;
                near("moment of inertia", p.moment_of_inertia, p.mass * p.radius_of_gyration_2 * p.radius * p.radius, 1e-14)?;
                let l = va(p.angular_momentum);
                ensure!(l == l0[i], "angular momentum of body {} changed from {:?} to {:?} by the evolution", i, l0[i], l);
                let sp = va(p.spin);
                ensure!(within("spin", norm(sub(mul(sp, p.moment_of_inertia), l)) / norm(l), 1e-14), "spin {:?} is not the angular momentum over the moment of inertia", sp);
                let lag = p.tides.parameters.internal.lag_angle;
                let eps2 = 0.75 * dot(sp, sp) / (G / R_SUN.powi(3));
                let (want, top) = match &q { Some(q) => (eps2 * lin(t, &n, q), eps2 * q.iter().cloned().fold(0., f64::max)), None => (0., 0.) };
                ensure!(within("lag angle", (lag - want).abs(), want * 1e-11 + top * tol), "lag angle of body {} ({:?}) at t={} is {} instead of {}", i, tb.evo(), t, lag, want);
            }
        }
        Ok(Out::new(*on).class(back > 0, "goes back in time").class(order.len() > 1, "several evolving bodies").class(order.iter().any(|t| t.rows.len() > 15), "long table")
            .class(order.iter().any(|t| t.model == 0), "Gallet & Bolmont 2017").class(order.iter().any(|t| t.model == 1), "Baraffe 2015").class(order.iter().any(|t| t.model == 2), "Leconte 2011").class(order.iter().any(|t| t.model == 3), "Baraffe 1998").class(order.iter().any(|t| t.model == 4), "Bolmont & Mathis 2016").class(order.iter().any(|t| t.model >= 5), "Leconte & Chabrier 2013"))
    });
    // the initial state: spin as given, radius and inertia of the table
    ctx.law("initial_state", 8000, 40000, (tab(), 0.0..0.9f64), |(tb, ft)| {
        let (n, r, rg, _, _) = tb.nodes(); if n.len() < 2 { return Ok(Out::new(false)); }
        let t0 = n[0] + ft * (n[n.len() - 1] - n[0]); let t0 = t0 + 1e-12 * t0;
        tb.write();
        let s = system(std::slice::from_ref(tb), t0, 0.3);
        let u = match guard(|| s.universe(0.)) { Ok(u) => u, Err(m) => return Err(format!("refused: {}", m)) };
        let p = &u.particles[0];
        let want = lin(t0, &n, &r);
        // differences below 1e-6 are left as given
        ensure!(within("radius", (p.radius - want).abs(), 1.01e-6), "initial radius {} instead of {}", p.radius, want);
        if let Some(rg) = &rg { let w = lin(t0, &n, rg); ensure!(within("gyration", (p.radius_of_gyration_2 - w).abs(), 1.1e-6), "initial gyration {} instead of {}", p.radius_of_gyration_2, w); }
        ensure!(va(p.spin) == s.bodies[0].spin, "the spin given {:?} became {:?}", s.bodies[0].spin, p.spin);
        let i = p.mass * p.radius_of_gyration_2 * p.radius.powi(2);
        ensure!(within("inertia", (p.moment_of_inertia / i - 1.).abs(), 1e-14), "moment of inertia {} instead of {}", p.moment_of_inertia, i);
        ensure!(within("angular momentum", norm(sub(va(p.angular_momentum), mul(s.bodies[0].spin, i))) / (i * norm(s.bodies[0].spin)), 1e-14), "angular momentum {:?} is not inertia times spin", p.angular_momentum);
        Ok(Out::new((want - s.bodies[0].r).abs() > 1e-6))
    });
    // ages and masses outside the tables are refused, everything inside is accepted
    ctx.law("refusals", 12000, 60000, (tab(), 0u8..5, -0.5..1.5f64, logu(1e-6, 0.5)), |(tb, what, x, d)| {
        let (n, _, _, _, _) = tb.nodes(); if n.len() < 2 { return Ok(Out::new(false)); }
        let (lo, hi) = (n[0], n[n.len() - 1]); let w = hi - lo;
        tb.write();
        let mut t0 = lo + 0.3 * w; let mut lim = 0.5 * w; let mut evo = tb.evo(); let ok;
        match what {
            0 => { t0 = lo - d * w; ok = false; if t0 < 0. { return Ok(Out::new(false)); } }
            1 => { lim = hi - t0 + d * w; ok = false; }
            2 => { t0 = lo + d * w; lim = (hi - t0) * (1. - 1e-9); ok = true; }
            3 => {
                // a mass that is not tabulated
                let list = masses(tb.model); if !list[0].1.is_finite() { return Ok(Out::new(false)); }
                let (m, hw, _) = &list[tb.pick % list.len()];
                let m2 = if *x < 0.5 { m + hw * (1.02 + 50. * d) * tb.off.signum() } else { x * 1.2 };
                if list.iter().any(|(a, h, _)| (m2 - a).abs() < 1.01 * h) { return Ok(Out::new(false)); }
                evo = evo_of(tb.model, m2); ok = false;
            }
            _ => { t0 = lo + d.min(0.4) * w; lim = d * (hi - t0) * 0.99; ok = true; }
        }
        let mut s = system(std::slice::from_ref(tb), t0, 0.3); s.bodies[0].evo = evo;
        let r = guard(|| s.universe(lim));
        match (&r, ok) {
            (Ok(_), false) => return Err(format!("{:?}: ages {}..{} days tabulated, initial time {} and time limit {} accepted", evo, lo, hi, t0, lim)),
            (Err(m), true) => return Err(format!("{:?}: ages {}..{} days tabulated, initial time {} and time limit {} refused: {}", evo, lo, hi, t0, lim, m)),
            _ => {}
        }
        Ok(Out::new(true).class(!ok, "refused").class(ok, "accepted"))
    });
    // along a run of every integrator
    ctx.law("along_a_run", 6000, 20000, (prop::collection::vec(tab(), 1..3), integ(), 0.0..0.8f64, 2usize..40, 0.3..1.0f64), |(tabs, ig, ft, steps, frac)| {
        let mut tabs = distinct(tabs); if tabs.is_empty() { return Ok(Out::new(false)); }
        while { let (lo, hi) = span(&tabs); !(hi > lo) } { tabs.pop(); }
        if tabs.len() < 2 {
            // a companion for the integrators
            let mut c = tabs[0].clone(); c.mass *= 0.1; tabs.push(c);
        }
        let single = tabs[0].entry().2 == tabs[1].entry().2;
        // squeeze the tables into the duration of a short run: steps of a small part of the orbit
        let s = system(&tabs, 0., 0.3);
        let dt = s.min_period() * 0.02 * frac;
        let (lo, hi) = span(&tabs);
        let sq = dt * *steps as f64 * 2. / (hi - lo);
        for t in tabs.iter_mut() { for r in t.rows.iter_mut() { r.t = 2. + r.t * sq; } for a in t.aux.iter_mut() { a.0 = 2. + a.0 * sq; } }
        let (lo, hi) = span(&tabs);
        if !(hi > lo) { return Ok(Out::new(false)); }
        let t0 = lo + ft * 0.4 * (hi - lo); let t0 = t0 + 1e-10 * t0.max(hi - lo);
        for t in &tabs { t.write(); }
        let mut s = system(&tabs, t0, 0.3);
        if single { s.bodies[1].evo = Evo::No; }
        let lim = 0.95 * (hi - t0);
        let mut sim = match guard(|| Sim::new(&s, *ig, dt, lim, 1e9, 1e9)) { Ok(x) => x, Err(m) => return Err(format!("refused: {} ({}..{} t0 {} lim {})", m, lo, hi, t0, lim)) };
        let order: Vec<Tab> = sorted(&tabs).into_iter().cloned().collect();
        let l0: Vec<V> = (0..order.len()).map(|i| va(sim.u().particles[i].angular_momentum)).collect();
        let mut w = null_writer();
        let mut n = 0; let mut prev = 0.;
        while n < 60 && sim.step(&mut w)? {
            n += 1;
            let t = sim.t();
            for (i, tb) in order.iter().enumerate() {
                if s.bodies[i].evo == Evo::No { continue; }
                let p = &sim.u().particles[i];
                ensure!(va(p.angular_momentum) == l0[i], "spin angular momentum of body {} drifts: {:?} -> {:?}", i, l0[i], p.angular_momentum);
                ensure!(within("spin", norm(sub(mul(va(p.spin), p.moment_of_inertia), l0[i])) / norm(l0[i]), 1e-13), "spin of body {} is not L/I after step {}", i, n);
                // the radius is that of the table somewhere within the step just done
                let (nt, r, rg, _, _) = tb.nodes();
                let ok = |v: f64, ys: &[f64], slack: f64| { let (mut a, mut b) = (f64::INFINITY, f64::NEG_INFINITY); for k in 0..=200 { let y = lin(t0 + prev + (t - prev) * k as f64 / 200., &nt, ys); a = a.min(y); b = b.max(y); } for (x, y) in nt.iter().zip(ys) { if *x >= t0 + prev && *x <= t0 + t { a = a.min(*y); b = b.max(*y); } } v >= a - slack - 1e-9 * a.abs() && v <= b + slack + 1e-9 * b.abs() };
                ensure!(ok(p.radius, &r, 0.), "after the step from {} to {} the radius of body {} is {}, the table has {} to {}", prev, t, i, p.radius, lin(t0 + prev, &nt, &r), lin(t0 + t, &nt, &r));
                if let Some(rg) = &rg { ensure!(ok(p.radius_of_gyration_2, rg, 1e-6), "after the step from {} to {} the gyration of body {} is {}, the table has {} to {}", prev, t, i, p.radius_of_gyration_2, lin(t0 + prev, &nt, rg), lin(t0 + t, &nt, rg)); }
            }
            prev = t;
        }
        Ok(Out::new(n > 2).class(*ig == Integ::Ias, "IAS15").class(*ig == Integ::Leap, "leap-frog").class(!matches!(ig, Integ::Ias | Integ::Leap), "WHFast"))
    });
    // a limit changed after a restart obeys the tables and the present time, and touches nothing else
    let st = (prop::collection::vec(tab(), 1..3), integ(), 0.0..0.8f64, 1usize..12, 0u8..6, logu(1e-6, 0.9), any::<bool>());
    ctx.law("limit_changed", 2400, 12000, st, |(tabs, ig, ft, steps, what, d, on)| {
        let tabs = distinct(tabs); if tabs.is_empty() { return Ok(Out::new(false)); }
        let mut tabs: Vec<Tab> = tabs.into_iter().take(2).collect();
        while { let (lo, hi) = span(&tabs); !(hi > lo) } { tabs.pop(); }
        if tabs.len() < 2 { let mut c = tabs[0].clone(); c.mass *= 0.1; tabs.push(c); }
        let single = tabs[0].entry().2 == tabs[1].entry().2;
        let s = system(&tabs, 0., 0.3);
        let dt = s.min_period() * 0.01;
        let (lo, hi) = span(&tabs);
        let sq = dt * 60. / (hi - lo);
        for t in tabs.iter_mut() { for r in t.rows.iter_mut() { r.t = 2. + r.t * sq; } for a in t.aux.iter_mut() { a.0 = 2. + a.0 * sq; } }
        let (lo, hi) = span(&tabs);
        if !(hi > lo) { return Ok(Out::new(false)); }
        let t0 = lo + ft * 0.4 * (hi - lo); let t0 = t0 + 1e-10 * t0.max(hi - lo);
        for t in &tabs { t.write(); }
        let mut s = system(&tabs, t0, 0.3);
        if single { s.bodies[1].evo = Evo::No; }
        s.flags.evo = *on;
        let order: Vec<Tab> = sorted(&tabs).into_iter().cloned().collect();
        // the tables that are really followed
        let end = order.iter().zip(&s.bodies).filter(|(_, b)| b.evo != Evo::No).map(|(t, _)| { let (n, _, _, _, _) = t.nodes(); n[n.len() - 1] - t0 }).fold(f64::INFINITY, f64::min);
        let lim = 0.7 * end;
        let mut sim = match guard(|| Sim::new(&s, *ig, dt, lim, dt * 3., dt * 5.)) { Ok(x) => x, Err(m) => return Err(format!("refused: {} ({}..{} t0 {} lim {})", m, lo, hi, t0, lim)) };
        let mut w = null_writer();
        let mut n = 0;
        while n < *steps && sim.step(&mut w)? { n += 1; }
        let t = sim.t();
        let (new, ok) = match what {
            0 => (end * (1. + d) , !*on),
            1 => (lim + (end - lim) * d, true),
            2 => (t + (lim - t) * d, true),
            3 => (t * (1. - d), false),
            4 => (-d * lim, true),
            _ => (lim, true),
        };
        if !(new != 0.) || (*what == 0 && new <= end * (1. + 1e-9)) || (*what == 3 && !(new > 0. && new < t && new < lim)) || (*what == 2 && !(new > t)) { return Ok(Out::new(false)); }
        let before = sim.json();
        let r = guard(|| sim.int.set_time_limit(new));
        let took = if ok && new > 0. { new } else { lim };
        match (&r, ok) {
            (Ok(_), false) => return Err(format!("at {} the limit {} of a run with evolving bodies tabulated until {} was changed to {}", t, lim, end, new)),
            (Err(m), true) => return Err(format!("at {} the limit {} of a run with bodies tabulated until {} (evolution {}) could not be changed to {}: {}", t, lim, end, on, new, m)),
            _ => {}
        }
        ensure!(sim.u().time_limit == took, "the limit {} is {} after asking for {}", lim, sim.u().time_limit, new);
        let mut after = sim.json();
        after["universe"]["time_limit"] = before["universe"]["time_limit"].clone();
        ensure!(after == before, "changing the limit changed more than the limit");
        Ok(Out::new(n > 0).class(!ok, "refused").class(took != lim, "changed").class(*what == 4, "not positive"))
    });
}
