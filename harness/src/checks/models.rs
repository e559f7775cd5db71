//! C20 creep tides and C21 frequency dependent (Kaula) tides against series derived here from Hansen coefficients.
use super::effects::{bound, compare, through};
use crate::engine::*;
use crate::ensure;
use crate::refmath::{self, TAU};
use crate::refphys::Eff;
use crate::sys::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

// ---------------------------------------------------------------- complex numbers and Hansen coefficients
#[derive(Clone, Copy, Debug)]
struct Cx(f64, f64);
impl std::ops::Add for Cx { type Output = Cx; fn add(self, o: Cx) -> Cx { Cx(self.0 + o.0, self.1 + o.1) } }
impl std::ops::Sub for Cx { type Output = Cx; fn sub(self, o: Cx) -> Cx { Cx(self.0 - o.0, self.1 - o.1) } }
impl std::ops::Mul for Cx { type Output = Cx; fn mul(self, o: Cx) -> Cx { Cx(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0) } }
impl std::ops::Div for Cx { type Output = Cx; fn div(self, o: Cx) -> Cx { let d = o.0 * o.0 + o.1 * o.1; Cx((self.0 * o.0 + self.1 * o.1) / d, (self.1 * o.0 - self.0 * o.1) / d) } }
fn cis(x: f64) -> Cx { Cx(x.cos(), x.sin()) }
fn cexp(z: Cx) -> Cx { let r = z.0.exp(); Cx(r * z.1.cos(), r * z.1.sin()) }
fn csqrt(z: Cx) -> Cx { let r = (z.0 * z.0 + z.1 * z.1).sqrt(); let a = ((r + z.0) / 2.).max(0.).sqrt(); let b = ((r - z.0) / 2.).max(0.).sqrt(); Cx(a, if z.1 < 0. { -b } else { b }) }
/// Hansen coefficient X^{-3,m}_k(e) for a complex eccentricity, by quadrature over the eccentric anomaly.
fn hansen(m: i32, k: i32, e: Cx) -> Cx {
    let n = 128;
    let s = csqrt(Cx(1., 0.) - e * e);
    let mut sum = Cx(0., 0.);
    for i in 0..n {
        let ea = TAU * i as f64 / n as f64;
        let (c, si) = (Cx(ea.cos(), 0.), Cx(ea.sin(), 0.));
        let rho = Cx(1., 0.) - e * c;
        let x = (c - e) / rho; let y = s * si / rho; // cos f, sin f
        let eif = Cx(x.0 - y.1, x.1 + y.0);
        let mut w = Cx(1., 0.) / (rho * rho);
        for _ in 0..m { w = w * eif; }
        let ma = Cx(ea, 0.) - e * si;
        sum = sum + w * cexp(Cx(ma.1, -ma.0) * Cx(k as f64, 0.));
    }
    Cx(sum.0 / n as f64, sum.1 / n as f64)
}
/// Taylor coefficients of X^{-3,m}_k in e up to e^7 (Cauchy integrals on |e| = 0.3).
fn taylor(m: i32, k: i32) -> [f64; 8] {
    let (n, r) = (64, 0.3);
    let mut t = [0.; 8];
    for i in 0..n {
        let ph = TAU * i as f64 / n as f64;
        let z = cis(ph);
        let h = hansen(m, k, Cx(r * z.0, r * z.1));
        for (j, tj) in t.iter_mut().enumerate() { let w = cis(-ph * j as f64); *tj += (h * w).0 / n as f64 / r.powi(j as i32); }
    }
    t
}
/// coefficients of X^{-3,2}_{2+q} and X^{-3,0}_q for q = -7..7
fn tables() -> &'static (Vec<[f64; 8]>, Vec<[f64; 8]>) {
    static T: OnceLock<(Vec<[f64; 8]>, Vec<[f64; 8]>)> = OnceLock::new();
    T.get_or_init(|| ((-7..=7).map(|q| taylor(2, 2 + q)).collect(), (-7..=7).map(|q| taylor(0, q)).collect()))
}
/// The series to the seventh order in the eccentricity.
fn series(t: &[f64; 8], e: f64) -> f64 { t.iter().rev().fold(0., |a, c| a * e + c) }
fn x2(q: i32, e: f64) -> f64 { series(&tables().0[(q + 7) as usize], e) }
fn x0(q: i32, e: f64) -> f64 { series(&tables().1[(q + 7) as usize], e) }

// ---------------------------------------------------------------- orbit
struct Orb { a: f64, e: f64, n: f64, ma: f64, f: f64, r: f64, rhat: V, that: V }
/// Osculating orbit in the xy plane (position and velocity relative to the host).
fn orbit(mu: f64, x: V, v: V) -> Orb {
    let r = norm(x);
    let a = 1. / (2. / r - dot(v, v) / mu);
    let h = x[0] * v[1] - x[1] * v[0];
    let ev = [(v[1] * h) / mu - x[0] / r, (-v[0] * h) / mu - x[1] / r];
    let mut e = (ev[0] * ev[0] + ev[1] * ev[1]).sqrt();
    let pr = x[0].mul_add(v[0], x[1] * v[1]);
    let n = (mu / a.powi(3)).sqrt();
    // E from e cos E = 1 - r/a and e sin E = r.v / sqrt(mu a)
    let (ec, es) = (1. - r / a, pr / (mu * a).sqrt());
    if e < 3e-8 { e = 0.; }
    let ea = if e == 0. { 0. } else { es.atan2(ec) };
    let ma = ea - es;
    let f = 2. * (((1. + e) / (1. - e)).sqrt() * (ea / 2.).tan()).atan();
    let rhat = [x[0] / r, x[1] / r, 0.];
    Orb { a, e, n, ma, f, r, rhat, that: [-rhat[1], rhat[0], 0.] }
}

// ---------------------------------------------------------------- creep
#[derive(Clone, Copy)]
struct Shape { x: f64, y: f64, z: f64, slow: bool, edge: bool }
/// Figure of a creeping body of mass m, radius r, viscosity eta, rotation w raised by a companion of mass mc.
fn shape(o: &Orb, m: f64, mc: f64, r: f64, eta: f64, w: f64, tides: bool, rot: bool) -> Shape {
    if eta == 0. { return Shape { x: 0., y: 0., z: 0., slow: false, edge: false }; }
    let gam = 3. * G * m * m / (8. * std::f64::consts::PI * r.powi(4) * eta);
    let er = if tides { 15. / 4. * (mc / m) * (r / o.a).powi(3) } else { 0. };
    let ez = if rot { 1.25 * w * w * r.powi(3) / (G * m) } else { 0. };
    let e2 = o.e * o.e;
    let pseudo = if gam < o.n { 0.9 * o.n } else { o.n * (1. + 7. * e2) };
    let edge = (w / pseudo - 1.).abs() < 1e-6 || (gam / o.n - 1.).abs() < 1e-9;
    if w >= pseudo {
        // Forced solution of dZ/dt + gamma Z = gamma (a/r)^3 exp(2if) in the rotating body, seen from the companion
        let mut z = Cx(0., 0.); let mut p = 0.;
        for q in -7..=7 {
            let j = (2 + q) as f64;
            z = z + Cx(gam * x2(q, o.e), 0.) / Cx(gam, j * o.n - 2. * w) * cis(j * o.ma - 2. * o.f);
            let k = q as f64;
            p += (Cx(gam * x0(q, o.e), 0.) / Cx(gam, k * o.n) * cis(k * o.ma)).0;
        }
        Shape { x: er * z.0, y: er * z.1, z: er / 2. * p + ez, slow: false, edge }
    } else {
        // Folonier et al. 2018, Eq. 49 (second order in the eccentricity, librating rotation)
        let mu = mc / (m + mc);
        let al = 1. - 3. * mu * er;
        let x = o.n / gam; let x2 = x * x;
        let (d1, da) = (1. + x2, 1. + al * al * x2);
        let (c, s) = (o.ma.cos(), o.ma.sin());
        let e = o.e;
        let rho = er * (1. + 1.5 * e2 - 4. * x2 * e2 / da + 3. * e / d1 * (c + x * s));
        let zc = er * (0.5 + 0.75 * e2) + ez * (1. + 12. * e2 * (1. + al * x2) / (d1 * da) + 2. * (1. - al).powi(2) * x2 * e2 / da);
        let zz = zc + 1.5 * er * e / d1 * ((1. - 16. * mu * x2 * ez / da) * c + (x + 8. * mu * x * (1. - al * x2) * ez / da) * s);
        let de = 3. * x * e2 / d1 * (2. + (1. + al) * x2) / da - 2. * x * e / da * c - 2. * e * x2 * al / da * s;
        Shape { x: rho * (2. * de).cos(), y: rho * (2. * de).sin(), z: zz, slow: true, edge }
    }
}
/// Accelerations and spin torques of creeping bodies; None on the edge between the two rotation regimes.
fn creep(s: &Sys) -> (Eff, bool, [bool; 2]) {
    let bs = &s.bodies;
    let h = s.heaviest();
    let mut out = Eff::zero(bs.len());
    let mut edge = false; let mut seen = [false; 2];
    let eta_t = |b: &Body| match b.tide { Tide::Central(TModel::Creep { eta }) | Tide::Orbiting(TModel::Creep { eta }) => Some(eta), _ => None };
    let eta_f = |b: &Body| match b.flat { Flat::Central(FModel::Creep { eta }) | Flat::Orbiting(FModel::Creep { eta }) => Some(eta), _ => None };
    for i in 0..bs.len() {
        if i == h { continue; }
        let (b, hb) = (&bs[i], &bs[h]);
        let o = orbit(G * (b.m + hb.m), sub(b.x, hb.x), sub(b.v, hb.v));
        let k = G * b.m * hb.m / o.r.powi(4);
        if s.flags.tides { if let Some(eta) = eta_t(b) {
            let sh = shape(&o, b.m, hb.m, b.r, eta, b.spin[2], true, false); edge |= sh.edge; seen[sh.slow as usize] = true;
            let q = k * b.r * b.r;
            let f = add(mul(o.rhat, -q * (0.9 * sh.x + 0.6 * sh.z)), mul(o.that, 0.6 * q * sh.y));
            let sc = q * (sh.x.abs() + sh.y.abs() + sh.z.abs());
            out.acc[i] = add(out.acc[i], mul(f, 1. / b.m)); out.sa[i] += sc / b.m;
            out.acc[h] = sub(out.acc[h], mul(f, 1. / hb.m)); out.sa[h] += sc / hb.m;
            out.l(i, [0., 0., -0.6 * q * o.r * sh.y], sc * o.r);
            if let Some(eta) = eta_t(hb) {
                let sh = shape(&o, hb.m, b.m, hb.r, eta, hb.spin[2], true, false); edge |= sh.edge; if eta > 0. { seen[sh.slow as usize] = true; }
                let q = k * hb.r * hb.r;
                out.l(h, [0., 0., -0.6 * q * o.r * sh.y], q * o.r * (sh.x.abs() + sh.y.abs()));
            }
        } }
        if s.flags.flat { if let Some(eta) = eta_f(b) {
            let sh = shape(&o, b.m, hb.m, b.r, eta, b.spin[2], false, true); edge |= sh.edge;
            let f = mul(o.rhat, -0.6 * k * b.r * b.r * sh.z);
            out.a(i, mul(f, 1. / b.m)); out.a(h, mul(f, -1. / hb.m));
        } }
    }
    (out, edge, seen)
}

pub fn c20(ctx: &mut Ctx) {
    let st = (gen_sys(Opts { planets: (1, 4), e_max: 0.5, m_max: 1e-1, a0: (0.01, 1.), ratio: (1.9, 3.2), ..Opts::default() }), prop::collection::vec((prop_oneof![6 => logu(1e-3, 1e3), 1 => Just(0.)], prop_oneof![3 => logu(0.2, 8.), 1 => logu(8., 300.), 1 => (-3.0..0.9f64)], prop::bool::weighted(0.85)), 6), prop::collection::vec(0.0..1.0f64, 0..3), prop::sample::select(vec![(true, true), (true, false), (false, true)]), prop::collection::vec(0u8..10, 4));
    ctx.law("closed_form", 12000, 300000, st, |(s, par, ph, (tides, flat), circ)| {
        let mut s = s.clone();
        flatten_plane(&mut s);
        let h = s.heaviest();
        s.flags = Flags { tides: *tides, flat: *flat, ..Flags::default() };
        let mut part = 0;
        let hb = s.bodies[h].clone();
        let mut nn = 0.;
        for i in 0..s.bodies.len() {
            if i == h { continue; }
            let b = &mut s.bodies[i];
            let mu = G * (b.m + hb.m);
            if circ[i % 4] == 0 { // exactly circular
                let x = sub(b.x, hb.x); let r = norm(x); let v = (mu / r).sqrt(); b.v = add(hb.v, [-x[1] / r * v, x[0] / r * v, 0.]);
            }
            let o = orbit(mu, sub(b.x, hb.x), sub(b.v, hb.v));
            let (g, w, on) = par[i % 6];
            b.spin = [0., 0., w * o.n]; nn = o.n;
            // viscosity from the relaxation factor gamma = g n
            let eta = if g == 0. { 0. } else { 3. * G * b.m * b.m / (8. * std::f64::consts::PI * b.r.powi(4) * g * o.n) };
            if on { b.tide = Tide::Orbiting(TModel::Creep { eta }); b.flat = Flat::Orbiting(FModel::Creep { eta }); part += 1; }
        }
        let (g, w, _) = par[h % 6];
        let b = &mut s.bodies[h];
        b.spin = [0., 0., w * nn];
        let eta = if g == 0. { 0. } else { 3. * G * b.m * b.m / (8. * std::f64::consts::PI * b.r.powi(4) * g * nn) };
        b.tide = Tide::Central(TModel::Creep { eta }); b.flat = Flat::Central(FModel::Creep { eta });
        if !tides { for b in s.bodies.iter_mut() { b.tide = Tide::Off; } }
        if !flat { for b in s.bodies.iter_mut() { b.flat = Flat::Off; } }
        let c = bound(&s, ph);
        let mut seen = [false; 2];
        let mut skipped = false;
        through(&c, 0., &mut |k, s, got, _| {
            let (want, edge, sn) = creep(s);
            if edge { skipped = true; return Ok(()); }
            seen[0] |= sn[0]; seen[1] |= sn[1];
            compare(&format!("creep, state {}", k), got, &want, 2e-6)
        })?;
        Ok(Out::new(part > 0 && !skipped).class(seen[0], "fast rotator").class(seen[1], "slow rotator").class(part > 1, "several planets").class(*flat && !*tides, "flattening only").class(*tides && *flat, "tides and flattening").class(circ[..s.bodies.len().min(4)].contains(&0), "circular"))
    });
    // A body that is not bound has no periodic figure: it takes no part, and nothing else is disturbed.
    let st = (gen_sys(Opts { planets: (1, 4), e_max: 0.5, m_max: 1e-3, a0: (0.01, 1.), ratio: (1.9, 3.2), ..Opts::default() }), logu(1e-3, 1e3), 0.2..8.0f64, 1.0..3.0f64, angle(), 0usize..4, any::<[bool; 2]>());
    ctx.law("unbound", 3000, 60000, st, |(s, g, w, fast, dir, k, [tides, flat])| {
        let mut s = s.clone();
        if !tides && !flat { return Ok(Out::new(false)); }
        flatten_plane(&mut s);
        let h = s.heaviest();
        s.flags = Flags { tides: *tides, flat: *flat, ..Flags::default() };
        let hb = s.bodies[h].clone();
        let loose = (0..s.bodies.len()).filter(|i| *i != h).nth(k % (s.bodies.len() - 1)).unwrap();
        for i in 0..s.bodies.len() {
            if i == h { continue; }
            let b = &mut s.bodies[i];
            let mu = G * (b.m + hb.m);
            let n = (mu / norm(sub(b.x, hb.x)).powi(3)).sqrt();
            if i == loose { let v = (2. * mu / norm(sub(b.x, hb.x))).sqrt() * (1.001 * fast); b.v = add(hb.v, [v * dir.cos(), v * dir.sin(), 0.]); }
            let b = &mut s.bodies[i];
            b.spin = [0., 0., w * n];
            let eta = 3. * G * b.m * b.m / (8. * std::f64::consts::PI * b.r.powi(4) * g * n);
            b.tide = Tide::Orbiting(TModel::Creep { eta }); b.flat = Flat::Orbiting(FModel::Creep { eta });
        }
        let b = &mut s.bodies[h];
        b.tide = Tide::Central(TModel::Creep { eta: 0. }); b.flat = Flat::Central(FModel::Creep { eta: 0. });
        if !tides { for b in s.bodies.iter_mut() { b.tide = Tide::Off; } }
        if !flat { for b in s.bodies.iter_mut() { b.flat = Flat::Off; } }
        let mut without = s.clone();
        without.bodies[loose].tide = Tide::Off; without.bodies[loose].flat = Flat::Off;
        let (want, edge, _) = creep(&without);
        if edge { return Ok(Out::new(false)); }
        compare("creep with an unbound body", &effects(&s, 0.)?, &want, 2e-6)?;
        Ok(Out::new(true).class(s.bodies.len() > 2, "other planets"))
    });
    // A perfectly adjusting body (viscosity to zero) has the figure of equilibrium and no torque; a rigid one no tide.
    ctx.law("limits", 4000, 60000, (logu(1e-8, 1e-2), logu(1e-5, 1e-3), logu(0.02, 1.), 0.0..0.2f64, angle(), 1.2..20.0f64, any::<bool>()), |(m, r, a, e, ph, w, fluid)| {
        let mu = G * (1. + m);
        let (x, v) = refmath::elements_to_cart(mu, *a, *e, 0., 0., 0.3, *ph);
        let n = (mu / a.powi(3)).sqrt();
        let g = if *fluid { 1e9 } else { 1e-9 };
        let eta = 3. * G * m * m / (8. * std::f64::consts::PI * r.powi(4) * g * n);
        let mut star = Body::plain(1., 1e-3, [0.; 3], [0.; 3]); star.tide = Tide::Central(TModel::Creep { eta: 0. }); star.flat = Flat::Central(FModel::Creep { eta: 0. });
        let mut p = Body::plain(*m, *r, x, v); p.spin = [0., 0., w.max(1.2 + 7. * e * e) * n]; p.tide = Tide::Orbiting(TModel::Creep { eta }); p.flat = Flat::Orbiting(FModel::Creep { eta });
        let s = Sys { bodies: vec![star, p], flags: Flags { tides: true, ..Flags::default() }, t0: 0. };
        let got = effects(&s, 0.)?;
        let d = norm(x);
        let er = 15. / 4. / m * (r / d).powi(3);
        // the mean polar oblateness is not periodic: a rigid body keeps it
        let want = -G * r * r / d.powi(4) * if *fluid { (0.9 + 0.3) * er } else { 0.3 * 15. / 4. / m * (r / a).powi(3) * (1. - e * e).powf(-1.5) };
        let scale = G * r * r / d.powi(4) * er;
        let f = dot(got.0[1], mul(x, 1. / d));
        ensure!(within("radial force", (f - want).abs() / scale, 2000. * e.powi(8) + 1e-5), "radial acceleration {} instead of {} in the {} limit", f, want, if *fluid { "fluid" } else { "rigid" });
        ensure!(within("torque", got.1[1][2].abs() / (scale * m * d), 2000. * e.powi(8) + 1e-5), "torque {:e} in the {} limit", got.1[1][2], if *fluid { "fluid" } else { "rigid" });
        Ok(Out::new(*e > 0.).class(*fluid, "fluid").class(!*fluid, "rigid"))
    });
}

// ---------------------------------------------------------------- Kaula
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Table { f: Vec<f64>, re: Vec<f64>, im: Vec<f64> }
fn table() -> impl Strategy<Value = Table> {
    (logu(1e-9, 1e-4), prop::collection::vec((0.02..0.6f64, -0.2..1.5f64, -0.2..1.0f64), 1..60), any::<u16>()).prop_map(|(f0, v, k)| {
        let mut f = f0; let mut t = Table { f: vec![], re: vec![], im: vec![] };
        // now and then the table uses all of the 1024 places
        let n = if k % 50 == 0 { 1024 } else { v.len() };
        for i in 0..n { let (d, re, im) = v[i % v.len()]; t.f.push(f); t.re.push(re); t.im.push(if i == 0 && k % 3 != 0 { 0. } else { im }); f *= if n == 1024 { 1.008 } else { 10f64.powf(d) }; }
        t
    })
}
impl Table {
    fn model(&self) -> TModel { TModel::Kaula { freq: self.f.clone(), re: self.re.clone(), im: self.im.clone() } }
}
/// Love number at a frequency (rad/s): (real part, imaginary part lagging)
fn love(t: &TModel, w: f64, planet: bool) -> (f64, f64) {
    let (f, re, im) = match t { TModel::Kaula { freq, re, im } => (freq, re, im), _ => unreachable!() };
    let at = if planet { w.abs() } else { w };
    let n = f.len();
    let (r, i) = if at <= f[0] { (re[0], im[0]) } else if at >= f[n - 1] { (re[n - 1], im[n - 1]) } else {
        let j = (0..n - 1).find(|&j| at < f[j + 1]).unwrap();
        let p = (at - f[j]) / (f[j + 1] - f[j]);
        (re[j] + p * (re[j + 1] - re[j]), im[j] + p * (im[j + 1] - im[j]))
    };
    (r, if planet && w < 0. { -i } else { i })
}
fn order(e: f64) -> (i32, bool) {
    let steps = [(0.1, 3), (0.15, 4), (0.2, 5), (0.25, 6), (0.3, 7)];
    let mut k = 2; let mut edge = false;
    for (t, o) in steps { if e > t { k = o; } if (e - t).abs() < 1e-9 { edge = true; } }
    (k, edge)
}
// Radial force, transverse force (on the companion) and secular torque on the orbit from the tide raised on a body of radius r, rotation w.
/// X^{-3,0}_0 is known in closed form
fn x0c(q: i32, e: f64) -> f64 { if q == 0 { (1. - e * e).powf(-1.5) } else { x0(q, e) } }
fn kaula_pull(o: &Orb, t: &TModel, mc: f64, r: f64, w: f64, planet: bool) -> (f64, f64, f64, f64, bool) {
    let (q, mut edge) = order(o.e);
    let c = G * mc * mc * r.powi(5) / o.a.powi(6);
    let (mut fr, mut ft, mut tq, mut sc) = (0., 0., 0., 0.);
    for a in -q..=q {
        let k0 = love(t, a as f64 * o.n / DAY, planet); let k2 = love(t, ((2 + a) as f64 * o.n - 2. * w) / DAY, planet);
        let (ga1, ga0) = (x0c(a, o.e), x2(a, o.e));
        // the sense of the lag is not defined at a vanishing frequency
        if ((2 + a) as f64 * o.n - 2. * w).abs() < 1e-9 * o.n && k2.1 != 0. { edge = true; }
        for b in -q..=q {
            let al = (b - a) as f64 * o.ma;
            let (gb1, gb0) = (x0c(b, o.e), x2(b, o.e));
            let z0 = Cx(k0.0, k0.1) * cis(al); let z2 = Cx(k2.0, k2.1) * cis(al);
            fr -= 0.75 * ga1 * gb1 * z0.0 + 2.25 * ga0 * gb0 * z2.0;
            ft -= 1.5 * ga0 * gb0 * z2.1;
            sc += (ga1 * gb1).abs() * (k0.0.abs() + k0.1.abs()) + 2.25 * (ga0 * gb0).abs() * (k2.0.abs() + k2.1.abs());
        }
        tq -= 1.5 * ga0 * ga0 * k2.1;
    }
    (c / o.r * fr, c / o.r * ft, c * tq, c / o.r * sc, edge)
}
fn kaula(s: &Sys) -> (Eff, bool) {
    let h = s.heaviest();
    let mut out = Eff::zero(s.bodies.len());
    let mut edge = false;
    for i in 0..s.bodies.len() {
        if i == h { continue; }
        let (b, hb) = (&s.bodies[i], &s.bodies[h]);
        if b.tide == Tide::Off { continue; }
        let o = orbit(G * (b.m + hb.m), sub(b.x, hb.x), sub(b.v, hb.v));
        let mut put = |p: (f64, f64, f64, f64, bool), who: usize| {
            let f = add(mul(o.rhat, p.0), mul(o.that, p.1));
            out.acc[i] = add(out.acc[i], mul(f, 1. / b.m)); out.sa[i] += p.3 / b.m;
            out.acc[h] = sub(out.acc[h], mul(f, 1. / hb.m)); out.sa[h] += p.3 / hb.m;
            out.l(who, [0., 0., -p.2], p.3 * o.r);
            edge |= p.4;
        };
        if let Tide::Orbiting(t @ TModel::Kaula { .. }) = &b.tide { put(kaula_pull(&o, t, hb.m, b.r, norm(b.spin), true), i); }
        if let Tide::Central(t @ TModel::Kaula { .. }) = &hb.tide { put(kaula_pull(&o, t, b.m, hb.r, norm(hb.spin), false), h); }
    }
    (out, edge)
}
// ---- bodies whose equator is inclined to the orbit: the expansion as the program has it (known finding: it does not tend to the
// coplanar one), so that any further deviation is noticed.
fn g3_recorded(e: f64) -> [[f64; 15]; 4] {
    let p = |c: &[(i32, f64)]| c.iter().map(|(k, c)| c * e.powi(*k)).sum::<f64>();
    let mut g = [[0.; 15]; 4];
    g[0] = [p(&[(7, 8. / 315.)]), p(&[(6, 81. / 5120.)]), p(&[(5, 1. / 120.), (7, 13. / 1440.)]), p(&[(4, 1. / 384.), (6, 1. / 384.)]), 0., p(&[(2, 1. / 8.), (4, 1. / 48.), (6, 55. / 3072.)]),
        p(&[(1, -1.), (3, 5. / 4.), (5, -7. / 48.), (7, 23. / 288.)]), p(&[(0, 1.), (2, -6.), (4, 423. / 64.), (6, -125. / 64.)]), p(&[(1, 5.), (3, -22.), (5, 607. / 24.), (7, -98. / 9.)]), p(&[(2, 127. / 8.), (4, -3065. / 48.), (6, 243805. / 3072.)]),
        p(&[(3, 163. / 4.), (5, -2577. / 16.), (7, 1089. / 5.)]), p(&[(4, 35413. / 384.), (6, -709471. / 1920.)]), p(&[(5, 23029. / 120.), (7, -35614. / 45.)]), p(&[(6, 385095. / 1024.)]), p(&[(7, 44377. / 63.)])];
    g[1] = [p(&[(7, 16337. / 2240.)]), p(&[(6, 48203. / 9240.)]), p(&[(5, 899. / 240.), (7, 2441. / 480.)]), p(&[(4, 343. / 128.), (6, 2819. / 640.)]), p(&[(3, 23. / 12.), (5, 89. / 24.), (7, 5663. / 960.)]), p(&[(2, 11. / 8.), (4, 49. / 16.), (6, 15665. / 3072.)]),
        e * (1. - e * e).powf(-2.5), p(&[(0, 1.), (2, 0.5), (4, 239. / 64.), (6, -3323. / 576.)]), p(&[(1, 3.), (3, 11. / 4.), (5, 245. / 48.), (7, 463. / 64.)]), p(&[(2, 53. / 8.), (4, 39. / 16.), (6, 7041. / 1024.)]), g[0][10], g[0][11], g[0][12], g[0][13], g[0][14]];
    for q in 0..15 { g[2][q] = g[1][14 - q]; g[3][q] = g[0][14 - q]; }
    g
}
/// force on the companion, secular force, scale; `x`, `v` of the companion (planetary tide) or of the planet relative to the star (stellar tide)
fn oblique_pull(mu: f64, x: V, v: V, t: &TModel, m_def: f64, r_def: f64, m_other: f64, r_other: f64, spin: V, planet: bool) -> (V, V, f64, bool) {
    let mut el = refmath::to_elements(mu, x, v);
    // (the program takes angles from their cosines and the eccentricity from its square)
    let cond = if el.e < 3e-8 { 0. } else { 5e-15 / (el.e * el.e * el.f.sin().abs().max(1e-30)) };
    let ill = el.i.sin() < 2e-4 || cond > 1e-4 || (el.e > 1e-9 && el.e < 1e-5) || if el.e < 3e-8 { (el.f + el.w).sin().abs() < 1e-4 } else { el.f.sin().abs() < 1e-4 };
    if el.e < 3e-8 { el.m = el.f + el.w; el.w = 0.; el.e = 0.; }
    let l = cross(x, v);
    let ob = norm(cross(l, spin)).atan2(dot(l, spin));
    let (i, n, wr, e) = (ob, (mu / el.a.powi(3)).sqrt(), norm(spin), el.e);
    let (si, ci) = i.sin_cos();
    let (q, mut edge) = order(e);
    if ob.sin() < 2e-4 || ill { edge = true; }
    let f20 = [-0.375 * si * si, 0.75 * si * si - 0.5, -0.375 * si * si];
    let f21 = [0.75 * si * (1. + ci), -1.5 * si * ci, 0.75 * si * (ci - 1.)];
    let f22 = [0.75 * (1. + ci).powi(2), 1.5 * si * si, 0.75 * (1. - ci).powi(2)];
    let (c3, c1) = (5. / 16. * si.powi(3), 0.75 * si);
    let f30 = [-c3, c3 - c1, c1 - c3, c3];
    let d = 15. / 16. * si * si;
    let f31 = [-d * (1. + 3. * ci), (d - 0.75) * (1. + 3. * ci), (d - 0.75) * (1. - 3. * ci), -d * (1. - 3. * ci)];
    let k = 15. / 8. * si * si;
    let f32 = [k * (1. + ci).powi(2), k * (1. - 2. * ci - 3. * ci * ci), -k * (1. + 2. * ci - 3. * ci * ci), -k * (1. - ci).powi(2)];
    let f33 = [15. / 8. * (1. + ci).powi(3), 6. * si * si * (1. + ci), 6. * si * si * (1. - ci), 15. / 8. * (1. - ci).powi(3)];
    let g2 = |p: usize, q: i32| match p { 0 => x2(q, e), 1 => x0c(q, e), _ => x2(-q, e) };
    let g3 = g3_recorded(e);
    let (r, mut sc) = (norm(x), 0.);
    let (mut fr, mut fn_, mut fo, mut frs, mut fns, mut fos) = (0., 0., 0., 0., 0., 0.);
    for p in 0..3usize { for a in -q..=q {
        let s = 2. - 2. * p as f64 + a as f64;
        let lv: Vec<(f64, f64)> = (0..3).map(|m| { let w = s * n - m as f64 * wr; if w.abs() < 1e-9 * n && !(m == 0 && s == 0.) { edge = true; } let (re, im) = love(t, w / DAY, planet); (-re, im) }).collect();
        let fp = [f20[p], f21[p], f22[p]];
        let ga = g2(p, a);
        // secular radial part
        frs += ga * ga * (fp[0].powi(2) * lv[0].0 + fp[1].powi(2) * lv[1].0 / 3. + fp[2].powi(2) * lv[2].0 / 12.);
        let (pp, aa) = (p as f64, a as f64);
        for kk in 0..3usize { let kf = kk as f64; for b in -q..=q { let bf = b as f64;
            let gb = g2(kk, b); let w = ga * gb;
            let al = (2. * pp - 2. * kf + bf - aa) * el.m + 2. * (pp - kf) * el.w;
            let be = (4. - 2. * pp - 2. * kf + aa - bf) * el.m + (4. - 2. * (kf + pp)) * el.w - el.n;
            let a1 = (2. * kf - 2. * pp + aa - bf) * el.m + 2. * (kf - pp) * el.w - el.n;
            let a2 = (2. * kf - 2. * pp + aa - bf) * el.m + 2. * (kf - pp) * el.w + el.n;
            let c = |ph: f64, z: (f64, f64)| ph.cos() * z.0 - ph.sin() * z.1;
            fr += w * (fp[0] * f20[kk] * c(al, lv[0]) + fp[1] * f21[kk] * c(al, lv[1]) / 3. + fp[2] * f22[kk] * c(al, lv[2]) / 12.);
            fn_ += w * (fp[0] * f21[kk] * (0.5 * c(a1, lv[0]) + 1.5 * c(be, lv[0])) + fp[1] / 3. * (0.5 * f22[kk] * c(a1, lv[1]) - 3. * f20[kk] * c(a2, lv[1])) - fp[2] * f21[kk] * c(a2, lv[2]) / 6.);
            fns += w * (fp[0] * f21[kk] * 2. * lv[0].0 + fp[1] / 3. * (0.5 * f22[kk] - 3. * f20[kk]) * lv[1].0 - fp[2] * f21[kk] * lv[2].0 / 6.);
            sc += w.abs() * lv.iter().zip(&fp).map(|(l, f)| (l.0.abs() + l.1.abs()) * f.abs()).sum::<f64>() * (f20[kk].abs() + f21[kk].abs() + f22[kk].abs());
        } }
        for kk in 0..4usize { let kf = kk as f64; for b in -q..=q { let bf = b as f64;
            let w = ga * g3[kk][(b + 7) as usize];
            let ph = |sg: f64| (2. * kf - 2. * pp + aa - bf - 1.) * el.m + 2. * (kf - pp - 1.) * el.w - sg * el.n;
            let c = |ph: f64, z: (f64, f64)| ph.sin() * z.0 - ph.cos() * z.1;
            let (m1, m2) = (-4. / 15f64.sqrt() * fp[1], -5. / (48. * 6f64.sqrt()) * fp[2]);
            fo += w * (m1 * (f32[kk] / 6. * c(ph(1.), lv[1]) + f30[kk] * c(ph(-1.), lv[1])) + m2 * (f33[kk] * c(ph(1.), lv[2]) + 2. * f31[kk] * c(ph(-1.), lv[2])));
            fos -= w * (m1 * (f32[kk] / 6. + f30[kk]) * lv[1].1 + m2 * (f33[kk] + 2. * f31[kk]) * lv[2].1);
            sc += w.abs() * ((m1 * (f32[kk].abs() + f30[kk].abs())).abs() * (lv[1].0.abs() + lv[1].1.abs()) + (m2 * (f33[kk].abs() + f31[kk].abs())).abs() * (lv[2].0.abs() + lv[2].1.abs()));
        } }
    } }
    // (the recorded expressions exchange masses and radii of the two bodies in part of the stellar tide)
    let (cr, cn, co) = if planet { let c = G * m_other * m_other * r_def.powi(5) / el.a.powi(6); (3. * c / r, c / r, -c / el.a) }
        else { (3. * G * m_def * m_def * r_def.powi(5) / el.a.powi(6) / r, G * m_def * m_def * r_other.powi(5) / el.a.powi(6) / r, -G * m_def * m_def * r_other.powi(5) / el.a.powi(7)) };
    let cop = x[0].hypot(x[1]);
    let (ct, st, cp, sp) = (x[2] / r, cop / r, x[0] / cop, x[1] / cop);
    let vec = |a: f64, b: f64, c: f64| [a * st * cp + b * ct * cp - c * sp, a * st * sp + b * ct * sp + c * cp, a * ct - b * st];
    (vec(cr * fr, cn * fn_, co * fo), vec(cr * frs, cn * fns, co * fos), sc * cr.abs().max(cn.abs()).max(co.abs()) * 3. * (1. + cond / 1e-9), edge)
}
fn kaula_oblique(s: &Sys) -> (Eff, bool) {
    let h = s.heaviest();
    let mut out = Eff::zero(s.bodies.len());
    let mut edge = false;
    for i in 0..s.bodies.len() {
        if i == h { continue; }
        let (b, hb) = (&s.bodies[i], &s.bodies[h]);
        if b.tide == Tide::Off { continue; }
        let (x, v) = (sub(b.x, hb.x), sub(b.v, hb.v));
        let mu = G * (b.m + hb.m);
        if let Tide::Orbiting(t @ TModel::Kaula { .. }) = &b.tide {
            let (f, fs, sc, e) = oblique_pull(mu, x, v, t, b.m, b.r, hb.m, hb.r, b.spin, true); edge |= e;
            out.acc[i] = add(out.acc[i], mul(f, 1. / b.m)); out.sa[i] += sc / b.m;
            out.acc[h] = sub(out.acc[h], mul(f, 1. / hb.m)); out.sa[h] += sc / hb.m;
            out.l(i, mul(cross(x, fs), -1.), 1e-3 * sc * norm(x) + norm(cross(x, fs)));
        }
        if let Tide::Central(t @ TModel::Kaula { .. }) = &hb.tide {
            let (f, fs, sc, e) = oblique_pull(mu, x, v, t, hb.m, hb.r, b.m, b.r, hb.spin, false); edge |= e;
            out.acc[i] = sub(out.acc[i], mul(f, 1. / b.m)); out.sa[i] += sc / b.m;
            out.acc[h] = add(out.acc[h], mul(f, 1. / hb.m)); out.sa[h] += sc / hb.m;
            out.l(h, cross(x, fs), 1e-3 * sc * norm(x) + norm(cross(x, fs)));
        }
    }
    (out, edge)
}
fn flat_sys(s: &Sys, circ: &[u8], par: &[f64]) -> Sys {
    let mut s = s.clone();
    flatten_plane(&mut s);
    let h = s.heaviest(); let hb = s.bodies[h].clone();
    for i in 0..s.bodies.len() {
        if i == h { continue; }
        let b = &mut s.bodies[i];
        let mu = G * (b.m + hb.m);
        if circ[i % circ.len()] == 0 { let x = sub(b.x, hb.x); let r = norm(x); let v = (mu / r).sqrt(); b.v = add(hb.v, [-x[1] / r * v, x[0] / r * v, 0.]); }
        let o = orbit(mu, sub(b.x, hb.x), sub(b.v, hb.v));
        b.spin = [0., 0., par[i % par.len()] * o.n];
    }
    s
}
pub fn c21(ctx: &mut Ctx) {
    let sys = || gen_sys(Opts { planets: (1, 4), e_max: 0.45, m_max: 1e-1, a0: (0.01, 1.), ratio: (1.9, 3.2), ..Opts::default() });
    let spins = || prop::collection::vec(prop_oneof![3 => 0.1..4.0f64, 1 => Just(1.0), 1 => logu(4., 300.)], 6);
    let st = (sys(), prop::collection::vec(table(), 6), prop::collection::vec(prop::bool::weighted(0.85), 6), spins(), prop::collection::vec(0u8..8, 4), prop::collection::vec(0.0..1.0f64, 0..3));
    ctx.law("planetary_tide", 6000, 120000, st, |(s, tabs, on, par, circ, ph)| {
        let mut s = flat_sys(s, circ, par);
        let h = s.heaviest();
        s.flags.tides = true;
        let mut part = 0;
        for i in 0..s.bodies.len() {
            s.bodies[i].tide = if i == h { Tide::Central(TModel::Ctl { k2: 0., sigma: 0., scale: 1. }) } else if on[i % 6] { part += 1; Tide::Orbiting(tabs[i % 6].model()) } else { Tide::Off };
        }
        let c = bound(&s, ph);
        let mut skipped = false;
        through(&c, 0., &mut |k, s, got, _| { let (want, edge) = kaula(s); if edge { skipped = true; return Ok(()); } compare(&format!("Kaula tide of the planets, state {}", k), got, &want, 2e-6) })?;
        let full = tabs.iter().any(|t| t.f.len() == 1024);
        Ok(Out::new(part > 0 && !skipped).class(part > 1, "several planets").class(full, "full table").class(circ[..s.bodies.len().min(4)].contains(&0), "circular").class(!c.more.is_empty(), "re-evaluated"))
    });
    // Equators inclined to the orbits
    let st = (gen_sys(Opts { planets: (1, 3), e_max: 0.45, i_max: 3.0, m_max: 1e-1, a0: (0.01, 1.), ratio: (1.9, 3.2), ..Opts::default() }), prop::collection::vec(table(), 4), prop::collection::vec(prop::bool::weighted(0.85), 4), spins(), 0u8..4, prop::collection::vec(0.0..1.0f64, 0..2));
    ctx.law("inclined", 6000, 100000, st, |(s, tabs, on, par, star, ph)| {
        let mut s = s.clone();
        let h = s.heaviest(); let hb = s.bodies[h].clone();
        s.flags.tides = true;
        let mut part = 0;
        for i in 0..s.bodies.len() {
            let b = &mut s.bodies[i];
            let x = sub(b.x, hb.x); let w = par[i % par.len()] * (G * (b.m + hb.m) / norm(x).powi(3)).sqrt();
            let z = norm(b.spin);
            if i != h { b.spin = if z > 0. { mul(b.spin, w / z) } else { [0.6 * w, 0., 0.8 * w] }; }
            b.tide = if i == h { Tide::Central(if *star == 0 { tabs[3].model() } else { TModel::Ctl { k2: 0., sigma: 0., scale: 1. } }) } else if *star == 1 { Tide::Orbiting(TModel::Ctl { k2: 0., sigma: 0., scale: 1. }) } else if on[i % 4] { part += 1; Tide::Orbiting(tabs[i % 3].model()) } else { Tide::Off };
        }
        if *star == 1 { s.bodies[h].tide = Tide::Central(tabs[3].model()); part += 1; }
        let c = bound(&s, ph);
        let mut skipped = false;
        through(&c, 0., &mut |k, s, got, _| { let (want, edge) = kaula_oblique(s); if edge { skipped = true; return Ok(()); } compare(&format!("Kaula tide of inclined bodies, state {}", k), got, &want, 1e-9) })?;
        Ok(Out::new(part > 0 && !skipped).class(part > 1, "several planets").class(*star < 2, "star deforms").class(!c.more.is_empty(), "re-evaluated"))
    });
    // A body that is not bound: the expansion in frequencies does not exist, nothing else is disturbed.
    let st = (sys(), table(), table(), spins(), 1.0..3.0f64, angle(), 0usize..4, any::<bool>());
    ctx.law("unbound", 2000, 40000, st, |(s, t, ts, par, fast, dir, k, star)| {
        let mut s = flat_sys(s, &[1], par);
        let h = s.heaviest(); let hb = s.bodies[h].clone();
        s.flags.tides = true;
        let loose = (0..s.bodies.len()).filter(|i| *i != h).nth(k % (s.bodies.len() - 1)).unwrap();
        for i in 0..s.bodies.len() {
            let b = &mut s.bodies[i];
            if i == loose { let r = norm(sub(b.x, hb.x)); let mu = G * (b.m + hb.m); let v = (2. * mu / r).sqrt() * (1.001 * fast); b.v = add(hb.v, [v * dir.cos(), v * dir.sin(), 0.]); b.spin = [0., 0., par[i % par.len()] * (mu / r.powi(3)).sqrt()]; }
            b.tide = if i == h { Tide::Central(if *star { ts.model() } else { TModel::Ctl { k2: 0., sigma: 0., scale: 1. } }) } else { Tide::Orbiting(t.model()) };
        }
        let got = effects(&s, 0.)?;
        let mut without = s.clone(); without.bodies[loose].tide = Tide::Off;
        let want = effects(&without, 0.)?;
        let (mut a, mut b) = (0f64, 0f64);
        for i in 0..s.bodies.len() { a = a.max(norm(want.0[i])); b = b.max(norm(want.1[i])); }
        for i in 0..s.bodies.len() {
            ensure!(within("acceleration", norm(sub(got.0[i], want.0[i])), 1e-9 * a), "body {} unbound: acceleration of body {} is {:?} instead of {:?}", loose, i, got.0[i], want.0[i]);
            ensure!(within("torque", norm(sub(got.1[i], want.1[i])), 1e-9 * b), "body {} unbound: torque on body {} is {:?} instead of {:?}", loose, i, got.1[i], want.1[i]);
        }
        Ok(Out::new(true).class(s.bodies.len() > 2, "other planets").class(*star, "star deforms"))
    });
    // Tides raised on the central body by its planets
    let st = (gen_sys(Opts { planets: (1, 4), e_max: 0.45, m_max: 1e-1, a0: (0.01, 1.), ..Opts::default() }), table(), table(), table(), logu(0.1, 30.), spins(), 0u8..8, prop::collection::vec(0.0..1.0f64, 0..3), any::<bool>(), prop::option::weighted(0.6, (-0.2..1.5f64, prop_oneof![3 => Just(0.), 1 => -0.2..1.0f64])));
    ctx.law("stellar_tide", 4000, 80000, st, |(s, neg, pos, pt, w, par, circ, ph, planet, zero)| {
        let mut s = flat_sys(s, &[*circ, 1], par);
        let h = s.heaviest(); let p = (h + 1) % s.bodies.len();
        s.flags.tides = true;
        // the response of a star is not symmetric: the table runs from negative to positive frequencies
        let mut t = Table { f: vec![], re: vec![], im: vec![] };
        let half = 511;
        for i in (0..neg.f.len().min(half)).rev() { t.f.push(-neg.f[i]); t.re.push(neg.re[i]); t.im.push(-neg.im[i]); }
        // a row at exactly the frequency of the static mode
        if let Some((re, im)) = zero { t.f.push(0.); t.re.push(*re); t.im.push(*im); }
        for i in 0..pos.f.len().min(half) { t.f.push(pos.f[i]); t.re.push(pos.re[i]); t.im.push(pos.im[i]); }
        let o = orbit(G * (s.bodies[h].m + s.bodies[p].m), sub(s.bodies[p].x, s.bodies[h].x), sub(s.bodies[p].v, s.bodies[h].v));
        s.bodies[h].spin = [0., 0., w * o.n];
        s.bodies[h].tide = Tide::Central(t.model());
        for i in 0..s.bodies.len() { if i != h { s.bodies[i].tide = if i > 2 && *circ > 5 { Tide::Off } else { Tide::Orbiting(if *planet { pt.model() } else { TModel::Ctl { k2: 0., sigma: 0., scale: 1. } }) }; } }
        let c = bound(&s, ph);
        let mut skipped = false;
        through(&c, 0., &mut |k, s, got, _| { let (want, edge) = kaula(s); if edge { skipped = true; return Ok(()); } compare(&format!("Kaula tide of the star, state {}", k), got, &want, 2e-6) })?;
        Ok(Out::new(!skipped).class(*planet, "both bodies deform").class(s.bodies.len() > 2, "several planets").class(*circ == 0, "circular").class(zero.is_some(), "row at frequency zero"))
    });
    // An orbit a hair from circular feels what the circular one does
    ctx.law("circular_limit", 3000, 40000, (table(), logu(0.01, 1.), logu(1e-8, 1e-2), logu(1e-6, 1e-3), 0.1..5.0f64, angle(), logu(1e-7, 1e-5)), |(t, a, m, r, w, ph, e)| {
        let mu = G * (1. + m);
        let run = |e: f64| -> Result<(Vec<V>, Vec<V>), String> {
            let rr = a * 1.0; let v = (mu / rr).sqrt() * (1. + e).sqrt();
            let mut star = Body::plain(1., 1e-3, [0.; 3], [0.; 3]); star.tide = Tide::Central(TModel::Ctl { k2: 0., sigma: 0., scale: 1. });
            let mut p = Body::plain(*m, *r, [rr * ph.cos(), rr * ph.sin(), 0.], [-v * ph.sin(), v * ph.cos(), 0.]);
            p.spin = [0., 0., w * (mu / rr.powi(3)).sqrt()]; p.tide = Tide::Orbiting(t.model());
            effects(&Sys { bodies: vec![star, p], flags: Flags { tides: true, ..Flags::default() }, t0: 0. }, 0.)
        };
        let (c0, c1) = (run(0.)?, run(*e)?);
        let top = t.re.iter().chain(&t.im).fold(0f64, |x, y| x.max(y.abs()));
        let sc = G * r.powi(5) / a.powi(7) / m * top;
        let n = (mu / a.powi(3)).sqrt();
        if (2. - 2. * w).abs() < 20. * e { return Ok(Out::new(false)); }
        let slope = (1..t.f.len()).map(|i| ((t.re[i] - t.re[i - 1]).abs() + (t.im[i] - t.im[i - 1]).abs()) / (t.f[i] - t.f[i - 1])).fold(0f64, f64::max);
        let rel = 2000. * e + 20. * slope / top.max(1e-300) * e * n / DAY;
        ensure!(within("acceleration", norm(sub(c0.0[1], c1.0[1])), sc * rel), "circular orbit: acceleration {:?}, eccentricity {}: {:?}", c0.0[1], e, c1.0[1]);
        ensure!(within("torque", norm(sub(c0.1[1], c1.1[1])), sc * m * a * rel), "circular orbit: torque {:?}, eccentricity {}: {:?}", c0.1[1], e, c1.1[1]);
        Ok(Out::new(norm(c0.0[1]) > 0.))
    });
    ctx.known("kaula-oblique-differs-from-coplanar", || {
        let at = |ob: f64| -> Option<(V, f64)> {
            let (x, v) = refmath::elements_to_cart(G, 0.02, 0.2, 0., 0., 0.7, 0.5);
            let mut star = Body::plain(1., R_SUN, [0.; 3], [0.; 3]); star.tide = Tide::Central(TModel::Ctl { k2: 0., sigma: 0., scale: 1. });
            let mut p = Body::plain(1e-5, 1e-4, x, v); p.spin = [4. * ob.sin(), 0., 4. * ob.cos()]; p.tide = Tide::Orbiting(TModel::Kaula { freq: vec![1e-9, 1e-5, 1e-3], re: vec![0.9, 0.8, 0.3], im: vec![0.001, 0.3, 0.01] });
            let g = effects(&Sys { bodies: vec![star, p], flags: Flags { tides: true, ..Flags::default() }, t0: 0. }, 0.).ok()?;
            Some((g.0[1], g.1[1][2]))
        };
        let (flat, tilted) = (at(0.)?, at(1e-6)?);
        if norm(sub(flat.0, tilted.0)) > 1e-3 * norm(flat.0) || (flat.1 - tilted.1).abs() > 1e-3 * flat.1.abs() { Some(format!("an obliquity of 1e-6 rad changes the frequency dependent tide from {:?} (torque {:e}) to {:?} (torque {:e})", flat.0, flat.1, tilted.0, tilted.1)) } else { None }
    });
}
