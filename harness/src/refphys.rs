//! Independent closed-form physics: the models the program documents, written from the publications'
//! vector formulas (not from the program's component code).
use crate::engine::*;
use crate::sys::*;

#[derive(Clone, Debug)]
/// accelerations, spin torques, and for both the sum of the magnitudes of the terms added (scale of the rounding error)
pub struct Eff { pub acc: Vec<V>, pub dl: Vec<V>, pub sa: Vec<f64>, pub sl: Vec<f64> }
impl Eff {
    pub fn zero(n: usize) -> Eff { Eff { acc: vec![[0.; 3]; n], dl: vec![[0.; 3]; n], sa: vec![0.; n], sl: vec![0.; n] } }
    pub fn a(&mut self, i: usize, v: V) { self.acc[i] = add(self.acc[i], v); self.sa[i] += norm(v); }
    pub fn l(&mut self, i: usize, v: V, scale: f64) { self.dl[i] = add(self.dl[i], v); self.sl[i] += scale.abs(); }
    pub fn plus(&mut self, o: &Eff) { for i in 0..self.acc.len() { self.acc[i] = add(self.acc[i], o.acc[i]); self.dl[i] = add(self.dl[i], o.dl[i]); self.sa[i] += o.sa[i]; self.sl[i] += o.sl[i]; } }
}
pub fn inertia(b: &Body) -> f64 { b.m * b.rg * b.rg * b.r * b.r }
/// Shift to the barycentric frame.
pub fn barycentric(bs: &[Body]) -> Vec<Body> {
    let m: f64 = bs.iter().map(|b| b.m).sum();
    let (mut cx, mut cv) = ([0.; 3], [0.; 3]);
    for b in bs { cx = add(cx, mul(b.x, b.m / m)); cv = add(cv, mul(b.v, b.m / m)); }
    bs.iter().map(|b| { let mut c = b.clone(); c.x = sub(b.x, cx); c.v = sub(b.v, cv); c }).collect()
}
pub fn newton(bs: &[Body]) -> Vec<V> {
    (0..bs.len()).map(|i| { let mut a = [0.; 3]; for j in 0..bs.len() { if i != j { let d = sub(bs[j].x, bs[i].x); a = add(a, mul(d, G * bs[j].m / norm(d).powi(3))); } } a }).collect()
}
fn ctl(t: &Tide) -> Option<(f64, f64)> { match t { Tide::Central(TModel::Ctl { k2, sigma, scale }) | Tide::Orbiting(TModel::Ctl { k2, sigma, scale }) => Some((*k2, sigma * scale)), _ => None } }
pub fn tide_host(bs: &[Body]) -> Option<usize> { bs.iter().position(|b| matches!(b.tide, Tide::Central(_))) }
/// Constant-time-lag tides (Bolmont et al. 2015). `pair(i, j)`: dissipation of body i as excited by j, when not the default.
pub fn tides(bs: &[Body], pair: &dyn Fn(usize, usize) -> Option<f64>) -> Eff {
    let mut e = Eff::zero(bs.len());
    let h = match tide_host(bs) { Some(h) => h, None => return e };
    let s = &bs[h];
    let (ks, ss0) = ctl(&s.tide).unwrap_or((0., 0.));
    for (i, p) in bs.iter().enumerate() {
        let (kp, sp0) = match &p.tide { Tide::Orbiting(_) => match ctl(&p.tide) { Some(c) => c, None => continue }, _ => continue };
        let (ss, sp) = (pair(h, i).unwrap_or(ss0), pair(i, h).unwrap_or(sp0));
        let r = sub(p.x, s.x); let v = sub(p.v, s.v);
        let d = norm(r); let n = mul(r, 1. / d); let vr = dot(n, v);
        // equilibrium bulge of either body, lagging by a constant time: F = -3 G k m^2 R^5/d^7 n - A [ 3 vr n - ... ] with A = 4.5 sigma R^10 m^2 / d^8
        let (a_s, a_p) = (4.5 * ss * s.r.powi(10) * p.m * p.m / d.powi(8), 4.5 * sp * p.r.powi(10) * s.m * s.m / d.powi(8));
        let cons = -3. * G / d.powi(7) * (p.m * p.m * s.r.powi(5) * ks + s.m * s.m * p.r.powi(5) * kp);
        let mut f = mul(n, cons);
        for (a, om) in [(a_s, s.spin), (a_p, p.spin)] {
            // -3 A vr n (radial) + A d (Omega x n - transverse velocity / d) d
            f = add(f, mul(n, -3. * a * vr));
            f = add(f, mul(sub(cross(om, r), sub(v, mul(n, vr))), a));
        }
        e.a(i, mul(f, 1. / p.m));
        e.a(h, mul(f, -1. / s.m));
        let extra = cons.abs() + (a_s + a_p).abs() * 4. * norm(v) + a_s.abs() * norm(s.spin) * d + a_p.abs() * norm(p.spin) * d;
        e.sa[i] += extra / p.m; e.sa[h] += extra / s.m;
        // torque on the deformed body = - r x (transverse force it exerts)
        let tq = |a: f64, om: V| mul(cross(r, sub(cross(om, r), sub(v, mul(n, vr)))), -a);
        e.l(i, tq(a_p, p.spin), a_p * d * (2. * d * norm(p.spin) + 2. * norm(v)));
        e.l(h, tq(a_s, s.spin), a_s * d * (2. * d * norm(s.spin) + 2. * norm(v)));
    }
    e
}
fn k2f(f: &Flat) -> f64 { match f { Flat::Central(FModel::Oblate { k2f }) | Flat::Orbiting(FModel::Oblate { k2f }) => *k2f, _ => 0. } }
pub fn flat_host(bs: &[Body]) -> Option<usize> { bs.iter().position(|b| matches!(b.flat, Flat::Central(_))) }
/// Rotationally flattened bodies: quadrupole J2 = k2f Omega^2 R^3 / (3 G M) along the spin axis, interacting with a point mass.
pub fn flattening(bs: &[Body]) -> Eff {
    let mut e = Eff::zero(bs.len());
    let h = match flat_host(bs) { Some(h) => h, None => return e };
    let s = &bs[h];
    for (i, p) in bs.iter().enumerate() {
        if !matches!(p.flat, Flat::Orbiting(FModel::Oblate { .. })) { continue; }
        let r = sub(p.x, s.x); let d = norm(r);
        for (b, other, who) in [(s, p, h), (p, s, i)] {
            let k = k2f(&b.flat);
            let w = norm(b.spin);
            if w == 0. { continue; }
            let u = mul(b.spin, 1. / w);
            // U = - G m_other m_b ... J2 term; C = m_other k2f Omega^2 R^5 / 6
            let c = other.m * k * w * w * b.r.powi(5) / 6.;
            let ru = dot(r, u);
            // force on the planet (relative vector from host to planet), gradient of -C (3 (r.u)^2/d^5 - 1/d^3)
            let f = add(mul(r, -3. * c / d.powi(5) + 15. * c * ru * ru / d.powi(7)), mul(u, -6. * c * ru / d.powi(5)));
            e.a(i, mul(f, 1. / p.m));
            e.a(h, mul(f, -1. / s.m));
            let sc = 18. * c / d.powi(4);
            e.sa[i] += sc / p.m; e.sa[h] += sc / s.m;
            e.l(who, mul(cross(r, mul(u, -6. * c * ru / d.powi(5))), -1.), 6. * c / d.powi(3));
        }
    }
    e
}
pub fn gr_host(bs: &[Body]) -> Option<(usize, GrImpl)> { bs.iter().enumerate().find_map(|(i, b)| if let Gr::Central(g) = b.gr { Some((i, g)) } else { None }) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kidder { Published, AsRecorded }
/// Kidder (1995) two-body equations (2.2a-c), (2.4a-b). `AsRecorded` carries the two recorded deviations of the program (see known_findings.json).
pub fn kidder(bs: &[Body], which: Kidder) -> Eff {
    let mut e = Eff::zero(bs.len());
    let h = gr_host(bs).unwrap().0;
    let s = &bs[h];
    let c2 = C * C;
    for (i, p) in bs.iter().enumerate() {
        if p.gr != Gr::Orbiting { continue; }
        let r = sub(p.x, s.x); let v = sub(p.v, s.v); let d = norm(r); let n = mul(r, 1. / d); let vr = dot(n, v); let v2 = dot(v, v);
        let m = s.m + p.m; let gm = G * m; let eta = s.m * p.m / (m * m);
        let k1 = -gm / (d * d * c2);
        let pn1 = add(mul(n, k1 * ((1. + 3. * eta) * v2 - 2. * (2. + eta) * gm / d - 1.5 * eta * vr * vr)), mul(v, k1 * -2. * (2. - eta) * vr));
        let k2 = if which == Kidder::Published { k1 / c2 } else { k1 };
        let g = gm / d;
        let pn2 = add(mul(n, k2 * (0.75 * (12. + 29. * eta) * g * g + eta * (3. - 4. * eta) * v2 * v2 + 15. / 8. * eta * (1. - 3. * eta) * vr.powi(4) - 1.5 * eta * (3. - 4. * eta) * v2 * vr * vr - 0.5 * eta * (13. - 4. * eta) * g * v2 - (2. + 25. * eta + 2. * eta * eta) * g * vr * vr)),
            mul(v, k2 * -0.5 * vr * (eta * (15. + 4. * eta) * v2 - (4. + 41. * eta + 8. * eta * eta) * g - 3. * eta * (3. + 2. * eta) * vr * vr)));
        let (s1, s2) = (mul(s.spin, inertia(s)), mul(p.spin, inertia(p)));
        let st = add(s1, s2);
        let dm = mul(sub(mul(s2, 1. / p.m), mul(s1, 1. / s.m)), (s.m - p.m) / m * m);
        let ks = if which == Kidder::Published { G / (c2 * d.powi(3)) } else { G / c2 };
        let a1 = add(mul(st, 2.), dm);
        let nv = cross(n, v);
        let first = if which == Kidder::Published { mul(n, 6. * dot(nv, a1)) } else { [6. * n[0] * nv[0] * a1[0], 6. * n[1] * nv[1] * a1[1], 6. * n[2] * nv[2] * a1[2]] };
        let so = mul(add(sub(first, cross(v, add(mul(st, 7.), mul(dm, 3.)))), mul(cross(n, add(mul(st, 3.), dm)), 3. * vr)), ks);
        let a = add(add(pn1, pn2), so);
        e.a(i, a);
        e.a(h, mul(a, -p.m / s.m));
        let sc = 6. * k1.abs() * (v2 + 2. * g) + norm(pn2) + ks * 12. * norm(v) * (norm(st) + norm(dm));
        e.sa[i] += sc; e.sa[h] += sc * p.m / s.m;
        let l = mul(cross(r, v), s.m * p.m / m);
        let ds = |own: V, mine: f64, oth: V, other: f64| mul(add(sub(mul(cross(l, own), 2. + 1.5 * other / mine), cross(oth, own)), mul(cross(n, own), 3. * dot(n, oth))), ks);
        e.l(h, ds(s1, s.m, s2, p.m), ks * norm(s1) * (norm(l) * (2. + 1.5 * p.m / s.m) + 4. * norm(s2)));
        e.l(i, ds(s2, p.m, s1, s.m), ks * norm(s2) * (norm(l) * (2. + 1.5 * s.m / p.m) + 4. * norm(s1)));
    }
    e
}
/// Anderson (1975) correction in Jacobi coordinates of the participating bodies (list order, host first).
pub fn anderson(bs: &[Body], a_newton: &[V]) -> Eff {
    let mut e = Eff::zero(bs.len());
    let h = gr_host(bs).unwrap().0;
    let part: Vec<usize> = (0..bs.len()).filter(|&i| i != h && bs[i].gr == Gr::Orbiting).collect();
    let mu = G * bs[h].m; let c2 = C * C;
    // Jacobi: relative to the centre of mass of host and previously listed participants
    let mut mass = bs[h].m; let (mut cx, mut cv, mut ca) = (bs[h].x, bs[h].v, a_newton[h]);
    let mut ja = vec![];
    for &i in &part {
        let b = &bs[i];
        let (r, v, a) = (sub(b.x, cx), sub(b.v, cv), sub(a_newton[i], ca));
        let d = norm(r);
        // coordinate velocity from canonical one: vt (1 - A(vt)) = v
        let mut vt = v;
        for _ in 0..60 { let aa = (0.5 * dot(vt, vt) + 3. * mu / d) / c2; vt = mul(v, 1. / (1. - aa)); }
        let vt2 = dot(vt, vt);
        let aa = (0.5 * vt2 + 3. * mu / d) / c2;
        let bb = (mu / d - 1.5 * vt2) * mu / d.powi(3) / c2;
        let vd = add(a, mul(r, bb));
        let dd = (dot(vt, vd) - 3. * mu / d.powi(3) * dot(r, v)) / c2;
        ja.push(sub(sub(mul(r, bb * (1. - aa)), mul(a, aa)), mul(vt, dd)));
        let mn = mass + b.m;
        cx = add(mul(cx, mass / mn), mul(b.x, b.m / mn)); cv = add(mul(cv, mass / mn), mul(b.v, b.m / mn)); ca = add(mul(ca, mass / mn), mul(a_newton[i], b.m / mn));
        mass = mn;
    }
    // back: centre of mass at rest; body k feels its Jacobi acceleration weighted, inner ones recoil
    let mut com = [0.; 3]; // acceleration of the centre of mass of host + participants up to k
    for k in (0..part.len()).rev() {
        let b = &bs[part[k]];
        let inner = mass - b.m;
        let com_in = sub(com, mul(ja[k], b.m / mass));
        e.acc[part[k]] = add(com_in, ja[k]);
        com = com_in; mass = inner;
    }
    e.acc[h] = com;
    let tot: f64 = part.iter().map(|&i| { let (r, v) = (norm(sub(bs[i].x, bs[h].x)), norm(sub(bs[i].v, bs[h].v))); mu / (r * r) * 10. * (v * v + mu / r) / c2 }).sum();
    for &i in &part { e.sa[i] = tot; }
    e.sa[h] = part.iter().zip(&ja).map(|(&i, a)| bs[i].m / bs[h].m * (norm(*a) + tot)).sum();
    e
}
/// Einstein-Infeld-Hoffmann equations (Newhall 1983) over all pairs where at least one body takes part; output for participants.
pub fn newhall(bs: &[Body], a_newton: &[V]) -> Eff {
    let n = bs.len();
    let mut e = Eff::zero(n);
    let c2 = C * C;
    for i in 0..n {
        if bs[i].gr == Gr::Off { continue; }
        let mut a = [0.; 3];
        let pot = |k: usize| (0..n).filter(|&l| l != k).map(|l| G * bs[l].m / norm(sub(bs[l].x, bs[k].x))).sum::<f64>();
        for j in 0..n { if j == i { continue; }
            let r = sub(bs[i].x, bs[j].x); let d = norm(r); let (vi, vj) = (bs[i].v, bs[j].v);
            let gm = G * bs[j].m;
            let br = -4. * pot(i) - pot(j) + dot(vi, vi) + 2. * dot(vj, vj) - 4. * dot(vi, vj) - 1.5 * (dot(r, vj) / d).powi(2) - 0.5 * dot(r, a_newton[j]);
            a = sub(a, mul(r, gm / (d.powi(3) * c2) * br));
            a = add(a, mul(sub(vi, vj), gm / (d.powi(3) * c2) * dot(r, sub(mul(vi, 4.), mul(vj, 3.)))));
            a = add(a, mul(a_newton[j], 3.5 * gm / (d * c2)));
            e.sa[i] += gm / (d * d * c2) * (4. * pot(i) + pot(j) + 8. * (dot(vi, vi) + dot(vj, vj)) + 4. * d * norm(a_newton[j]));
        }
        e.acc[i] = a;
    }
    e
}
pub fn gr(bs: &[Body], k: Kidder) -> Eff {
    match gr_host(bs) { None => Eff::zero(bs.len()), Some((_, GrImpl::Kidder)) => kidder(bs, k),
        Some((_, GrImpl::Anderson)) => { let b = barycentric(bs); anderson(&b, &newton(&b)) }
        Some((_, GrImpl::Newhall)) => { let b = barycentric(bs); newhall(&b, &newton(&b)) } }
}
pub fn migration_time(d: &DiskP, t: f64, ms: f64, mp: f64, dist: f64, a: f64) -> f64 {
    let kb = 1.380649e-23; let mh = 1.672162841e-27;
    let temp = 280. * ms / dist.sqrt();
    let cs2 = kb * temp / (d.mu * mh) / (AU * AU) * DAY * DAY; // AU^2/day^2
    let om = (G * ms / dist.powi(3)).sqrt();
    let nu = d.alpha * cs2 / om;
    let sig = if dist > d.inner { d.sigma0 / dist * (-dist / d.outer).exp() * (1. - (d.inner / dist).sqrt()) * (-t / d.life).exp() } else { 0. };
    let speed = 1.5 * nu / a * (2. * sig * a * a / mp).min(1.);
    a / speed
}
pub fn disk_host(bs: &[Body]) -> Option<(usize, DiskP)> { bs.iter().enumerate().find_map(|(i, b)| if let Dsk::Central(d) = b.disk { Some((i, d)) } else { None }) }
pub fn disk(bs: &[Body], t: f64) -> Eff {
    let mut e = Eff::zero(bs.len());
    let (h, dp) = match disk_host(bs) { Some(x) => x, None => return e };
    let s = &bs[h];
    for (i, p) in bs.iter().enumerate() {
        if p.disk != Dsk::Orbiting { continue; }
        let r = sub(p.x, s.x); let v = sub(p.v, s.v); let d = norm(r);
        let mu = G * (s.m + p.m);
        let a = 1. / (2. / d - dot(v, v) / mu);
        let tau = migration_time(&dp, t, s.m, p.m, d, a);
        if !tau.is_finite() { continue; }
        let (te, ti) = (tau / 10., tau / 10.);
        let mut acc = mul(v, -1. / tau);
        acc = sub(acc, mul(r, 2. * dot(r, v) / (d * d) / te));
        acc[2] -= 2. * v[2] / ti;
        e.a(i, acc);
        e.a(h, mul(acc, -p.m / s.m));
        let sc = norm(v) * (1. + 20. + 20.) / tau.abs();
        e.sa[i] += sc; e.sa[h] += sc * p.m / s.m;
    }
    e
}
pub fn wind(bs: &[Body]) -> Eff {
    let mut e = Eff::zero(bs.len());
    for (i, b) in bs.iter().enumerate() { if let Some([k, sat]) = b.wind {
        let w2 = dot(b.spin, b.spin).min(sat * sat);
        let q = mul(b.spin, -k * w2 * (b.r / R_SUN / b.m).sqrt());
        e.l(i, q, norm(q));
    } }
    e
}
/// Sum of all effects switched on.
pub fn all(s: &Sys, t: f64, k: Kidder) -> Eff {
    let mut e = Eff::zero(s.bodies.len());
    if s.flags.tides { e.plus(&tides(&s.bodies, &|_, _| None)); }
    if s.flags.flat { e.plus(&flattening(&s.bodies)); }
    if s.flags.gr { e.plus(&gr(&s.bodies, k)); }
    if s.flags.disk { e.plus(&disk(&s.bodies, t)); }
    if s.flags.wind { e.plus(&wind(&s.bodies)); }
    e
}
/// The system evolved over `dt` by the reference model (Newtonian gravity plus the enabled effects) with an extrapolation integrator.
pub fn evolve(s: &Sys, dt: f64, steps: usize, k: Kidder) -> Sys {
    let bs = barycentric(&s.bodies);
    let n = bs.len();
    let inert: Vec<f64> = bs.iter().map(|b| b.m * b.r * b.r * b.rg * b.rg).collect();
    let mut y0 = vec![];
    for b in &bs { y0.extend(b.x); }
    for b in &bs { y0.extend(b.v); }
    for (b, i) in bs.iter().zip(&inert) { y0.extend(mul(b.spin, *i)); }
    let unpack = |y: &[f64]| -> Sys {
        let mut q = s.clone();
        for (i, b) in q.bodies.iter_mut().enumerate() {
            let at = |o: usize| [y[3 * (o * n + i)], y[3 * (o * n + i) + 1], y[3 * (o * n + i) + 2]];
            b.x = at(0); b.v = at(1); b.spin = if inert[i] > 0. { mul(at(2), 1. / inert[i]) } else { b.spin };
        }
        q
    };
    let y = crate::refmath::gbs(&y0, s.t0, dt, steps, &|t, y| {
        let q = unpack(y);
        let a = newton(&q.bodies);
        let e = all(&q, t, k);
        let mut d = y[3 * n..6 * n].to_vec();
        for i in 0..n { d.extend(add(a[i], e.acc[i])); }
        for i in 0..n { d.extend(e.dl[i]); }
        d
    });
    let mut q = unpack(&y);
    q.t0 += dt;
    q
}
