//! C22 orbital tools: elements <-> coordinates, geometry, interpolation.
use crate::engine::*;
use crate::ensure;
use crate::refmath::*;
use crate::sys::*;
use posidonius::tools;
use proptest::prelude::*;

fn ecc() -> impl Strategy<Value = f64> + Clone { prop_oneof![1 => Just(0.), 2 => logu(1e-7, 0.1), 4 => 0.0..0.95f64, 1 => (1.0..4.0f64).prop_map(|x| 1. - 10f64.powf(-x))] }
fn incl() -> impl Strategy<Value = f64> + Clone { let pi = std::f64::consts::PI; prop_oneof![1 => Just(0.), 1 => Just(pi), 1 => Just(0.5 * pi), 1 => logu(1e-6, 0.1), 5 => 0.0..pi] }
fn ang_any() -> impl Strategy<Value = f64> + Clone { prop_oneof![4 => angle(), 1 => Just(0.), 1 => Just(std::f64::consts::PI), 1 => Just(0.5 * std::f64::consts::PI), 1 => -40.0..40.0f64] }
fn adiff(a: f64, b: f64) -> f64 { let d = (a - b).rem_euclid(TAU); d.min(TAU - d) }
/// hyperbolic anomaly by bisection
fn hyp_anomaly(e: f64, m: f64) -> f64 {
    let s = m.signum(); let m = m.abs();
    let (mut lo, mut hi) = (0., (2. * m / e + 2.).ln() + 2. + m);
    for _ in 0..300 { let x = 0.5 * (lo + hi); if e * x.sinh() - x > m { hi = x } else { lo = x } }
    s * 0.5 * (lo + hi)
}
fn state(gm: f64, q: f64, e: f64, i: f64, p: f64, n: f64, l: f64) -> (V, V) { let (x, y, z, u, v, w) = tools::calculate_cartesian_coordinates(gm, q, e, i, p, n, l); ([x, y, z], [u, v, w]) }

pub fn c22(ctx: &mut Ctx) {
    // Elements to coordinates, against an own solution of Kepler's equation
    ctx.law("elements_to_coordinates", 240000, 6000000, (logu(1e-4, 10.), logu(1e-3, 100.), ecc(), ang_any(), ang_any(), ang_any(), ang_any()), |(gm, a, e, i, n, w, l)| {
        let (x, v) = state(*gm, a * (1. - e), *e, *i, w + n, *n, *l);
        let a2 = (a * (1. - e)) / (1. - e);
        let (rx, rv) = elements_to_cart(*gm, a2, *e, *i, *n, w + n - n, *l);
        let vs = (gm / a2).sqrt();
        // close to pericentre of an eccentric orbit the anomaly is ill conditioned
        let cond = 1. / (1. - e);
        ensure!(within("position", norm(sub(x, rx)) / a2, 1e-9 * cond), "position {:?} instead of {:?}", x, rx);
        ensure!(within("velocity", norm(sub(v, rv)) / vs, 1e-9 * cond * cond), "velocity {:?} instead of {:?}", v, rv);
        Ok(Out::new(*e > 0.).class(*e > 0.9, "e > 0.9").class(*e == 0., "circular").class(*l < 0. || *l > TAU, "anomaly outside one turn"))
    });
    ctx.law("unbound_to_coordinates", 120000, 3000000, (logu(1e-4, 10.), logu(1e-3, 100.), prop_oneof![1 => Just(1.0), 4 => logu(1e-3, 5.).prop_map(|x| 1. + x), 1 => logu(1e-6, 1e-3).prop_map(|x| 1. + x)], ang_any(), ang_any(), ang_any(), prop_oneof![8 => -20.0..20.0f64, 2 => -0.5..0.5f64, 1 => Just(0.), 4 => (logu(1e-10, 0.1), any::<bool>()).prop_map(|(x, s)| if s { x } else { -x })]), |(gm, q, e, i, n, w, l)| {
        let (x, v) = state(*gm, *q, *e, *i, w + n, *n, *l);
        let om = w + n - n;
        let (rx, rv) = if *e > 1. {
            let f = hyp_anomaly(*e, *l);
            let a = q / (e - 1.); let r = a * (e * f.cosh() - 1.); let nn = (gm / a.powi(3)).sqrt(); let s = (e * e - 1.).sqrt();
            plane(a * (e - f.cosh()), a * s * f.sinh(), -a * a * nn / r * f.sinh(), a * a * nn / r * s * f.cosh(), *i, *n, om)
        } else {
            // Barker's equation: D + D^3/3 = M with D = tan(f/2)
            let (mut lo, mut hi) = (-40f64, 40f64); for _ in 0..200 { let d = 0.5 * (lo + hi); if d + d * d * d / 3. > *l { hi = d } else { lo = d } }
            conic_to_cart(*gm, *q, 1., *i, *n, om, 2. * (0.5 * (lo + hi)).atan())
        };
        let (r, s) = (norm(rx), norm(rv));
        let k = if *e == 1. { 1e-9 } else { 1e-12 / (e - 1.).min(1.) };
        ensure!(within("position", norm(sub(x, rx)) / r, k), "e={} M={}: position {:?} instead of {:?}", e, l, x, rx);
        ensure!(within("velocity", norm(sub(v, rv)) / s, k), "e={} M={}: velocity {:?} instead of {:?}", e, l, v, rv);
        Ok(Out::new(true).class(*e == 1., "parabola").class(l.abs() < 0.636 * e - 0.6, "small anomaly").class(*l < 0., "inbound").class(*e > 1. && *e < 1.001, "nearly parabolic"))
    });
    // Coordinates to elements and back
    let st = (logu(1e-4, 10.), logu(1e-3, 100.), prop_oneof![6 => ecc(), 2 => logu(1e-2, 5.).prop_map(|x| 1. + x)], incl(), ang_any(), ang_any(), prop_oneof![1 => Just(0.), 6 => -2.5..2.5f64, 1 => Just(std::f64::consts::PI)], any::<bool>());
    ctx.law("coordinates_to_elements", 400000, 9000000, st, |(gm, q, e, i, n, w, f, snap)| {
        let f = if *e >= 1. { f.clamp(-1.3, 1.3) * (std::f64::consts::PI - (1. / e).acos()) / 1.4 * 0.5 } else { *f };
        let (mut x, mut v) = conic_to_cart(*gm, *q, *e, *i, *n, *w, f);
        // orbits exactly in a coordinate plane, positions exactly on an axis
        if *snap { let (rx, rv) = (norm(x), norm(v)); for k in 0..3 { if x[k].abs() < 2e-15 * rx { x[k] = 0.; } if v[k].abs() < 2e-15 * rv { v[k] = 0.; } } }
        let exact = *snap && (0..3).any(|k| cross(x, v)[k] == 0.);
        let (a, q1, e1, i1, p1, n1, l1, per) = tools::calculate_keplerian_orbital_elements(*gm, ax(x), ax(v));
        let a0 = q / (1. - e);
        let c = 1. / (1. - e).abs().min(1.);
        ensure!(within("semi-major axis", (a / a0 - 1.).abs(), 1e-11 * c * c), "semi-major axis {} instead of {}", a, a0);
        ensure!(within("perihelion", (q1 / q - 1.).abs(), 1e-7), "perihelion distance {} instead of {}", q1, q);
        ensure!(within("eccentricity", (e1 - e).abs(), if *e < 1e-3 { 1.5e-7 } else { 1e-12 / e * c }), "eccentricity {} instead of {}", e1, e);
        let (q2, e2) = tools::calculate_perihelion_distance_and_eccentricity(*gm, ax(x), ax(v));
        ensure!(within("perihelion 2", (q2 / q - 1.).abs(), 1e-7) && within("eccentricity 2", (e2 - e).abs(), if *e < 1e-3 { 1.5e-7 } else { 1e-12 / e * c }), "perihelion distance and eccentricity {} {} instead of {} {}", q2, e2, q, e);
        let ev = va(tools::calculate_eccentricity_vector(*gm, ax(x), ax(v)));
        let (pd, _) = plane(1., 0., 0., 1., *i, *n, *w);
        ensure!(within("eccentricity vector", norm(sub(ev, mul(pd, *e))), 1e-12 * (1. + e)), "eccentricity vector {:?} instead of {:?}", ev, mul(pd, *e));
        if *e < 1. { let p0 = TAU * (a0.powi(3) / gm).sqrt(); ensure!(within("period", (per / p0 - 1.).abs(), 2e-11 * c * c), "orbital period {} instead of {}", per, p0); }
        ensure!(within("inclination", (i1 - i).abs(), 5e-8), "inclination {} instead of {} (node {})", i1, i, n);
        let si = i.sin().abs();
        if si > 1e-5 { ensure!(within("node", adiff(n1, *n), 1e-11 / si), "longitude of the ascending node {} instead of {}", n1, n); }
        if *e > 1e-4 && si > 1e-5 { ensure!(within("perihelion longitude", adiff(p1, w + n), 1e-10 / si + 1e-12 / e + 2e-8 * (si < 1e-2) as u8 as f64), "longitude of perihelion {} instead of {}", p1, w + n); }
        // mean anomaly
        let ea = if *e < 1. { let ea = 2. * ((1. - e).sqrt() * (f / 2.).sin()).atan2((1. + e).sqrt() * (f / 2.).cos()); ea - e * ea.sin() } else { let h = 2. * (((e - 1.) / (e + 1.)).sqrt() * (f / 2.).tan()).atanh(); e * h.sinh() - h };
        if *e > 1e-4 {
            let d = if *e < 1. { adiff(l1, ea) } else { (l1 - ea).abs() };
            ensure!(within("mean anomaly", d, 4e-7 * (1. + e) + 6e-8 / e * c.sqrt().min(10.)), "mean anomaly {} instead of {} (e={}, true anomaly {})", l1, ea, e, f);
        }
        if *e < 1. { ensure!(l1 >= 0. && l1 <= TAU, "mean anomaly {} outside one turn", l1); }
        // and back
        if *e < 1. || *e > 1.01 {
            let (bx, bv) = state(*gm, q1, e1, i1, p1, n1, l1);
            let tol = 2e-7 + (if e1 > 0. { 6e-8 / e1 } else { 0. }) + 2e-7 * c;
            ensure!(within("round trip position", norm(sub(bx, x)) / norm(x), tol) && within("round trip velocity", norm(sub(bv, v)) / norm(v), tol * c.sqrt().max(1.)), "elements of {:?} {:?} lead back to {:?} {:?}", x, v, bx, bv);
        }
        Ok(Out::new(true).class(*e == 0., "circular").class(*e > 1., "hyperbola").class(*i == 0. || si < 1e-15, "planar").class(i.cos() < 0., "retrograde").class(w.sin() * i.sin() < 0., "perihelion below the plane").class(n.cos() < 0., "node on the far side").class(exact && si > 0.5, "plane containing an axis"))
    });
    // Angles between orbit and equator, initial spins, pseudo-synchronous rotation
    ctx.law("spin_geometry", 240000, 4500000, (logu(1e-3, 10.), logu(1e-2, 10.), 0.0..0.9f64, incl(), angle(), angle(), angle(), unit3(), logu(1e-3, 100.), -1.6..1.6f64, logu(0.05, 3.), logu(1e-8, 0.1)), |(gm, a, e, i, n, w, l, sd, sw, ob, ms, mp)| {
        let (x, v) = elements_to_cart(*gm, *a, *e, *i, *n, *w, *l);
        let h = cross(x, v);
        let got = tools::calculate_inclination_orbital_equatorial_plane(ax(x), ax(v), ax(mul(*sd, *sw)));
        let want = norm(cross(h, *sd)).atan2(dot(h, *sd));
        ensure!(within("orbit-equator angle", (got - want).abs(), 5e-8), "angle between orbit and equator {} instead of {}", got, want);
        let s = va(tools::calculate_spin(*sw, *i, *ob, *n));
        // tilted about the node by the obliquity beyond the orbital inclination
        let hn = mul(h, 1. / norm(h)); let node = [n.cos(), n.sin(), 0.];
        let r = Rot::axis(node, *ob).apply(hn);
        ensure!(within("initial spin", norm(sub(s, mul(r, *sw))) / sw, 1e-9), "spin {:?} instead of {:?} (inclination {}, obliquity {}, node {})", s, mul(r, *sw), i, ob, n);
        let p = tools::calculate_pseudo_synchronization_period(*a, *e, *ms, *mp);
        let e2 = e * e;
        let mean = (G * (ms + mp) / a.powi(3)).sqrt();
        let want = TAU / (mean * (1. + 7.5 * e2 + 45. / 8. * e2 * e2 + 5. / 16. * e2.powi(3)) / ((1. + 3. * e2 + 0.375 * e2 * e2) * (1. - e2).powf(1.5)));
        ensure!(within("pseudo-synchronous period", (p / want - 1.).abs(), 1e-9), "pseudo-synchronisation period {} instead of {}", p, want);
        Ok(Out::new(true))
    });
    // Interpolation in tables
    ctx.law("interpolation", 160000, 3000000, (prop::collection::vec((logu(1e-3, 10.), -5.0..5.0f64), 1..12), -3.0..3.0f64, 0.0..1.0f64, any::<u16>(), 0u8..4), |(dy, x0, f, k, kind)| {
        let mut xs = vec![]; let mut x = *x0; for (d, _) in dy { x += d; xs.push(x); }
        let ys: Vec<f64> = dy.iter().map(|p| p.1).collect();
        let n = xs.len(); let k = *k as usize % n;
        let t = match kind { 0 => xs[k], 1 => xs[0] - f, 2 => xs[n - 1] + f, _ => if k + 1 < n { xs[k] + (xs[k + 1] - xs[k]) * f } else { xs[k] } };
        let (want, cwant) = if t <= xs[0] { (ys[0], ys[0]) } else if t >= xs[n - 1] { (ys[n - 1], ys[n - 1]) } else {
            let j = (0..n - 1).find(|&j| t >= xs[j] && t < xs[j + 1]).unwrap();
            let p = (t - xs[j]) / (xs[j + 1] - xs[j]);
            (ys[j] + p * (ys[j + 1] - ys[j]), ys[j] + (1. - (p * std::f64::consts::PI).cos()) / 2. * (ys[j + 1] - ys[j])) };
        let (l, li) = tools::linear_interpolation(t, &xs, &ys);
        let (c, ci) = tools::cosine_interpolation(t, &xs, &ys);
        ensure!(within("linear", (l - want).abs(), 1e-12), "linear interpolation at {} gives {} instead of {}", t, l, want);
        ensure!(within("cosine", (c - cwant).abs(), 1e-12), "cosine interpolation at {} gives {} instead of {}", t, c, cwant);
        let idx = if t < xs[0] { 0 } else { (0..n).rev().find(|&j| xs[j] <= t).unwrap() };
        ensure!(li == idx && ci == idx, "interval index {} / {} instead of {}", li, ci, idx);
        Ok(Out::new(n > 2).class(*kind == 0, "at a node").class(*kind == 1 || *kind == 2, "outside"))
    });
}
