//! Independent reference mathematics: Kepler problem, rotations, extrapolation integrator.
use crate::engine::*;
pub const TAU: f64 = 2. * std::f64::consts::PI;

/// Eccentric anomaly by bisection + Newton (robust for any e<1).
pub fn ecc_anomaly(e: f64, m: f64) -> f64 {
    let m = m.rem_euclid(TAU);
    let (mut lo, mut hi) = (0.0, TAU);
    let mut x = if e < 0.8 { m } else { std::f64::consts::PI };
    for _ in 0..200 {
        let f = x - e * x.sin() - m;
        if f > 0. { hi = x } else { lo = x }
        let d = 1. - e * x.cos();
        let mut y = x - f / d;
        if !(y > lo && y < hi) { y = 0.5 * (lo + hi); }
        if (y - x).abs() < 1e-16 * (1. + x.abs()) { return y; }
        x = y;
    }
    x
}
/// elliptic elements -> position, velocity. `om` node, `w` argument of pericentre.
pub fn elements_to_cart(mu: f64, a: f64, e: f64, i: f64, om: f64, w: f64, ma: f64) -> (V, V) {
    let ea = ecc_anomaly(e, ma);
    let n = (mu / (a * a * a)).sqrt();
    let s = (1. - e * e).sqrt();
    let (x, y) = (a * (ea.cos() - e), a * s * ea.sin());
    let r = a * (1. - e * ea.cos());
    let (vx, vy) = (-a * a * n / r * ea.sin(), a * a * n / r * s * ea.cos());
    plane(x, y, vx, vy, i, om, w)
}
pub fn plane(x: f64, y: f64, vx: f64, vy: f64, i: f64, om: f64, w: f64) -> (V, V) {
    let (co, so, cw, sw, ci, si) = (om.cos(), om.sin(), w.cos(), w.sin(), i.cos(), i.sin());
    let p = [co * cw - so * sw * ci, so * cw + co * sw * ci, sw * si];
    let q = [-co * sw - so * cw * ci, -so * sw + co * cw * ci, cw * si];
    (add(mul(p, x), mul(q, y)), add(mul(p, vx), mul(q, vy)))
}
/// conic from pericentre distance and true anomaly
pub fn conic_to_cart(mu: f64, q: f64, e: f64, i: f64, om: f64, w: f64, f: f64) -> (V, V) {
    let p = q * (1. + e);
    let r = p / (1. + e * f.cos());
    let k = (mu / p).sqrt();
    plane(r * f.cos(), r * f.sin(), -k * f.sin(), k * (e + f.cos()), i, om, w)
}
/// Stumpff c0..c3
fn stumpff(x: f64) -> [f64; 4] {
    if x.abs() < 0.1 {
        let mut c2 = 0.; let mut c3 = 0.; let mut t2 = 0.5; let mut t3 = 1. / 6.;
        for k in 0..14 { c2 += t2; c3 += t3; t2 *= -x / ((2 * k + 3) as f64 * (2 * k + 4) as f64); t3 *= -x / ((2 * k + 4) as f64 * (2 * k + 5) as f64); }
        [1. - x * c2, 1. - x * c3, c2, c3]
    } else if x > 0. { let s = x.sqrt(); [s.cos(), s.sin() / s, (1. - s.cos()) / x, (s - s.sin()) / (x * s)] }
    else { let y = -x; let s = y.sqrt(); [s.cosh(), s.sinh() / s, (s.cosh() - 1.) / y, (s.sinh() - s) / (y * s)] }
}
/// Exact two-body propagation of relative coordinates with universal variables (any conic).
pub fn kepler_propagate(mu: f64, r0: V, v0: V, t: f64) -> (V, V) {
    let r = norm(r0);
    let eta = dot(r0, v0);
    let beta = 2. * mu / r - dot(v0, v0);
    let zeta = mu - beta * r;
    // remove whole periods for bound orbits
    let mut t = t;
    if beta > 0. { let p = TAU * mu / beta.powf(1.5); t -= (t / p).floor() * p; }
    let tf = |s: f64| -> (f64, f64) { // time and radius as function of s
        let c = stumpff(beta * s * s);
        let (g1, g2, g3) = (s * c[1], s * s * c[2], s * s * s * c[3]);
        (r * s + eta * g2 + zeta * g3, r + eta * g1 + zeta * g2)
    };
    let (mut lo, mut hi);
    if beta > 0. { lo = 0.0; hi = TAU / beta.sqrt(); }
    else if t >= 0. { lo = 0.; hi = t / r + 1e-9; let mut k = 0; while tf(hi).0 < t && k < 400 { hi *= 1.3; k += 1; } }
    else { hi = 0.; lo = t / r - 1e-9; let mut k = 0; while tf(lo).0 > t && k < 400 { lo *= 1.3; k += 1; } }
    let mut s = 0.5 * (lo + hi);
    for _ in 0..300 {
        let (f, d) = tf(s);
        let g = f - t;
        if g > 0. { hi = s } else { lo = s }
        let mut y = s - g / d;
        if !(y > lo && y < hi) { y = 0.5 * (lo + hi); }
        if (y - s).abs() <= 1e-17 * s.abs() { s = y; break; }
        s = y;
    }
    let c = stumpff(beta * s * s);
    let (g1, g2, g3) = (s * c[1], s * s * c[2], s * s * s * c[3]);
    let rr = r + eta * g1 + zeta * g2;
    let f = 1. - mu * g2 / r; let g = t - mu * g3;
    let df = -mu * g1 / (r * rr); let dg = 1. - mu * g2 / rr;
    (add(mul(r0, f), mul(v0, g)), add(mul(r0, df), mul(v0, dg)))
}

#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct Rot { pub m: [[f64; 3]; 3] }
impl Rot {
    /// rotation about unit axis
    pub fn axis(n: V, th: f64) -> Rot {
        let (c, s) = (th.cos(), th.sin());
        let mut m = [[0.; 3]; 3];
        for i in 0..3 { for j in 0..3 { m[i][j] = (1. - c) * n[i] * n[j] + if i == j { c } else { 0. }; } }
        m[0][1] -= s * n[2]; m[0][2] += s * n[1]; m[1][0] += s * n[2]; m[1][2] -= s * n[0]; m[2][0] -= s * n[1]; m[2][1] += s * n[0];
        Rot { m }
    }
    pub fn apply(&self, v: V) -> V { [dot(self.m[0], v), dot(self.m[1], v), dot(self.m[2], v)] }
}

/// Gragg-Bulirsch-Stoer integration of y' = f(t, y) over [0, t] in `steps` macro steps (order 2*rows).
pub fn gbs(y0: &[f64], t0: f64, t: f64, steps: usize, f: &dyn Fn(f64, &[f64]) -> Vec<f64>) -> Vec<f64> {
    let h = t / steps as f64;
    let rows = 8usize;
    let n = y0.len();
    let mut y = y0.to_vec();
    for k in 0..steps {
        let tk = t0 + h * k as f64;
        let mut tab: Vec<Vec<f64>> = vec![];
        for r in 0..rows {
            let m = 2 * (r + 1);
            let hh = h / m as f64;
            let d0 = f(tk, &y);
            let mut a = y.clone();
            let mut b: Vec<f64> = (0..n).map(|i| y[i] + hh * d0[i]).collect();
            for s in 1..m { let d = f(tk + hh * s as f64, &b); let c: Vec<f64> = (0..n).map(|i| a[i] + 2. * hh * d[i]).collect(); a = b; b = c; }
            let d = f(tk + h, &b);
            let mut z: Vec<f64> = (0..n).map(|i| 0.5 * (a[i] + b[i] + hh * d[i])).collect();
            let mut row = vec![z.clone()];
            for j in 1..=r { let q = ((r + 1) as f64 / (r + 1 - j) as f64).powi(2); let prev: &Vec<f64> = &tab[(r - 1) * rows + j - 1]; z = (0..n).map(|i| z[i] + (z[i] - prev[i]) / (q - 1.)).collect(); row.push(z.clone()); }
            while row.len() < rows { row.push(vec![]); }
            tab.extend(row);
        }
        y = tab[(rows - 1) * rows + rows - 1].clone();
    }
    y
}

/// Osculating elements by vector geometry (i strictly between 0 and pi, e strictly between 0 and 1 for the angles to mean something).
#[derive(Clone, Copy, Debug)]
pub struct El { pub a: f64, pub e: f64, pub i: f64, pub n: f64, pub w: f64, pub m: f64, pub f: f64 }
pub fn to_elements(mu: f64, x: V, v: V) -> El {
    let l = cross(x, v);
    let r = norm(x);
    let ev = sub(mul(cross(v, l), 1. / mu), mul(x, 1. / r));
    let e = norm(ev);
    let a = 1. / (2. / r - dot(v, v) / mu);
    let i = l[0].hypot(l[1]).atan2(l[2]);
    let node = if l[0] == 0. && l[1] == 0. { [1., 0., 0.] } else { let h = l[0].hypot(l[1]); [-l[1] / h, l[0] / h, 0.] };
    let lh = mul(l, 1. / norm(l));
    let ang = |from: V, to: V| dot(lh, cross(from, to)).atan2(dot(from, to)).rem_euclid(TAU);
    let w = ang(node, ev);
    let f = ang(ev, x);
    let m = if e < 1. { let ea = 2. * ((1. - e).sqrt() * (f / 2.).sin()).atan2((1. + e).sqrt() * (f / 2.).cos()); (ea - e * ea.sin()).rem_euclid(TAU) } else { let h = 2. * (((e - 1.) / (e + 1.)).sqrt() * (f / 2.).tan()).atanh(); e * h.sinh() - h };
    El { a, e, i, n: node[1].atan2(node[0]).rem_euclid(TAU), w, m, f }
}
