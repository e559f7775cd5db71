//! C27 forces are a function of the present state: nothing of what was evaluated before is left in them.
use crate::engine::*;
use crate::ensure;
use crate::sys::*;
use posidonius as ps;
use proptest::prelude::*;

/// How a later state differs from the first one.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Move { turn: f64, stretch: f64, speed: f64, spin: f64, later: f64, who: u8, part: u8 }
fn mv() -> impl Strategy<Value = Move> {
    (prop_oneof![1 => Just(0.), 4 => angle()], prop_oneof![1 => Just(1.), 4 => 0.6..3.0f64], prop_oneof![1 => Just(1.), 4 => 0.8..1.15f64, 1 => 1.5..3.0f64], prop_oneof![2 => Just(1.), 1 => Just(0.), 3 => 0.1..3.0f64, 1 => -2.0..-0.1f64], prop_oneof![1 => Just(0.), 3 => 0.0..400.0f64], any::<u8>(), 0u8..6)
        .prop_map(|(turn, stretch, speed, spin, later, who, part)| Move { turn, stretch, speed, spin, later, who, part })
}
type St = (Vec<V>, Vec<V>, Vec<V>, f64);
/// (positions, velocities, spin angular momenta, time) of every state; each body is moved about the heaviest one.
fn states(s: &Sys, ms: &[Move]) -> Vec<St> {
    let h = s.heaviest();
    let bar = crate::refphys::barycentric(&s.bodies);
    let l0: Vec<V> = bar.iter().map(|b| mul(b.spin, crate::refphys::inertia(b))).collect();
    let mut out = vec![(bar.iter().map(|b| b.x).collect::<Vec<_>>(), bar.iter().map(|b| b.v).collect::<Vec<_>>(), l0.clone(), s.t0)];
    for m in ms {
        let (mut x, mut v, mut l) = (vec![[0.; 3]; bar.len()], vec![[0.; 3]; bar.len()], l0.clone());
        for i in 0..bar.len() {
            // one body or all of them move differently
            let k = if m.who % 2 == 0 || m.who as usize / 2 % bar.len() == i { m.stretch } else { 1. };
            let t = m.turn * (1. + i as f64);
            let rot = |a: V| [a[0] * t.cos() - a[1] * t.sin(), a[0] * t.sin() + a[1] * t.cos(), a[2]];
            let (r, w) = (sub(bar[i].x, bar[h].x), sub(bar[i].v, bar[h].v));
            x[i] = add(bar[h].x, mul(rot(r), k));
            v[i] = add(bar[h].v, mul(rot(w), m.speed / k.sqrt()));
            l[i] = mul(l0[i], m.spin);
        }
        out.push((x, v, l, s.t0 + m.later));
    }
    out
}
fn put(u: &mut ps::Universe, st: &St) {
    for i in 0..u.n_particles { let p = &mut u.particles[i]; p.inertial_position = ax(st.0[i]); p.inertial_velocity = ax(st.1[i]); p.angular_momentum = ax(st.2[i]); }
}
struct Seen { acc: Vec<V>, dl: Vec<V>, heat: Vec<f64>, body: Vec<[f64; 4]>, spin: Vec<V> }
/// What an evaluation leaves; `which`: torques, accelerations.
fn look(u: &mut ps::Universe, st: &St, torques: bool, accelerations: bool) -> Seen {
    put(u, st);
    if u.consider_effects.general_relativity { u.gravity_calculate_acceleration(ps::IgnoreGravityTerms::None); }
    u.calculate_spin_and_evolving_quantities(st.3, true);
    u.inertial_to_heliocentric();
    u.calculate_additional_effects(st.3, true, torques, accelerations, ps::IgnoreGravityTerms::None);
    if torques && accelerations && u.consider_effects.tides { u.calculate_denergy_dt(); }
    let p = &u.particles[..u.n_particles];
    Seen { acc: p.iter().map(|p| va(p.inertial_additional_acceleration)).collect(), dl: p.iter().map(|p| va(p.dangular_momentum_dt)).collect(), heat: p.iter().map(|p| p.tides.parameters.internal.denergy_dt).collect(),
        body: p.iter().map(|p| [p.radius, p.radius_of_gyration_2, p.moment_of_inertia, p.norm_spin_vector_2]).collect(), spin: p.iter().map(|p| va(p.spin)).collect() }
}
fn same_v(a: V, b: V) -> bool { (0..3).all(|k| a[k].is_nan() && b[k].is_nan() || a[k] == b[k]) || norm(sub(a, b)) <= 1e-9 * norm(b) }
fn same_f(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * b.abs() }
fn keep(what: &str, a: &Seen, b: &Seen, torques: bool, accelerations: bool) -> Result<(), String> {
    for i in 0..a.acc.len() {
        if accelerations { ensure!(same_v(a.acc[i], b.acc[i]), "{}: the acceleration of body {} is {:?}, otherwise {:?}", what, i, a.acc[i], b.acc[i]); }
        if torques { ensure!(same_v(a.dl[i], b.dl[i]), "{}: the torque on body {} is {:?}, otherwise {:?}", what, i, a.dl[i], b.dl[i]); }
        if torques && accelerations { ensure!(same_f(a.heat[i], b.heat[i]), "{}: the heat of body {} is {:e}, otherwise {:e}", what, i, a.heat[i], b.heat[i]); }
        for k in 0..4 { ensure!(same_f(a.body[i][k], b.body[i][k]), "{}: the {} of body {} is {:e}, otherwise {:e}", what, ["radius", "gyration radius", "moment of inertia", "squared spin"][k], i, a.body[i][k], b.body[i][k]); }
        ensure!(same_v(a.spin[i], b.spin[i]), "{}: the spin of body {} is {:?}, otherwise {:?}", what, i, a.spin[i], b.spin[i]);
    }
    Ok(())
}
fn live(s: &Seen) -> bool { s.acc.iter().chain(s.dl.iter()).any(|v| norm(*v) > 0.) }
/// Small bodies; sometimes the tides or the disk belong to another body than the heaviest.
fn prepare(sc: &Scen, host: u8) -> Sys {
    let mut s = sc.sys.clone();
    for b in s.bodies.iter_mut() { b.r = b.r.min(1e-3); }
    let h = s.heaviest();
    let j = (h + 1 + host as usize / 4 % (s.bodies.len() - 1)) % s.bodies.len();
    if sc.what == 1 && host % 4 == 1 { let (a, b) = (s.bodies[h].clone(), s.bodies[j].clone()); s.bodies[h].tide = b.tide; s.bodies[h].flat = b.flat; s.bodies[j].tide = a.tide; s.bodies[j].flat = a.flat; }
    if sc.what == 1 && host % 4 == 2 { let (a, b) = (s.bodies[h].disk, s.bodies[j].disk); s.bodies[h].disk = b; s.bodies[j].disk = a; }
    s
}
pub fn c27(ctx: &mut Ctx) {
    let st = (gen_scen(&[1, 1, 1, 2, 2, 3, 4, 5], 5), prop::collection::vec(mv(), 1..5), any::<u8>());
    ctx.law("no_memory", 3200, 80000, st, |(sc, ms, host)| {
        let s = prepare(sc, *host);
        let sts = states(&s, ms);
        let mut used = guard(|| s.universe(1e9))?;
        let mut some = false;
        for (k, (st, part)) in sts.iter().zip(std::iter::once(0).chain(ms.iter().map(|m| m.part))).enumerate() {
            // sometimes only the torques or only the accelerations are asked for in between (as the integrators do)
            let (tq, ac) = match part { 1 => (true, false), 2 => (false, true), _ => (true, true) };
            let a = guard(|| look(&mut used, st, tq, ac));
            let b = guard(|| { let mut u = s.universe(1e9); look(&mut u, st, tq, ac) });
            let (a, b) = match (a, b) { (Ok(a), Ok(b)) => (a, b), (Err(_), Err(_)) => return Ok(Out::new(false).class(true, "both refused")), (a, b) => return Err(format!("state {}: only one of the two evaluations ended: {:?} {:?}", k, a.err(), b.err())) };
            keep(&format!("state {} after {} others", k, k), &a, &b, tq, ac)?;
            some |= k > 0 && live(&b);
        }
        Ok(Out::new(some).class(sc.what == 2, "evolving").class(sc.what == 1 && matches!(host % 4, 1 | 2), "host not the heaviest").class(sc.what == 3, "creep").class(sc.what >= 4, "Kaula").class(s.flags.disk, "disk").class(s.flags.gr, "relativity").class(ms.iter().any(|m| m.spin == 0.), "bodies that stop spinning").class(ms.iter().any(|m| m.part == 1 || m.part == 2), "partial evaluation in between"))
    });
    // Asking for the torques or the accelerations alone gives what asking for both gives.
    let st = (gen_scen(&[1, 1, 2, 3, 4, 5], 5), mv(), any::<u8>());
    ctx.law("partial_evaluation", 2400, 60000, st, |(sc, m, host)| {
        let s = prepare(sc, *host);
        let st = states(&s, std::slice::from_ref(m)).pop().unwrap();
        let go = |tq: bool, ac: bool| guard(|| { let mut u = s.universe(1e9); look(&mut u, &st, tq, ac) });
        let (a, t, f) = match (go(true, true), go(true, false), go(false, true)) { (Ok(a), Ok(t), Ok(f)) => (a, t, f), (Err(_), Err(_), Err(_)) => return Ok(Out::new(false).class(true, "all refused")), (a, t, f) => return Err(format!("only some of the evaluations ended: {:?} {:?} {:?}", a.err(), t.err(), f.err())) };
        keep("torques alone", &t, &a, true, false)?;
        keep("accelerations alone", &f, &a, false, true)?;
        Ok(Out::new(live(&a)).class(sc.what == 2, "evolving").class(sc.what == 1 && matches!(host % 4, 1 | 2), "host not the heaviest").class(sc.what == 3, "creep").class(sc.what >= 4, "Kaula").class(s.flags.disk, "disk").class(s.flags.gr, "relativity"))
    });
}
/// The same bodies at a state, all motions and spins reversed.
fn reversed(s: &Sys, x: &[V], v: &[V], l: &[V], inertia: &[f64]) -> Sys {
    let mut r = s.clone();
    for (i, b) in r.bodies.iter_mut().enumerate() { b.x = x[i]; b.v = mul(v[i], -1.); b.spin = mul(l[i], -1. / inertia[i]); }
    r
}
/// C28 motion without dissipation runs backwards, dissipation does not.
pub fn c28(ctx: &mut Ctx) {
    use super::effects::*;
    use crate::refphys as rp;
    // Whole runs: n steps, everything reversed, n steps: back at the start.
    let st = (gen_scen(&[0, 1, 1, 1], 5), 2usize..60);
    ctx.law("retraces", 2400, 60000, st, |(sc, n)| {
        let mut s = sc.sys.clone();
        if sc.integ == Integ::Ias { return Ok(Out::new(false)); }
        s.flags.disk = false; s.flags.wind = false;
        if sc.integ == Integ::Leap { s.flags = Flags::default(); }
        // relativity among several planets uses their mutual attraction of an earlier sub-step (C08)
        if s.bodies.len() > 2 { s.flags.gr = false; }
        let h = s.heaviest();
        // the recorded Kidder spin terms are not those of a mechanical system (known finding of C16)
        if let Gr::Central(GrImpl::Kidder) = s.bodies[h].gr { s.bodies[h].gr = Gr::Central(GrImpl::Newhall); }
        for b in s.bodies.iter_mut() { if let Tide::Orbiting(TModel::Ctl { sigma, .. }) | Tide::Central(TModel::Ctl { sigma, .. }) = &mut b.tide { *sigma = 0.; } }
        let go = |s: &Sys| -> Result<State, String> {
            let mut sim = guard(|| Sim::new(s, sc.integ, sc.dt, 1e9, 1e30, 1e30))?;
            let mut w = null_writer();
            for _ in 0..*n { sim.step(&mut w)?; }
            Ok(sim.state())
        };
        let Ok(a) = go(&s) else { return Ok(Out::new(false).class(true, "ended")) };
        let Ok(b) = go(&reversed(&s, &a.x, &a.v, &a.l, &a.inertia)) else { return Ok(Out::new(false).class(true, "ended")) };
        let bar = rp::barycentric(&s.bodies);
        let (sx, sv) = (bar.iter().map(|b| norm(b.x)).fold(0., f64::max), bar.iter().map(|b| norm(b.v)).fold(0., f64::max));
        let sl: f64 = bar.iter().map(|b| norm(b.spin) * rp::inertia(b)).sum();
        let mut moved: f64 = 0.;
        for (i, c) in bar.iter().enumerate() {
            ensure!(within("position", norm(sub(b.x[i], c.x)), 4e-9 * sx), "{:?}, {} steps and back: body {} at {:?} instead of {:?}", sc.integ, n, i, b.x[i], c.x);
            ensure!(within("velocity", norm(add(b.v[i], c.v)), 4e-9 * sv), "{:?}, {} steps and back: body {} moves with {:?} instead of {:?}", sc.integ, n, i, mul(b.v[i], -1.), c.v);
            let l = mul(c.spin, rp::inertia(c));
            ensure!(within("spin", norm(add(b.l[i], l)), 4e-9 * norm(l) + 1e-13 * sl), "{:?}, {} steps and back: spin angular momentum of body {} {:?} instead of {:?}", sc.integ, n, i, mul(b.l[i], -1.), l);
            moved = moved.max(norm(sub(a.x[i], c.x)));
        }
        Ok(Out::new(moved > 1e-2 * sx).class(s.flags.tides, "tides").class(s.flags.flat, "flattening").class(s.flags.gr, "relativity").class(sc.integ == Integ::Leap, "leap-frog"))
    });
    // Single evaluations: what reversing all motions leaves is conservative, what it turns round is dissipative.
    let st = (gen_cloud(2..=6), tide_params(), flat_params(), any::<u8>(), 0u8..3);
    ctx.law("parity", 8000, 200000, st, |(c, tp, fp, host, which)| {
        let mut s = c.sys.clone();
        let host = *host as usize % s.bodies.len();
        if *which != 1 { set_tides(&mut s, host, tp); }
        if *which != 0 { set_flat(&mut s, host, fp); }
        let mut still = s.clone();
        for b in still.bodies.iter_mut() { if let Tide::Orbiting(TModel::Ctl { sigma, .. }) | Tide::Central(TModel::Ctl { sigma, .. }) = &mut b.tide { *sigma = 0.; } }
        let back = |s: &Sys| { let mut r = s.clone(); for b in r.bodies.iter_mut() { b.v = mul(b.v, -1.); b.spin = mul(b.spin, -1.); } r };
        let (a, b, k) = (effects(&s, 0.)?, effects(&back(&s), 0.)?, effects(&still, 0.)?);
        let e = rp::all(&s, 0., rp::Kidder::AsRecorded);
        for i in 0..s.bodies.len() {
            let even = mul(add(a.0[i], b.0[i]), 0.5);
            ensure!(within("acceleration", norm(sub(even, k.0[i])), 1e-11 * e.sa[i] + 1e-290), "body {}: the part of the acceleration that survives a reversal of all motions is {:?}, without dissipation it is {:?}", i, even, k.0[i]);
            let even = mul(add(a.1[i], b.1[i]), 0.5);
            ensure!(within("torque", norm(sub(even, k.1[i])), 1e-11 * e.sl[i] + 1e-290), "body {}: the part of the torque that survives a reversal of all motions is {:?}, without dissipation it is {:?}", i, even, k.1[i]);
        }
        Ok(Out::new((0..s.bodies.len()).any(|i| norm(k.0[i]) > 0. || norm(a.0[i]) > 0.)).class(s.flags.tides, "tides").class(s.flags.flat, "flattening"))
    });
    // A disk and a stellar wind only dissipate: their forces and torques turn round with the motion.
    ctx.law("drag", 3000, 60000, (disk_strategy(), logu(1e-16, 1e-10), logu(1e-2, 10.)), |((s, _, t), k, w)| {
        let (mut s, t) = (s.clone(), *t); s.flags.wind = true;
        for b in s.bodies.iter_mut().step_by(2) { b.wind = Some([*k, *w]); }
        let mut r = s.clone(); for b in r.bodies.iter_mut() { b.v = mul(b.v, -1.); b.spin = mul(b.spin, -1.); }
        let (a, b) = (effects(&s, t)?, effects(&r, t)?);
        for i in 0..s.bodies.len() {
            ensure!(within("acceleration", norm(add(a.0[i], b.0[i])), 1e-11 * norm(a.0[i]) + 1e-290), "body {}: acceleration {:?}, with all motions reversed {:?}", i, a.0[i], b.0[i]);
            ensure!(within("torque", norm(add(a.1[i], b.1[i])), 1e-11 * norm(a.1[i]) + 1e-290), "body {}: torque {:?}, with all motions reversed {:?}", i, a.1[i], b.1[i]);
        }
        Ok(Out::new(a.0.iter().chain(a.1.iter()).any(|v| norm(*v) > 0.)))
    });
}
