//! C01 resume equivalence, C02 snapshot round trip, C03 history output.
use crate::engine::*;
use crate::ensure;
use crate::sys::*;
use posidonius as ps;
use proptest::prelude::*;
use std::fs::File;
use std::io::BufWriter;
use std::path::{Path, PathBuf};

pub fn fresh(dir: &Path, name: &str) -> PathBuf {
    let d = dir.join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn hist_writer(p: &Path, n: usize, parts: usize) -> Result<BufWriter<File>, String> {
    guard(|| ps::output::get_universe_history_writer(p, n as u64 * parts as u64 * ps::output::n_bytes_per_particle_in_historic_snapshot()))
}
/// First differing path of two JSON values under a number comparison.
pub fn jdiff(a: &serde_json::Value, b: &serde_json::Value, path: &str, same: &dyn Fn(f64, f64) -> bool) -> Option<String> {
    use serde_json::Value::*;
    match (a, b) {
        (Object(x), Object(y)) => {
            for (k, v) in x { match y.get(k) { Some(w) => { if let Some(d) = jdiff(v, w, &format!("{}.{}", path, k), same) { return Some(d); } } None => return Some(format!("{}.{} missing", path, k)) } }
            for k in y.keys() { if !x.contains_key(k) { return Some(format!("{}.{} extra", path, k)); } }
            None
        }
        (Array(x), Array(y)) => {
            if x.len() != y.len() { return Some(format!("{} length {} vs {}", path, x.len(), y.len())); }
            for (i, (v, w)) in x.iter().zip(y).enumerate() { if let Some(d) = jdiff(v, w, &format!("{}[{}]", path, i), same) { return Some(d); } }
            None
        }
        (Number(x), Number(y)) => {
            if x == y { return None; }
            if x.is_f64() && y.is_f64() && same(x.as_f64().unwrap(), y.as_f64().unwrap()) { return None; }
            Some(format!("{}: {} vs {}", path, x, y))
        }
        _ => if a == b { None } else { Some(format!("{}: {} vs {}", path, a, b)) },
    }
}
fn exact(a: f64, b: f64) -> bool { a == b }

pub fn c01(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    // Interrupt at generated steps (possibly several times), binary format.
    let strat = (gen_scen(&[0, 1, 1, 1, 2, 2, 3, 4], 4), 3usize..14, prop::collection::vec(any::<u16>(), 1..4), 0u8..4);
    let d2 = dir.clone();
    ctx.law("resume_equals_uninterrupted", 480, 6000, strat, move |(sc, n, cuts, hp)| {
        let d = fresh(&d2, "c01");
        let n = *n;
        let hist = sc.dt * [0.5, 1.0, 2.5, 1e6][*hp as usize];
        let parts = sc.sys.bodies.len();
        // reference run
        let mut states = vec![]; let mut done = vec![];
        {
            let mut sim = guard(|| Sim::new(&sc.sys, sc.integ, sc.dt, sc.dt * n as f64 * 1.0001, hist, 1e30))?;
            let mut w = hist_writer(&d.join("ref.hist"), 0, parts)?;
            let mut k = 0;
            loop { let r = sim.step(&mut w); match r { Ok(go) => { states.push(sim.json()); done.push(go); if !go { break; } } Err(m) => { if k == 0 && m.contains("PANIC") { return Ok(Out::new(false)); } return Err(format!("reference run step {}: {}", k, m)); } } k += 1; if k > 400 { break; } }
            use std::io::Write; w.flush().unwrap();
        }
        let total = states.len();
        let mut cs: Vec<usize> = cuts.iter().map(|c| 1 + (*c as usize * total.max(2) / 65536).min(total.saturating_sub(2))).filter(|c| *c < total).collect();
        cs.sort(); cs.dedup();
        let snap = d.join("s.bin");
        let mut sim = guard(|| Sim::new(&sc.sys, sc.integ, sc.dt, sc.dt * n as f64 * 1.0001, hist, 1e30))?;
        let kind = sim.kind();
        let mut w = hist_writer(&d.join("int.hist"), 0, parts)?;
        let mut cut_done = 0;
        for k in 0..total {
            if cs.contains(&k) {
                sim.save(&snap, &mut w)?;
                drop(w); drop(sim);
                sim = Sim::restore(&snap).map_err(|m| format!("snapshot at step {} refused: {}", k, m))?;
                ensure!(sim.kind() == kind, "snapshot of a {} restored as {}", kind, sim.kind());
                w = hist_writer(&d.join("int.hist"), sim.n_hist(), parts).map_err(|m| format!("history refused after step {}: {}", k, m))?;
                if let Some(df) = jdiff(&states[k - 1], &sim.json(), "", &exact) { return Err(format!("state right after restoring at step {} differs: {}", k, df)); }
                cut_done += 1;
            }
            let go = sim.step(&mut w).map_err(|m| format!("resumed run step {}: {}", k, m))?;
            ensure!(go == done[k], "completion differs at step {}", k);
            if let Some(df) = jdiff(&states[k], &sim.json(), "", &exact) { return Err(format!("after interruptions {:?}, state at step {} differs: {}", cs, k + 1, df)); }
        }
        { use std::io::Write; w.flush().unwrap(); }
        drop(w);
        let (a, b) = (std::fs::read(d.join("ref.hist")).unwrap(), std::fs::read(d.join("int.hist")).unwrap());
        ensure!(a == b, "history bytes differ ({} vs {} bytes) after interruptions {:?}", a.len(), b.len(), cs);
        Ok(Out::new(cut_done > 0).class(sc.integ == Integ::Ias, "ias15").class(sc.integ == Integ::Leap, "leapfrog").class(sc.what == 2, "evolving").class(sc.what == 3, "creep").class(sc.what == 4, "kaula").class(sc.what == 1, "effects").class(cut_done > 1, "several interruptions"))
    });
    // Resume at every step and compare the next step: reaches state that only matters at special steps (e.g. a rejected step of the adaptive integrator).
    let d3 = dir.clone();
    let strat = (gen_scen(&[0, 0, 1, 2], 3), prop_oneof![2 => 0.0..0.6f64, 2 => 0.6..0.97f64, 3 => (1.5..3.5f64).prop_map(|x| 1. - 10f64.powf(-x))], prop_oneof![3 => Just(Integ::Ias), 1 => integ()], 20usize..60, 0.02..1.5f64);
    ctx.law("every_step", 96, 1500, strat, move |(sc, e, integ, n, fdt)| {
        let d = fresh(&d3, "c01s");
        let mut sys = sc.sys.clone();
        // put one body on a more eccentric orbit, starting at apoastron
        let h = sys.heaviest();
        let k = (h + 1) % sys.bodies.len();
        let hb = sys.bodies[h].clone();
        let r = sub(sys.bodies[k].x, hb.x); let v = sub(sys.bodies[k].v, hb.v);
        let l = cross(r, v); let t = cross(l, r); let vt = (G * (hb.m + sys.bodies[k].m) / norm(r) * (1. - e)).sqrt();
        sys.bodies[k].v = add(hb.v, mul(t, vt / norm(t)));
        let dt = if *integ == Integ::Ias { sc.dt * fdt * 20. } else { sc.dt };
        let mut sim = guard(|| Sim::new(&sys, *integ, dt, 1e5, 1e30, 1e30))?;
        let mut w = null_writer();
        let mut rejected = 0;
        for i in 0..*n {
            let snap = d.join("s.bin");
            let _ = std::fs::remove_file(&snap);
            if i > 0 { sim.save(&snap, &mut w)?; }
            let ts = sim.json()["time_step"].as_f64().unwrap_or(0.); let t0 = sim.t();
            match sim.step(&mut w) { Ok(true) => {} Ok(false) => break, Err(m) => { if m.contains("PANIC") || m.contains("collision") || m.contains("Collision") { break; } return Err(format!("step {}: {}", i, m)); } }
            if i > 0 && *integ == Integ::Ias && sim.t() - t0 < ts * 0.99 { rejected += 1; }
            if i > 0 {
                let mut o = Sim::restore(&snap).map_err(|m| format!("snapshot at step {} refused: {}", i, m))?;
                o.step(&mut w).map_err(|m| format!("resumed run step {}: {}", i, m))?;
                if let Some(df) = jdiff(&sim.json(), &o.json(), "", &exact) { return Err(format!("resumed before step {} ({:?}), the state after it differs: {}", i + 1, integ, df)); }
            }
        }
        Ok(Out::new(*n > 1).class(*integ == Integ::Ias, "ias15").class(rejected > 0, "rejected step").class(*e > 0.6, "eccentric"))
    });
}

fn state_after(sc: &Scen, n: usize) -> Result<Sim, String> {
    let mut sim = guard(|| Sim::new(&sc.sys, sc.integ, sc.dt, 1e5, sc.dt * 1.5, 1e30))?;
    let mut w = null_writer();
    for _ in 0..n { sim.step(&mut w)?; }
    Ok(sim)
}
fn ulps(a: f64, b: f64, n: i64) -> bool {
    if a == b { return true; }
    if a.is_sign_positive() != b.is_sign_positive() { return false; }
    (a.to_bits() as i64 - b.to_bits() as i64).abs() <= n
}

pub fn c02(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let d2 = dir.clone();
    let strat = (gen_scen(&[0, 1, 1, 2, 3, 4], 9), 0usize..8, any::<bool>(), any::<bool>());
    ctx.law("round_trip", 360, 5000, strat, move |(sc, n, json, again)| {
        let d = fresh(&d2, "c02");
        let mut sim = match state_after(sc, *n) { Ok(s) => s, Err(m) if m.contains("PANIC") => return Ok(Out::new(false)), Err(m) => return Err(m) };
        let p = d.join(if *json { "snap.json" } else { "snap.bin" });
        if *again { std::fs::write(&p, b"previous snapshot contents").unwrap(); }
        let mut w = null_writer();
        let before = sim.json();
        let tb = sim.t();
        sim.save(&p, &mut w)?;
        if let Some(df) = jdiff(&before, &sim.json(), "", &exact) { return Err(format!("saving changed the running simulation: {}", df)); }
        let saved = sim.json_full();
        if *again {
            let others: Vec<_> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).filter(|q| *q != p).collect();
            ensure!(others.len() == 1, "expected exactly one backup beside the new snapshot, found {:?}", others);
            ensure!(std::fs::read(&others[0]).unwrap() == b"previous snapshot contents", "backup does not hold the previous snapshot");
        }
        let mut r = Sim::restore(&p).map_err(|m| format!("complete snapshot refused: {}", m))?;
        ensure!(r.kind() == sim.kind(), "{} restored as {}", sim.kind(), r.kind());
        let back = r.json_full();
        // a simulation at time zero is (re)initialised when it is restored, as when it was created
        let saved = if tb == 0. { guard(|| sim.int.initialize_physical_values())?; sim.json_full() } else { saved };
        let tol = |a: f64, b: f64| if *json && tb == 0. { close(a, b, 1e-9, 1e-13) } else if *json { ulps(a, b, 4) } else { a == b };
        if let Some(df) = jdiff(&saved, &back, "", &tol) { return Err(format!("restored state differs (time {}): {}", tb, df)); }
        // what was restored can be saved and restored again, and goes on running
        if !*json {
            let p2 = d.join("second.bin");
            r.save(&p2, &mut w)?;
            let r2 = Sim::restore(&p2)?;
            if let Some(df) = jdiff(&r.json_full(), &r2.json_full(), "", &exact) { return Err(format!("second generation differs: {}", df)); }
        }
        Ok(Out::new(*n > 0).class(*json, "json").class(!*json, "binary").class(*again, "overwrite with backup").class(*n == 0, "initial state"))
    });
    // Incomplete files are refused.
    let d2 = dir.clone();
    let strat = (gen_scen(&[0, 1, 2, 3], 4), 0usize..4, any::<bool>(), 0.0..1.0f64, 0u8..6);
    ctx.law("truncated_refused", 240, 3000, strat, move |(sc, n, json, frac, mode)| {
        let d = fresh(&d2, "c02t");
        let mut sim = match state_after(sc, *n) { Ok(s) => s, Err(m) if m.contains("PANIC") => return Ok(Out::new(false)), Err(m) => return Err(m) };
        let p = d.join(if *json { "snap.json" } else { "snap.bin" });
        let mut w = null_writer();
        sim.save(&p, &mut w)?;
        let bytes = std::fs::read(&p).unwrap();
        let len = bytes.len();
        let cut = match mode { 0 => 0, 1 => len - 1, 2 => len - 1 - (*frac * 4096f64.min(len as f64 - 1.)) as usize, _ => (*frac * (len as f64 - 1.)) as usize };
        std::fs::write(&p, &bytes[..cut]).unwrap();
        match Sim::restore(&p) {
            Err(_) => Ok(Out::new(*n > 0).class(*json, "json").class(!*json, "binary")),
            Ok(r) => Err(format!("a {} snapshot truncated to {} of {} bytes was restored as a {} at time {}", sim.kind(), cut, len, r.kind(), r.t())),
        }
    });
    // Files that are not snapshots are refused.
    let d2 = dir.clone();
    ctx.law("foreign_refused", 200, 2000, (prop::collection::vec(any::<u8>(), 0..4000), any::<bool>(), 0u8..4), move |(bytes, json, kind)| {
        let d = fresh(&d2, "c02f");
        let p = d.join(if *json { "snap.json" } else { "snap.bin" });
        let content: Vec<u8> = match kind { 0 => bytes.clone(), 1 => vec![0u8; bytes.len()], 2 => b"{\"time_step\": 0.1, \"universe\": {}}".to_vec(), _ => { let mut b = vec![0u8; 8]; b.extend_from_slice(bytes); b } };
        std::fs::write(&p, &content).unwrap();
        match Sim::restore(&p) { Err(_) => Ok(Out::new(!content.is_empty())), Ok(r) => Err(format!("{} bytes that are no snapshot restored as a {}", content.len(), r.kind())) }
    });
}

pub struct Rec { pub t: f64, pub dt: f64, pub id: i32, pub f: [f64; 17] }
/// Independent parser of the history format: 156-byte little-endian records.
pub fn parse_history(b: &[u8]) -> Result<Vec<Rec>, String> {
    if b.len() % 156 != 0 { return Err(format!("history length {} is not a multiple of 156", b.len())); }
    let g = |o: usize| f64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    Ok((0..b.len() / 156).map(|k| { let o = k * 156; let mut f = [0.; 17]; for j in 0..17 { f[j] = g(o + 20 + 8 * j); } Rec { t: g(o), dt: g(o + 8), id: i32::from_le_bytes(b[o + 16..o + 20].try_into().unwrap()), f } }).collect())
}

pub fn c03(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    // Steps and periods that are exact in binary: the schedule is known exactly.
    let strat = (gen_scen(&[0, 1, 1, 2, 3], 4), 1usize..40, 1u32..40, 0u8..3);
    let d2 = dir.clone();
    ctx.law("schedule_and_content", 480, 6000, strat, move |(sc, n, pnum, pden)| {
        let d = fresh(&d2, "c03");
        let dt = 2f64.powi(sc.dt.log2().floor() as i32);
        let hist = dt * *pnum as f64 / [1., 2., 8.][*pden as usize];
        let t_lim = dt * *n as f64;
        run_and_check(&d, sc, dt, hist, t_lim, true)
    });
    // Arbitrary steps and periods.
    let strat = (gen_scen(&[0, 1, 1, 2, 3, 4], 9), 1.0f64..40.0, logu(0.05, 40.));
    let d2 = dir.clone();
    ctx.law("arbitrary_periods", 320, 4000, strat, move |(sc, n, p)| {
        let d = fresh(&d2, "c03b");
        run_and_check(&d, sc, sc.dt, sc.dt * p, sc.dt * n, false)
    });
    // Long runs with hundreds of snapshots.
    let strat = (gen_scen(&[0], 3), 300usize..1200, 1u32..4);
    let d2 = dir.clone();
    ctx.law("many_snapshots", 32, 320, strat, move |(sc, n, p)| {
        let d = fresh(&d2, "c03c");
        let dt = 2f64.powi(sc.dt.log2().floor() as i32);
        run_and_check(&d, sc, dt, dt * *p as f64, dt * *n as f64, true)
    });
}
fn run_and_check(d: &Path, sc: &Scen, dt: f64, hist: f64, t_lim: f64, exact_arith: bool) -> R {
    let parts = sc.sys.bodies.len();
    let t_start = std::time::Instant::now();
    let hp = d.join("h.bin");
    let mut sim = guard(|| Sim::new(&sc.sys, sc.integ, dt, t_lim, hist, 1e30))?;
    let mut w = hist_writer(&hp, 0, parts)?;
    struct Pre { t: f64, dt: f64, p: Vec<ps::Particle>, written: bool }
    let mut pre: Vec<Pre> = vec![];
    let step_of = |s: &Sim| s.json_full()["time_step"].as_f64().unwrap();
    loop {
        let before = sim.n_hist();
        let t = sim.t();
        let tstep = step_of(&sim);
        let snapshot = sim.u().particles[..parts].to_vec();
        let inert: Vec<V> = snapshot.iter().map(|p| va(p.inertial_position)).collect();
        let go = match sim.step(&mut w) { Ok(g) => g, Err(m) if m.contains("PANIC") => return Ok(Out::new(false)), Err(m) => return Err(m) };
        let _ = inert;
        let after = sim.n_hist();
        ensure!(after == before || after == before + 1, "one step changed the snapshot counter from {} to {}", before, after);
        pre.push(Pre { t, dt: tstep, p: snapshot, written: after > before });
        if !go { break; }
        // the adaptive integrator may crawl over the kinks of the synthetic (piecewise linear, fast) stellar tables
        if (pre.len() > 3000 || t_start.elapsed().as_secs() > 10) && sc.integ == Integ::Ias && sc.what != 0 { return Ok(Out::new(false).class(true, "adaptive step at table kinks, abandoned")); }
        if pre.len() > 3000 { return Err(format!("run to t={} did not complete after 3000 steps (t={})", t_lim, sim.t())); }
    }
    { use std::io::Write; w.flush().unwrap(); }
    drop(w);
    let recs = parse_history(&std::fs::read(&hp).unwrap())?;
    ensure!(recs.len() == sim.n_hist() * parts, "{} records in the file for {} snapshots of {} particles", recs.len(), sim.n_hist(), parts);
    // schedule
    let mut last_out = f64::NEG_INFINITY; let mut next = 0f64; let mut outs = 0usize;
    for (k, p) in pre.iter().enumerate() {
        let due = if sc.integ == Integ::Ias { k == 0 || p.t >= last_out + hist } else { p.t >= next };
        let near = if exact_arith && sc.integ != Integ::Ias { false } else { let d = if sc.integ == Integ::Ias { p.t - (last_out + hist) } else { p.t - next }; d.abs() < 1e-9 * (p.t.abs() + hist) };
        if !near { ensure!(due == p.written, "step {} at t={} (step {}, period {}): output {} but {} expected (next due {}, last {})", k, p.t, dt, hist, p.written, due, next, last_out); }
        if p.written { last_out = if k == 0 { 0. } else { p.t }; if sc.integ == Integ::Ias { last_out = p.t; } next += hist; outs += 1;
            // content
            for i in 0..parts {
                let r = &recs[(outs - 1) * parts + i];
                let q = &p.p[i];
                ensure!(r.id == i as i32, "record {} of snapshot {} carries id {}", i, outs - 1, r.id);
                ensure!(r.t == p.t, "snapshot {} carries time {} instead of {}", outs - 1, r.t, p.t);
                ensure!(r.dt == p.dt, "snapshot {} carries step {} instead of {}", outs - 1, r.dt, p.dt);
                let (x, v) = (va(q.inertial_position), va(q.inertial_velocity));
                ensure!(r.f[0..3] == x && r.f[6..9] == v, "snapshot {} particle {}: position/velocity {:?} {:?} instead of {:?} {:?}", outs - 1, i, &r.f[0..3], &r.f[6..9], x, v);
                ensure!(r.f[9] == q.mass, "mass {} instead of {}", r.f[9], q.mass);
                // radius, rg2: either the state's or (evolving bodies) the evolved values; inertia relation to spin
                let inertia = r.f[9] * r.f[11] * r.f[10] * r.f[10];
                let l = va(q.angular_momentum);
                let spin = [r.f[3], r.f[4], r.f[5]];
                ensure!(vclose(mul(spin, inertia), l, 1e-12, 0.), "snapshot {} particle {}: spin {:?} times inertia {} is not the spin angular momentum {:?}", outs - 1, i, spin, inertia, l);
                if sc.sys.bodies[i].evo == Evo::No {
                    ensure!(r.f[10] == sc.sys.bodies[i].r, "radius {} instead of {}", r.f[10], sc.sys.bodies[i].r);
                    ensure!(close(r.f[11], sc.sys.bodies[i].rg.powi(2), 1e-14, 0.), "rg2 {} instead of {}", r.f[11], sc.sys.bodies[i].rg.powi(2));
                    let (k2, sg) = match &sc.sys.bodies[i].tide { Tide::Central(TModel::Ctl { k2, sigma, scale }) | Tide::Orbiting(TModel::Ctl { k2, sigma, scale }) => (*k2, sigma * scale), _ => (0., 0.) };
                    ensure!(r.f[12] == k2, "Love number {} instead of {}", r.f[12], k2);
                    ensure!(close(r.f[13], sg, 1e-12, 0.), "scaled dissipation factor {} instead of {}", r.f[13], sg);
                    ensure!(r.f[14] == 0., "lag angle {} for a body without one", r.f[14]);
                }
                if !sc.sys.flags.tides || !matches!(sc.sys.bodies[i].tide, Tide::Orbiting(_)) { ensure!(r.f[15] == 0., "energy change {} for a body without tides", r.f[15]); }
                if !sc.sys.flags.disk { ensure!(r.f[16] == 0., "migration time scale {} without a disk", r.f[16]); }
                else { let m = q.disk.parameters.internal.migration_timescale; ensure!(r.f[16] == m, "migration time scale {} instead of {}", r.f[16], m); }
            }
        }
    }
    // end of run
    if sc.integ != Integ::Ias {
        let n = pre.len() as f64;
        ensure!(sim.t() <= t_lim * (1. + 1e-9) || pre.len() == 1, "run ended at {} beyond its limit {}", sim.t(), t_lim);
        ensure!((n * dt - sim.t()).abs() <= 1e-9 * sim.t() && sim.t() + dt > t_lim * (1. - 1e-9), "run ended at {} after {} steps of {} although the limit is {}", sim.t(), n, dt, t_lim);
    }
    Ok(Out::new(outs >= 2).class(hist < dt, "period below step").class(sc.integ == Integ::Ias, "adaptive").class(sc.what == 2, "evolving").class(outs > 5, ">5 snapshots"))
}
