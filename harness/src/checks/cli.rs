//! C04 crash safety and C05 command line, both on the real binary (with a fault injection library under it for C04).
use super::core::{fresh, jdiff};
use crate::engine::*;
use crate::ensure;
use crate::sys::*;
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn binary() -> PathBuf { crate::verif_dir().join("target/repo/release/posidonius") }
#[derive(Clone, Debug)]
struct Fault { mode: &'static str, at: u64, part: u32 }
struct Ran { code: i32, out: String, ops: String }
/// Runs the real binary; code 124 means that it did not finish.
fn run(dir: &Path, args: &[String], fault: Option<&Fault>) -> Ran {
    let log = dir.parent().unwrap().join("shim.log");
    let _ = std::fs::remove_file(&log);
    let mut c = Command::new("timeout");
    c.arg("-k").arg("1").arg("60").arg(binary()).args(args).stdin(Stdio::null());
    c.env("LD_PRELOAD", crate::verif_dir().join("target/shim.so")).env("SHIM_DIR", dir).env("SHIM_LOG", &log);
    if let Some(f) = fault { c.env("SHIM_MODE", f.mode).env("SHIM_AT", f.at.to_string()).env("SHIM_PART", f.part.to_string()); }
    let o = c.output().unwrap();
    Ran { code: o.status.code().unwrap_or(-1), out: String::from_utf8_lossy(&o.stdout).to_string() + &String::from_utf8_lossy(&o.stderr), ops: std::fs::read_to_string(&log).unwrap_or_default() }
}
fn s(p: &Path) -> String { p.to_str().unwrap().to_string() }
fn start(d: &Path, case: &Path) -> Vec<String> { vec!["start".into(), s(case), s(&d.join("snap.bin")), s(&d.join("hist.bin"))] }
fn resume(d: &Path) -> Vec<String> { vec!["resume".into(), s(&d.join("snap.bin")), s(&d.join("hist.bin"))] }
fn files(d: &Path) -> BTreeMap<String, Vec<u8>> { std::fs::read_dir(d).unwrap().map(|e| { let e = e.unwrap(); (e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap()) }).collect() }
fn put_files(d: &Path, f: &BTreeMap<String, Vec<u8>>) { for (k, v) in f { std::fs::write(d.join(k), v).unwrap(); } }
/// The case file of a scenario (what the Python scripts write).
fn write_case(p: &Path, sc: &Scen, t_lim: f64, hist: f64, rec: f64) -> Result<(), String> {
    let sim = guard(|| Sim::new(&sc.sys, sc.integ, sc.dt, t_lim, hist, rec))?;
    std::fs::write(p, serde_json::to_string(&sim.json_full()).unwrap()).unwrap();
    Ok(())
}
/// The snapshot a user would continue from: the recovery snapshot when it restores, otherwise the backup that got furthest.
fn usable(d: &Path) -> Option<(f64, PathBuf)> {
    let snap = d.join("snap.bin");
    if let Ok(sim) = Sim::restore(&snap) { return Some((sim.t(), snap)); }
    let mut best: Option<(f64, PathBuf)> = None;
    for e in std::fs::read_dir(d).unwrap() {
        let p = e.unwrap().path();
        if p == snap || p == d.join("hist.bin") { continue; }
        if let Ok(sim) = Sim::restore(&p) { if best.as_ref().map_or(true, |b| sim.t() > b.0) { best = Some((sim.t(), p)); } }
    }
    best
}
fn gen_case() -> impl Strategy<Value = (Scen, usize, f64, f64)> {
    (gen_scen(&[0, 1, 1, 2, 3, 4], 4), 4usize..30, prop_oneof![Just(0.5), Just(1.0), 0.3..6.0f64], prop_oneof![1 => Just(1.0), 3 => 1.0..9.0f64])
}
/// recover from what a crash left and run to the end; compares with the uninterrupted run
fn finish(d: &Path, from: &Path, reference: &BTreeMap<String, Vec<u8>>, what: &str) -> Result<(), String> {
    let snap = d.join("snap.bin");
    if from != snap { std::fs::copy(from, &snap).unwrap(); }
    let had = std::fs::metadata(d.join("hist.bin")).map(|m| m.len()).unwrap_or(0);
    let r = run(d, &resume(d), None);
    if r.code == 124 { return Ok(()); }
    ensure!(r.code == 0, "{}: the run cannot be continued from {} with the history found ({} bytes): exit {} {}", what, from.display(), had, r.code, trim(&r.out, 400));
    compare(d, reference, what)
}
fn compare(d: &Path, reference: &BTreeMap<String, Vec<u8>>, what: &str) -> Result<(), String> {
    let h = std::fs::read(d.join("hist.bin")).unwrap_or_default();
    let rh = &reference["hist.bin"];
    if &h != rh {
        let at = h.iter().zip(rh.iter()).position(|(a, b)| a != b);
        return Err(format!("{}: the final history differs from that of the uninterrupted run ({} vs {} bytes, first difference at {:?})", what, h.len(), rh.len(), at));
    }
    let (a, b) = (std::fs::read(d.join("snap.bin")).ok(), reference.get("snap.bin").cloned());
    if a != b {
        // (the fingerprint and the order of map entries inside the file may differ between two processes)
        let j = |x: &Option<Vec<u8>>| -> Option<serde_json::Value> { let p = d.join("cmp.bin"); std::fs::write(&p, x.as_ref()?).ok()?; Sim::restore(&p).ok().map(|s| { let mut v = s.json_full(); v.as_object_mut().unwrap().remove("hash"); v }) };
        let df = match (j(&a), j(&b)) { (Some(x), Some(y)) => jdiff(&x, &y, "", &|p, q| p == q), _ => Some(format!("present {} vs {}", a.is_some(), b.is_some())) };
        if let Some(df) = df { return Err(format!("{}: the final recovery snapshot differs from that of the uninterrupted run: {}", what, df)); }
    }
    Ok(())
}

pub fn c04(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let many = ctx.thorough;
    // Every crash point of a run (killed before the operation, or after part of a write; or every operation failing from there on)
    let d2 = dir.clone();
    ctx.law("crash_anywhere", 56, 900, (gen_case(), 0u8..3, prop_oneof![Just(0u32), Just(1000u32), 1u32..1000], any::<u16>()), move |((sc, n, hp, rp), mode, part, pick)| {
        let d = fresh(&d2, "c04");
        let case = d2.join("case04.json");
        write_case(&case, sc, sc.dt * *n as f64 * 1.00001, sc.dt * hp, sc.dt * rp)?;
        let r = run(&d, &start(&d, &case), None);
        if r.code != 0 { return Ok(Out::new(false).class(true, "run refuses this system")); }
        let reference = files(&d);
        let total = r.ops.len() as u64;
        let cap = if many { 80 } else { 26 };
        let f0 = |at| Fault { mode: if *mode == 2 { "full" } else { "kill" }, at, part: if *mode == 0 { 0 } else { *part } };
        let points: Vec<u64> = if total <= cap { (1..=total).collect() } else { let off = *pick as u64 % (total - cap + 1); let mut v: Vec<u64> = (1 + off..=cap / 2 + off).collect(); v.extend((0..cap / 2).map(|k| 1 + cap / 2 + off + (total - cap / 2 - off) * k / (cap / 2))); v.retain(|x| *x <= total); v };
        let mut last: Option<(f64, u64)> = None;
        let mut recovered = 0;
        for at in points {
            let d = fresh(&d2, "c04");
            let f = f0(at);
            let r = run(&d, &start(&d, &case), Some(&f));
            if r.code == 124 { continue; }
            ensure!(r.code != 0, "operation {} of {} ({}) failed or was cut but the program reports success", at, total, r.ops.chars().nth(at as usize - 1).unwrap_or('?'));
            let what = format!("{:?} of {} ({})", f, total, r.ops);
            match usable(&d) {
                None => if let Some((t, k)) = last { return Err(format!("{}: no snapshot can be restored any more, although a crash at operation {} left one of time {}", what, k, t)); },
                Some((t, p)) => {
                    if let Some((tl, k)) = last { ensure!(t >= tl, "{}: the snapshot left is of time {}, a crash at operation {} left one of time {}", what, t, k, tl); }
                    last = Some((t, at)); recovered += 1;
                    finish(&d, &p, &reference, &what)?;
                }
            }
        }
        Ok(Out::new(recovered > 2).class(*mode == 0, "killed before an operation").class(*mode == 1, "torn write").class(*mode == 2, "disk full").class(sc.integ == Integ::Ias, "ias15").class(recovered > 2, "recovered at >2 points"))
    });
    // Several crashes in sequence
    let d2 = dir.clone();
    ctx.law("crash_sequences", 120, 2500, (gen_case(), prop::collection::vec((any::<u16>(), 0u8..4, 0u32..=1000), 2..6)), move |((sc, n, hp, rp), crashes)| {
        let d = fresh(&d2, "c04");
        let case = d2.join("case04.json");
        write_case(&case, sc, sc.dt * *n as f64 * 1.00001, sc.dt * hp, sc.dt * rp)?;
        let r = run(&d, &start(&d, &case), None);
        if r.code != 0 { return Ok(Out::new(false).class(true, "run refuses this system")); }
        let reference = files(&d);
        let total = r.ops.len() as u64;
        let d = fresh(&d2, "c04");
        let mut hist = vec![];
        let mut last = f64::NEG_INFINITY; let mut resumed = 0;
        for (at, mode, part) in crashes {
            let f = Fault { mode: ["kill", "kill", "full", "short"][*mode as usize], at: 1 + *at as u64 * total / 65536, part: *part };
            let r = match usable(&d) {
                Some((t, p)) => {
                    ensure!(t >= last, "{:?}: the snapshot left is of time {}, an earlier one of {}", hist, t, last);
                    last = t; resumed += 1;
                    if p != d.join("snap.bin") { std::fs::copy(&p, d.join("snap.bin")).unwrap(); }
                    run(&d, &resume(&d), Some(&f))
                }
                None => { ensure!(last == f64::NEG_INFINITY, "{:?}: no snapshot can be restored any more, one of time {} existed", hist, last); let d = fresh(&d2, "c04"); run(&d, &start(&d, &case), Some(&f)) }
            };
            hist.push(format!("{:?} -> exit {} after {} operations {}", f, r.code, r.ops.len(), trim(&r.ops, 60)));
            if r.code == 0 {
                compare(&d, &reference, &format!("after {:?}", hist))?;
            }
        }
        if let Some((t, p)) = usable(&d) { ensure!(t >= last, "{:?}: the snapshot left is of time {}, an earlier one of {}", hist, t, last); finish(&d, &p, &reference, &format!("after {:?}", hist))?; }
        else { ensure!(last == f64::NEG_INFINITY, "{:?}: no snapshot can be restored any more, one of time {} existed", hist, last); }
        Ok(Out::new(resumed > 0).class(resumed > 1, "several resumes"))
    });
    // The history is not what the snapshot needs: too short is refused and left alone, an excess is discarded.
    let d2 = dir.clone();
    ctx.law("history_mismatch", 160, 2500, (gen_case(), prop::collection::vec(any::<u8>(), 1..400), 0.0..1.0f64, 0u8..5), move |((sc, n, hp, rp), junk, frac, kind)| {
        let d = fresh(&d2, "c04");
        let case = d2.join("case04.json");
        write_case(&case, sc, sc.dt * *n as f64 * 1.00001, sc.dt * hp, sc.dt * rp)?;
        let r = run(&d, &start(&d, &case), None);
        if r.code != 0 || !d.join("snap.bin").exists() { return Ok(Out::new(false)); }
        let reference = files(&d);
        let need = match Sim::restore(&d.join("snap.bin")) { Ok(x) => x.n_hist() * 156 * sc.sys.bodies.len(), Err(m) => return Err(format!("final snapshot does not restore: {}", m)) };
        let h = reference["hist.bin"].clone();
        ensure!(need <= h.len(), "the snapshot needs {} bytes of history, only {} were written", need, h.len());
        let hp = d.join("hist.bin");
        if *kind < 2 {
            let len = if *kind == 0 { need - 1 - (*frac * (need as f64 - 1.).min(155.)) as usize } else { (*frac * need as f64) as usize };
            std::fs::write(&hp, &h[..len]).unwrap();
            let before = files(&d);
            let r = run(&d, &resume(&d), None);
            ensure!(r.code != 0, "a history of {} bytes was accepted although the snapshot needs {}", len, need);
            ensure!(files(&d) == before, "refusing a short history changed the files");
        } else {
            let mut b = match kind { 2 => h[..need].to_vec(), 3 => h.clone(), _ => h[..need + ((h.len() - need) as f64 * frac) as usize].to_vec() };
            if *kind != 2 { b.extend_from_slice(junk); }
            std::fs::write(&hp, &b).unwrap();
            finish(&d, &d.join("snap.bin"), &reference, &format!("history with {} bytes beyond the {} needed", b.len() - need, need))?;
        }
        Ok(Out::new(true).class(*kind < 2, "too short").class(*kind == 2, "exact").class(*kind > 2, "excess"))
    });
}

/// Model of the periodic triggers; `near` is set when a decision is within rounding.
struct Sched { last: f64, period: f64, near: bool }
impl Sched { fn due(&mut self, t: f64) -> bool { let x = self.last + self.period; if x != t && (x - t).abs() <= 1e-9 * (t.abs() + self.period) { self.near = true; } x <= t } }
/// Every step of a case in the library: (start time, record bytes of that moment, state after the step)
fn every_step(dir: &Path, sc: &Scen, t_lim: f64, max: usize) -> Result<Option<(Vec<(f64, Vec<u8>)>, Vec<f64>)>, String> {
    let case = dir.join("every.json");
    write_case(&case, sc, t_lim, sc.dt * 1e-9, 1e30)?;
    let mut sim = Sim::restore(&case)?;
    let hp = dir.join("every.bin");
    let _ = std::fs::remove_file(&hp);
    let t0 = std::time::Instant::now();
    let mut ends = vec![]; let mut starts = vec![];
    {
        let mut w = guard(|| posidonius::output::get_universe_history_writer(&hp, 0))?;
        loop { starts.push(sim.t()); match sim.step(&mut w) { Ok(go) => { ends.push(sim.t()); if !go { break; } } Err(_) => return Ok(None) } if starts.len() > max || t0.elapsed().as_secs() > 4 { return Ok(None); } }
        use std::io::Write; w.flush().unwrap();
    }
    let b = std::fs::read(&hp).unwrap();
    let rec = 156 * sc.sys.bodies.len();
    ensure!(b.len() == rec * starts.len(), "{} bytes of history for {} steps with an output at every step", b.len(), starts.len());
    Ok(Some((starts.iter().enumerate().map(|(i, t)| (*t, b[i * rec..(i + 1) * rec].to_vec())).collect(), ends)))
}

pub fn c05(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    // start -> (optional options without influence) -> resume with options
    let d2 = dir.clone();
    let opts = (0u8..4, any::<[bool; 3]>(), 0.05..2.5f64, 0.3..9.0f64, 0.4..12.0f64, any::<bool>());
    ctx.law("start_and_resume", 320, 6000, (gen_case(), opts), move |((sc, n, hp, rp), (sopt, which, flim, h2, r2, rs))| {
        let d = fresh(&d2, "c05");
        let case = d2.join("case05.json");
        // steps that are exact in binary, so that ties of the schedule are decided exactly
        let mut sc = sc.clone(); sc.dt = 2f64.powi(sc.dt.log2().floor() as i32); let sc = &sc;
        let ias = sc.integ == Integ::Ias;
        let t1 = sc.dt * (*n as f64 + 0.37);
        let (hist, rec) = (sc.dt * hp, sc.dt * rp);
        write_case(&case, sc, t1, hist, rec)?;
        let t2max = t1 * 3.;
        let (steps, _) = match every_step(&d2, sc, t2max, 3000)? { Some(x) => x, None => return Ok(Out::new(false).class(true, "run refuses this system")) };
        let mut args = start(&d, &case);
        if sopt & 1 == 1 { args.push("-s".into()); }
        if sopt & 2 == 2 { args.push("-l".into()); args.push("3600".into()); }
        let r = run(&d, &args, None);
        if r.code == 124 { return Ok(Out::new(false)); }
        ensure!(r.code == 0, "start exits with {}: {}", r.code, trim(&r.out, 500));
        ensure!((sopt & 1 == 1) != r.out.contains("Year:"), "silent {} but the output {} progress lines", sopt & 1 == 1, if r.out.contains("Year:") { "has" } else { "has no" });
        // model of the whole run
        let model = |from: usize, lim: f64, hs: &mut Sched, rs: &mut Sched, first: bool, out: &mut Vec<u8>| -> (usize, Option<usize>) {
            // returns the index of the step after the last one, and the number of steps done at the last snapshot
            let mut snap = None; let mut k = from;
            loop {
                let t = steps[k].0; let tn = steps[k + 1].0;
                let dtn = if ias { f64::from_le_bytes(steps[k + 1].1[8..16].try_into().unwrap()) } else { sc.dt };
                let f = first && k == 0;
                let hd = f || hs.due(t); let rd = f || rs.due(t);
                if hd { out.extend_from_slice(&steps[k].1); hs.last = if f { 0. } else if ias { t } else { hs.last + hs.period }; }
                k += 1;
                if (tn + dtn - lim).abs() < 1e-9 * lim { hs.near = true; }
                if tn + dtn > lim { return (k, snap); }
                if rd { rs.last = tn; snap = Some(k); }
                if k + 1 >= steps.len() { hs.near = true; return (k, snap); }
            }
        };
        let mut hs = Sched { last: 0., period: hist, near: false }; let mut rc = Sched { last: 0., period: rec, near: false };
        let mut want = vec![];
        let (_, snap) = model(0, t1, &mut hs, &mut rc, true, &mut want);
        let got = files(&d);
        if hs.near || rc.near { return Ok(Out::new(false).class(true, "a decision within rounding")); }
        ensure!(got.get("hist.bin") == Some(&want), "history of {} bytes instead of {} (first difference {:?})", got.get("hist.bin").map_or(0, |x| x.len()), want.len(), got.get("hist.bin").and_then(|h| h.iter().zip(&want).position(|(a, b)| a != b)));
        let sn = match (snap, got.get("snap.bin")) {
            (None, None) => return Ok(Out::new(true).class(true, "ended before the first snapshot")),
            (Some(k), Some(_)) => { let sim = Sim::restore(&d.join("snap.bin"))?; ensure!(sim.t() == steps[k].0, "the last recovery snapshot is of time {} instead of {} (period {}, step {})", sim.t(), steps[k].0, rec, sc.dt); k }
            (a, b) => return Err(format!("recovery snapshot expected {:?}, exists {}", a, b.is_some())),
        };
        let ts = steps[sn].0;
        // resume with options
        let lim = if which[0] { ts + (t1 * 2.9 - ts) * flim / 2.5 } else { t1 };
        let (h2, r2) = (if which[1] { sc.dt * h2 } else { hist }, if which[2] { sc.dt * r2 } else { rec });
        let mut args = resume(&d);
        if which[0] { args.push("--time-limit".into()); args.push(format!("{:?}", lim)); }
        if which[1] { args.push("--historic-snapshot-period".into()); args.push(format!("{:?}", h2)); }
        if which[2] { args.push("--recovery-snapshot-period".into()); args.push(format!("{:?}", r2)); }
        if *rs { args.push("--silent".into()); args.push("--limit".into()); args.push("3600".into()); }
        let r = run(&d, &args, None);
        if r.code == 124 { return Ok(Out::new(false)); }
        ensure!(r.code == 0, "resume {:?} exits with {}: {}", args, r.code, trim(&r.out, 500));
        // state of the schedule at the snapshot
        let mut hs = Sched { last: 0., period: hist, near: false }; let mut rc = Sched { last: 0., period: rec, near: false };
        let mut want = vec![];
        for k in 0..sn { let t = steps[k].0; let f = k == 0; let hd = f || hs.due(t); let rd = f || rc.due(t); if hd { want.extend_from_slice(&steps[k].1); hs.last = if f { 0. } else if ias { t } else { hs.last + hs.period }; } if rd { rc.last = steps[k + 1].0; } }
        hs.period = h2; rc.period = r2; hs.near = false; rc.near = false;
        let (_, snap2) = model(sn, lim, &mut hs, &mut rc, false, &mut want);
        let got = files(&d);
        if hs.near || rc.near { return Ok(Out::new(false).class(true, "a decision within rounding")); }
        ensure!(got.get("hist.bin") == Some(&want), "after resume {:?} at {}: history of {} bytes instead of {} (first difference {:?})", &args[3..], ts, got.get("hist.bin").map_or(0, |x| x.len()), want.len(), got.get("hist.bin").and_then(|h| h.iter().zip(&want).position(|(a, b)| a != b)));
        let sim = Sim::restore(&d.join("snap.bin")).map_err(|m| format!("snapshot after resuming does not restore: {}", m))?;
        let kk = snap2.unwrap_or(sn);
        ensure!(sim.t() == steps[kk].0, "after resume {:?} at {} the last recovery snapshot is of time {} instead of {}", &args[3..], ts, sim.t(), steps[kk].0);
        Ok(Out::new(true).class(which[0], "time limit").class(which[1], "history period").class(which[2], "recovery period").class(ias, "ias15").class(which[0] && lim < t1, "earlier limit"))
    });
    // Refusals leave everything as it was.
    let d2 = dir.clone();
    ctx.law("refusals", 320, 4000, (gen_case(), 0u8..9, prop::collection::vec(any::<u8>(), 0..300), 0.0..0.999f64), move |((sc, n, hp, rp), kind, junk, frac)| {
        let d = fresh(&d2, "c05");
        let case = d2.join("case05.json");
        write_case(&case, sc, sc.dt * *n as f64, sc.dt * hp, sc.dt * rp)?;
        let args;
        match kind {
            0..=2 => { if kind & 1 == 0 { std::fs::write(d.join("hist.bin"), junk).unwrap(); } if *kind > 0 { std::fs::write(d.join("snap.bin"), junk).unwrap(); } args = start(&d, &case); }
            3 => args = start(&d, &d2.join("absent.json")),
            4 => { let b = std::fs::read(&case).unwrap(); std::fs::write(&case, &b[..(b.len() as f64 * frac) as usize]).unwrap(); args = start(&d, &case); }
            5 => { std::fs::write(&case, junk).unwrap(); args = start(&d, &case); }
            _ => {
                let r = run(&d, &start(&d, &case), None);
                if r.code != 0 || !d.join("snap.bin").exists() { return Ok(Out::new(false)); }
                let t = Sim::restore(&d.join("snap.bin"))?.t();
                match kind {
                    6 => { let mut a = resume(&d); a.push("--time-limit".into()); a.push(format!("{:?}", t * frac + 1e-300)); args = a; }
                    7 => { std::fs::remove_file(d.join("snap.bin")).unwrap(); args = resume(&d); }
                    _ => { let b = std::fs::read(d.join("snap.bin")).unwrap(); std::fs::write(d.join("snap.bin"), &b[..(b.len() as f64 * frac) as usize]).unwrap(); args = resume(&d); }
                }
            }
        }
        let before = files(&d);
        let r = run(&d, &args, None);
        if r.code == 124 { return Ok(Out::new(false)); }
        ensure!(r.code != 0, "{:?} (kind {}) was accepted: {}", args, kind, trim(&r.out, 300));
        let after = files(&d);
        ensure!(after == before, "a refused command changed the files: {:?} -> {:?}", before.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>(), after.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>());
        Ok(Out::new(true).class(*kind < 3, "output exists").class(*kind >= 3 && *kind < 6, "bad case").class(*kind == 6, "limit in the past").class(*kind > 6, "bad snapshot"))
    });
    // The execution time limit only ends the run early, with a snapshot from which it goes on.
    let d2 = dir.clone();
    ctx.law("execution_time_limit", 8, 40, (gen_scen(&[0, 0, 1], 2), 50.0..400.0f64, 0.1..0.9f64), move |(sc, hk, rk)| {
        let d = fresh(&d2, "c05");
        let case = d2.join("case05.json");
        let mut sc = sc.clone(); if sc.integ == Integ::Ias { sc.integ = Integ::Leap; }
        let hist = sc.dt * hk;
        write_case(&case, &sc, sc.dt * 1e9, hist, sc.dt * 1e9 * rk)?;
        let mut a = start(&d, &case); a.push("-l".into()); a.push("1".into());
        let t0 = std::time::Instant::now();
        let r = run(&d, &a, None);
        if r.code != 0 { return if r.out.contains("PANIC") && (r.out.contains("ollision") || r.out.contains("too large") || r.out.contains("ejected") || r.out.contains("Roche") || r.out.contains("destroyed")) { Ok(Out::new(false)) } else { Err(format!("start -l 1 exits with {}: {}", r.code, trim(&r.out, 400))) }; }
        ensure!(t0.elapsed().as_secs_f64() >= 0.99, "the run with a limit of 1 s ended after {} s", t0.elapsed().as_secs_f64());
        if t0.elapsed().as_secs() > 20 { return Ok(Out::new(false).class(true, "machine too slow to judge")); }
        let sim = Sim::restore(&d.join("snap.bin")).map_err(|m| format!("no snapshot after reaching the execution time limit: {}", m))?;
        let (ts, n) = (sim.t(), sim.n_hist());
        let rec = 156 * sc.sys.bodies.len();
        let h = std::fs::read(d.join("hist.bin")).unwrap();
        ensure!(h.len() == n * rec, "history of {} bytes for {} snapshots when the execution time limit was reached", h.len(), n);
        ensure!(ts > 0. && n > 1, "nothing was integrated within the execution time limit (t={})", ts);
        // continue a little, against the same run without interruption
        let lim = ts + hist * 2.5;
        let mut a = resume(&d); a.push("--time-limit".into()); a.push(format!("{:?}", lim)); a.push("-s".into());
        let r = run(&d, &a, None);
        if r.code == 124 { return Ok(Out::new(false)); }
        ensure!(r.code == 0, "resume exits with {}: {}", r.code, trim(&r.out, 400));
        let e = fresh(&d2, "c05e");
        write_case(&case, &sc, lim, hist, 1e30)?;
        let r = run(&e, &start(&e, &case), None);
        if r.code == 124 { return Ok(Out::new(false)); }
        ensure!(r.code == 0, "uninterrupted run exits with {}: {}", r.code, trim(&r.out, 400));
        ensure!(std::fs::read(d.join("hist.bin")).unwrap() == std::fs::read(e.join("hist.bin")).unwrap(), "stopping by the execution time limit at {} and resuming changes the history", ts);
        Ok(Out::new(true))
    });
    let _ = put_files;
}
