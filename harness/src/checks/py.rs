//! C25 python cases and history reader against the program; C26 python tools.
//! The python package runs in a co-process (py/server.py) on a copy of /repo/posidonius made in the scratch directory.
use crate::engine::*;
use crate::ensure;
use crate::refmath;
use crate::sys::*;
use proptest::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Py { #[allow(dead_code)] kid: Child, w: ChildStdin, r: BufReader<ChildStdout> }
thread_local! { static PY: RefCell<Option<Py>> = RefCell::new(None); }

fn copy_py(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let p = e.path();
        let n = e.file_name().to_string_lossy().to_string();
        if p.is_dir() { if n != "tests" && n != "__pycache__" && n != "input" { copy_py(&p, &to.join(n)); } }
        else if n.ends_with(".py") { std::fs::copy(&p, to.join(n)).unwrap(); }
    }
}
fn exchange(py: &mut Py, q: &Value) -> Result<Value, String> {
    let mut line = serde_json::to_string(q).unwrap(); line.push('\n');
    py.w.write_all(line.as_bytes()).and_then(|_| py.w.flush()).map_err(|e| format!("python: {}", e))?;
    let mut s = String::new();
    py.r.read_line(&mut s).map_err(|e| format!("python: {}", e))?;
    serde_json::from_str(&s).map_err(|e| format!("python answered {:?}: {}", trim(&s, 200), e))
}
/// One request to the python package. Err: the package cannot be imported or the process died.
pub fn ask(q: &Value) -> Result<Value, String> {
    PY.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
            copy_py(&Path::new(&repo).join("posidonius"), Path::new("posidonius"));
            let mut kid = Command::new("python3-vt").arg(crate::verif_dir().join("harness/py/server.py")).env("PYTHONDONTWRITEBYTECODE", "1").env("OMP_NUM_THREADS", "1").env("OPENBLAS_NUM_THREADS", "1")
                .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("python3-vt starts");
            let w = kid.stdin.take().unwrap();
            let mut r = BufReader::new(kid.stdout.take().unwrap());
            let mut s = String::new();
            r.read_line(&mut s).expect("python answers");
            let v: Value = serde_json::from_str(&s).expect("python answers with JSON");
            if let Some(f) = v["fatal"].as_str() { return Err(format!("the python package cannot be imported: {}", f)); }
            *c = Some(Py { kid, w, r });
        }
        let r = exchange(c.as_mut().unwrap(), q);
        if r.is_err() { if let Some(mut p) = c.take() { let _ = p.kid.kill(); let _ = p.kid.wait(); } }
        r
    })
}
/// Calls of python functions; each gives the flattened numbers (NaN when not finite) or an exception.
pub fn calls(v: Vec<Value>) -> Result<Vec<Result<Vec<f64>, String>>, String> {
    let r = ask(&json!({"op": "call", "calls": v}))?;
    Ok(r["ok"].as_array().ok_or("no answer")?.iter().map(|x| match x.as_array() { Some(a) => Ok(a.iter().map(|n| n.as_f64().unwrap_or(f64::NAN)).collect()), None => Err(x["err"].as_str().unwrap_or("?").to_string()) }).collect())
}
pub fn call(f: &str, a: Value) -> Result<Result<Vec<f64>, String>, String> { Ok(calls(vec![json!({"f": f, "a": a})])?.pop().unwrap()) }

// ---------------------------------------------------------------- the same system, described to python
fn jtm(m: &TModel) -> Value {
    match m {
        TModel::Ctl { k2, sigma, scale } => json!({"kind": "ctl", "p": {"dissipation_factor_scale": scale, "dissipation_factor": sigma, "love_number": k2}}),
        TModel::Creep { eta } => json!({"kind": "creep", "p": {"uniform_viscosity_coefficient": eta}}),
        TModel::Kaula { freq, re, im } => { let pad = |v: &Vec<f64>| { let mut v = v.clone(); v.resize(1024, 0.); v }; json!({"kind": "kaula", "p": {"love_number_excitation_frequency": pad(freq), "real_part_love_number": pad(re), "imaginary_part_love_number": pad(im), "num_datapoints": freq.len() as f64}}) }
    }
}
fn jfm(m: FModel) -> Value { match m { FModel::Oblate { k2f } => json!({"kind": "oblate", "p": {"love_number": k2f}}), FModel::Creep { eta } => json!({"kind": "creep", "p": {"uniform_viscosity_coefficient": eta}}) } }
fn jbody(b: &Body) -> Value {
    json!({"m": b.m, "r": b.r, "rg": b.rg, "x": b.x, "v": b.v, "spin": b.spin,
        "tide": match &b.tide { Tide::Off => Value::Null, Tide::Central(m) => json!({"role": "central", "model": jtm(m)}), Tide::Orbiting(m) => json!({"role": "orbiting", "model": jtm(m)}) },
        "flat": match b.flat { Flat::Off => Value::Null, Flat::Central(m) => json!({"role": "central", "model": jfm(m)}), Flat::Orbiting(m) => json!({"role": "orbiting", "model": jfm(m)}) },
        "gr": match b.gr { Gr::Off => Value::Null, Gr::Orbiting => json!({"role": "orbiting"}), Gr::Central(i) => json!({"role": "central", "impl": match i { GrImpl::Kidder => "Kidder1995", GrImpl::Anderson => "Anderson1975", GrImpl::Newhall => "Newhall1983" }}) },
        "wind": b.wind,
        "disk": match b.disk { Dsk::Off => Value::Null, Dsk::Orbiting => json!({"role": "orbiting"}), Dsk::Central(d) => json!({"role": "central", "p": {"inner_edge_distance": d.inner, "outer_edge_distance": d.outer, "lifetime": d.life, "alpha": d.alpha, "surface_density_normalization": d.sigma0, "mean_molecular_weight": d.mu}}) },
        "evo": match b.evo { Evo::No => Value::Null, Evo::Baraffe2015(m) => json!(["Baraffe2015", m]), Evo::Baraffe1998(m) => json!(["Baraffe1998", m]), Evo::Leconte2011(m) => json!(["Leconte2011", m]), Evo::BolmontMathis2016(m) => json!(["BolmontMathis2016", m]), Evo::GalletBolmont2017(m) => json!(["GalletBolmont2017", m]), Evo::LeconteChabrier2013(d) => json!(["LeconteChabrier2013", d]) },
    })
}
/// Ask python to write the case; Ok(None) written, Ok(Some(reason)) refused.
fn py_case(s: &Sys, integ: Integ, dt: f64, limit: f64, hist: f64, rec: f64, file: &str, implicit: bool) -> Result<Option<String>, String> { py_case_refs(s, integ, dt, limit, hist, rec, file, implicit, Value::Null) }
fn py_case_refs(s: &Sys, integ: Integ, dt: f64, limit: f64, hist: f64, rec: f64, file: &str, implicit: bool, refs: Value) -> Result<Option<String>, String> {
    let (i, c) = match integ { Integ::Jacobi => ("whfast", Some("Jacobi")), Integ::Dem => ("WHFast", if implicit { None } else { Some("DemocraticHeliocentric") }), Integ::Whds => ("WHFAST", Some("WHDS")), Integ::Ias => ("ias15", None), Integ::Leap => ("LeapFrog", None) };
    let f = s.flags;
    let r = ask(&json!({"op": "case", "t0": s.t0, "limit": limit, "dt": dt, "rec": rec, "hist": hist, "file": file, "refs": refs, "integrator": i, "coords": c,
        "flags": {"tides": f.tides, "rotational_flattening": f.flat, "general_relativity": f.gr, "disk": f.disk, "wind": f.wind, "evolution": f.evo},
        "bodies": s.bodies.iter().map(jbody).collect::<Vec<_>>()}))?;
    Ok(r["err"].as_str().map(|e| e.to_string()))
}

/// Leaves of a JSON tree: path with array indices, path without them, value.
fn leaves<'a>(v: &'a Value, path: String, gen: String, out: &mut Vec<(String, String, &'a Value)>) {
    match v {
        Value::Object(o) => for (k, x) in o { leaves(x, format!("{}.{}", path, k), format!("{}.{}", gen, k), out) },
        Value::Array(a) => { if a.is_empty() { out.push((path.clone(), gen.clone(), v)); } for (i, x) in a.iter().enumerate() { leaves(x, format!("{}[{}]", path, i), gen.clone(), out) } }
        _ => out.push((path, gen, v)),
    }
}
/// Differences between two simulation states: numbers to a relative 1e-11 (coordinates relative to the largest of their kind).
fn difference(a: &Value, b: &Value) -> Option<String> {
    let (mut la, mut lb) = (vec![], vec![]);
    leaves(a, String::new(), String::new(), &mut la);
    leaves(b, String::new(), String::new(), &mut lb);
    // what the effects compute for themselves at every evaluation is judged by the trajectories
    let own = |l: &(String, String, &Value)| l.1.contains(".internal.") || l.1.contains(".output.") || l.1.contains(".dangular_momentum_dt.") || l.1.contains("_acceleration.") || l.1.contains("_force.") || l.1.contains(".polynomials.");
    la.retain(|l| !own(l)); lb.retain(|l| !own(l));
    let mut scale: HashMap<&str, f64> = HashMap::new();
    for (_, g, v) in la.iter().chain(lb.iter()) { if let Some(x) = v.as_f64() { let key = g.trim_end_matches(|c| matches!(c, 'x' | 'y' | 'z')); let s = scale.entry(key).or_insert(0.); *s = s.max(x.abs()); } }
    let mb: HashMap<&str, &Value> = lb.iter().map(|(p, _, v)| (p.as_str(), *v)).collect();
    if la.len() != lb.len() { let sa: std::collections::HashSet<&str> = la.iter().map(|l| l.0.as_str()).collect(); let extra: Vec<&str> = lb.iter().map(|l| l.0.as_str()).filter(|p| !sa.contains(p)).take(3).collect(); return Some(format!("{} values instead of {} ({:?} missing)", la.len(), lb.len(), extra)); }
    for (p, g, x) in &la {
        let y = match mb.get(p.as_str()) { Some(y) => *y, None => return Some(format!("{} is only on one side", p)) };
        match (x.as_f64(), y.as_f64()) {
            (Some(x), Some(y)) => {
                let key = g.trim_end_matches(|c| matches!(c, 'x' | 'y' | 'z'));
                let coord = key.len() != g.len();
                // quantities derived from coordinates lose the digits the barycentre costs
                let key = if g.ends_with("heliocentric_radial_velocity") { ".universe.particles.heliocentric_norm_velocity_vector" } else { key };
                let coord = coord || g.ends_with("heliocentric_radial_velocity");
                let tol = 1e-11 * x.abs().max(y.abs()) + if coord { 1e-12 * scale.get(key).copied().unwrap_or(0.) } else { 1e-13 * scale.get(key).copied().unwrap_or(0.) };
                if !((x - y).abs() <= tol) { return Some(format!("{} is {:e} on one side and {:e} on the other", p, x, y)); }
            }
            (None, None) => if x != &y { return Some(format!("{} is {} on one side and {} on the other", p, x, y)); },
            _ => return Some(format!("{} is {} on one side and {} on the other", p, x, y)),
        }
    }
    None
}

fn drift(a: &State, b: &State, steps: usize) -> Option<String> {
    let nan = |v: &Vec<V>| v.iter().flatten().any(|x| x.is_nan());
    if nan(&a.x) || nan(&b.x) { return if nan(&a.x) == nan(&b.x) { None } else { Some(format!("not numbers on one side after {} steps", steps)) }; }
    if !((a.t - b.t).abs() <= 1e-9 * a.t.abs()) { return Some(format!("times {} and {} after {} steps", a.t, b.t, steps)); }
    for (name, p, q) in [("positions", &a.x, &b.x), ("velocities", &a.v, &b.v)] { let m = p.iter().map(|v| norm(*v)).fold(0., f64::max); for i in 0..p.len() { if !within(name, norm(sub(p[i], q[i])), 1e-8 * m) { return Some(format!("{} of body {} after {} steps: {:?} against {:?}", name, i, steps, q[i], p[i])); } } }
    for i in 0..a.l.len() { if !within("spin", norm(sub(a.l[i], b.l[i])), 1e-4 * norm(a.l[i])) { return Some(format!("spin angular momentum of body {} after {} steps: {:?} against {:?}", i, steps, b.l[i], a.l[i])); } }
    None
}
pub fn c25(ctx: &mut Ctx) {
    let dir = ctx.scratch.clone();
    let file = dir.join("case.json");
    let f = file.to_str().unwrap().to_string();
    let _ = &dir;
    // Python and the program start the same simulation from the same description.
    ctx.law("same_start", 1600, 40000, (gen_scen(&[0, 1, 1, 1, 2, 2, 3, 4, 5], 6), 10.0..1e4f64, logu(0.1, 1e5), logu(0.1, 1e5), any::<bool>(), any::<bool>(), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop::option::of(0usize..10), 10)]), |(sc, limit, hist, rec, implicit, untouched, refs)| {
        let mut s = sc.sys.clone();
        // effects that nothing uses are also switched on from time to time
        if *untouched { s.flags.wind = true; s.flags.disk = true; s.flags.evo = true; }
        // (the default tables of these two are not laid out as python expects; same_tables has them)
        for b in s.bodies.iter_mut() { if let Evo::GalletBolmont2017(m) = b.evo { b.evo = Evo::BolmontMathis2016(m); } if let Evo::Leconte2011(_) = b.evo { b.evo = Evo::Baraffe2015(1.); } }
        let limit = limit * sc.dt;
        let mine = guard(|| Sim::new(&s, sc.integ, sc.dt, limit, *hist, *rec));
        let refs: Vec<Option<usize>> = refs.iter().take(s.bodies.len()).map(|r| r.map(|r| r % s.bodies.len())).collect();
        let theirs = py_case_refs(&s, sc.integ, sc.dt, limit, *hist, *rec, &f, *implicit, if refs.is_empty() { Value::Null } else { json!(refs) })?;
        match (&mine, &theirs) { (Ok(_), Some(e)) => return Err(format!("python refuses what the program accepts: {}", e)), (Err(m), None) => return Err(format!("python accepts what the program refuses: {}", m)), (Err(_), Some(_)) => return Ok(Out::new(false).class(true, "refused")), _ => {} }
        let mut mine = mine.unwrap();
        let mut theirs = Sim::restore(&file).map_err(|e| format!("the program cannot restore the case written by python: {}", e))?;
        let fresh = theirs.json_full();
        for (i, b) in s.bodies.iter().enumerate() {
            let n2 = fresh["universe"]["particles"][i]["norm_spin_vector_2"].as_f64();
            ensure!(n2.map_or(false, |n2| close(n2, dot(b.spin, b.spin), 1e-12, 0.)), "body {} with the spin {:?}: its square is {:?} in the file", i, b.spin, n2);
        }
        theirs.int.initialize_physical_values();
        ensure!(mine.kind() == theirs.kind(), "integrator {} instead of {}", theirs.kind(), mine.kind());
        let mut full = theirs.json_full();
        for (i, r) in refs.iter().enumerate() {
            // bodies referring to another one than the most massive
            let v = &mut full["universe"]["particles"][i]["reference"];
            if let Some(r) = r { ensure!(*v == json!({"Particle": r}), "body {} refers to {} instead of body {}", i, v, r); *v = json!("MostMassiveParticle"); }
        }
        if let Some(d) = difference(&full, &mine.json_full()) { return Err(format!("python against program at the start: {}", d)); }
        let mut w = null_writer();
        // the second adaptive step may already be chosen from rounding errors
        let steps = if sc.integ == Integ::Ias { 1 } else { 6 };
        for k in 0..steps {
            let (a, b) = (mine.step(&mut w), theirs.step(&mut w));
            match (&a, &b) { (Ok(x), Ok(y)) if x == y => { if !x { break; } } (Err(_), Err(_)) => break, _ => return Err(format!("after {} steps: {:?} against {:?}", k, a, b)) }
            // (thrown out by a dissipation far beyond what the step resolves: only rounding errors from here on)
            if mine.state().v.iter().any(|v| !(norm(*v) < 10.)) { break; }
        }
        let (a, b) = (mine.state(), theirs.state());
        // (a step that was repeated with another length depends on rounding errors)
        if sc.integ == Integ::Ias && a.t != b.t && (a.t / b.t - 1.).abs() < 1e-3 { return Ok(Out::new(sc.what > 0).class(true, "IAS15, first step repeated")); }
        if let Some(d) = drift(&a, &b, steps) { return Err(d); }
        Ok(Out::new(sc.what > 0).class(sc.what == 2, "evolving").class(sc.what == 3, "creep").class(sc.what >= 4, "Kaula").class(sc.what == 0, "gravity only").class(sc.integ == Integ::Ias, "IAS15").class(sc.integ == Integ::Leap, "leap-frog").class(*untouched, "unused effects requested").class(refs.iter().any(|r| r.is_some()), "explicit reference body"))
    });
    let strat = (super::build::any_setup(), integ());
    ctx.law("same_refusals", 4000, 80000, strat, |(s, integ)| {
        // two central bodies for an effect that is switched off: only the program objects
        let two = |on: bool, f: &dyn Fn(&Body) -> bool| !on && s.bodies.iter().filter(|b| f(b)).count() > 1;
        if two(s.flags.tides, &|b| matches!(b.tide, Tide::Central(_))) || two(s.flags.flat, &|b| matches!(b.flat, Flat::Central(_))) || two(s.flags.gr, &|b| matches!(b.gr, Gr::Central(_))) || two(s.flags.disk, &|b| matches!(b.disk, Dsk::Central(_))) { return Ok(Out::new(false)); }
        let mine = guard(|| Sim::new(s, *integ, 1., 1e9, 1e3, 1e3));
        let theirs = py_case(s, *integ, 1., 1e9, 1e3, 1e3, &f, false)?;
        match (mine, theirs) {
            (Ok(_), Some(e)) => Err(format!("python refuses what the program accepts: {}", e)),
            (Err(m), None) => Err(format!("python accepts what the program refuses: {}", m)),
            (Err(_), Some(_)) => Ok(Out::new(true).class(true, "refused")),
            (Ok(mine), None) => {
                let mut theirs = Sim::restore(&file).map_err(|e| format!("the program cannot restore the case written by python: {}", e))?;
                theirs.int.initialize_physical_values();
                if let Some(d) = difference(&theirs.json_full(), &mine.json_full()) { return Err(format!("python against program at the start: {}", d)); }
                Ok(Out::new(true).class(true, "accepted").class(s.bodies.len() == 10, "ten bodies"))
            }
        }
    });
    // Evolving bodies: the tables python reads are the ones the program reads.
    let strat = super::evol::any_tables();
    ctx.law("same_tables", 2400, 50000, strat, |(s, ok, write)| {
        write.write();
        let limit = ok.1;
        let mine = guard(|| Sim::new(s, Integ::Dem, 1e-3, limit, 1e30, 1e30));
        let theirs = py_case(s, Integ::Dem, 1e-3, limit, 1e30, 1e30, &f, false)?;
        let r = match (&mine, &theirs) {
            (Ok(_), Some(e)) => Err(format!("python refuses what the program accepts: {}", e)),
            (Err(m), None) => Err(format!("python accepts what the program refuses: {}", m)),
            (Err(_), Some(_)) => Ok(Out::new(true).class(true, "refused")),
            (Ok(mine), None) => {
                let mut theirs = Sim::restore(&file).map_err(|e| format!("the program cannot restore the case written by python: {}", e))?;
                theirs.int.initialize_physical_values();
                match difference(&theirs.json_full(), &mine.json_full()) { Some(d) => Err(format!("python against program: {}", d)), None => Ok(Out::new(true).class(true, "accepted")) }
            }
        };
        r
    });
    ctx.known("python-brown-dwarf-gyration-smoothed", || {
        let (s, _, tb) = super::evol::curved_brown_dwarf();
        tb.write();
        let mine = Sim::new(&s, Integ::Dem, 1., 1e3, 1e30, 1e30);
        py_case(&s, Integ::Dem, 1., 1e3, 1e30, 1e30, &f, false).ok()?;
        let theirs = Sim::restore(&file).ok()?;
        let (a, b) = (theirs.u().particles[0].radius_of_gyration_2, mine.u().particles[0].radius_of_gyration_2);
        if (a - b).abs() > 1e-6 { Some(format!("radius of gyration squared {} in the python case, {} in the program", a, b)) } else { None }
    });
    // The history reader: whole snapshots only, in order, every value as written.
    let strat = (gen_scen(&[0, 1, 1, 3], 5), 0usize..12, 0.2..3.0f64, prop_oneof![1 => Just(0usize), 4 => 0usize..2000], any::<bool>(), any::<bool>(), 0.9..4.0f64);
    ctx.law("history_reader", 1200, 25000, strat, |(sc, n, every, torn, zero_first, discard, stretch)| {
        let mut s = sc.sys.clone();
        if *zero_first { let h = s.heaviest(); s.bodies.swap(0, h); }
        let h = s.heaviest();
        let nb = s.bodies.len();
        let hf = dir.join("h.bin");
        let mut sim = match guard(|| Sim::new(&s, sc.integ, sc.dt, 1e9, every * sc.dt, 1e30)) { Ok(s) => s, Err(_) => return Ok(Out::new(false)) };
        { let mut w = std::io::BufWriter::new(std::fs::File::create(&hf).unwrap());
          for _ in 0..*n { if sim.step(&mut w).is_err() { break; } } w.flush().unwrap(); }
        let whole = std::fs::read(&hf).unwrap();
        let cut = whole.len().saturating_sub(*torn);
        std::fs::write(&hf, &whole[..cut]).unwrap();
        let recs: Vec<Vec<f64>> = whole[..cut].chunks_exact(156).map(|c| { let g = |o: usize| f64::from_le_bytes(c[o..o + 8].try_into().unwrap()); let mut v = vec![g(0), g(8), i32::from_le_bytes(c[16..20].try_into().unwrap()) as f64]; for k in 0..17 { v.push(g(20 + 8 * k)); } v }).collect();
        let snaps = recs.len() / nb;
        let discard = *discard && snaps > 0;
        // (dropping the first century: the times are stretched to straddle it)
        let recs: Vec<Vec<f64>> = if discard {
            let mut bytes = whole[..cut].to_vec();
            let t1 = recs[(snaps - 1) * nb][0].abs().max(1e-9);
            let f = 36525. * stretch / t1;
            let mut recs = recs;
            for (i, r) in recs.iter_mut().enumerate() { r[0] *= f; bytes[156 * i..156 * i + 8].copy_from_slice(&r[0].to_le_bytes()); }
            std::fs::write(&hf, &bytes).unwrap();
            recs
        } else { recs };
        let r = ask(&json!({"op": "history", "file": hf.to_str().unwrap(), "classify": h, "resonance": true, "discard": discard}))?;
        if let Some(e) = r["err"].as_str() {
            // nothing complete to read: refusing is right
            return if snaps == 0 { Ok(Out::new(true).class(true, "nothing complete")) } else { Err(format!("a history with {} complete snapshots of {} bodies is refused: {} {}", snaps, nb, e, r["at"])) };
        }
        if snaps == 0 { return Ok(Out::new(false)); }
        ensure!(r["n"].as_u64() == Some(nb as u64), "{} bodies instead of {}", r["n"], nb);
        let names = ["current_time", "time_step", "particle", "position_x", "position_y", "position_z", "spin_x", "spin_y", "spin_z", "velocity_x", "velocity_y", "velocity_z", "mass", "radius", "radius_of_gyration_2", "love_number", "scaled_dissipation_factor", "lag_angle", "denergy_dt", "migration_timescale"];
        let col = |v: &Value, k: &str| -> Vec<f64> { v[k].as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN)).collect()).unwrap_or_default() };
        let same = |a: f64, b: f64| a == b || (a.is_nan() && !b.is_finite()) || (a - b).abs() <= 1e-14 * a.abs();
        for (k, name) in names.iter().enumerate() {
            let c = col(&r["cols"], name);
            ensure!(c.len() == snaps * nb, "{} rows instead of {} complete snapshots of {}", c.len(), snaps, nb);
            for i in 0..c.len() { ensure!(same(recs[i][k], c[i]) || (c[i].is_nan() && !recs[i][k].is_finite()), "{} of row {} is {:e} instead of {:e}", name, i, c[i], recs[i][k]); }
        }
        ensure!(r["again"].as_bool() == Some(true), "classifying the history alters the data it is given");
        // classified: years, heliocentric, the reference body apart; the first century dropped on request
        let from = if discard { (0..snaps).find(|k| recs[k * nb][0] / 365.25 >= 100.).unwrap_or(snaps) } else { 0 };
        let (recs, snaps, all) = (recs[from * nb..].to_vec(), snaps - from, snaps);
        let star = col(&r["star"], "current_time");
        ensure!(star.len() == snaps, "{} rows for the reference body instead of {}", star.len(), snaps);
        for k in 0..snaps {
            ensure!(same(recs[k * nb][0] / 365.25, star[k]), "time {} instead of {} years", star[k], recs[k * nb][0] / 365.25);
            ensure!(col(&r["star"], "position_x")[k] == 0. && col(&r["star"], "velocity_z")[k] == 0., "the reference body is not at the origin");
            ensure!(same(col(&r["star"], "mass")[k], s.bodies[h].m), "mass of the reference body");
        }
        let keys: Vec<String> = r["keys"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
        let want: Vec<String> = (0..nb).filter(|i| *i != h).map(|i| i.to_string()).collect();
        ensure!(keys == want, "orbiting bodies {:?} instead of {:?} (reference body {})", keys, want, h);
        let mut elements = 0;
        for (j, key) in keys.iter().enumerate() {
            let i: usize = key.parse().unwrap();
            let d = &r["planets"][key];
            for k in 0..snaps {
                let (p, c) = (&recs[k * nb + i], &recs[k * nb + h]);
                let (mut x, mut v) = ([0.; 3], [0.; 3]);
                for (q, a) in ["x", "y", "z"].iter().enumerate() {
                    x[q] = p[3 + q] - c[3 + q]; v[q] = p[9 + q] - c[9 + q];
                    ensure!(same(x[q], col(d, &format!("position_{}", a))[k]) && same(v[q], col(d, &format!("velocity_{}", a))[k]), "heliocentric {} of body {} in snapshot {}", a, i, k);
                }
                // orbital elements about the centre of mass of the others; its distance to the reference body is added to the axis
                {
                    let (mut m, mut cx, mut cv) = (0., [0.; 3], [0.; 3]);
                    for o in (0..nb).filter(|o| *o != i) { let q = &recs[k * nb + o]; m += q[12]; for a in 0..3 { cx[a] += q[12] * (q[3 + a] - c[3 + a]); cv[a] += q[12] * (q[9 + a] - c[9 + a]); } }
                    let (cx, cv) = (mul(cx, 1. / m), mul(cv, 1. / m));
                    let (x, v) = (sub(x, cx), sub(v, cv));
                    let mu = G * (p[12] + m);
                    let a = 1. / (2. / norm(x) - dot(v, v) / mu) + norm(cx);
                    let l = cross(x, v);
                    let e = norm(sub(mul(cross(v, l), 1. / mu), mul(x, 1. / norm(x))));
                    let i = (l[0].hypot(l[1])).atan2(l[2]);
                    let (ga, ge, gi) = (col(d, "semi-major_axis")[k], col(d, "eccentricity")[k], col(d, "inclination")[k]);
                    if e < 0.99 { ensure!(within("a", (ga / a - 1.).abs(), 1e-9) && within("e", (ge - e).abs(), 2e-7) && within("i", (gi - i).abs(), 1e-7), "elements {} {} {} instead of {} {} {}", ga, ge, gi, a, e, i); }
                    elements += (nb > 2) as usize;
                }
                if x.iter().chain(v.iter()).any(|x| !x.is_finite()) { continue; }
                // resonance data: t, a, e, g, n, M, q, Q in degrees
                let res = |c: usize| r["resonance"][c][j][k].as_f64().unwrap_or(f64::NAN);
                let mu = G * (p[12] + c[12]);
                let el = refmath::to_elements(mu, x, v);
                ensure!(within("resonance a", (res(1) / el.a - 1.).abs(), 1e-9) && within("resonance e", (res(2) - el.e).abs(), 1e-7), "resonance data: a {} e {} instead of {} {}", res(1), res(2), el.a, el.e);
                ensure!(within("peri", (res(6) / (el.a * (1. - el.e)) - 1.).abs(), 1e-6) && within("apo", (res(7) / (el.a * (1. + el.e)) - 1.).abs(), 1e-6), "apsides {} {} instead of {} {}", res(6), res(7), el.a * (1. - el.e), el.a * (1. + el.e));
                if el.e > 1e-3 && el.i.sin() > 1e-3 {
                    let dd = |a: f64, b: f64| { let d = (a - b).rem_euclid(360.); d.min(360. - d) };
                    for (nm, g, w) in [("argument of pericentre", res(3), el.w), ("longitude of the node", res(4), el.n), ("mean anomaly", res(5), el.m)] {
                        ensure!(within(nm, dd(g, w.to_degrees()), 1e-4), "resonance data: {} {} degrees instead of {}", nm, g, w.to_degrees());
                    }
                }
            }
        }
        Ok(Out::new(all > 0).class(cut % (156 * nb) != 0, "torn").class(h != 0, "reference body not first").class(elements > 0, "elements about a centre of mass").class(discard && snaps > 0 && snaps < all, "first century dropped"))
    });
}

// ---------------------------------------------------------------- C26
fn vax(v: V) -> Value { json!({"ax": v}) }
fn adiff(a: f64, b: f64) -> f64 { let d = (a - b).rem_euclid(refmath::TAU); d.min(refmath::TAU - d) }
fn hyp_anomaly(e: f64, m: f64) -> f64 {
    let s = m.signum(); let m = m.abs();
    let (mut lo, mut hi) = (0., (2. * m / e + 2.).ln() + 2. + m);
    for _ in 0..300 { let x = 0.5 * (lo + hi); if e * x.sinh() - x > m { hi = x } else { lo = x } }
    s * 0.5 * (lo + hi)
}
/// state from pericentre distance, eccentricity, angles and the mean anomaly of any conic, with own solutions of Kepler's equation
fn ref_state(mu: f64, q: f64, e: f64, i: f64, n: f64, w: f64, l: f64) -> (V, V) {
    if e < 1. { refmath::elements_to_cart(mu, q / (1. - e), e, i, n, w, l) }
    else if e > 1. {
        let f = hyp_anomaly(e, l);
        let a = q / (e - 1.); let r = a * (e * f.cosh() - 1.); let nn = (mu / a.powi(3)).sqrt(); let s = (e * e - 1.).sqrt();
        refmath::plane(a * (e - f.cosh()), a * s * f.sinh(), -a * a * nn / r * f.sinh(), a * a * nn / r * s * f.cosh(), i, n, w)
    } else {
        let (mut lo, mut hi) = (-40f64, 40f64); for _ in 0..200 { let d = 0.5 * (lo + hi); if d + d * d * d / 3. > l { hi = d } else { lo = d } }
        refmath::conic_to_cart(mu, q, 1., i, n, w, 2. * (0.5 * (lo + hi)).atan())
    }
}
fn ecc() -> impl Strategy<Value = f64> + Clone { prop_oneof![1 => Just(0.), 2 => logu(1e-4, 0.1), 4 => 0.0..0.95f64, 1 => (1.0..3.0f64).prop_map(|x| 1. - 10f64.powf(-x)), 2 => logu(0.02, 5.).prop_map(|x| 1. + x)] }
fn incl() -> impl Strategy<Value = f64> + Clone { let pi = std::f64::consts::PI; prop_oneof![1 => Just(0.), 1 => Just(pi), 1 => logu(1e-6, 0.1), 5 => 0.0..pi] }
fn node() -> impl Strategy<Value = f64> + Clone { prop_oneof![5 => angle(), 1 => Just(0.), 1 => Just(std::f64::consts::PI), 1 => Just(std::f64::consts::FRAC_PI_2)] }
/// an orbit: total mass, q, e, i, node, argument of pericentre, true anomaly (kept inside the branch of hyperbolas)
type Orb = (f64, f64, f64, f64, f64, f64, f64);
fn orb() -> impl Strategy<Value = Orb> + Clone {
    (logu(1e-3, 10.), logu(1e-3, 100.), ecc(), incl(), node(), node(), prop_oneof![1 => Just(0.), 6 => -2.5..2.5f64, 1 => Just(std::f64::consts::PI)]).prop_map(|(m, q, e, i, n, w, f)| { let f = if e >= 1. { f.clamp(-1.3, 1.3) * (std::f64::consts::PI - (1. / e).acos()) / 1.4 * 0.5 } else { f }; (m, q, e, i, n, w, f) })
}
/// Judge elements (a, q, e, i, p, n, l, f) of a state: each against its definition, all together by rebuilding the state.
fn judge(g: &[f64], o: &Orb, shift: f64) -> Result<(), String> {
    let (m, q, e, i, n, w, f) = *o;
    let mu = G * m;
    let (x, v) = refmath::conic_to_cart(mu, q, e, i, n, w, f);
    ensure!(g.len() == 8, "{} elements instead of 8", g.len());
    let (a0, c) = (q / (1. - e), 1. / (1. - e).abs().min(1.));
    let (ga, gq) = (g[0] - shift, g[1] - shift * (1. - g[2]));
    let big = 1. + shift / q; // digits lost to the shift
    ensure!(within("semi-major axis", (ga / a0 - 1.).abs(), 1e-10 * c * c * big), "semi-major axis {} instead of {} (e={})", ga, a0, e);
    ensure!(within("perihelion", (gq / q - 1.).abs(), 4e-7 * big), "perihelion distance {} instead of {}", gq, q);
    ensure!(within("eccentricity", (g[2] - e).abs(), if e < 1e-3 { 2e-7 * big.sqrt() } else { 1e-11 / e * c * big }), "eccentricity {} instead of {}", g[2], e);
    ensure!(within("inclination", (g[3] - i).abs(), 1e-7 * big), "inclination {} instead of {}", g[3], i);
    let si = i.sin().abs();
    if si > 1e-4 { ensure!(within("node", adiff(g[5], n), 1e-10 / si * big), "longitude of the ascending node {} instead of {}", g[5], n); }
    if e > 1e-4 && si > 1e-4 { ensure!(within("perihelion longitude", adiff(g[4], w + n), (1e-9 / si + 1e-10 / e) * big), "longitude of perihelion {} instead of {} (i={}, node {})", g[4], w + n, i, n); }
    ensure!(g[5] >= 0. && g[5] <= 6.2831854 && g[4] >= 0. && g[4] <= 6.2831854, "angles outside one turn: {} {}", g[5], g[4]);
    // the elements describe the state
    let tol = (2e-6 + 6. * (1e-14 / e.max(1e-8)).sqrt()) * c * big;
    if e < 3e-8 {
        let (xx, vv) = refmath::elements_to_cart(mu, ga, 0., g[3], g[5], g[4] - g[5], g[6]);
        ensure!(within("circular state", norm(sub(xx, x)) / norm(x) + norm(sub(vv, v)) / norm(v), tol), "the elements {:?} of a circular orbit describe {:?} instead of {:?}", g, xx, x);
    } else {
        let (xx, vv) = refmath::conic_to_cart(mu, gq, g[2], g[3], g[5], g[4] - g[5], g[7]);
        ensure!(within("state, true anomaly", norm(sub(xx, x)) / norm(x) + norm(sub(vv, v)) / norm(v), tol * 10.), "the elements {:?} with the true anomaly describe {:?} instead of {:?}", g, xx, x);
        let (xx, vv) = ref_state(mu, gq, g[2], g[3], g[5], g[4] - g[5], g[6]);
        ensure!(within("state, mean anomaly", norm(sub(xx, x)) / norm(x) + norm(sub(vv, v)) / norm(v), tol * 10. * c), "the elements {:?} with the mean anomaly describe {:?} instead of {:?}", g, xx, x);
    }
    Ok(())
}
fn ok(r: Result<Vec<f64>, String>, what: &str) -> Result<Vec<f64>, String> { r.map_err(|e| format!("{} raises {}", what, e)) }
pub fn c26(ctx: &mut Ctx) {
    let pi = std::f64::consts::PI;
    const CART: &str = "tools.calculate_cartesian_coordinates";
    const ELEM: &str = "tools.calculate_keplerian_orbital_elements";
    // Elements to coordinates, like the program and an own solution
    let anomaly = prop_oneof![4 => angle(), 1 => Just(0.), 1 => Just(pi), 2 => -20.0..20.0f64, 1 => -0.5..0.5f64];
    let e_any = prop_oneof![8 => ecc(), 1 => Just(1.0)];
    ctx.law("elements_to_coordinates", 12000, 300000, (logu(1e-3, 10.), logu(1e-3, 100.), e_any, incl(), node(), node(), anomaly), |(m, q, e, i, n, w, l)| {
        let g = ok(call(CART, json!([m, q, e, i, w + n, n, l]))?, "calculate_cartesian_coordinates")?;
        ensure!(g.len() == 6, "{} numbers", g.len());
        let (x, v) = ([g[0], g[1], g[2]], [g[3], g[4], g[5]]);
        let (rx, rv) = ref_state(G * m, *q, *e, *i, *n, w + n - n, *l);
        let cond = if *e == 1. { 1. } else { 1. / (1. - e).abs().min(1.) };
        ensure!(within("position", norm(sub(x, rx)) / norm(rx), 1e-9 * cond * cond), "e={} M={}: position {:?} instead of {:?}", e, l, x, rx);
        ensure!(within("velocity", norm(sub(v, rv)) / norm(rv), 1e-9 * cond * cond), "e={} M={}: velocity {:?} instead of {:?}", e, l, v, rv);
        let (a, b, c, d, f, h) = posidonius::tools::calculate_cartesian_coordinates(G * m, *q, *e, *i, w + n, *n, *l);
        ensure!(within("program", norm(sub(x, [a, b, c])) / norm(rx) + norm(sub(v, [d, f, h])) / norm(rv), 1e-9 * cond * cond), "python {:?} {:?}, program {:?} {:?}", x, v, [a, b, c], [d, f, h]);
        Ok(Out::new(*e > 0.).class(*e == 0., "circular").class(*e == 1., "parabola").class(*e > 1., "hyperbola").class(*e > 1. && l.abs() < 0.636 * e - 0.6, "small hyperbolic anomaly").class(*l < 0., "negative anomaly"))
    });
    // Coordinates to elements
    ctx.law("coordinates_to_elements", 10000, 250000, orb(), |o| {
        let (x, v) = refmath::conic_to_cart(G * o.0, o.1, o.2, o.3, o.4, o.5, o.6);
        let g = ok(call(ELEM, json!([o.0, vax(x), vax(v)]))?, "calculate_keplerian_orbital_elements")?;
        judge(&g, o, 0.)?;
        Ok(Out::new(true).class(o.2 > 1., "hyperbola").class(o.2 == 0., "circular").class(o.3 == 0. || o.3 == pi, "in the reference plane").class(o.4 == 0. && o.3 > 0., "node on the x axis"))
    });
    // A planet around several bodies: elements refer to their centre of mass, and coordinates come back
    let others = prop::collection::vec((logu(1e-3, 2.), unit3(), logu(1e-3, 1.), unit3(), logu(1e-5, 1e-2)), 1..4);
    ctx.law("around_several_bodies", 8000, 200000, (others, orb(), logu(1e-9, 1e-1), any::<bool>()), |(others, o, m, alone)| {
        let (masses, xs, vs): (Vec<f64>, Vec<V>, Vec<V>) = (others.iter().map(|b| b.0).collect(), others.iter().map(|b| mul(b.1, b.2 * o.1)).collect(), others.iter().map(|b| mul(b.3, b.4)).collect());
        let (xs, vs) = if *alone && xs.len() == 1 { (vec![[0.; 3]], vec![[0.; 3]]) } else { (xs, vs) };
        let total: f64 = masses.iter().sum();
        let (mut cx, mut cv) = ([0.; 3], [0.; 3]);
        for k in 0..masses.len() { cx = add(cx, mul(xs[k], masses[k] / total)); cv = add(cv, mul(vs[k], masses[k] / total)); }
        let o: Orb = (total + m, o.1, o.2, o.3, o.4, o.5, o.6);
        let (x, v) = refmath::conic_to_cart(G * o.0, o.1, o.2, o.3, o.4, o.5, o.6);
        // digits lost by adding and subtracting the motion of the centre of mass
        let lost = 1e-16 * (norm(cx) / norm(x) + norm(cv) / norm(v));
        let jl = |l: &Vec<V>| json!({"list": l.iter().map(|v| vax(*v)).collect::<Vec<_>>()});
        let com = ok(call("tools.calculate_center_of_mass", json!([masses, jl(&xs), jl(&vs)]))?, "calculate_center_of_mass")?;
        let sx = xs.iter().map(|x| norm(*x)).fold(0., f64::max); let sv = vs.iter().map(|x| norm(*x)).fold(0., f64::max);
        ensure!(within("centre of mass", (com[0] / total - 1.).abs(), 1e-14) && within("centre", norm(sub([com[1], com[2], com[3]], cx)), 1e-14 * sx) && within("its velocity", norm(sub([com[4], com[5], com[6]], cv)), 1e-14 * sv), "centre of mass {:?} instead of {} {:?} {:?}", com, total, cx, cv);
        let g = ok(call(ELEM, json!([m, vax(add(x, cx)), vax(add(v, cv)), masses, jl(&xs), jl(&vs)]))?, "calculate_keplerian_orbital_elements")?;
        if lost < 1e-13 { judge(&g, &o, norm(cx))?; }
        let b = ok(call(CART, json!([m, g[1], g[2], g[3], g[4], g[5], g[6], masses, jl(&xs), jl(&vs)]))?, "calculate_cartesian_coordinates")?;
        let c = 1. / (1. - o.2).abs().min(1.);
        let tol = (2e-5 + 60. * (1e-14 / o.2.max(1e-8)).sqrt()) * c * c * (1. + norm(cx) / o.1) + 1e10 * lost;
        ensure!(within("round trip", norm(sub(sub([b[0], b[1], b[2]], cx), x)) / norm(x), tol) && within("velocity", norm(sub(sub([b[3], b[4], b[5]], cv), v)) / norm(v), tol), "coordinates {:?} come back as {:?}", (add(x, cx), add(v, cv)), b);
        Ok(Out::new(norm(cx) > 0.).class(masses.len() > 1, "several").class(o.2 > 1., "unbound"))
    });
    // Arrays of snapshots: every entry as if it were alone
    ctx.law("arrays", 4000, 100000, prop::collection::vec(orb(), 2..7), |os| {
        let st: Vec<(V, V)> = os.iter().map(|o| refmath::conic_to_cart(G * o.0, o.1, o.2, o.3, o.4, o.5, o.6)).collect();
        let axl = |pick: &dyn Fn(&(V, V)) -> V| json!({"ax": (0..3).map(|k| st.iter().map(|s| pick(s)[k]).collect::<Vec<f64>>()).collect::<Vec<_>>()});
        let mut q = vec![json!({"f": ELEM, "a": [{"np": os.iter().map(|o| o.0).collect::<Vec<f64>>()}, axl(&|s| s.0), axl(&|s| s.1)]})];
        for (o, s) in os.iter().zip(&st) { q.push(json!({"f": ELEM, "a": [o.0, vax(s.0), vax(s.1)]})); }
        let r = calls(q)?;
        let many = ok(r[0].clone(), "elements of arrays")?;
        let n = os.len();
        ensure!(many.len() == 8 * n, "{} numbers for {} snapshots", many.len(), n);
        for j in 0..n {
            let one = ok(r[j + 1].clone(), "elements")?;
            for k in 0..8 {
                let (a, b) = (many[k * n + j], one[k]);
                let d = if (3..8).contains(&k) && os[j].2 < 1. { adiff(a, b) } else { (a - b).abs() / (1. + b.abs()) };
                ensure!(within("array entry", d, 1e-11) || (a.is_nan() && b.is_nan()), "element {} of snapshot {} of {} is {} among others and {} alone", ["a", "q", "e", "i", "p", "n", "l", "f"][k], j, n, a, b);
            }
        }
        let mixed = os.iter().any(|o| o.2 > 1.) && os.iter().any(|o| o.2 < 1.);
        Ok(Out::new(true).class(mixed, "bound and unbound").class(os.iter().any(|o| o.2 == 0.) && os.iter().any(|o| o.2 > 0.), "circular and eccentric"))
    });
    // Kepler's equation, spin, pseudo-synchronisation, tidal heat, planetary radius
    ctx.law("formulas", 8000, 200000, (0.0..0.9f64, -20.0..20.0f64, logu(0.02, 5.), (logu(1e-3, 1e2), 0.0..3.2f64, 0.0..3.2f64, angle()), (logu(1e-3, 10.), logu(1e-3, 5.), logu(1e-8, 1.)), (0.0..3.0f64, 0.0..3.2f64), logu(0.01, 20.), 0.0..1.0f64), |(e, l, h, (w, i, ob, n), (a, ms, mp), (ratio, obl), pm, rock)| {
        let au = 1.495978707e11; let day = 86400.;
        let mu_si = 6.67428e-11 * 1.9818e30 * (ms + mp);
        let nn = (mu_si / (a * au).powi(3)).sqrt();
        let msi = 1.9818e30;
        let r = calls(vec![
            json!({"f": "tools.kepler_solution_for_eccentrities_smaller_than_one", "a": [e, l]}),
            json!({"f": "tools.kepler_solution_for_a_hyperbola", "a": [1. + h, l]}),
            json!({"f": "tools.kepler_solution_for_a_parabola", "a": [l]}),
            json!({"f": "tools.calculate_spin", "a": [w, i, ob, n]}),
            json!({"f": "tools.calculate_pseudo_synchronization_period", "a": [a, e, ms, mp]}),
            json!({"f": "analysis.computation.energydot", "a": [a * au, e, ratio * nn, obl, 6.67428e-11, mp * msi, ms * msi, 6.4e6, 200.]}),
            json!({"f": "tools.mass_radius_relation", "a": [pm, {"s": "factor"}, rock]}),
            json!({"f": "tools.mass_radius_relation", "a": [pm / 332946.050895, {"s": "AU"}, rock]}),
            json!({"f": "tools.modulus", "a": [l, w]}),
            json!({"f": "analysis.resonances.get_subplot_shape", "a": [{"i": (1. + w).min(60.) as i64}]}),
        ])?;
        let names = ["Kepler's equation", "hyperbola", "parabola", "calculate_spin", "pseudo synchronization", "energydot", "mass_radius_relation", "mass_radius_relation (AU)", "modulus", "get_subplot_shape"];
        let r: Vec<Vec<f64>> = r.into_iter().zip(names).map(|(x, n)| ok(x, n)).collect::<Result<_, _>>()?;
        ensure!(within("Kepler", adiff(r[0][0] - e * r[0][0].sin(), *l), 2e-9), "eccentric anomaly {} for e={} M={}", r[0][0], e, l);
        let e1 = 1. + h;
        ensure!(within("hyperbola", (e1 * r[1][0].sinh() - r[1][0] - l).abs(), 1e-11 * (1. + l.abs())), "hyperbolic anomaly {} for e={} M={}", r[1][0], e1, l);
        let d = r[2][1];
        ensure!(within("parabola", (d + d * d * d / 3. - l).abs(), 1e-9 * (1. + l.abs())), "parabolic anomaly {} for M={}", d, l);
        let s = [r[3][0], r[3][1], r[3][2]];
        let want = refmath::Rot::axis([n.cos(), n.sin(), 0.], i + ob).apply([0., 0., *w]);
        ensure!(within("spin", norm(sub(s, want)), 1e-13 * w), "spin {:?} instead of {:?}", s, want);
        ensure!(within("spin, program", norm(sub(s, va(posidonius::tools::calculate_spin(*w, *i, *ob, *n)))), 1e-13 * w), "spin differs from the program's");
        // averages over the orbit
        let (mut s6, mut s6t, mut heat) = (0., 0., 0.);
        let k = 400;
        let (co, so) = (obl.cos(), obl.sin());
        for j in 0..k {
            let ea = refmath::TAU * j as f64 / k as f64; let rho = 1. - e * ea.cos(); let wt = rho / k as f64;
            let fd = (1. - e * e).sqrt() / (rho * rho);
            s6 += wt * rho.powi(-6); s6t += wt * rho.powi(-6) * fd;
            // in units of n: radial velocity e sin E / rho; the spin axis is tilted, its direction in the plane averages out
            let vr = e * ea.sin() / rho;
            let f = ((1. - e * e).sqrt() * ea.sin()).atan2(ea.cos() - e);
            let om = [ratio * so, 0., ratio * co];
            let rr = mul([f.cos(), f.sin(), 0.], rho);
            let vt = mul([-f.sin(), f.cos(), 0.], rho * fd);
            let u = sub(cross(om, rr), vt);
            // (the mean over the orientation of the tilt: add the one a quarter turn away)
            let om2 = [0., ratio * so, ratio * co];
            let u2 = sub(cross(om2, rr), vt);
            heat += wt * rho.powi(-8) * (3. * vr * vr + 0.5 * (dot(u, u) + dot(u2, u2)));
        }
        let ps = refmath::TAU / (s6t / s6 * nn) / day;
        ensure!(within("pseudo synchronization", (r[4][0] / ps - 1.).abs(), 1e-9), "pseudo synchronization period {} instead of {}", r[4][0], ps);
        ensure!(within("program", (r[4][0] / posidonius::tools::calculate_pseudo_synchronization_period(*a, *e, *ms, *mp) - 1.).abs(), 1e-12), "pseudo synchronization period differs from the program's");
        let p = 3. * 6.67428e-11 * (ms * msi).powi(2) * 6.4e6f64.powi(5) * 200. / (a * au).powi(6) * nn * nn * heat;
        let scale = 3. * 6.67428e-11 * (ms * msi).powi(2) * 6.4e6f64.powi(5) * 200. / (a * au).powi(6) * nn * nn * s6 * (1. + ratio * ratio) / (1. - e * e).powi(3);
        ensure!(within("tidal heat", (r[5][0] - p).abs(), 1e-9 * scale), "tidal heat {:e} W instead of {:e} W (e={}, spin {} n, obliquity {})", r[5][0], p, e, ratio, obl);
        let x = pm.log10();
        let radius = (0.0592 * rock + 0.0975) * x * x + (0.2337 * rock + 0.4938) * x + 0.3102 * rock + 0.7932;
        ensure!(within("radius", (r[6][0] - radius).abs(), 1e-12) && within("radius AU", (r[7][0] - radius).abs(), 1e-12), "radius {} and {} instead of {}", r[6][0], r[7][0], radius);
        ensure!(within("modulus", { let d = (r[8][0] - l.rem_euclid(*w)).abs(); d.min((d - w).abs()) }, 1e-10 * (l.abs() + w)), "{} modulo {} is {}", l, w, r[8][0]);
        let want = (1. + w).min(60.).floor();
        let (sx, sy) = (r[9][0], r[9][1]);
        ensure!(sx * sy >= want && (sy - sx == 0. || sy - sx == 1.) && (if sy > sx { sx * sx < want } else { sx * (sx - 1.) < want }), "{}x{} plots for {}", sx, sy, want);
        Ok(Out::new(*e > 0.01).class(*l < 0., "negative anomaly").class(*ratio > 1., "fast rotator"))
    });
    // Interpolation, like the program
    let tab = prop::collection::vec((logu(1e-3, 10.), -5.0..5.0f64), 2..12);
    ctx.law("interpolation", 6000, 150000, (tab, -0.3..1.3f64, any::<bool>(), 0usize..12), |(t, at, knot, kk)| {
        let mut x = vec![]; let mut y = vec![]; let mut s = 0.; for (d, v) in t { s += d; x.push(s); y.push(*v); }
        let n = x.len();
        let at = if *knot { x[kk % n] } else { x[0] + (x[n - 1] - x[0]) * at };
        let a = |f: &str| json!({"f": f, "a": [at, {"np": x}, {"np": y}]});
        let r = calls(vec![a("tools.linear_interpolation"), a("tools.cosine_interpolation"), json!({"f": "tools.interpolate_b_spline", "a": [{"np": x}, {"np": y}, at]})])?;
        let m = y.iter().fold(0f64, |a, b| a.max(b.abs()));
        let lin = if at <= x[0] { y[0] } else if at >= x[n - 1] { y[n - 1] } else { let j = (0..n - 1).find(|j| at <= x[j + 1]).unwrap(); y[j] + (y[j + 1] - y[j]) * (at - x[j]) / (x[j + 1] - x[j]) };
        let cos = if at <= x[0] { y[0] } else if at >= x[n - 1] { y[n - 1] } else { let j = (0..n - 1).find(|j| at <= x[j + 1]).unwrap(); let u = (1. - (pi * (at - x[j]) / (x[j + 1] - x[j])).cos()) / 2.; y[j] + (y[j + 1] - y[j]) * u };
        let g = ok(r[0].clone(), "linear_interpolation")?[0];
        ensure!(within("linear", (g - lin).abs(), 1e-12 * m), "linear interpolation {} instead of {}", g, lin);
        ensure!(within("program", (g - posidonius::tools::linear_interpolation(at, &x, &y).0).abs(), 1e-12 * m), "linear interpolation differs from the program's");
        let g = ok(r[1].clone(), "cosine_interpolation")?[0];
        ensure!(within("cosine", (g - cos).abs(), 1e-12 * m) && within("program", (g - posidonius::tools::cosine_interpolation(at, &x, &y).0).abs(), 1e-12 * m), "cosine interpolation {} instead of {}", g, cos);
        // the cubic spline approximant: a convex combination of the neighbours (with reflected phantom ends), exact on straight lines
        let g = ok(r[2].clone(), "interpolate_b_spline")?[0];
        if at <= x[0] || at > x[n - 1] { ensure!(within("spline end", (g - if at <= x[0] { y[0] } else { y[n - 1] }).abs(), 1e-13 * m), "spline outside the table {}", g); }
        else {
            let j = (0..n - 1).find(|j| at <= x[j + 1]).unwrap(); let u = (at - x[j]) / (x[j + 1] - x[j]);
            let left = if j > 0 { y[j - 1] } else { 2. * y[0] - y[1] }; let right = if j + 2 < n { y[j + 2] } else { 2. * y[n - 1] - y[n - 2] };
            let w = [(1. - u).powi(3) / 6., (4. - 6. * u * u + 3. * u.powi(3)) / 6., (1. + 3. * u + 3. * u * u - 3. * u.powi(3)) / 6., u.powi(3) / 6.];
            let want = w[0] * left + w[1] * y[j] + w[2] * y[j + 1] + w[3] * right;
            ensure!(within("spline", (g - want).abs(), 1e-12 * m), "spline {} instead of {}", g, want);
        }
        Ok(Out::new(at > x[0] && at < x[n - 1]).class(*knot, "at a datapoint").class(at < x[0] || at > x[n - 1], "outside"))
    });
    // Mean motion resonances
    ctx.law("possible_resonances", 4000, 100000, (prop_oneof![3 => 1.0..6.0f64, 2 => (1u32..13, 0u32..9).prop_map(|(q, d)| (q + d) as f64 / q as f64)], 0.001..0.2f64, 1i64..15, 1i64..30, 1i64..20), |(ratio, unc, dl, nl, sampling)| {
        let r = ok(call("analysis.resonances.get_possible_resonances", json!([ratio, unc, {"i": dl}, {"i": nl}, {"i": sampling}]))?, "get_possible_resonances")?;
        let best = |x: f64| -> (i64, i64, bool) { // closest fraction, and whether it is ambiguous
            let mut c: Vec<(f64, i64, i64)> = vec![];
            for q in 1..=*dl { for p in [(x * q as f64).floor() as i64, (x * q as f64).ceil() as i64] { c.push(((x - p as f64 / q as f64).abs(), q, p)); } }
            c.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let near = c.iter().any(|k| (k.0 - c[0].0).abs() < 1e-12 && k.2 * c[0].1 != c[0].2 * k.1);
            (c[0].2, c[0].1, near)
        };
        let gcd = |a: i64, b: i64| { let (mut a, mut b) = (a, b); while b != 0 { let t = a % b; a = b; b = t; } a };
        let lo = (ratio * (1. - unc)).max(1.); let hi = ratio * (1. + unc);
        let mut want: Vec<(i64, i64)> = vec![]; let mut fuzzy = false;
        for k in 0..*sampling { let (p, q, near) = best(lo + (hi - lo) / *sampling as f64 * k as f64); fuzzy |= near; let g = gcd(p, q); let f = (p / g, q / g); if f.0 <= *nl && !want.contains(&f) { want.push(f); } }
        if fuzzy { return Ok(Out::new(false)); }
        want.sort_by(|a, b| a.0.cmp(&b.0).then((a.0 as f64 / a.1 as f64).partial_cmp(&(b.0 as f64 / b.1 as f64)).unwrap()));
        let w: Vec<f64> = want.iter().map(|f| f.0 as f64 / f.1 as f64).collect();
        ensure!(r.len() == w.len() && r.iter().zip(&w).all(|(a, b)| (a / b - 1.).abs() < 1e-12), "resonances {:?} instead of {:?} ({:?}) for a period ratio {} +- {}", r, w, want, ratio, unc);
        Ok(Out::new(w.len() > 1))
    });
    let ang = || prop::collection::vec(-30.0..390.0f64, 6);
    ctx.law("resonance_test", 4000, 100000, ((1i64..8, 0i64..4), prop_oneof![2 => 0.0..60.0f64, 1 => 60.0..180.0f64, 1 => Just(1e4)], ang(), 5usize..80, prop_oneof![2 => Just(0.), 1 => -180.0..180.0f64], 1.0..80.0f64, 0usize..4), |((p, q), amp, a, np, centre, thr, which)| {
        // series in which one resonant angle librates with the given amplitude around a value
        let n = *np;
        let (num, den) = (p + q, *p);
        let which = (*which).min(*q as usize) as i64;
        let mut s: Vec<Vec<f64>> = vec![vec![]; 6]; // g, n, M inner, outer
        for k in 0..n {
            let t = k as f64;
            let (gi, ni, go, no) = (a[0] + 3.1 * t, a[1] - 0.7 * t, a[2] + 11.3 * t, a[3] + 1.9 * t);
            let lo = a[4] + 77.7 * t;
            let phi = a[5] + amp * (0.9 * t).sin();
            // phi = num*lo - den*li - which*pi_i - (q - which)*pi_o
            let li = (num as f64 * lo - which as f64 * (gi + ni) - (q - which) as f64 * (go + no) - phi) / den as f64;
            for (j, v) in [gi, ni, li - gi - ni, go, no, lo - go - no].into_iter().enumerate() { s[j].push(v); }
        }
        let r = ok(call("analysis.resonances.is_resonance", json!([{"frac": [num, den]}, {"np": s[0]}, {"np": s[1]}, {"np": s[2]}, {"np": s[3]}, {"np": s[4]}, {"np": s[5]}, {"i": n as i64}, centre, thr]))?, "is_resonance")?[0] != 0.;
        // Fraction reduces
        let g = { let (mut x, mut y) = (num, den); while y != 0 { let t = x % y; x = y; y = t; } x };
        let (num, den) = (num / g, den / g); let q = num - den;
        let mut least = f64::INFINITY; let mut edge = false;
        for j in 0..=q {
            let v: Vec<f64> = (0..n).map(|k| { let (pi_, po) = (s[0][k] + s[1][k], s[3][k] + s[4][k]); let phi = num as f64 * (s[5][k] + po) - den as f64 * (s[2][k] + pi_) - j as f64 * pi_ - (q - j) as f64 * po; let w = (phi - (centre - 180.)).rem_euclid(360.); if w < 1e-6 || w > 360. - 1e-6 { edge = true; } w }).collect();
            let m = v.iter().sum::<f64>() / n as f64;
            least = least.min((v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n as f64).sqrt());
        }
        if edge || (least - thr).abs() < 1e-6 { return Ok(Out::new(false)); }
        ensure!(r == (least < *thr), "the {}:{} resonance is {} although the steadiest resonant angle varies by {} degrees (threshold {})", num, den, if r { "found" } else { "not found" }, least, thr);
        Ok(Out::new(true).class(r, "resonant").class(!r, "not resonant"))
    });
    // Where the package looks for the stellar models, its constants
    let dir = ctx.scratch.clone();
    ctx.law("installation", 6, 12, (0usize..3, any::<bool>()), |(layout, also)| {
        let d = dir.join("inst");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(d.join("input/x")).unwrap();
        let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
        copy_py(&Path::new(&repo).join("posidonius"), &d.join("posidonius"));
        if *layout == 0 { std::fs::create_dir_all(d.join("posidonius/input/x")).unwrap(); }
        if *layout == 2 || (*layout == 0 && !*also) { std::fs::remove_dir_all(d.join("input")).unwrap(); }
        let script = "import sys,types,json\nm=types.ModuleType('pandas'); m.DataFrame=object; sys.modules['pandas']=m\nimport posidonius.constants as c\nimport os\nprint(json.dumps([os.path.realpath(c.BASE_DIR+'input/x'), c.G, c.M_EARTH, c.AU, c.R_SUN, c.R_EARTH, c.MAX_PARTICLES, c.HOUR, c.DAY, c.DEG2RAD, c.M_SUN, c.BOLTZMANN_CONSTANT, c.MASS_HYDROGEN_ATOM, c.K2]))";
        let out = Command::new("python3-vt").args(["-c", script]).current_dir(&d).env("PYTHONDONTWRITEBYTECODE", "1").stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if *layout == 2 { return if out.status.success() { Err("the package does without any stellar models".into()) } else { Ok(Out::new(true).class(true, "no models")) }; }
        let v: Value = serde_json::from_str(text.trim().lines().last().unwrap_or("")).map_err(|_| format!("the package cannot be imported: {}", trim(&String::from_utf8_lossy(&out.stderr), 500)))?;
        let want = std::fs::canonicalize(if *layout == 0 { d.join("posidonius/input/x") } else { d.join("input/x") }).unwrap();
        ensure!(v[0].as_str() == want.to_str(), "stellar models looked for in {} instead of {:?}", v[0], want);
        use posidonius::constants as c;
        let wants = [c::G, c::M_EARTH, c::AU, c::R_SUN, c::R_EARTH, c::MAX_PARTICLES as f64, c::HOUR, c::DAY, c::DEG2RAD, c::M_SUN, c::BOLTZMANN_CONSTANT, c::MASS_HYDROGEN_ATOM, c::K2];
        for (k, w) in wants.iter().enumerate() { let g = v[k + 1].as_f64().unwrap_or(f64::NAN); ensure!((g / w - 1.).abs() < 1e-13, "constant {} is {} in python and {} in the program", ["G", "M_EARTH", "AU", "R_SUN", "R_EARTH", "MAX_PARTICLES", "HOUR", "DAY", "DEG2RAD", "M_SUN", "BOLTZMANN_CONSTANT", "MASS_HYDROGEN_ATOM", "K2"][k], g, w); }
        Ok(Out::new(true).class(*layout == 0, "models inside the package").class(*layout == 1, "models beside the package"))
    });
}
