mod engine;
mod sys;
mod refmath;
mod refphys;
mod checks;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn env_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1) }
pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), a.get(4).cloned()),
        Some("worker") => worker(&a[2..]),
        Some("replay") => replay(&a[2]),
        Some("list") => { for (id, _, _) in checks::ALL { println!("{}", id); } 0 }
        Some("helper") => checks::helper(&a[2..]),
        _ => { eprintln!("usage: harness check <ID> [quick|thorough] | replay <file>"); 2 }
    };
    std::process::exit(code);
}

fn with_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().ok()
}

fn find_check(id: &str) -> Option<fn(&mut Ctx)> { checks::ALL.iter().find(|c| c.0 == id).map(|c| c.1) }

fn worker(a: &[String]) -> i32 {
    let (id, tier, seed, idx, out, scratch) = (a[0].clone(), a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<usize>().unwrap(), a[4].clone(), a[5].clone());
    let only = a.get(6).cloned();
    install_panic_hook();
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    sys::write_default_inputs(Path::new("."));
    start_watchdog(PathBuf::from(&out));
    let f = find_check(&id).expect("unknown property");
    let rep = with_stack(move || {
        let mut ctx = Ctx { prop: id, thorough: tier == "thorough", seed, mode: Mode::Worker { idx }, report: Default::default(), replay_result: None, scratch: PathBuf::from(scratch), only };
        f(&mut ctx);
        ctx.report
    });
    match rep {
        Some(r) => { std::fs::write(&out, serde_json::to_string(&r).unwrap()).unwrap(); 0 }
        None => 3,
    }
}

fn replay(file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    if v["law"] == "python" { eprintln!("python law: {}", v["message"]); return checks::python_replay(&id, file); }
    let law = v["law"].as_str().unwrap().to_string();
    let hex = v["case_hex"].as_str().unwrap();
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    install_panic_hook();
    let scratch = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    sys::write_default_inputs(Path::new("."));
    let f = find_check(&id).expect("unknown property");
    let (id2, sc) = (id.clone(), scratch.clone());
    let r = with_stack(move || {
        let mut ctx = Ctx { prop: id2, thorough: false, seed: 1, mode: Mode::Replay { law, bytes }, report: Default::default(), replay_result: None, scratch: sc, only: None };
        f(&mut ctx);
        ctx.replay_result
    });
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&scratch);
    match r {
        Some(Some(Ok(()))) => { println!("REPLAY passes"); 0 }
        Some(Some(Err(m))) => { println!("REPLAY fails: {}", m); println!("VIOLATION property={} replay={}", id, file); 1 }
        _ => { println!("REPLAY: law not found or crashed"); 2 }
    }
}

fn check(id: &str, tier: &str, only: Option<String>) -> i32 {
    let t0 = std::time::Instant::now();
    let seed = env_seed();
    let meta = match checks::ALL.iter().find(|c| c.0 == id) { Some(m) => m, None => { eprintln!("unknown property {}", id); return 2; } };
    let vd = verif_dir();
    let base = std::env::temp_dir().join(format!("verif-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for idx in 0..WORKERS {
        let out = base.join(format!("out{}.json", idx));
        let scratch = base.join(format!("w{}", idx));
        let mut c = Command::new(&exe);
        c.arg("worker").arg(id).arg(tier).arg(seed.to_string()).arg(idx.to_string()).arg(&out).arg(&scratch);
        if let Some(o) = &only { c.arg(o); }
        let err = std::fs::File::create(base.join(format!("err{}.txt", idx))).unwrap();
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::from(err));
        kids.push((idx, out, c.spawn().unwrap()));
    }
    let mut laws: BTreeMap<String, LawStat> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    let mut known = vec![];
    let mut failures: Vec<Failure> = vec![];
    let mut broken = vec![];
    for (idx, out, mut k) in kids {
        let st = k.wait().unwrap();
        let rep: Option<WorkerReport> = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok());
        match (st.success(), rep) {
            (true, Some(r)) => {
                known.extend(r.known);
                for l in r.laws {
                    if !laws.contains_key(&l.name) { order.push(l.name.clone()); }
                    let e = laws.entry(l.name.clone()).or_insert_with(|| LawStat { name: l.name.clone(), ..Default::default() });
                    e.evaluations += l.evaluations;
                    e.nontrivial_hashes.extend(l.nontrivial_hashes);
                    for (k, v) in l.classes { *e.classes.entry(k).or_insert(0) += v; }
                    for (k, v) in l.worst { let m = e.worst.entry(k).or_insert(0.); if !(v <= *m) { *m = v; } }
                    if e.samples.len() < 2 { e.samples.extend(l.samples.into_iter().take(1)); }
                    e.wall_s = e.wall_s.max(l.wall_s);
                    if let Some(f) = l.failure { failures.push(f); }
                }
            }
            (_, _) => { broken.push(format!("worker {} ended abnormally: {:?} {}", idx, st, std::fs::read_to_string(base.join(format!("err{}.txt", idx))).unwrap_or_default())); }
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    let mut code = 0;
    let rdir = vd.join("replays");
    let mut seen_law = HashSet::new();
    failures.sort_by_key(|f| (f.law.clone(), f.case_hex.len()));
    for f in &failures {
        if !seen_law.insert(f.law.clone()) { continue; }
        std::fs::create_dir_all(&rdir).unwrap();
        let p = rdir.join(format!("{}-{}-{:016x}.json", id, f.law, fnv(f.case_hex.as_bytes())));
        std::fs::write(&p, serde_json::to_string_pretty(f).unwrap()).unwrap();
        println!("law {} failed: {}", f.law, trim(&f.message, 1500));
        println!("  minimal case: {}", trim(&f.case_debug, 1500));
        println!("VIOLATION property={} replay={}", id, p.display());
        code = 1;
    }
    let listed = std::fs::read_to_string(vd.join("known_findings.json")).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()).unwrap_or(serde_json::json!({}));
    let mut known_lines = vec![];
    for k in &known {
        if !k.still_fails { continue; }
        let entry = listed["known"].as_array().and_then(|a| a.iter().find(|e| e["id"] == k.id.as_str() && e["property"] == id));
        match entry {
            Some(e) => { let l = format!("KNOWN-FINDING: property={} {} ({})", id, e["what"].as_str().unwrap_or(""), trim(&k.detail, 200)); println!("{}", l); known_lines.push(l); }
            None => {
                std::fs::create_dir_all(&rdir).unwrap();
                let p = rdir.join(format!("{}-probe-{}.json", id, k.id));
                std::fs::write(&p, serde_json::to_string_pretty(&k).unwrap()).unwrap();
                println!("unlisted finding {}: {}", k.id, k.detail);
                println!("VIOLATION property={} replay={}", id, p.display());
                code = 1;
            }
        }
    }
    if code == 0 && !broken.is_empty() { for b in &broken { eprintln!("{}", b); } code = 2; }
    let mut evals = 0; let mut nontriv = 0; let mut samples = vec![]; let mut lj = serde_json::Map::new();
    for name in &order {
        let l = &laws[name];
        let d: HashSet<u64> = l.nontrivial_hashes.iter().cloned().collect();
        evals += l.evaluations; nontriv += d.len() as u64;
        for s in &l.samples { samples.push(serde_json::json!({"law": name, "case": s})); }
        lj.insert(name.clone(), serde_json::json!({"evaluations": l.evaluations, "distinct_nontrivial": d.len(), "classes": l.classes, "worst_error_over_tolerance": l.worst.iter().map(|(k, v)| (k.clone(), serde_json::json!(format!("{:.2e}", v)))).collect::<serde_json::Map<_, _>>(), "slowest_worker_s": (l.wall_s*100.).round()/100.}));
    }
    let ev = serde_json::json!({
        "property": id, "tier": if tier == "thorough" { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontriv, "rule": meta.2, "samples": samples, "laws": lj, "workers": WORKERS, "known_findings": known_lines},
        "assumptions": ["floating-point agreement is judged with the tolerances stated in DESIGN.md", "stellar-model tables are synthetic (the repository ships none)"],
        "wall_s": (t0.elapsed().as_secs_f64()*100.).round()/100.,
        "violations": seen_law.len()
    });
    std::fs::create_dir_all(vd.join("evidence")).unwrap();
    std::fs::write(vd.join("evidence").join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{} {}: {} cases, {} distinct non-trivial, {} laws, {:.1}s -> {}", id, tier, evals, nontriv, order.len(), t0.elapsed().as_secs_f64(), if code == 0 { "held" } else if code == 1 { "VIOLATED" } else { "ERROR" });
    code
}
