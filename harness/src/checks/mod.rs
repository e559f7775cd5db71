use crate::engine::*;
pub mod core;
pub mod grav;
pub mod build;
pub mod effects;
pub mod sym;
pub mod conv;
pub mod cli;
pub mod orbits;
pub mod evol;
pub mod models;
pub mod dissip;
pub mod py;
pub mod memory;

pub const ALL: &[(&str, fn(&mut Ctx), &str)] = &[
    ("C01", core::c01, "a case is one simulation (system, effects, integrator) with generated interruption steps; non-trivial when at least one interruption happened strictly inside the run and the state moved"),
    ("C02", core::c02, "a case is one reachable simulation state and a file fault; non-trivial when at least one step had been integrated before saving"),
    ("C03", core::c03, "a case is one simulation with generated step, output period and duration; non-trivial when at least two snapshots were due"),
    ("C04", cli::c04, "a case is one simulation run by the real binary with generated crash points (every file operation) or history faults; non-trivial when the run could be recovered after a crash"),
    ("C05", cli::c05, "a case is one simulation with generated command lines; non-trivial when the command line was accepted and its effect compared (or, for refusals, refused)"),
    ("C06", grav::c06, "a case is a two-body problem with an integrator and step; non-trivial when the orbit is eccentric or unbound and the bodies moved by more than 1e-3 of their separation"),
    ("C07", grav::c07, "a case is a gravity-only system run; non-trivial with at least two planets or an eccentric orbit"),
    ("C08", conv::c08, "a case is a system with effects integrated to the same time with several steps; all are non-trivial"),
    ("C09", sym::c09, "a case is a scenario run twice, the second time rotated, reordered or shifted; non-trivial unless the transformation is the identity"),
    ("C10", grav::c10, "a case is a particle set and ignored-term mode; non-trivial with at least three particles"),
    ("C11", grav::c11, "a case is a configuration near one threshold; all are non-trivial"),
    ("C12", build::c12, "a case is a list of particles with effect assignments; non-trivial with an effect assigned or at least three particles"),
    ("C13", effects::c13, "a case is a set of bodies with tidal parameters and one to three states of them; non-trivial when at least one orbiting body raises or feels tides"),
    ("C14", sym::c14, "a case is a set of bodies with tides and/or flattening (several states), or a run; non-trivial when some internal force acts (runs: when spin and orbit exchange angular momentum)"),
    ("C15", effects::c15, "a case is a set of bodies with flattening parameters and one to three states; non-trivial when at least one orbiting body takes part"),
    ("C16", effects::c16, "a case is a bound system with a relativity formulation; non-trivial when at least one orbiting body takes part"),
    ("C17", effects::c17, "a case is a set of bodies with wind parameters, or a run of one; non-trivial when at least one body has a wind"),
    ("C18", effects::c18, "a case is a system with a disk evaluated at a time, or a run; non-trivial when a planet is inside the disk"),
    ("C19", evol::c19, "a case is a set of generated evolution tables with a history of evaluation times, or a run; non-trivial when evolution is on (interpolated_values), the given radius differs from the table (initial_state), more than two steps were taken (along_a_run)"),
    ("C20", models::c20, "a case is a coplanar system of creeping bodies at one to three states; non-trivial when a planet takes part and is not on the edge between the rotation regimes"),
    ("C21", models::c21, "a case is a coplanar system with generated love number tables at one to three states; non-trivial when a body deforms"),
    ("C22", orbits::c22, "a case is one set of elements, coordinates or table nodes; non-trivial for eccentric orbits, and for tables of more than two nodes"),
    ("C23", sym::c23, "a case is a system with a subset of the effects; non-trivial with two or more effects (additive), different disabled parameters (switched_off), a body opted out (opt_out)"),
    ("C24", dissip::c24, "a case is a system with dissipative tides at one to three states, an orbit to average over, or a run; non-trivial when heat is produced"),
    ("C25", py::c25, "a case is a system described both to the python package and to the library, or a history file with a torn end; non-trivial with any effect (same_start), always (refusals, tables), with a complete snapshot (history_reader)"),
    ("C26", py::c26, "a case is a set of arguments of python functions, sent to the package; non-trivial for eccentric orbits, a centre of mass away from the origin, points inside a table, several candidate resonances"),
    ("C27", memory::c27, "a case is a system with effects and a sequence of its states; non-trivial when some force or torque acts in a later state"),
    ("C28", memory::c28, "a case is a system without dissipation run forwards and backwards, or one state evaluated with its motions as they are and reversed; non-trivial when bodies moved by more than 1% of the system (retraces), when some force acts (parity, drag)"),
];
/// Debugging aid: prints the effect accelerations of the scenario stored first in a replay file.
pub fn helper(a: &[String]) -> i32 {
    if a[0] == "conv" { let f = a[1].clone(); std::thread::Builder::new().stack_size(1 << 30).spawn(move || conv::probe(&f)).unwrap().join().unwrap(); return 0; }
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let hex = v["case_hex"].as_str().unwrap();
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    let sc: crate::sys::Scen = bincode::deserialize(&bytes).unwrap();
    let d = std::env::temp_dir().join("verif-helper"); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap();
    crate::sys::write_default_inputs(std::path::Path::new("."));
    let g: Vec<f64> = sc.sys.bodies.iter().map(|b| crate::sys::G * sc.sys.bodies[sc.sys.heaviest()].m / norm(sub(b.x, sc.sys.bodies[sc.sys.heaviest()].x)).powi(2)).collect();
    eprintln!("gravity {:?} period {} dt {} {:?} what {}", g, sc.sys.min_period(), sc.dt, sc.integ, sc.what);
    {
        let mut sim = crate::sys::Sim::new(&sc.sys, sc.integ, sc.dt, 1e5, 1e30, 1e30);
        let mut w = crate::sys::null_writer();
        for _ in 0..2 {
        fn walk(v: &serde_json::Value, p: String) { match v { serde_json::Value::Null => eprintln!("null {}", p), serde_json::Value::Array(a) => for (i, x) in a.iter().enumerate() { walk(x, format!("{}[{}]", p, i)) }, serde_json::Value::Object(o) => for (k, x) in o { walk(x, format!("{}.{}", p, k)) }, _ => {} } }
        eprintln!("---"); walk(&sim.json_full(), String::new());
        let _ = sim.step(&mut w);
        }
        eprintln!("---"); fn walk2(v: &serde_json::Value, p: String) { match v { serde_json::Value::Null => eprintln!("null {}", p), serde_json::Value::Array(a) => for (i, x) in a.iter().enumerate() { walk2(x, format!("{}[{}]", p, i)) }, serde_json::Value::Object(o) => for (k, x) in o { walk2(x, format!("{}.{}", p, k)) }, _ => {} } } walk2(&sim.json_full(), String::new());
    }
    for k in 0..6 {
        let mut s = sc.sys.clone();
        let f = s.flags;
        s.flags = crate::sys::Flags { evo: f.evo, ..Default::default() };
        match k { 0 => s.flags.tides = f.tides, 1 => s.flags.flat = f.flat, 2 => s.flags.gr = f.gr, 3 => s.flags.disk = f.disk, 4 => s.flags.wind = f.wind, _ => s.flags = f }
        if k < 5 && !(s.flags.tides || s.flags.flat || s.flags.gr || s.flags.disk || s.flags.wind) { continue; }
        eprintln!("{} {:?}", ["tides", "flat", "gr", "disk", "wind", "all"][k], crate::sys::effects(&s, 0.));
    }
    0
}
pub fn python_replay(_id: &str, _f: &str) -> i32 { 2 }
