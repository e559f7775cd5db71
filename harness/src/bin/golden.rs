// Developer aid: replay the repository's recorded cases (tests/data/*/case.json) and compare
// against its recorded final states. Used to decide whether a candidate fix changes recorded results.
use std::fs; use std::path::Path;
fn main(){
    let root = std::env::args().nth(1).unwrap_or("/repo/tests/data".into());
    let h = std::thread::Builder::new().stack_size(512<<20).spawn(move || run(&root)).unwrap();
    h.join().unwrap();
}
fn run(root:&str){
    let mut dirs: Vec<_> = fs::read_dir(root).unwrap().map(|d|d.unwrap().path()).collect(); dirs.sort();
    let tmp = std::env::temp_dir().join("golden_hist.bin");
    for d in dirs {
        let case = d.join("case.json"); if !case.exists(){continue;}
        let name = d.file_name().unwrap().to_string_lossy().to_string();
        let res = std::panic::catch_unwind(|| {
            let mut w = posidonius::output::get_universe_history_writer(&tmp, 0);
            let mut b = posidonius::output::restore_snapshot(Path::new(&case)).unwrap();
            b.initialize_physical_values();
            loop { match b.iterate(&mut w, true) { Ok(_)=>{}, Err(_)=>break } }
            let out = d.join("x"); let _=out;
            let p = std::env::temp_dir().join("golden_out.json");
            let _ = fs::remove_file(&p);
            b.write_recovery_snapshot(&p, &mut w);
            let v: serde_json::Value = serde_json::from_str(&fs::read_to_string(&p).unwrap()).unwrap();
            let mut worst: f64 = 0.0; let mut nan=false; let mut wrel:f64=0.;
            for i in 0..11 { let f = d.join(format!("particle_{}.json", i)); if !f.exists(){continue;}
                let e: serde_json::Value = serde_json::from_str(&fs::read_to_string(&f).unwrap()).unwrap();
                let a = &v["universe"]["particles"][i];
                for k in ["inertial_position","inertial_velocity","inertial_acceleration","inertial_additional_acceleration","angular_momentum","spin"] { for c in ["x","y","z"] {
                    let (x,y) = (a[k][c].as_f64(), e[k][c].as_f64());
                    match (x,y) { (Some(x),Some(y)) => { worst = worst.max((x-y).abs()); if y!=0.{ let r=(x-y).abs()/y.abs(); if r > wrel && std::env::var("GOLDEN_FIELDS").is_ok() { eprintln!("  {} {} {} {}: {:e} vs {:e} ({:e})", name, i, k, c, x, y, r); } wrel=wrel.max(r);} }, (None,None)=>{}, _=>nan=true }
                }}
            }
            (worst,wrel,nan)
        });
        match res { Ok((w,r,n)) => eprintln!("{:55} worst_abs={:.3e} worst_rel={:.3e} nan={}", name, w, r, n), Err(_)=> eprintln!("{:55} PANIC", name) }
    }
}
