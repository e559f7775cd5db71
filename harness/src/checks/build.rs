//! C12 universe construction.
use crate::engine::*;
use crate::ensure;
use crate::sys::*;
use proptest::prelude::*;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Pick { t: u8, tm: u8, f: u8, fm: u8, g: u8, gi: u8, d: u8, w: bool, eta: u8, dz: u8 }
fn pick() -> impl Strategy<Value = Pick> {
    let role = || prop_oneof![4 => Just(0u8), 1 => Just(1u8), 5 => Just(2u8)];
    (role(), prop_oneof![8 => Just(0u8), 1 => Just(1u8)], role(), prop_oneof![8 => Just(0u8), 1 => Just(1u8)], role(), 0u8..3, role(), prop::bool::weighted(0.2), (prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)]))
        .prop_map(|(t, tm, f, fm, g, gi, d, w, (eta, dz))| Pick { t, tm, f, fm, g, gi, d, w, eta, dz })
}
/// A system with generated roles; shape 0: arbitrary, otherwise mostly consistent ones.
fn setup(sys: &Sys, picks: &[Pick], flags: &[bool; 6], shape: u8, tie: bool) -> Sys {
        let mut s = sys.clone();
        let n = s.bodies.len();
        s.flags = Flags { tides: flags[0], flat: flags[1], gr: flags[2], disk: flags[3], wind: flags[4], evo: false };
        let h = s.heaviest();
        if tie && n > 2 { let k = (h + 1) % n; s.bodies[k].m = s.bodies[h].m; }
        let h = s.heaviest();
        for i in 0..n {
            let mut p = picks[i].clone();
            // shape 0: arbitrary roles; otherwise the heaviest is central and the others orbit or abstain (mostly valid)
            if shape != 0 { for r in [&mut p.t, &mut p.f, &mut p.g, &mut p.d] { if i == h { *r = 1 } else if *r == 1 { *r = 2 } } }
            if shape == 3 { p.tm = 0; p.fm = 0; }
            let b = &mut s.bodies[i];
            let tm = if p.tm == 0 { TModel::Ctl { k2: 0.3, sigma: 1., scale: 1. } } else { TModel::Creep { eta: 1. } };
            b.tide = match p.t { 0 => Tide::Off, 1 => Tide::Central(tm), _ => Tide::Orbiting(tm) };
            let fm = if p.fm == 0 { FModel::Oblate { k2f: 0.3 } } else { FModel::Creep { eta: [1., 2., 0.5][p.eta as usize % 3] } };
            b.flat = match p.f { 0 => Flat::Off, 1 => Flat::Central(fm), _ => Flat::Orbiting(fm) };
            b.gr = match p.g { 0 => Gr::Off, 1 => Gr::Central([GrImpl::Kidder, GrImpl::Anderson, GrImpl::Newhall][p.gi as usize]), _ => Gr::Orbiting };
            b.disk = match p.d { 0 => Dsk::Off, 1 => Dsk::Central(DiskP { inner: if p.dz == 0 { 0.01 } else { 0. }, outer: if p.dz == 2 { 0. } else { 10. }, life: 1e5, alpha: 1e-2, sigma0: 1e-4, mu: 2.4 }), _ => Dsk::Orbiting };
            if p.w { b.wind = Some([1e-15, 1.]); }
        }
        s
}
type Raw = (Sys, Vec<Pick>, [bool; 6], u8, bool);
fn raw() -> impl Strategy<Value = Raw> {
    (gen_sys(Opts { planets: (1, 11), ratio: (1.2, 1.5), ..Opts::default() }), prop::collection::vec(pick(), 12), any::<[bool; 6]>(), 0u8..4, any::<bool>())
}
pub fn any_setup() -> impl Strategy<Value = Sys> { raw().prop_map(|(sys, picks, flags, shape, tie)| setup(&sys, &picks, &flags, shape, tie)) }
pub fn c12(ctx: &mut Ctx) {
    let strat = raw();
    ctx.law("consistent_or_rejected", 8000, 120000, strat, |(sys, picks, flags, shape, tie)| {
        let s = setup(sys, picks, flags, *shape, *tie);
        let n = s.bodies.len();
        let h = s.heaviest();
        // reference decision
        let idx = |f: &dyn Fn(&Body) -> bool| -> Vec<usize> { (0..n).filter(|&i| f(&s.bodies[i])).collect() };
        let ct = idx(&|b| matches!(b.tide, Tide::Central(_)));
        let cf = idx(&|b| matches!(b.flat, Flat::Central(_)));
        let cg = idx(&|b| matches!(b.gr, Gr::Central(_)));
        // a disk without any extent is no disk
        let cd = idx(&|b| matches!(&b.disk, Dsk::Central(d) if d.inner != 0. || d.outer != 0.));
        let on = (s.flags.tides && !ct.is_empty(), s.flags.flat && !cf.is_empty(), s.flags.gr && !cg.is_empty(), s.flags.disk && !cd.is_empty(), s.flags.wind && s.bodies.iter().any(|b| b.wind.is_some()));
        let mut bad = vec![];
        if ct.len() > 1 || cf.len() > 1 || cg.len() > 1 || cd.len() > 1 { bad.push("two central bodies"); }
        if on.2 && cg[0] != h { bad.push("relativity host not heaviest"); }
        if on.0 && on.1 && ct[0] != cf[0] { bad.push("tides and flattening hosts differ"); }
        if n > 10 { bad.push("too many particles"); }
        for b in &s.bodies {
            let t = match &b.tide { Tide::Off => None, Tide::Central(m) | Tide::Orbiting(m) => Some(match m { TModel::Creep { eta } => Some(*eta), _ => None }) };
            let f = match &b.flat { Flat::Off => None, Flat::Central(m) | Flat::Orbiting(m) => Some(match m { FModel::Creep { eta } => Some(*eta), _ => None }) };
            if let (Some(t), Some(f)) = (t, f) { if t != f { bad.push("creep mixed or different viscosity"); } }
        }
        let r = guard(|| s.universe(1e9));
        let u = match (r, bad.is_empty()) {
            (Err(_), false) => return Ok(Out::new(true).class(true, "rejected")),
            (Err(m), true) => return Err(format!("consistent set-up rejected: {}", m)),
            (Ok(_), false) => return Err(format!("accepted although: {:?}", bad)),
            (Ok(u), true) => u,
        };
        ensure!(u.n_particles == n, "{} particles instead of {}", u.n_particles, n);
        let c = &u.consider_effects;
        ensure!((c.tides, c.rotational_flattening, c.general_relativity, c.disk, c.wind) == on, "effects switched {:?}, expected {:?}", (c.tides, c.rotational_flattening, c.general_relativity, c.disk, c.wind), on);
        let hj = serde_json::to_value(&u.hosts).unwrap();
        let ix = |k: &str| hj["index"][k].as_u64().unwrap() as usize;
        ensure!(ix("most_massive") == h, "most massive {} instead of {}", ix("most_massive"), h);
        if on.0 { ensure!(ix("tides") == ct[0], "tides host {} instead of {}", ix("tides"), ct[0]); }
        if on.1 { ensure!(ix("rotational_flattening") == cf[0], "flattening host {} instead of {}", ix("rotational_flattening"), cf[0]); }
        if on.2 { ensure!(ix("general_relativity") == cg[0], "relativity host"); }
        if on.3 { ensure!(ix("disk") == cd[0], "disk host {} instead of {}", ix("disk"), cd[0]); }
        // geometry
        let ps_ = &u.particles[..n];
        let (mut p, mut x, mut ms) = ([0.; 3], [0.; 3], 0.);
        let sx = s.bodies.iter().map(|b| norm(b.x)).fold(0., f64::max);
        let sv = s.bodies.iter().map(|b| norm(b.v)).fold(0., f64::max);
        for q in ps_ { p = add(p, mul(va(q.inertial_velocity), q.mass)); x = add(x, mul(va(q.inertial_position), q.mass)); ms += q.mass; }
        ensure!(within("barycentre", norm(x), 4e-15 * sx * ms) && within("momentum", norm(p), 4e-15 * sv * ms), "barycentre {:?} or momentum {:?} not zero", x, p);
        for i in 0..n {
            let (q, b) = (&ps_[i], &s.bodies[i]);
            ensure!(q.mass == b.m && q.radius == b.r && va(q.spin) == b.spin && q.id == i, "particle {}: mass, radius, spin or id changed", i);
            ensure!(close(q.mass_g, G * b.m, 1e-12, 0.), "particle {}: GM {} instead of {}", i, q.mass_g, G * b.m);
            let inertia = b.m * b.rg * b.rg * b.r * b.r;
            ensure!(close(q.moment_of_inertia, inertia, 1e-14, 0.), "moment of inertia {} instead of {}", q.moment_of_inertia, inertia);
            ensure!(vclose(va(q.angular_momentum), mul(b.spin, inertia), 1e-14, 0.), "spin angular momentum {:?}", q.angular_momentum);
            for j in 0..i {
                let (dx, dv) = (sub(va(q.inertial_position), va(ps_[j].inertial_position)), sub(va(q.inertial_velocity), va(ps_[j].inertial_velocity)));
                let (ex, ev) = (sub(b.x, s.bodies[j].x), sub(b.v, s.bodies[j].v));
                ensure!(within("relative", norm(sub(dx, ex)), 2e-15 * sx) && within("relative", norm(sub(dv, ev)), 2e-15 * sv), "relative coordinates of {} and {} changed: {:?} vs {:?}", i, j, dx, ex);
            }
        }
        Ok(Out::new(n >= 3 || on.0 || on.1 || on.2 || on.3).class(true, "accepted").class(on.0 && on.1, "tides and flattening").class(on.3, "disk").class(on.3 && s.bodies.iter().any(|b| matches!(&b.disk, Dsk::Central(d) if d.inner == 0.)), "disk from the centre on").class(n == 10, "ten particles").class(*tie, "tied masses"))
    });
}
