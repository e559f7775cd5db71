"""Co-process of the harness: drives the posidonius python package (a copy in the current directory) with JSON lines."""
import sys, os, json, math, traceback, types
from fractions import Fraction

out = os.fdopen(os.dup(1), "w")
sys.stdout = open(os.devnull, "w")
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np
np.seterr(all="ignore")


def stub_pandas():
    """The few operations of pandas.DataFrame that the package uses (pandas is not installed here)."""
    class Col(object):
        def __init__(self, v): self.v = v
        def max(self): return self.v.max()

    class ILoc(object):
        def __init__(self, d): self.d = d
        def __getitem__(self, i): return self.d.rec[i]

    class DataFrame(object):
        def __init__(self, data, columns=None, index=None):
            if isinstance(data, np.recarray):
                self.rec, self.cols = data, columns
                return
            self.cols = list(columns)
            arrays = [np.asarray([row[i] for row in data]) for i in range(len(self.cols))] if len(data) else [np.zeros(0) for _ in self.cols]
            index = np.arange(len(data)) if index is None else np.asarray(index)
            self.rec = np.rec.fromarrays([index] + arrays, names=["index"] + self.cols)
        def __len__(self): return len(self.rec)
        def __getitem__(self, k):
            if isinstance(k, str): return Col(self.rec[k])
            return DataFrame(self.rec[k], self.cols)
        @property
        def iloc(self): return ILoc(self)
        def to_records(self, index=True): return self.rec.copy()
    m = types.ModuleType("pandas")
    m.DataFrame = DataFrame
    sys.modules["pandas"] = m


try:
    import pandas
except ImportError:
    stub_pandas()


def reply(o):
    out.write(json.dumps(o, allow_nan=False) + "\n")
    out.flush()


try:
    import posidonius
    from posidonius import Axes
    import posidonius.tools, posidonius.constants, posidonius.analysis.computation, posidonius.analysis.history, posidonius.analysis.resonances
except Exception:
    reply({"fatal": traceback.format_exc()[-1500:]})
    sys.exit(0)
reply({"ready": True})


def dec(a):
    """arguments: {"ax": [x, y, z]} with numbers or lists, {"np": [...]}, {"list": [...]}"""
    if isinstance(a, dict):
        if "ax" in a: return Axes(*[np.array(c, dtype=float) if isinstance(c, list) else c for c in a["ax"]])
        if "np" in a: return np.array(a["np"], dtype=float)
        if "list" in a: return [dec(x) for x in a["list"]]
        if "i" in a: return int(a["i"])
        if "s" in a: return a["s"]
        if "frac" in a: return Fraction(*a["frac"])
    return a


def num(x):
    x = float(x)
    return x if math.isfinite(x) else None


def enc(r):
    """everything comes back as a flat list of numbers (null: not finite)"""
    if isinstance(r, Axes): return enc(r.x()) + enc(r.y()) + enc(r.z())
    if isinstance(r, (tuple, list)): return [v for x in r for v in enc(x)]
    if isinstance(r, np.ndarray): return [num(x) for x in r.ravel()]
    if r is None: return [None]
    return [num(r)]


def tidal(m):
    t = posidonius.effects.tides
    return {"ctl": t.ConstantTimeLag, "creep": t.CreepCoplanar, "kaula": t.Kaula}[m["kind"]](m["p"])


def particle(b):
    e = posidonius.effects
    p = posidonius.Particle(b["m"], b["r"], b["rg"], Axes(*b["x"]), Axes(*b["v"]), Axes(*b["spin"]))
    if b["tide"]:
        p.set_tides({"central": e.tides.CentralBody, "orbiting": e.tides.OrbitingBody}[b["tide"]["role"]](tidal(b["tide"]["model"])))
    else: p.set_tides(e.tides.Disabled())
    if b["flat"]:
        f = e.rotational_flattening
        m = b["flat"]["model"]
        p.set_rotational_flattening({"central": f.CentralBody, "orbiting": f.OrbitingBody}[b["flat"]["role"]]({"oblate": f.OblateSpheroid, "creep": f.CreepCoplanar}[m["kind"]](m["p"])))
    if b["gr"]:
        g = e.general_relativity
        p.set_general_relativity(g.OrbitingBody() if b["gr"]["role"] == "orbiting" else g.CentralBody(b["gr"]["impl"]))
    if b["wind"]: p.set_wind(e.wind.Interaction({"k_factor": b["wind"][0], "rotation_saturation": b["wind"][1]}))
    if b["disk"]:
        p.set_disk(e.disk.OrbitingBody() if b["disk"]["role"] == "orbiting" else e.disk.CentralBody(b["disk"]["p"]))
    if b["evo"]:
        p.set_evolution(getattr(posidonius, b["evo"][0])(b["evo"][1]))
    return p


def case(q):
    u = posidonius.Universe(q["t0"], q["limit"], q["dt"], q["rec"], q["hist"], posidonius.ConsiderEffects(q["flags"]))
    for i, b in enumerate(q["bodies"]):
        p = particle(b)
        r = (q.get("refs") or [None] * 99)[i]
        if r is not None: p.set_reference(posidonius.ReferenceParticle(r))
        u.add_particle(p)
    if q.get("coords"): u.write(q["file"], integrator=q["integrator"], whfast_alternative_coordinates=q["coords"])
    else: u.write(q["file"], integrator=q["integrator"])
    return {"ok": True}


def history(q):
    n, data = posidonius.analysis.history.read(q["file"])
    cols = {k: enc(np.asarray(data[k], dtype=float)) for k in data.dtype.names if k != "index"}
    r = {"n": int(n), "cols": cols}
    if q.get("classify") is not None:
        before = data["current_time"].copy()
        star, planets, keys = posidonius.analysis.history.classify(n, data, reference_particle_index=q["classify"], discard_first_hundred_years=q.get("discard", False))
        r["star"] = {k: enc(np.asarray(star[k], dtype=float)) for k in star.dtype.names if k != "index"}
        r["planets"] = {p: {k: enc(np.asarray(planets[p][k], dtype=float)) for k in planets[p].dtype.names if k != "index"} for p in keys}
        r["keys"] = list(keys)
        r["again"] = bool(np.array_equal(data["current_time"], np.asarray(before)))
        if q.get("resonance"):
            d = posidonius.analysis.resonances.calculate_resonance_data(star, keys, planets)
            r["resonance"] = [[enc(np.asarray(x)) for x in col] for col in d]
    return r


def find(name):
    o = posidonius
    for part in name.split("."): o = getattr(o, part)
    return o


for line in sys.stdin:
    q = json.loads(line)
    try:
        if q["op"] == "case": r = case(q)
        elif q["op"] == "history": r = history(q)
        elif q["op"] == "call":
            # a list of calls in one message
            r = {"ok": []}
            for c in q["calls"]:
                try: r["ok"].append(enc(find(c["f"])(*[dec(a) for a in c["a"]], **{k: dec(v) for k, v in c.get("k", {}).items()})))
                except Exception as e: r["ok"].append({"err": "%s: %s" % (type(e).__name__, e)})
        else: r = {"err": "unknown op"}
    except Exception as e:
        r = {"err": "%s: %s" % (type(e).__name__, e), "at": traceback.format_exc()[-600:]}
    reply(r)
