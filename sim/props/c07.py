"""C07: 3.x micron reflectances do not depend on what the table cache saw before."""
import os
import random
import shutil

import numpy as np

from .. import fixtures as fx
from .. import rsrstore as rs
from .. import tables as tb
from ..common import Machine, attempt, gen_knobs, gen_policy, yaml_dump
from ..engine import Bypass, LiveDecider, Policy, World

ID = "C07"
RUNS = {"quick": 2000, "thorough": 110000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["one process at a time (C06 covers several)", "the oracle is the same library in a fresh process with an empty cache directory, plus the reference table"]
NOTE = ("Seeded search over histories of calculators, response updates, cache removals, configured file names and process restarts; every result is "
        "compared with the one of a fresh process with an empty cache.")
RULE = ("a history of 3-10 operations: create a calculator (platform, detector, band given by name or wavelength, limits), use any live one (reflectance with and "
        "without CO2 correction, emissive part), install other spectral responses, remove or keep the cache, change the configured table "
        "file name, restart the process; up to one fault. Each result is compared with the same use in a fresh simulated process with an empty "
        "cache directory and the same responses.")
_ORACLE = {}


def setup():
    rs.build()
    for r in ("cur", "old", "new", "alt", "near"):
        for p in fx.SAT:
            fx.rsr_file(r, p)


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "cache": rng.choice(["config", "config", "default", "file", "dict", "onefile"]), "download": False,
          "first": rng.choice(["cur", "old"])}
    wl["policy"] = gen_policy(rng, 150, p_none=0.7, kinds=["errno", "torn", "torncrash", "crash", "kbd"])
    wl["policy"]["max_faults"] = min(1, wl["policy"]["max_faults"])
    plats = fx.pick_plats(rng, [1, 1, 2, 3])
    ops, n = [], 0
    for i in range(rng.randrange(3, 10)):
        u = "o%d" % len(ops)
        k = rng.choice(["calc"] * 4 + ["use"] * 5 + ["rsr", "rsr", "rmcache", "restart", "cachecfg"]) if n else "calc"
        op = {"u": u, "op": k}
        if k == "calc":
            op.update(tb.gen_calc(rng, plats), f=rng.random() < 0.5)
            op["variant"] = rng.choice([None, None, None, "number", "upper"])
            if rng.random() < 0.15:
                op["flux"] = None
            if rng.random() < 0.2:
                op["masking_limit"] = rng.choice([60.0, 88.0])
            if rng.random() < 0.2:
                op["sunz_threshold"] = rng.choice([50.0, 80.0])
            n += 1
        elif k == "use":
            op.update(i=rng.randrange(8), g=rng.randrange(5), co2=rng.random() < 0.3, n=rng.choice([6, 6, 6, 1]), ma=rng.random() < 0.2, nolut=rng.random() < 0.15, em=rng.choice([None, True, False]),
                      dtype=rng.choice(["float64", "float32"]), f=False)
        elif k == "rsr":
            op["to"] = rng.choice(["cur", "old", "new", "alt", "near"])
        elif k == "cachecfg":
            op["to"] = rng.choice(["config", "default", "file", "dict", "onefile"])
        ops.append(op)
    ops.append({"u": "o%d" % len(ops), "op": "use", "i": 0, "g": 1, "co2": False, "em": True, "dtype": "float64", "f": False})
    wl["ops"] = ops
    return wl


def config(m, kind):
    cfg = {"rsr_dir": m.rsr_dir, "rayleigh_dir": m.ray_dir, "download_from_internet": False}
    if kind != "default":
        cfg["tb2rad_dir"] = m.tb_dir
    if kind in ("file", "dict", "onefile"):
        for p, s in fx.SAT.items():
            f = os.path.join(m.tb_dir, "mylut" if kind == "onefile" else "mylut_%s_%s" % (s[1].replace("/", ""), p))
            cfg[p + "-" + s[1]] = {"tb2rad_lut_filename": {b[0]: "%s_%s.npz" % (f, b[0]) for b in s[4]} if kind == "dict" else f}
    m.put(m.cfg_path(), yaml_dump(cfg).encode())


def use(c, op):
    sunz, t39, t11, t13 = tb.tbs(op["g"], shape=(op.get("n", 6),), dtype=op["dtype"])
    if op.get("ma"):
        t39 = np.ma.masked_less(t39, 250)
    kw = {"tb_ir_co2": t13} if op["co2"] else {}
    if op.get("nolut"):          # integrate the Planck function in place of using the table
        kw["lut"] = None
    out = [np.asarray(c.reflectance_from_tbs(sunz, t39, t11, **kw))]
    if op["em"] is not None:
        out.append(np.asarray(c.emissive_part_3x(tb=op["em"])))
    out.append(np.asarray(c.tb2radiance(t39, lut=c.lut)["radiance"]))
    return out


def oracle(rel, cop, uop):
    """The result in a fresh process with an empty cache."""
    key = (rel, cop["plat"], cop["det"], cop.get("variant"), cop.get("flux", 2.0), cop.get("band"), cop.get("masking_limit"), cop.get("sunz_threshold"), uop["g"], uop["co2"], uop["em"], uop["dtype"], uop.get("n"), uop.get("ma"), uop.get("nolut"))
    if key in _ORACLE:
        return _ORACLE[key]
    from .. import runner
    root = os.path.join(runner.scratch(), "o%08d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    w2 = World(root, LiveDecider(random.Random(0), Policy()), {})
    w2.keep_events = False
    m2 = Machine(w2, {"download": False})
    m2.install(m2.rsr_dir, rs.release(rel))
    box = []

    def body(t):
        r = attempt(t, {"u": "x"}, lambda: use(tb.make_calc(cop), uop))
        box.append(r)
    w2.run([(m2.new_proc(), "T", body)])
    shutil.rmtree(root, ignore_errors=True)
    if len(_ORACLE) > 3000:
        _ORACLE.clear()
    _ORACLE[key] = box[0]
    return box[0]


def execute(w, wl):
    m = Machine(w, wl)
    config(m, wl["cache"])
    st = {"rel": wl["first"], "proc": None}
    m.install(m.rsr_dir, rs.release(st["rel"]))
    live, results = [], []

    def handler(t, op):
        if st["proc"] is not t.proc:
            st["proc"] = t.proc
            live.clear()
        o = op["op"]
        if o == "rsr":
            st["rel"] = op["to"]
            m.install(m.rsr_dir, rs.release(op["to"]))
            w.probe("nontrivial")
        elif o == "rmcache":
            with Bypass():
                shutil.rmtree(m.tb_dir)
                os.makedirs(m.tb_dir)
        elif o == "cachecfg":
            config(m, op["to"])
        elif o == "calc":
            rel = st["rel"]
            nf = sum(w.fault_counts.values())
            r = attempt(t, op, lambda: tb.make_calc(op))
            if r.ok:
                live.append((rel, op, r.value))
                if len(live) > 1:
                    w.probe("nontrivial")
            elif sum(w.fault_counts.values()) == nf:
                results.append(("create", rel, op, None, r))
        elif o == "use" and live:
            rel, cop, c = live[op["i"] % len(live)]
            r = attempt(t, op, lambda: use(c, op))
            results.append(("use", rel, cop, op, r))
    m.history(wl["ops"], handler)
    for kind, rel, cop, uop, r in results:
        what = "%s %s (%s, responses %s)" % (cop["plat"], cop["det"], cop.get("variant") or "by name", rel)
        if kind == "create":
            e = oracle(rel, cop, {"g": 0, "co2": False, "em": None, "dtype": "float64"})
            if e.ok:
                w.violate("creation-fails", "creating a calculator for %s fails: %r" % (what, r))
            continue
        e = oracle(rel, cop, uop)
        if not r.ok:
            if e.ok:
                w.violate("use-fails", "%s: %r" % (what, r))
            continue
        if not e.ok:
            w.violate("use-differs", "%s works here but fails with an empty cache: %r" % (what, e))
            continue
        for k, (a, b) in enumerate(zip(r.value, e.value)):
            if a.shape != b.shape or a.dtype != b.dtype or not np.allclose(a, b, rtol=1e-5, atol=1e-9, equal_nan=True):
                w.violate("history-dependent", "%s: %s differs from the one with an empty cache" % (
                    what, ["reflectance", "emissive part or radiance", "radiance"][k]))
                break
