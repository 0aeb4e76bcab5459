"""C06: the radiance-table cache survives crashes, full disks and concurrent builders."""
import os
import random

from .. import fixtures as fx
from .. import rsrstore as rs
from .. import tables as tb
from ..common import Machine, attempt, gen_knobs, gen_policy
from ..engine import Proc

ID = "C06"
RUNS = {"quick": 5000, "thorough": 120000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["the spectral responses are installed and do not change during the run (C07 changes them)"]
NOTE = ("Seeded search over interleavings of 1-3 builder processes and all fault kinds during table creation; every table a calculator holds is "
        "compared with an independently computed one; fault-free creations must succeed.")
RULE = ("1-3 simulated processes create calculators for the same or neighbouring bands and detectors on one table cache (configured directory, "
        "default temporary directory or configured file name), under kills, interrupts, write errors, torn writes and full disks; then a "
        "fresh process creates them again without faults.")
setup = rs.build


def gen(rng):
    n = rng.choice([1, 1, 2, 2, 3])
    wl = {"knobs": gen_knobs(rng), "cache": rng.choice(["config", "config", "default", "file", "dict"]), "tasks": [], "download": False}
    faulty = rng.random() < 0.75
    pol = gen_policy(rng, 90, sched="any", p_none=0,
                     kinds=["errno", "torn", "torncrash", "crash", "kbd", "mem", "short", "crash"],
                     focus_kinds=[["write"], ["open_w"], ["replace"], ["close_w"], ["mkdir"], ["read", "open_r"], ["unlink"],
                                  ["write", "replace", "open_w", "close_w", "mkdir", "unlink"]])
    if pol["focus"] and pol["focus"] != ["write", "replace", "open_w", "close_w", "mkdir", "unlink"]:
        pol["horizon"] = min(pol["horizon"], 8)
    if not faulty:
        pol["max_faults"] = 0
    wl["policy"] = pol
    plats = fx.pick_plats(rng, [1, 1, 2])
    for i in range(n):
        victim = faulty and (n == 1 or i < n - 1) and (i == 0 or rng.random() < 0.5)
        ops = []
        for j in range(rng.choice([1, 1, 2])):
            op = dict(tb.gen_calc(rng, plats), u="o%d" % j, op="calc", f=victim)
            ops.append(op)
        wl["tasks"].append({"ops": ops})
    if rng.random() < 0.3:      # tables left by an earlier process with other responses, or with the current ones
        wl["left"] = {"rel": rng.choice(["old", "old", "near", "cur"]), "p": rng.choice([0.3, 0.6, 1.0]), "seed": rng.randrange(1000)}
    if faulty and rng.random() < 0.1:
        wl["disk"] = rng.choice([0, 100, 3000, 15000, 33000, 40000])
    return wl


def execute(w, wl):
    m = Machine(w, wl)
    left = wl.get("left")
    m.install(m.rsr_dir, rs.release(left["rel"] if left else "cur"))
    cfg = {"rsr_dir": m.rsr_dir, "rayleigh_dir": m.ray_dir, "download_from_internet": False}
    if wl["cache"] != "default":
        cfg["tb2rad_dir"] = m.tb_dir
    if wl["cache"] in ("file", "dict"):
        for p, s in fx.SAT.items():
            f = os.path.join(m.tb_dir, "mylut_%s_%s" % (s[1].replace("/", ""), p))
            cfg[p + "-" + s[1]] = {"tb2rad_lut_filename": f if wl["cache"] == "file" else {b[0]: "%s_%s.npz" % (f, b[0]) for b in s[4]}}
    from ..common import yaml_dump
    m.put(m.cfg_path(), yaml_dump(cfg).encode())
    seen = []
    if left:
        rng = random.Random(left["seed"])
        ops = [op for task in wl["tasks"] for op in task["ops"] if rng.random() < left["p"]]

        def leave(t):
            for k, op in enumerate(ops):
                attempt(t, dict(op, u="l%d" % k, f=False), lambda: tb.make_calc(op))
        fo, w.faults_on = w.faults_on, False
        w.run([(Proc(w, "PL"), "TL", leave)])
        w.faults_on = fo
        m.install(m.rsr_dir, rs.release("cur"))
        w.probe("nontrivial")
    w.disk_left = wl.get("disk")

    def one(t, op, final=False):
        r = attempt(t, op, lambda: tb.make_calc(op))
        what = "%s %s %s" % (op["plat"], op["det"], "after the faults" if final else "")
        if r.ok:
            t.noswitch, fo = 1, w.faults_on
            tb.check_lut(w, r.value, "cur", op["plat"], tb.band_of(op), op["det"], what)
            t.noswitch = 0
            seen.append((op["plat"], op["det"]))
            return r.value
        if not op.get("f") and not (w.fault_counts["diskfull"] and not final):
            w.violate("creation-fails", "creating a calculator for %s fails: %r" % (what, r))
        else:
            w.probe("creation_failed_by_fault")
        return None

    def body(task):
        def run(t):
            objs = []
            for op in task["ops"]:
                c = one(t, op)
                if c is not None:
                    objs.append((op, c))
            for op, c in objs:       # still good after everybody else went on
                tb.check_lut(w, c, "cur", op["plat"], tb.band_of(op), op["det"], "%s %s later" % (op["plat"], op["det"]))
        return run
    specs = [(Proc(w, "P%d" % (i + 1)), "T%d" % (i + 1), body(t)) for i, t in enumerate(wl["tasks"])]
    w.run(specs)
    if any(p.dead for p, _, _ in specs):
        w.probe("killed")
    w.disk_left = None

    def final(t):
        k = 0
        for task in wl["tasks"]:
            for op in task["ops"]:
                k += 1
                one(t, dict(op, u="z%d" % k, f=False), True)
    if not w.aborting:
        w.run([(Proc(w, "PZ"), "TZ", final)])
