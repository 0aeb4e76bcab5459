"""C05: processes sharing the data directories never see partial data."""
from .. import fixtures as fx
from .. import lutstore as ls
from .. import rsrstore as rs
from ..common import K, Machine, attempt, gen_knobs, gen_policy
from ..engine import Proc

ID = "C05"
RUNS = {"quick": 3500, "thorough": 90000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["processes run on one machine and one file system with atomic rename",
          "switches happen at intercepted operations (file, network, lock); between them a process runs alone"]
RULE = ("2-4 simulated processes, each with its own modules, start on one initial response and table store (missing, outdated, current, leftovers) and "
        "each perform 1-3 requests, corrections, checks or explicit downloads; the scheduler (random or priority-based) decides at every "
        "file and network operation who goes on; in a third of the runs some processes are killed or interrupted, and some only read "
        "(downloading disabled).")


def setup():
    rs.build()
    ls.build()


def gen(rng):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    types = ls.gen_types(rng, rng.choice([1, 1, 2]))
    names = list(types)
    wl = {"knobs": gen_knobs(rng), "store": rs.gen_store(rng), "types": types, "tasks": []}
    wl["store"]["big"] = False
    lut_run = rng.random() < 0.3
    faulty = rng.random() < 0.4
    pol = gen_policy(rng, 500 if faulty else 10, kinds=["crash", "torncrash", "kbd", "crash"], sched="any", p_none=0)
    if not faulty:
        pol["max_faults"], pol["focus"] = 0, None
    wl["policy"] = pol
    for i in range(n):
        ops = []
        victim = faulty and (i == 0 or rng.random() < 0.3) and i < n - 1
        reader = rng.random() < 0.12
        for j in range(rng.choice([1, 1, 2, 3])):
            u = "o%d" % j
            if lut_run and rng.random() < 0.7 and not reader:
                k = rng.choice(["rayleigh", "rayleigh", "luts", "lutcheck"])
                if k == "rayleigh":
                    op = ls.gen_rayleigh(rng, u, rng.choice(names))
                else:
                    op = {"u": u, "op": k, "types": rng.sample(names, rng.randrange(1, len(names) + 1))}
            else:
                k = rng.choice(["request"] * 5 + ["check", "download", "script"])
                op = {"u": u, "op": k}
                if k == "request":
                    op["plat"] = rng.choice(rs.PLATS)
            op["f"] = victim
            ops.append(op)
        wl["tasks"].append({"ops": ops, "victim": victim, "reader": reader})
    return wl


def execute(w, wl):
    m = Machine(w, wl)
    rstore = rs.init_store(m, wl)
    lstores = ls.init_types(m, wl["types"])
    stores = [rstore] + list(lstores.values())
    m.write_config("reader.yaml", download_from_internet=False)
    for s in stores:
        s.check()
        w.watchers.append(s.check)

    def had_old(plat):
        i = wl["store"]["init"]
        return i in ("old", "old-nomarker", "leftovers") or (i == "subset" and plat in rs.SUBSET)

    def body(task):
        def run(t):
            for op in task["ops"]:
                lut = op["op"] in ("rayleigh", "luts", "lutcheck", "lutscript")
                before = rstore.is_current()
                r = attempt(t, op, ls.call(op, m) if lut else rs.call(op, m))
                if task["reader"]:
                    if op["op"] != "request":
                        if not r.ok and not op.get("f"):
                            if op["op"] == "download" and "data/rsr" not in r.msg:
                                w.violate("failed-by-other", "%s %s of a reader fails: %r" % (t.proc.name, op["op"], r))
                        continue
                    old_there = had_old(op["plat"])
                    if r.ok:
                        if fx.compare_rsr(r.value.rsr, "cur", op["plat"]) is not None and (
                                before or not old_there or fx.compare_rsr(r.value.rsr, "old", op["plat"]) is not None):
                            rs.verify_rsr(w, r.value, op["plat"], "cur", "read-only request")
                    elif (before or old_there) and not op.get("f"):
                        w.violate("failed-by-other", "a read-only request for %s fails: %r" % (op["plat"], r))
                    continue
                if not r.ok:
                    if not op.get("f"):
                        w.violate("failed-by-other", "%s: %s %s fails next to other processes: %r" % (
                            t.proc.name, op["op"], op.get("plat") or op.get("types") or op.get("type"), r))
                    else:
                        w.probe("interrupted")
                    continue
                if op["op"] == "request":
                    rs.verify_rsr(w, r.value, op["plat"], "cur", "request next to other processes")
                elif op["op"] == "rayleigh":
                    ls.verify(w, op, r.value)
                mine = [lstores[a] for a in ([op["type"]] if op["op"] == "rayleigh" else op["types"])] if lut else [rstore]
                for s in mine:
                    if not s.is_current():
                        w.violate("not-current", "%s is not current after a successful %s" % (s.label, op["op"]))
        return run
    specs = []
    for i, task in enumerate(wl["tasks"]):
        p = Proc(w, "P%d" % (i + 1), {"PSP_CONFIG_FILE": m.cfg_path("reader.yaml")} if task["reader"] else None)
        specs.append((p, "T%d" % (i + 1), body(task)))
    w.run(specs)
    for s in stores:
        s.check()
    if any(p.dead for p, _, _ in specs):
        w.probe("killed")
    w.probe("downloads_%d" % min(4, sum(1 for q in w.requests if q[3] == K.rsr_url)))
