"""C03: atmospheric-correction tables are complete when current, per aerosol type."""
from .. import lutstore as ls
from .. import rsrstore as rs
from ..common import Machine, attempt, gen_knobs, gen_policy

ID = "C03"
RUNS = {"quick": 4000, "thorough": 150000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["one process at a time uses the tables (C05 covers several)"]
RULE = ("the run picks 2-4 aerosol types, each with its own initial directory (missing, empty, older, current, leftovers) and archive layout, "
        "and a history of multi-type downloads, checks, script runs and corrections with up to 3 faults; the invariant of every type is "
        "evaluated after every mutating file operation; fault-free operations must succeed and give the released reflectances.")


def setup():
    rs.build()
    ls.build()


def gen(rng):
    types = ls.gen_types(rng, rng.choice([2, 3, 3, 4]))
    names = list(types)
    wl = {"knobs": gen_knobs(rng), "types": types, "policy": gen_policy(rng, 420, paths=ls.PATHS)}
    ops = []
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        if ops and rng.random() < 0.25:
            ops.append({"u": "o%d" % len(ops), "op": "restart"})
        u = "o%d" % len(ops)
        k = rng.choice(["luts", "lutcheck", "lutscript", "rayleigh", "luts"])
        if k == "rayleigh":
            op = ls.gen_rayleigh(rng, u, rng.choice(names))
        else:
            op = {"u": u, "op": k, "types": rng.sample(names, rng.randrange(1, len(names) + 1))}
            if k == "luts" and rng.random() < 0.1:
                op.update(deprecated=True, types=op["types"][:1])
        op["f"] = rng.random() < 0.85
        ops.append(op)
    if rng.random() < 0.4:
        ops.append({"u": "o%d" % len(ops), "op": "restart"})
    for a in names:
        if rng.random() < 0.7:
            op = ls.gen_rayleigh(rng, "o%d" % len(ops), a)
            op["f"] = False
            ops.append(op)
    wl["ops"] = ops
    if rng.random() < 0.06:
        wl["disk"] = rng.choice([0, 5000, 20000, 60000, 120000])
    return wl


def execute(w, wl):
    m = Machine(w, wl)
    m.install(m.rsr_dir, rs.release("cur"))
    m.server.files[rs.K.rsr_url] = rs.fx.tarball(rs.release("cur"), 0, rs.K.rsr_marker)
    stores = ls.init_types(m, wl["types"])
    for s in stores.values():
        s.check()
        w.watchers.append(s.check)

    def handler(t, op):
        clean = not op.get("f")
        w.disk_left = None if clean else wl.get("disk")
        r = attempt(t, op, ls.call(op, m))
        for s in stores.values():
            s.check()
        types = [op["type"]] if op["op"] == "rayleigh" else op["types"]
        if r.ok:
            if op["op"] == "rayleigh":
                ls.verify(w, op, r.value)
            for a in types:
                if not stores[a].is_current():
                    w.violate("not-current", "%s returned normally but the tables of %s are not current" % (op["op"], a))
                elif stores[a].missing():
                    w.violate("not-complete", "%s returned normally but %s" % (op["op"], stores[a].missing()))
        elif clean:
            w.violate("no-recovery", "fault-free %s of %s fails: %r" % (op["op"], types, r))
        else:
            w.probe("op_failed")
            if op["op"] != "rayleigh" and len(types) > 1:
                w.probe("multi_type_failed")
    m.history(wl["ops"], handler)
    for s in stores.values():
        s.check()
