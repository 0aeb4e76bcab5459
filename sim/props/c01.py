"""C01: a spectral-response store that says it is current is complete and intact."""
from .. import rsrstore as rs
from ..common import Machine, attempt, gen_knobs, gen_policy

ID = "C01"
RUNS = {"quick": 6000, "thorough": 150000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["one process at a time uses the store (C05 covers several)"]
RULE = ("the run picks an initial store (missing, empty, older release, current, leftovers of an interrupted download, the user's own "
        "files), an archive layout, buffer and transfer sizes, and a history of 1-4 requests/downloads/restarts with up to 3 faults; the "
        "invariant is evaluated after every mutating file operation inside the store, and operations that return normally must leave it "
        "current and complete.")
SIMPLE = {}
setup = rs.build


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "store": rs.gen_store(rng)}
    wl["policy"] = gen_policy(rng, 260, paths=rs.PATHS)
    wl["ops"] = rs.gen_ops(rng, rng.choice([1, 1, 2, 2, 3, 4]))
    if rng.random() < 0.08:
        wl["disk"] = rng.choice([0, 3000, 20000, 40000, 60000, 100000, 200000, 2400000])
    return wl


def execute(w, wl):
    m = Machine(w, wl)
    store = rs.init_store(m, wl)
    store.check()
    w.watchers.append(store.check)
    w.disk_left = wl.get("disk")

    def handler(t, op):
        r = attempt(t, op, rs.call(op, m))
        if not r.ok:
            w.probe("op_failed")
        else:
            w.probe("request_ok" if op["op"] == "request" else "download_ok")
            if not store.is_current():
                w.violate("not-current", "%s returned normally but the store is not current" % op["op"])
            elif store.missing():
                w.violate("not-complete", "%s returned normally but %s" % (op["op"], store.missing()))
        store.check()
    m.history(wl["ops"], handler)
    store.check()
