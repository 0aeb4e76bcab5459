"""C02: spectral-response data recovers by itself once faults stop."""
from .. import fixtures as fx
from .. import rsrstore as rs
from ..common import K, Machine, attempt, gen_knobs, gen_policy

ID = "C02"
RUNS = {"quick": 6000, "thorough": 150000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["one process at a time uses the store (C05 covers several)", "progress bound: one request"]
RULE = ("the run picks an initial store (including leftovers of interrupted downloads and damaged version markers), archive layout and sizes, a prefix of 1-4 "
        "requests/downloads/restarts with up to 3 faults (kills included), then fault-free requests; every fault-free request must "
        "succeed at once with exactly the released numbers and leave the store current.")
setup = rs.build


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "store": rs.gen_store(rng)}
    if rng.random() < 0.15:
        wl["marker"] = rng.choice(["", "v", "v1", K.rsr_version[:-1], K.rsr_version + "0", "\n", "garbage\x00", " "])
    wl["policy"] = gen_policy(rng, 260, p_none=0.02, paths=rs.PATHS)
    ops = rs.gen_ops(rng, rng.choice([1, 1, 1, 2, 2, 3]), p_fault=0.9)
    if rng.random() < 0.5:
        ops.append({"u": "o%d" % len(ops), "op": "restart"})
    for _ in range(rng.choice([1, 1, 2])):
        ops.append({"u": "o%d" % len(ops), "op": "request", "plat": rng.choice(rs.PLATS), "f": False})
    wl["ops"] = ops
    if rng.random() < 0.08:
        wl["disk"] = rng.choice([0, 3000, 20000, 40000, 60000, 100000, 200000])
    return wl


def execute(w, wl):
    m = Machine(w, wl)
    store = rs.init_store(m, wl)
    if "marker" in wl and wl["store"]["init"] not in ("missing", "current"):
        m.put(store.dir + "/" + K.rsr_marker, wl["marker"].encode())
        store.rebase()
    if not [o for o in wl["ops"] if not o.get("f")]:
        return

    def handler(t, op):
        clean = not op.get("f")
        w.disk_left = None if clean else wl.get("disk")
        had = len(w.requests)
        r = attempt(t, op, rs.call(op, m))
        if not clean:
            if not r.ok:
                w.probe("prefix_op_failed")
            elif op["op"] == "request":
                rs.verify_rsr(w, r.value, op["plat"], "cur", "request under faults")
            return
        if len(w.requests) > had:
            w.probe("recovered_by_download")
        if not r.ok:
            w.violate("no-recovery", "fault-free %s %s fails: %r" % (op["op"], op.get("plat", ""), r))
            return
        if op["op"] == "request":
            rs.verify_rsr(w, r.value, op["plat"], "cur", "fault-free request")
        if not store.is_current():
            w.violate("not-current", "store is not current after a fault-free %s" % op["op"])
        elif store.missing():
            w.violate("not-complete", "store is not complete after a fault-free %s: %s" % (op["op"], store.missing()))
    m.history(wl["ops"], handler)


assert fx
