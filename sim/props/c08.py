"""C08: lazy results equal eager results for every chunking and task schedule."""
import random

import numpy as np

from .. import fixtures as fx
from .. import lutstore as ls
from .. import rsrstore as rs
from .. import tables as tb
from ..common import K, Machine, attempt, gen_knobs
from ..engine import Bypass
from ..seams import OPT

ID = "C08"
RUNS = {"quick": 2000, "thorough": 90000}
REAL = rs.REAL + ["dask's graph construction and optimisation, cloudpickle"]
STUB = rs.STUB + ["dask's scheduler: replaced by the simulator's (worker threads, or worker processes receiving pickled tasks)"]
ASSUME = ["the arrays of one call have equal shapes (their chunks may differ)",
          "eager results are those of the same library on plain arrays in another simulated process; the Rayleigh correction is also compared "
          "with an independent trilinear interpolation"]
NOTE = ("Seeded search over chunkings, groupings, task orders, line-level interleavings of worker threads, pickled execution in other "
        "processes, lost and repeated tasks; compared with results on plain arrays.")
RULE = ("1-2 client threads build 1-5 lazy results (Rayleigh correction with and without red band, 3.x reflectance and emissive part, radiance "
        "conversions of every kind (Planck, table, SEVIRI regression) on dask and xarray input, limb-cooling correction, reduction at high zenith angles) on shared objects with random chunks per input, "
        "and compute them in random groups, some repeatedly; 1-3 simulated workers (threads of the process interleaved at source "
        "lines, or other processes with another configuration working on pickled, read-only blocks) run the tasks in random "
        "order; tasks are lost or executed twice.")
OPT["task"] = [("lost",), ("twice",)]
KINDS = ["ray", "ray", "ray", "refl", "refl", "emis", "rad2temp", "rad2temp", "xr", "limb", "tb2rad", "planck", "reduce", "r2tb", "sev", "sevr"]


def setup():
    rs.build()
    for p in fx.SAT:
        fx.rsr_file("cur", p)
    for a in K.aerosols[:3]:
        ls.release("cur", a)
    import cloudpickle  # noqa


def gen_op(rng, u, plats, kind=None):
    k = kind or rng.choice(KINDS)
    op = {"u": u, "op": "build", "kind": k, "plat": rng.choice(plats), "g": rng.randrange(10000),
          "shape": rng.choice([[4, 6], [3, 5], [5, 2], [1, 7], [6, 1], [7], [2, 3, 2]] if k not in ("limb", "planck") else
                              [[4, 6], [3, 5], [5, 1]] if k == "limb" else [[7], [12]]),
          "dtype": rng.choice(["float64", "float64", "float32"]), "nan": rng.random() < 0.3,
          "chunks": [rng.choice([None, 1, 2, 3, 4, 5, "one", "ones", "lines"]) if rng.random() < 0.3 else 7 for _ in range(4)],
          "cseed": rng.randrange(1000)}
    if op["chunks"][0] is None:
        op["chunks"][0] = 7
    if rng.random() < 0.2:
        op["mix"] = [rng.choice(["float32", "float64"]) for _ in range(4)]
    op["prof"] = rng.choice([None, None, "sort", "rsort", "edge", "spike"])
    if k in ("ray", "reduce"):
        op.update(type=rng.choice(K.aerosols[:3]), atm=rng.choice(fx.ATMS), red=rng.random() < 0.5,
                  band=rng.choice(fx.VIS_BANDS[op["plat"]]) if rng.random() < 0.5 else rng.choice([0.45, 0.51, 0.66, 0.9, 0.39]))
    if k in ("refl", "emis"):
        op.update(co2=rng.random() < 0.4, det="det-%d" % rng.randrange(1, tb.DETS[op["plat"]] + 1), em=rng.random() < 0.5)
    if k in ("rad2temp", "xr"):
        op.update(wn=rng.random() < 0.4, np_wave=rng.random() < 0.5, wave=rng.choice([1., 1., 1.09, 0.35]))
    return op


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "download": False, "mode": rng.choice(["threads", "threads", "processes", "sync"]),
          "workers": rng.randrange(1, 4), "readonly": rng.random() < 0.5}
    wl["policy"] = {"kinds": rng.choice([[], ["lost"], ["twice"], ["lost", "twice"]]), "max_faults": rng.randrange(1, 5), "horizon": 40,
                    "sched": rng.choice(["random", "random", "pct"]), "p_switch": rng.choice([0.02, 0.1, 0.3]),
                    "changes": rng.randrange(1, 6)}
    if rng.random() < 0.25:
        wl["policy"].update(sched="hot", p_switch=rng.choice([0.1, 0.4, 0.9]))
    wl["knobs"]["opcodes"] = wl["policy"]["sched"] != "hot" and rng.random() < 0.15
    if not wl["policy"]["kinds"]:
        wl["policy"]["max_faults"] = 0
    plats = fx.pick_plats(rng, [1, 2])
    wl["tasks"] = []
    for ti in range(rng.choice([1, 1, 1, 2])):
        ops = [gen_op(rng, "b0", plats)]
        for i in range(1, rng.randrange(1, 6)):
            r = rng.random()
            u = "b%d" % i
            if r < 0.25:
                ops.append({"u": u, "op": "compute", "pick": rng.randrange(1 << 16), "opt": rng.random() < 0.7})
            elif r < 0.4:
                ops.append(dict(gen_op(rng, u, plats), op="eager"))
            else:
                ops.append(gen_op(rng, u, plats))
            mine = [o for o in ops[:-1] if "kind" in o]
            if mine and "kind" in ops[-1] and rng.random() < 0.35:   # the same input again, with the same or other parameters
                e = rng.choice(mine)
                o = gen_op(rng, u, plats, e["kind"])
                ops[-1] = dict(o, op=ops[-1]["op"], **{k: e[k] for k in ("g", "shape", "dtype", "mix", "nan", "chunks", "cseed", "prof", "wn", "red", "co2") if k in e})
        ops.append({"u": "z0", "op": "compute", "pick": -1, "opt": rng.random() < 0.7})
        if rng.random() < 0.3:
            ops.append({"u": "z1", "op": "compute", "pick": -1, "opt": rng.random() < 0.5})
        wl["tasks"].append({"ops": ops})
    return wl


# ------------------------------------------------------------------------------ inputs
EDGES = {"limb": {1: [0., 90., 90.0001, -0.0001]}, "ray": {0: [0., 88.], 1: [0., 75.], 2: [0., 180.], 3: [0., 20., 100.]},
         "refl": {0: [0., 85.5, 90.], 1: [150., 330.], 2: [150., 330.]}, "emis": {0: [0., 85.5, 90.], 1: [150., 330.]},
         "tb2rad": {0: [150., 359.9, 100., 400.]}, "reduce": {0: [0., 70., 105., 120.]}}


def inputs(op):
    r = np.random.RandomState(op["g"])
    sh, dt, k = tuple(op["shape"]), op["dtype"], op["kind"]
    if k == "ray":
        a = [r.uniform(0, 88, sh), r.uniform(0, 75, sh), r.uniform(0, 180, sh), r.uniform(0, 100, sh)]
        if not op["red"]:
            a.pop()
    elif k in ("refl", "emis"):
        a = list(tb.tbs(op["g"], sh))
        if not op["co2"]:
            a.pop()
    elif k in ("rad2temp", "xr"):
        a = [r.uniform(1e-4, 1e-3, sh) if op["wn"] else r.uniform(1e5, 1e7, sh)]
    elif k == "r2tb":
        a = [r.uniform(1e5, 1e7, sh)]
    elif k == "sevr":
        a = [r.uniform(1e-6, 1e-3, sh)]
    elif k == "reduce":
        a = [r.uniform(0, 120, sh), r.uniform(0, 30, sh)]
    elif k == "limb":
        z = r.uniform(-5, 95, sh)
        z.flat[0] = 0
        a = [r.uniform(220, 300, sh), z]
    else:
        a = [r.uniform(200, 320, sh)]
    if op.get("prof") in ("sort", "rsort"):      # blocks that differ a lot from each other
        a = [np.sort(x.ravel())[::-1 if op["prof"] == "rsort" else 1].reshape(sh).copy() for x in a]
    if op.get("prof") == "spike":                # nearly uniform with a few outliers
        for x in a:
            keep = r.choice(x.size, max(1, x.size // 6), replace=False)
            y = x.min() + (x - x.min()) * 0.03
            y.flat[keep] = x.flat[keep]
            x[...] = y
    if op.get("prof") == "edge":
        for i, x in enumerate(a):
            e = EDGES.get(k, {}).get(i)
            if e:
                x.flat[r.choice(x.size, max(1, x.size // 2), replace=False)] = r.choice(e)
    mix = op.get("mix") or [dt] * 4
    a = [x.astype(mix[i]) for i, x in enumerate(a)]
    if op["nan"] and k in ("refl", "emis", "rad2temp", "xr"):
        a[-1 if k not in ("refl", "emis") else 1].flat[r.randint(a[0].size)] = np.nan
    return a


def _parts(rng, n, c):
    if c == "one":
        return (n,)
    if c == "ones":
        return (1,) * n
    if c in (1, 2, 3, 4, 5):
        return (c,) * (n // c) + ((n % c,) if n % c else ())
    out = []
    while sum(out) < n:
        out.append(min(n - sum(out), rng.randrange(1, n + 1)))
    return tuple(out)


def chunked(x, c, seed):
    import dask.array as da
    if c is None:
        return x
    rng = random.Random(seed)
    if c == "lines":
        ch = tuple((1,) * n if i == 0 else (n,) for i, n in enumerate(x.shape))
    else:
        ch = tuple(_parts(rng, n, c) for n in x.shape)
    return da.from_array(x, chunks=ch)


# ------------------------------------------------------------------------------ the calls
class InputModified(Exception):
    pass


class Objs:
    """Objects shared by the threads of a process (calculators: one per user)."""

    def __init__(self, m):
        self.m, self.d = m, {}

    def ray(self, op):
        from pyspectral.rayleigh import Rayleigh
        k = ("ray", op["plat"], op["type"], op["atm"])
        if k not in self.d:
            self.d[k] = Rayleigh(op["plat"], fx.SAT[op["plat"]][1], aerosol_type=op["type"], atmosphere=op["atm"])
        return self.d[k]

    def calc(self, op, owner):
        k = ("calc", op["plat"], op["det"], owner)
        if k not in self.d:
            self.d[k] = tb.make_calc(op)
        return self.d[k]

    def sev(self, op):
        from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
        k = ("sev", op["g"] % 4)
        if k not in self.d:
            self.d[k] = SeviriRadTbConverter("Meteosat-%d" % (8 + op["g"] % 2), ["IR3.9", "IR10.8"][op["g"] // 2 % 2])
        return self.d[k]

    def conv(self, op):
        from pyspectral.radiance_tb_conversion import RadTbConverter
        k = ("conv", op["plat"])
        if k not in self.d:
            c = RadTbConverter(op["plat"], fx.SAT[op["plat"]][1], fx.NIR_BAND[op["plat"]])
            t = np.arange(150., 360., 0.1)
            self.d[k] = c, {"tb": t, "radiance": c.tb2radiance(t)["radiance"]}
        return self.d[k]


def call(objs, op, a, owner):
    """The library call of an operation on inputs *a* (chunked or not)."""
    k = op["kind"]
    if k == "ray":
        return objs.ray(op).get_reflectance(a[0], a[1], a[2], op["band"], a[3] if op["red"] else None)
    if k in ("refl", "emis"):
        c = objs.calc(op, owner)
        v = c.reflectance_from_tbs(a[0], a[1], a[2], **({"tb_ir_co2": a[3]} if op["co2"] else {}))
        return c.emissive_part_3x(tb=op["em"]) if k == "emis" else v
    if k in ("rad2temp", "xr"):
        from pyspectral.blackbody import blackbody_rad2temp, blackbody_wn_rad2temp
        f, wave = (blackbody_wn_rad2temp, 90000.) if op["wn"] else (blackbody_rad2temp, 11e-6)
        wave *= op["wave"]
        if op["np_wave"]:
            wave = np.float64(wave)
        if k == "xr" and not isinstance(a[0], np.ndarray):
            import xarray as xr
            dims = ["z", "y", "x"][-a[0].ndim:]
            x = xr.DataArray(a[0], dims=dims, attrs={"units": "W"}, coords={dims[-1]: np.arange(a[0].shape[-1])})
            v = f(wave, x)
            if x.data is not a[0] or x.attrs != {"units": "W"} or list(x.coords) != dims[-1:]:
                raise InputModified("the DataArray that was passed in holds something else afterwards")
            return v
        return f(wave, a[0])
    if k == "limb":
        from pyspectral.atm_correction_ir import AtmosphericalCorrection, viewzen_corr
        if isinstance(a[0], np.ndarray) and isinstance(a[1], np.ndarray):
            d = np.ma.masked_array(a[0], mask=np.zeros(a[0].shape, bool))
            return np.asarray(AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(np.ma.masked_array(a[1]), "M4", d))
        if op["g"] % 2:
            return viewzen_corr(a[0], a[1])
        return AtmosphericalCorrection("Suomi-NPP", "viirs").get_correction(a[1], "M4", a[0])
    if k == "reduce":
        return objs.ray(op).reduce_rayleigh_highzenith(a[0], a[1], 70., 105., 0.8)
    if k in ("sev", "sevr"):
        c = objs.sev(op)
        return c.radiance2tb(a[0]) if k == "sevr" else c.tb2radiance(a[0])["radiance"]
    c, lut = objs.conv(op)
    if k == "r2tb":
        return c.radiance2tb(a[0])
    return c.tb2radiance(a[0], **({"lut": lut} if k == "tb2rad" else {}))["radiance"]


# ------------------------------------------------------------------------------ the task scheduler
class Job:
    def __init__(self, dsk, keys):
        from dask._task_spec import convert_legacy_graph
        if not hasattr(dsk, "items"):
            dsk = dsk.__dask_graph__()
        self.dsk = convert_legacy_graph(dict(dsk))
        self.want = set(keys)
        lab, users, topo = {}, {}, self._topo()
        for k in topo:
            lab[k] = label(k, self.dsk[k], lab)
            for d in self.dsk[k].dependencies:
                users.setdefault(d, []).append(k)
        for k in reversed(topo):        # equal-looking tasks are told apart by what their results are used for
            lab[k] += repr(sorted(hash_(lab[u]) for u in users.get(k, ())))
            if k in self.want:
                lab[k] += "/%d" % list(keys).index(k)
        pos = {k: i for i, k in enumerate(self.dsk)}
        self.order = sorted(self.dsk, key=lambda k: (lab[k], pos[k]))
        self.num = {k: i for i, k in enumerate(self.order)}
        self.done, self.holder, self.running, self.error = {}, {}, set(), None
        self.executed = 0

    def _topo(self):
        seen, out = set(), []
        for k0 in self.dsk:
            stack = [(k0, False)]
            while stack:
                k, after = stack.pop()
                if after:
                    out.append(k)
                elif k not in seen:
                    seen.add(k)
                    stack.append((k, True))
                    stack += [(d, False) for d in self.dsk[k].dependencies]
        return out

    def needed(self):
        """Tasks that still have to run (including those whose results were lost), and are ready."""
        out, seen, stack = [], set(), [k for k in self.want if k not in self.done]
        while stack:
            k = stack.pop()
            if k in seen or k in self.running or k in self.done:
                continue
            seen.add(k)
            miss = [d for d in self.dsk[k].dependencies if d not in self.done]
            if miss:
                stack += miss
            else:
                out.append(k)
        return sorted(out, key=self.num.get)

    def finished(self):
        return self.error is not None or all(k in self.done for k in self.want)


def hash_(s):
    import hashlib
    return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()


def label(k, node, lab):
    """A name for a task that does not depend on file paths or hash seeds."""
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    name = k[0] if isinstance(k, tuple) else k
    h.update(str(name).rsplit("-", 1)[0].encode())
    h.update(repr(k[1:] if isinstance(k, tuple) else "").encode())
    for d in sorted(lab[d] for d in node.dependencies):
        h.update(d.encode())
    v = getattr(node, "value", None)
    if isinstance(v, np.ndarray):
        h.update(np.ascontiguousarray(v).tobytes())
    return h.hexdigest()


class Board:
    """Where clients post jobs and workers take tasks from."""

    def __init__(self, w, wl):
        self.w, self.wl = w, wl
        self.jobs, self.clients = [], 0
        self.cache = None           # is there a task to run?  None: to be found out

    def something(self):
        if self.cache is None:
            self.cache = any(j.needed() for j in self.jobs if not j.finished())
        return self.cache

    def get(self, t):
        def schedule(dsk, keys, **kw):
            flat = list(keys)
            if any(isinstance(k, list) for k in flat):
                raise AssertionError("nested keys")
            with Bypass():
                job = Job(dsk, flat)
            if self.wl["mode"] == "sync":
                while not job.finished():
                    self.execute(t, job, self.pick(t, job), "client")
            else:
                self.jobs.append(job)
                self.cache = None
                self.w.block(t, cond=job.finished)
                self.jobs.remove(job)
            if job.error is not None:
                raise job.error
            return [job.done[k] for k in flat]
        return schedule

    def pick(self, t, job):
        ready = job.needed()
        # the order of the tasks is a decision of its own generator, keyed by the workload
        return ready[self.rng.randrange(len(ready))]

    def worker(self, t):
        w = self.w
        n = 0
        while True:
            t.op, t.n = "k%d" % n, 0
            n += 1
            w.block(t, cond=lambda: self.something() or not self.clients)
            ready = [j for j in self.jobs if not j.finished() and j.needed()]
            if not ready:
                if not self.clients:
                    return
                continue
            job = ready[self.rng.randrange(len(ready))]
            self.execute(t, job, self.pick(t, job), t.name)

    def execute(self, t, job, key, who):
        import cloudpickle
        w = self.w
        job.running.add(key)
        self.cache = None
        node = job.dsk[key]
        deps = {d: job.done[d] for d in node.dependencies}
        t.faults = True
        f = w.step(t, "task", None, OPT["task"] if job.executed < 400 else ())
        job.executed += 1
        try:
            if self.wl["mode"] == "processes":
                with Bypass():
                    blob = cloudpickle.dumps((node, deps))
                node, deps = cloudpickle.loads(blob)
            if self.wl["readonly"]:
                for v in deps.values():
                    if isinstance(v, np.ndarray):
                        v.flags.writeable = False
            r = node(deps)
            if f is not None and f[0] == "twice":
                r = node(deps)
            if self.wl["mode"] == "processes":
                r = cloudpickle.loads(cloudpickle.dumps(r))
        except Exception as e:
            e.__traceback__ = None
            job.error = e
            return
        finally:
            job.running.discard(key)
            self.cache = None
            t.faults = False
        if f is not None and f[0] == "lost":
            for k, h in list(job.holder.items()):
                if h == who:
                    job.done.pop(k, None)
                    job.holder.pop(k)
            self.cache = None
            w.probe("tasks_lost")
            return
        if job.dsk[key].dependencies or f is not None:
            job.holder[key] = who
        job.done[key] = r
        self.cache = None


def execute(w, wl):
    m = Machine(w, wl)
    m.install(m.rsr_dir, rs.release("cur"))
    for a in K.aerosols[:3]:
        m.install(m.ray_dir + "/" + a, ls.release("cur", a))
    # 1. eager results, in a process of their own
    expect = {}

    def eager(t):
        objs = Objs(m)
        for ti, spec in enumerate(wl["tasks"]):
            for op in spec["ops"]:
                if op["op"] in ("build", "eager"):
                    a = inputs(op)
                    keep = [x.tobytes() for x in a]
                    r = attempt(t, dict(op, f=False), lambda: call(objs, op, a, ti))
                    expect[ti, op["u"]] = r
                    if [x.tobytes() for x in a] != keep:
                        w.violate("input-modified", "%s on plain arrays modified its input" % op["kind"])
                    if r.ok and op["kind"] == "ray":
                        e = ref_ray(op, a)
                        if np.shape(r.value) != e.shape or not np.allclose(r.value, e, rtol=1e-4, atol=2e-3 if single(op) else 1e-6):
                            w.violate("wrong-correction", "correction on plain arrays is not that of the table")
    w.run([(m.new_proc(), "E", eager)])
    if w.violations:
        return
    # 2. clients and workers
    w.trace_lines = wl["mode"] != "sync"
    board = Board(w, wl)
    board.rng = random.Random("tasks-%s" % wl["tasks"][0]["ops"][0]["g"])
    board.clients = len(wl["tasks"])
    proc = m.new_proc()
    objs = Objs(m)
    results = []

    def client(ti, spec):
        def body(t):
            built = []
            try:
                for op in spec["ops"]:
                    one(t, op, built)
            finally:
                board.clients -= 1

        def one(t, op, built):
            if op["op"] == "compute":
                ok = [b for b in built if b[1] is not None]
                group = [b for i, b in enumerate(ok) if op["pick"] < 0 or op["pick"] >> (i % 16) & 1]
                if not group:
                    return
                import dask
                if len(group) > 1:
                    w.probe("nontrivial")
                r = attempt(t, op, lambda: dask.compute(*[b[1] for b in group], scheduler=board.get(t), optimize_graph=op["opt"]))
                for i, b in enumerate(group):
                    results.append((ti, b[0], b[1], r if not r.ok else r.value[i], b[2], b[3]))
                return
            a = inputs(op)
            keep = [x.tobytes() for x in a]
            if wl["readonly"]:
                for x in a:
                    x.flags.writeable = False
            if op["op"] == "eager":
                r = attempt(t, op, lambda: call(objs, op, a, ti))
                results.append((ti, op, None, r if not r.ok else r.value, a, keep))
                return
            lazy = [chunked(x, op["chunks"][i], op["cseed"] + (i if op["chunks"][i] != 7 else 0)) for i, x in enumerate(a)]
            if any(len(x.chunks[0]) * (len(x.chunks[-1])) > 1 for x in lazy if hasattr(x, "chunks")):
                w.probe("nontrivial")
            r = attempt(t, op, lambda: call(objs, op, lazy, ti))
            if r.ok:
                built.append((op, r.value, a, keep))
            else:
                built.append((op, None, a, keep))
                results.append((ti, op, None, r, a, keep))
        return body
    specs = [(proc, "C%d" % i, client(i, s)) for i, s in enumerate(wl["tasks"])]
    if wl["mode"] != "sync":
        for i in range(wl["workers"]):
            if wl["mode"] == "processes":
                m.write_config("worker.yaml", rsr_dir=m.root + "/data/w_rsr", rayleigh_dir=m.root + "/data/w_ray", tb2rad_dir=m.root + "/data")
                p = m.new_proc({"PSP_CONFIG_FILE": m.cfg_path("worker.yaml")})
            else:
                p = proc
            specs.append((p, "W%d" % i, board.worker))
    w.run(specs, switching=len(specs) > 1)
    for ti, op, lazy, v, a, keep in results:
        e = expect[ti, op["u"]]
        compare(w, op, e, lazy, v)
        if [x.tobytes() for x in a] != keep:
            w.violate("input-modified", "%s (%s) modified its input" % (op["kind"], op["op"]))
        if w.violations:
            return


def single(op):
    return "float32" in (op.get("mix") or [op["dtype"]])


def compare(w, op, e, lazy, v):
    what = "%s %s on %s %s in chunks %s" % (op["op"], op["kind"], op["dtype"], tuple(op["shape"]), op["chunks"])
    if hasattr(v, "kind") and hasattr(v, "exc"):
        if e.ok:
            w.violate("lazy-fails", "%s: %r, but works on plain arrays" % (what, v))
        return
    if not e.ok:
        w.violate("eager-fails", "%s works, but fails on plain arrays: %r" % (what, e))
        return
    x = np.asarray(e.value)
    got = np.asarray(v)
    if op["kind"] == "xr" and lazy is not None:
        import xarray as xr
        if not isinstance(v, xr.DataArray) or v.attrs != {"units": "W"} or list(v.coords) != ["x"]:
            w.violate("wrong-container", "%s gives a %s without its metadata" % (what, type(v).__name__))
            return
    if got.shape != x.shape or (lazy is not None and tuple(lazy.shape) != x.shape):
        w.violate("wrong-shape", "%s: shape %s (announced %s) instead of %s" % (what, got.shape, getattr(lazy, "shape", None), x.shape))
        return
    if got.dtype != x.dtype or (lazy is not None and lazy.dtype != x.dtype):
        w.violate("wrong-dtype", "%s: %s (announced %s) instead of %s" % (what, got.dtype, getattr(lazy, "dtype", None), x.dtype))
        return
    f4 = single(op)
    small = op["kind"] in ("sev", "tb2rad", "planck")
    if not np.allclose(got, x, rtol=2e-4 if f4 else 1e-9, atol=0 if small else 1e-4 if f4 else 1e-12, equal_nan=True):
        w.violate("wrong-values", "%s differs from the result on plain arrays" % what)


def ref_ray(op, a):
    b = op["band"]
    wvl = fx.effective_wavelength_nm("cur", op["plat"], b) if isinstance(b, str) else b * 1000.
    a = [x.astype(np.float64) for x in a]
    return fx.ref_rayleigh("cur", op["type"], op["atm"], wvl, a[0], a[1], a[2], a[3] if op["red"] else None)
