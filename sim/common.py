"""Shared pieces of the scenarios: machines, stores, running operations, comparing stores."""
import os
import random
import shutil

import numpy as np

from . import fixtures, net, seams
from .engine import Bypass, LiveDecider, Policy, Proc, ReplayDecider, SimAbort, SimCrash, World

ropen = None     # real open, set on first use


def _real_open(*a, **kw):
    return seams.real["open"](*a, **kw)


class Res:
    """Outcome of one operation."""

    __slots__ = ("kind", "value", "exc", "msg")

    def __init__(self, kind, value=None, exc=None, msg=""):
        self.kind, self.value, self.exc, self.msg = kind, value, exc, msg

    ok = property(lambda self: self.kind == "ok")

    def __repr__(self):
        return "ok" if self.ok else "%s: %s" % (self.exc, self.msg)


def attempt(t, op, fn):
    """Run one operation of a task; exceptions become outcomes, kills propagate."""
    w = t.world
    t.op, t.n = op["u"], 0
    t.faults = bool(op.get("f"))
    t.pending_exc = None
    w.note("%s begin %s" % (t.name, op["u"]))
    try:
        v = fn()
        r = Res("ok", v)
    except (SimCrash, SimAbort):
        raise
    except BaseException as e:
        r = Res("err", None, type(e).__name__, str(e)[:300])
        if isinstance(e, SystemExit) and not e.code:
            r = Res("ok", None)
        e.__traceback__ = None
    w.note("%s end %s %s" % (t.name, op["u"], "ok" if r.ok else r.exc))
    t.faults = False
    if t.proc.dead:
        raise SimCrash()
    if w.aborting:
        raise SimAbort()
    return r


class K:
    """Public constants of the tree under test (filled by load_consts)."""


def load_consts():
    """Read the data versions, marker names and addresses from the tree under test."""
    import importlib

    from . import loader
    u = importlib.import_module("pyspectral.utils")
    K.rsr_marker, K.rsr_version, K.rsr_url = u.RSR_DATA_VERSION_FILENAME, u.RSR_DATA_VERSION, u.HTTP_PYSPECTRAL_RSR
    K.aerosols = list(u.AEROSOL_TYPES)
    K.lut_url = dict(u.HTTPS_RAYLEIGH_LUTS)
    K.lut_marker = {a: v["filename"] for a, v in u.ATM_CORRECTION_LUT_VERSION.items()}
    K.lut_version = {a: v["version"] for a, v in u.ATM_CORRECTION_LUT_VERSION.items()}
    K.atms = list(u.ATMOSPHERES)
    K.repo = loader.REPO
    loader.swap_out()


class Machine:
    """A simulated machine with configuration, data directories and the data host."""

    def __init__(self, world, wl):
        self.w, self.wl = world, wl
        self.root = world.root
        for d in ("tmp", "home", "etc", "data", "outside"):
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        self.rsr_dir = os.path.join(self.root, "data", "rsr")
        self.ray_dir = os.path.join(self.root, "data", "ray")
        self.tb_dir = os.path.join(self.root, "data", "tb2rad")
        os.makedirs(self.tb_dir)
        home = os.path.join(self.root, "home")
        env = {"HOME": home, "XDG_DATA_HOME": os.path.join(home, ".local", "share"), "PATH": "/usr/bin:/bin",
               "TMPDIR": world.tmpdir, "LANG": "C.UTF-8", "PSP_CONFIG_FILE": self.cfg_path()}
        world.base_env = {os.fsencode(k): os.fsencode(v) for k, v in env.items()}
        self.download = wl.get("download", True)
        self.write_config()
        self.server = world.server = net.Server()
        self.nproc = 0
        self.proc = None

    def cfg_path(self, name="pyspectral.yaml"):
        return os.path.join(self.root, "etc", name)

    def write_config(self, name="pyspectral.yaml", **over):
        cfg = {"rsr_dir": self.rsr_dir, "rayleigh_dir": self.ray_dir, "tb2rad_dir": self.tb_dir,
               "download_from_internet": self.download}
        cfg.update(over)
        self.put(self.cfg_path(name), yaml_dump(cfg).encode())
        return cfg

    def put(self, path, data):
        """The harness writes a file (outside the simulation, no faults), with a simulated time stamp."""
        with Bypass():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            tmp = path + ".harness"
            with _real_open(tmp, "wb") as f:
                f.write(data)
            seams._stamp(self.w, tmp)
            seams.real["replace"](tmp, path)

    def get(self, path):
        with Bypass():
            try:
                with _real_open(path, "rb") as f:
                    return f.read()
            except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
                return None

    def install(self, d, files):
        with Bypass():
            os.makedirs(d, exist_ok=True)
        for n, data in files.items():
            self.put(os.path.join(d, n), data)

    def new_proc(self, env=None):
        self.nproc += 1
        self.proc = Proc(self.w, "P%d" % self.nproc, env)
        return self.proc

    # -- running histories -----------------------------------------------------------------
    def history(self, ops, handler, name="T"):
        """Run the operations one after another; a killed process is replaced by a new one."""
        state = {"i": 0}

        def body(t):
            while state["i"] < len(ops):
                op = ops[state["i"]]
                state["i"] += 1
                if op["op"] == "restart":
                    return
                handler(t, op)
        while state["i"] < len(ops) and not self.w.aborting:
            p = self.proc if self.proc is not None and not self.proc.dead and not state.get("fresh") else self.new_proc()
            before = state["i"]
            self.w.run([(p, name, body)], switching=False)
            last = ops[state["i"] - 1] if state["i"] else None
            if p.dead:
                self.w.probe("killed")
                handler_crash = getattr(handler, "crashed", None)
                if handler_crash is not None:
                    handler_crash(last)
                self.proc = None
            elif last is not None and last["op"] == "restart":
                self.proc = None
            if state["i"] == before:
                break

    def snapshot(self, *dirs):
        """{relative path: bytes or ('dir',) or ('link', target)} below the given directories."""
        out = {}
        with Bypass():
            for d in dirs:
                for base, ds, fs in os.walk(d):
                    for n in sorted(ds):
                        p = os.path.join(base, n)
                        out[self.w.rel(p)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
                    for n in sorted(fs):
                        p = os.path.join(base, n)
                        out[self.w.rel(p)] = ("link", os.readlink(p)) if os.path.islink(p) else self.get(p)
        return out


def yaml_dump(cfg):
    import yaml
    return yaml.safe_dump(cfg, default_flow_style=False)


class Store:
    """Oracle for one data directory: marker current => complete; every data file old-or-new."""

    def __init__(self, m, d, marker, version, files, label="store"):
        self.m, self.dir, self.marker, self.version, self.label = m, d, marker, version, label
        self.files = dict(files)               # current release
        self.allowed = {}                      # file name -> acceptable contents (None = absent)
        self.reported = False
        self.rebase()

    def _read(self, n):
        return self.m.get(os.path.join(self.dir, n))

    def rebase(self):
        """The present state becomes the accepted starting point."""
        names = set(self.files)
        with Bypass():
            for base, ds, fs in os.walk(self.dir):
                ds[:] = [d for d in ds if not d.startswith(".")]
                names |= {os.path.relpath(os.path.join(base, f), self.dir) for f in fs
                          if not f.startswith(".") and not f.endswith((".tgz", ".harness"))}
        self.allowed = {}
        self.now = {}
        for n in names | {self.marker}:
            self.now[n] = d = self._read(n)
            if n != self.marker:
                self.allowed[n] = [d] + ([self.files[n]] if n in self.files and self.files[n] != d else [])

    def current(self, now=None):
        d = (now if now is not None else self.now)[self.marker]
        if d is None:
            return False
        return d.split(b"\n")[0].decode("utf-8", "replace").strip() == self.version

    def missing(self):
        """First file of the release that is not there as released, or None."""
        for n, data in sorted(self.files.items()):
            got = self.now.get(n)
            if n != self.marker and got != data:
                return "%s is %s" % (n, "missing" if got is None else "%d bytes instead of %d" % (len(got), len(data))
                                     if len(got) != len(data) else "different from the released one")
        return None

    def refresh(self):
        for n in self.now:
            self.now[n] = self._read(n)

    def is_current(self):
        self.refresh()
        return self.current()

    def check(self, path=None):
        """The invariant, evaluated after every mutating step (path) and in full (None)."""
        if self.reported:
            return
        if path is None or path == self.dir or self.dir.startswith(path + "/"):
            self.refresh()
        elif path.startswith(self.dir + "/"):
            n = path[len(self.dir) + 1:]
            if n in self.now:
                self.now[n] = self._read(n)
            else:
                below = [k for k in self.now if k.startswith(n + "/")]
                if not below:
                    return
                for k in below:
                    self.now[k] = self._read(k)
        else:
            return
        w = self.m.w
        w.probe("invariant_checks")
        if self.current():
            why = self.missing()
            if why is not None:
                self.reported = True
                w.violate("current-but-incomplete", "%s reports version %s but %s" % (self.label, self.version, why))
                return
        for n, allowed in self.allowed.items():
            got = self.now[n]
            if not any(got is a or got == a for a in allowed):
                self.reported = True
                w.violate("torn-file", "%s: %s is neither the previous nor the released file (%s)" % (
                    self.label, n, "missing" if got is None else "%d bytes" % len(got)))
                return
            if got is not None and None in allowed:
                allowed.remove(None)      # once there, it must stay


# ------------------------------------------------------------------------------ generation helpers
PER_OP = {"replace": 9, "write": 14, "unlink": 4, "mkdir": 12, "open_w": 9, "net.read": 5, "net.connect": 1, "close_w": 9,
          "meta": 26, "open_r": 6, "read": 14, "stat": 60, "h5.write": 20, "h5": 25, "listdir": 4}
ALL_FAULTS = ["errno", "torn", "torncrash", "crash", "kbd", "mem", "short", "net", "h5err"]


def gen_policy(rng, horizon, kinds=None, max_faults=3, sched="none", n_tasks=1, focus_kinds=None, p_none=0.08, paths=()):
    """Swarm: a random subset of fault kinds, a random focus, a random number of faults."""
    kinds = list(kinds if kinds is not None else ALL_FAULTS)
    r = rng.random()
    if r < p_none:
        sub, n = [], 0
    else:
        sub = [k for k in kinds if rng.random() < 0.6] or [rng.choice(kinds)]
        n = rng.choice([1, 1, 1, 2, 2, 3][:max(1, max_faults * 2)])
    focus = None
    h = horizon
    if rng.random() < 0.6:
        focus = rng.choice(focus_kinds or [["replace"], ["write"], ["unlink"], ["mkdir"], ["open_w"], ["net.read"],
                                           ["net.connect"], ["close_w"], ["meta"], ["open_r", "read"], ["listdir"],
                                           ["replace", "write", "unlink", "mkdir", "open_w", "close_w"]])
        h = max(1, sum(PER_OP.get(k, 10) for k in focus))
    p = {"kinds": sub, "max_faults": n, "horizon": h, "focus": focus}
    if paths and rng.random() < 0.2:        # faults only where one kind of file is concerned
        p.update(focus_path=rng.choice(list(paths)), horizon=rng.choice([4, 8, 16]))
    if sched != "none":
        p["sched"] = rng.choice(["random", "pct", "pct"]) if sched == "any" else sched
        p["p_switch"] = rng.choice([0.02, 0.1, 0.3, 0.6])
        p["changes"] = rng.randrange(1, 6)
    return p


def gen_knobs(rng):
    return {"bufsize": rng.choice([64, 512, 4096, 8192, 8192, 131072]),
            "net_chunk": rng.choice([257, 1024, 4096, 65536, 1 << 20]),
            "content_length": rng.choice(["right", "right", "right", "missing", "missing", "chunked", "encoded"]),
            "dirseed": rng.randrange(1000),
            "devices": rng.choice(["one", "tmp", "many", "many"]),
            "mtime_granularity": rng.choice([1e-9, 1e-6, 0.004, 1.0, 2.0])}


def make_decider(wl, seed, trace):
    if trace is not None:
        return ReplayDecider(trace)
    return LiveDecider(random.Random("decide-%s" % seed), Policy(**{k: v for k, v in wl["policy"].items()}))


def wipe(d):
    with Bypass():
        if os.path.isdir(d):
            for base, ds, fs in os.walk(d):
                try:
                    seams.real["chmod"](base, 0o700)
                except (OSError, KeyError):
                    pass
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)


def arr_close(a, b, rtol=1e-5, atol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


_ = fixtures, World
