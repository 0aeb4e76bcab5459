"""Seeded search, minimisation, replay and evidence.

  python -m sim.runner check  C01 [--tier quick|thorough] [--runs N] [--workers N] [--seed N]
  python -m sim.runner replay FILE
  python -m sim.runner one    C01 SEED          (one run, prints the event log)
  python -m sim.runner digests C01 N            (digests of N runs, for determinism comparisons)
"""
import argparse
import collections
import gc
import hashlib
import importlib
import io
import json
import logging
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_TIME = time.time
REAL_MONO = time.monotonic
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        if base:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 256 << 20:
                base = None
        SCRATCH = tempfile.mkdtemp(prefix="pspsim_", dir=base)
    return SCRATCH


def prepare(prop):
    """Everything that is done once, in the parent, before forking."""
    from . import loader, seams
    os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    loader.precompile()
    loader.install()
    import dask
    dask.config.set(scheduler="sync")
    import dask.array, h5py, numpy, requests, scipy.integrate, scipy.interpolate, tqdm, xarray, yaml  # noqa
    import geotiepoints.multilinear, platformdirs  # noqa
    import requests.utils, encodings.idna, urllib3, responses  # noqa
    tqdm.tqdm.monitor_interval = 0
    seams.install()
    from . import common
    warm()
    common.load_consts()
    scratch()
    mod = importlib.import_module("sim.props." + prop.lower())
    if hasattr(mod, "setup"):
        mod.setup()
    return mod


def warm():
    """Import the tree once outside any world so that third-party imports happen before the simulation."""
    from . import loader
    names = [n for n in loader.CODE if n.startswith("pyspectral")]
    for n in sorted(names):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    loader.swap_out()


class Outcome:
    __slots__ = ("violations", "digest", "order", "steps", "simtime", "faults", "kinds", "probes", "trace", "events",
                 "workload", "seed", "error", "hang")


def run_one(mod, seed, wl=None, trace=None, keep=False):
    """One simulated run: a pure function of (seed) or of (workload, trace) and the code."""
    from .common import make_decider
    from .engine import HarnessError, World
    if wl is None:
        wl = mod.gen(random.Random("gen-%s-%s" % (mod.ID, seed)))
    # fixed-length name: paths are hashed nowhere, but their length decides buffer boundaries
    root = os.path.join(scratch(), "w%08d" % os.getpid())
    if os.path.lexists(root):
        shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    dec = make_decider(wl, "%s-%s" % (mod.ID, seed), trace)
    w = World(root, dec, wl.get("knobs"))
    w.keep_events = keep
    w.rng_noise = random.Random("noise")
    t0 = w.clock
    o = Outcome()
    o.error, o.hang = None, False
    gc.disable()
    import numpy as np
    np.random.seed(0)
    random.seed(0)
    try:
        mod.execute(w, wl)
    except HarnessError as e:
        if "hangs" in str(e):
            o.hang = True
            w.violations.append(("hang", "no progress in real time: %s" % e))
        else:
            o.error = str(e)
    except Exception:
        o.error = traceback.format_exc()
    finally:
        gc.enable()
    if w.escapes and not getattr(mod, "OWN_ESCAPES", False):
        w.violations.append(("escape", "touched something outside of the simulated machine's directories: %s" % (w.escapes[0],)))
    o.violations = list(w.violations)
    o.digest = w.digest.hexdigest()
    o.order = w.order.hexdigest()
    o.steps, o.simtime = w.steps, w.clock - t0
    o.faults, o.kinds, o.probes = dict(w.fault_counts), dict(w.step_counts), dict(w.probes)
    o.trace = dec.trace()
    o.events = w.events
    o.workload, o.seed = wl, seed
    w.procs.clear()
    w.tasks = []
    w.watchers.clear()
    shutil.rmtree(root, ignore_errors=True)
    return o


# ------------------------------------------------------------------------------ workers
def _worker(mod, idx, n, base, total, deadline, stop, q, at):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    sys.stderr = io.StringIO()
    agg = Agg()
    try:
        i = idx
        while i < total and not stop.is_set() and REAL_MONO_() < deadline:
            seed = "%d.%d" % (base, i)
            at[idx] = i
            o = run_one(mod, seed)
            if o.error:
                q.put(("error", seed, o.error))
                stop.set()
                break
            agg.add(o, mod)
            if agg.runs % 40 == 0:
                gc.collect()
            if agg.runs in (3, 50, 200) and not o.violations:      # determinism, continuously
                o2 = run_one(mod, seed)
                agg.redone += 1
                if o2.digest != o.digest and o2.error is None:
                    agg.differing.append(seed)
            if o.violations:
                q.put(("violation", i, seed, o.workload, o.trace, o.violations))
                stop.set()
                if o.hang:
                    break
            sys.stderr.seek(0)
            sys.stderr.truncate()
            i += n
    except BaseException:
        q.put(("error", idx, traceback.format_exc()))
        stop.set()
    try:
        import pickle
        pickle.dumps(agg)
    except BaseException:
        q.put(("error", idx, traceback.format_exc()))
        agg = Agg()
    q.put(("done", idx, agg))
    q.close()
    q.join_thread()
    os._exit(0)


def REAL_MONO_():
    return REAL_MONO()


class Agg:
    def __init__(self):
        self.runs = self.steps = self.nontrivial = self.redone = 0
        self.simtime = 0.0
        self.faults, self.kinds, self.probes = collections.Counter(), collections.Counter(), collections.Counter()
        self.digests, self.orders = set(), set()
        self.differing = []
        self.samples = []

    def add(self, o, mod):
        self.runs += 1
        self.steps += o.steps
        self.simtime += o.simtime
        self.faults.update(o.faults)
        self.kinds.update(o.kinds)
        self.probes.update({k: 1 for k in o.probes})
        nt = bool(o.faults) or bool(o.trace["switches"]) or bool(o.probes.get("nontrivial"))
        if nt:
            d = int(o.digest[:16], 16)
            self.digests.add(d)
            self.orders.add(int(o.order[:16], 16))
            if len(self.samples) < 2 and self.runs > 2:
                self.samples.append({"seed": o.seed, "workload": _short(o.workload), "trace": _short(o.trace),
                                     "steps": o.steps, "digest": o.digest})

    def merge(self, a):
        self.runs += a.runs
        self.steps += a.steps
        self.simtime += a.simtime
        self.redone += a.redone
        self.differing += a.differing
        self.faults.update(a.faults)
        self.kinds.update(a.kinds)
        self.probes.update(a.probes)
        self.digests |= a.digests
        self.orders |= a.orders
        self.samples += a.samples


def _short(x, limit=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= limit else s[:limit] + "..."


# ------------------------------------------------------------------------------ minimisation
def _same(o, cls):
    return o.error is None and bool(o.violations) and o.violations[0][0] == cls


def minimise(mod, wl, trace, cls, budget_s=60, seed="min"):
    """Greedy: drop operations, faults and switches while the same class of violation persists."""
    end = REAL_MONO() + budget_s
    tried = 0

    def good(w2, t2):
        nonlocal tried
        if REAL_MONO() > end:
            return False
        tried += 1
        return _same(run_one(mod, seed, w2, t2), cls)
    if not good(wl, trace):
        return wl, trace, tried
    changed = True
    while changed and REAL_MONO() < end:
        changed = False
        for field in ("switches", "faults"):
            items = trace[field]
            size = max(1, len(items) // 2)
            while items and size:
                i = 0
                while i < len(items):
                    cand = items[:i] + items[i + size:]
                    t2 = dict(trace, **{field: cand})
                    if good(wl, t2):
                        items, trace, changed = cand, t2, True
                    else:
                        i += size
                size //= 2
        for path in sorted(_op_lists(wl), key=len):
            i = 0
            if path not in _op_lists(wl):
                continue
            while i < len(_get(wl, path)):
                w2 = json.loads(json.dumps(wl))
                del _get(w2, path)[i]
                if good(w2, trace):
                    wl, changed = w2, True
                else:
                    i += 1
        for k, v in list(getattr(mod, "SIMPLE", {}).items()):
            if k in wl and wl[k] != v:
                w2 = dict(wl, **{k: v})
                if good(w2, trace):
                    wl, changed = w2, True
    return wl, trace, tried


def _op_lists(wl):
    out = []

    def bodies(path, ops):
        out.append(path)
        for i, op in enumerate(ops):
            if isinstance(op, dict) and isinstance(op.get("body"), list):
                bodies(path + (i, "body"), op["body"])
    if isinstance(wl.get("ops"), list):
        bodies(("ops",), wl["ops"])
    for i, t in enumerate(wl.get("tasks") or []):
        if isinstance(t, dict) and isinstance(t.get("ops"), list):
            bodies(("tasks", i, "ops"), t["ops"])
    return out


def _get(wl, path):
    for p in path:
        wl = wl[p]
    return wl


# ------------------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                d = dict(kv.split("=", 1) for kv in rest.split(" | ")[0].split(" ") if "=" in kv)
                out.append((d.get("class"), d.get("match", "").replace("_", " "), rest))
    return out


def listed(known, violation):
    for cls, match, text in known:
        if cls == violation[0] and match in violation[1]:
            return text
    return None


# ------------------------------------------------------------------------------ check
def check(prop, tier, base, runs=None, workers=None):
    t0 = REAL_MONO()
    mod = prepare(prop)
    total = runs or mod.RUNS[tier]
    soft = {"quick": 420, "thorough": 6000}[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    stop, q = ctx.Event(), ctx.Queue()
    at = ctx.Array("q", [-1] * workers, lock=False)
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    ps = [ctx.Process(target=_worker, args=(mod, i, workers, base, total, t0 + soft, stop, q, at), daemon=True)
          for i in range(workers)]
    for p in ps:
        p.start()
    agg, viol, errors, done, died = Agg(), [], [], 0, None
    import queue
    while done < workers:
        try:
            m = q.get(timeout=5)
        except queue.Empty:
            if all(not p.is_alive() for p in ps):
                if done < workers:
                    errors.append(("worker", "a worker process died: exit codes %s" % [p.exitcode for p in ps]))
                break
            dead = [p for p in ps if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and not stop.is_set():
                errors.append(("worker", "a worker process died: exit code %s" % dead[0].exitcode))
                stop.set()
                died = REAL_MONO()
            if died is not None and REAL_MONO() - died > 120:       # it may have died holding the queue
                for p in ps:
                    p.kill()
                break
            if dead and stop.is_set() and len([p for p in ps if p.is_alive()]) == 0:
                break
            continue
        if m[0] == "done":
            done += 1
            agg.merge(m[2])
        elif m[0] == "violation":
            viol.append(m[1:])
        else:
            errors.append(m[1:])
    for p in ps:
        p.join(timeout=10)
    if not viol:
        for j, p in enumerate(ps):      # the code under test brought the interpreter down: reproducible?
            if p.exitcode is not None and -p.exitcode in NATIVE and at[j] >= 0:
                seed = "%d.%d" % (base, at[j])
                if all(_apart(lambda: run_one(mod, seed) and 0, 120)[1] == p.exitcode for _ in range(2)):
                    wl = mod.gen(random.Random("gen-%s-%s" % (mod.ID, seed)))
                    viol.append((at[j], seed, wl, {"switches": [], "faults": [], "live_seed": seed},
                                 [("native-crash", "the process dies of signal %d" % -p.exitcode)]))
    search_s = REAL_MONO() - t0
    known = known_findings(prop)
    fresh = [v for v in viol if any(listed(known, x) is None for x in v[4])]
    rc = 0
    replay = None
    for v in sorted(viol, key=lambda v: v[0]):
        for x in v[4]:
            k = listed(known, x)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if fresh:
        i, seed, wl, trace, vs = min(fresh, key=lambda v: v[0])
        cls, msg = [x for x in vs if listed(known, x) is None][0]
        tried = 0
        digest, events = None, []
        if cls not in ("hang", "native-crash"):
            budget = 60 if tier == "quick" else 240

            def shrink():
                wl2, trace2, n = minimise(mod, wl, trace, cls, budget)
                o = run_one(mod, "min", wl2, trace2, keep=True)
                return (wl2, trace2, n, o.violations[0][1], o.digest, o.events[-60:]) if _same(o, cls) else None

            def plain():
                o = run_one(mod, "min", wl, trace, keep=True)
                return wl, trace, 0, o.violations[0][1] if _same(o, cls) else msg, o.digest, o.events[-60:]
            r = _apart(shrink, 2 * budget)[0] or _apart(plain, 120)[0]
            if r:
                wl, trace, tried, msg, digest, events = r
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s_%s.json" % (prop, hashlib.sha1(
            json.dumps([wl, trace], sort_keys=True, default=str).encode()).hexdigest()[:10]))
        with open(replay, "w") as f:
            json.dump({"property": prop, "found_with_seed": seed, "class": cls, "message": msg, "workload": wl,
                       "trace": trace, "digest": digest, "minimisation_runs": tried,
                       "events_tail": events[-60:]}, f, indent=1, default=str)
        print("%s: %s" % (cls, msg))
        print("seed %s, minimised to %d operations, %d faults, %d switches" % (
            seed, sum(len(_get(wl, p)) for p in _op_lists(wl)), len(trace["faults"]), len(trace["switches"])))
        confirmed = _confirm(replay)
        print("replay in a fresh process: %s" % confirmed)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS-ERROR %s: %s" % (e[0], e[1]))
        rc = 2
    write_evidence(mod, prop, tier, base, agg, total, search_s, REAL_MONO() - t0, 1 if fresh else 0, workers, replay)
    print("%s %s: %d runs, %d steps, %d distinct non-trivial executions, %d faults, %.1f s%s" % (
        prop, tier, agg.runs, agg.steps, len(agg.digests), sum(agg.faults.values()), REAL_MONO() - t0,
        "" if rc == 0 else " -> exit %d" % rc))
    return rc


NATIVE = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def _apart(fn, timeout):
    """Run *fn* in a child process, which may die: (its result or None, exit code)."""
    import pickle
    r, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            os.dup2(devnull, 1)
            sys.stderr = io.StringIO()
            signal.alarm(int(timeout))
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(wr, data):]
            rc = 0
        finally:
            os._exit(rc)
    os.close(wr)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    shutil.rmtree(os.path.join(scratch(), "w%08d" % pid), ignore_errors=True)
    return (pickle.loads(data) if code == 0 else None), code


def _confirm(path):
    import subprocess
    env = dict(os.environ, PYTHONHASHSEED="0")
    try:
        r = subprocess.run([sys.executable, "-m", "sim.runner", "replay", path], cwd=VERIF, env=env, timeout=300,
                           capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        return "timed out"
    return {1: "reproduced", 0: "NOT reproduced"}.get(r.returncode, "error: " + (r.stdout + r.stderr)[-400:])


def write_evidence(mod, prop, tier, base, agg, total, search_s, wall, nviol, workers, replay):
    from .seams import OPT
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": len(agg.digests),
            "rule": "one evaluation = one simulated run with its own seed (derived from VERIF_SEED); " + mod.RULE +
                    " Non-trivial: at least one fault was injected, one context switch forced, or a scenario-specific "
                    "probe fired; distinct by the hash of the complete event log (every intercepted operation, fault and switch).",
            "samples": agg.samples[:4],
            "planned_runs": total,
            "simulated_runs_per_hour": int(agg.runs / max(search_s, 1e-3) * 3600),
            "seeds": "%d.0 .. %d.%d" % (base, base, total - 1),
            "simulated_seconds": round(agg.simtime, 1),
            "steps": agg.steps,
            "steps_by_kind": dict(sorted(agg.kinds.items())),
            "faults_injected": dict(sorted(agg.faults.items())),
            "faults_total": sum(agg.faults.values()),
            "distinct_interleavings": len(agg.orders),
            "interleaving_measure": "hash of the sequence of (task, operation, step) -> task hand-overs",
            "probes_runs_hit": dict(sorted(agg.probes.items())),
            "determinism_reexecutions": agg.redone,
            "determinism_differences": agg.differing,
            "workers": workers,
            "real_components": mod.REAL,
            "stubbed_components": mod.STUB,
            "replay": replay,
            "exhaustive": False,
        },
        "assumptions": mod.ASSUME + [
            "sampling: a clean batch is evidence, not proof",
            "a crash is the kill of a process (completed writes survive); power loss is not modelled"],
        "wall_s": round(wall, 1), "violations": nviol,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    assert OPT


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = prepare(d["property"])
    if "live_seed" in d["trace"]:
        code = _apart(lambda: run_one(mod, d["trace"]["live_seed"]) and 0, 120)[1]
        if -code not in NATIVE:
            print("not reproduced")
            return 0
        print("the process dies of signal %d" % -code)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    o = run_one(mod, "min", d["workload"], d["trace"], keep=True)
    if o.error:
        print("HARNESS-ERROR", o.error)
        return 2
    for e in o.events[-80:]:
        print("  " + e)
    if not o.violations:
        print("not reproduced")
        return 0
    print("digest %s (recorded %s)" % (o.digest, d.get("digest")))
    print("%s: %s" % o.violations[0])
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def main(argv):
    if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("PSPSIM") is None:
        env = dict(os.environ)
        env.setdefault("PYTHONHASHSEED", "0")
        env.update(PSPSIM="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        os.execve(sys.executable, [sys.executable, "-m", "sim.runner"] + argv, env)
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "one", "digests"])
    ap.add_argument("what")
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args(argv)
    try:
        if a.cmd == "check":
            return check(a.what, a.tier, a.seed, a.runs, a.workers)
        if a.cmd == "replay":
            return replay(a.what)
        mod = prepare(a.what)
        if a.cmd == "one":
            o = run_one(mod, a.arg, keep=True)
            for e in o.events:
                print(e)
            print(json.dumps(o.workload))
            print(json.dumps(o.trace))
            print(o.error or "", o.violations, o.digest, o.steps, o.faults, o.probes)
            return 0
        sys.stderr = io.StringIO()
        for i in range(int(a.arg)):
            o = run_one(mod, "%d.%d" % (a.seed, i))
            print(i, o.digest, o.order, o.error or "", o.violations)
        return 0
    finally:
        if SCRATCH:
            shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    rc = 2
    try:
        rc = main(sys.argv[1:])
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)        # the code under test may have left the interpreter unable to wind down
