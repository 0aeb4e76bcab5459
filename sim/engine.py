"""Deterministic simulator core: worlds, simulated processes, tasks, scheduler, decisions.

One *world* is one simulated machine: a scratch directory tree, a clock, a network, and any number
of simulated processes.  A simulated process (``Proc``) owns its own freshly loaded copy of the
pyspectral modules (compiled from /repo's working tree), its own environment variables, process id
and temporary-file name sequence.  A ``Task`` is a thread of control inside a process; it runs on a
real thread, but only the task holding the baton ever runs, and the baton is handed over only at
intercepted points (``World.step``) as decided by the ``Decider``.

Every decision (fault or switch) is keyed by (task, operation uid, n-th step inside the operation),
so that a recorded sparse trace replays exactly and stays meaningful while it is being minimised.
"""
import errno
import hashlib
import os
import random
import sys
import threading
from collections import Counter


class SimCrash(BaseException):
    """The simulated process was killed; unwinding must have no further effect."""


class SimAbort(BaseException):
    """The harness ends the run early (violation found or step budget exhausted)."""


class HarnessError(Exception):
    """Something is wrong with the machinery itself."""


TASKS = {}       # thread ident -> Task
_get_ident = threading.get_ident


def phil_owned():
    """True while this thread holds h5py's global lock (replaced by seams.install)."""
    return False


def cur():
    """The simulated task running on this thread, or None outside the simulation."""
    t = TASKS.get(_get_ident())
    if t is None or t.bypass:
        return None
    return t


class Bypass:
    """Context manager: file operations of the harness itself, invisible to the simulation."""

    def __enter__(self):
        self.t = TASKS.get(_get_ident())
        if self.t is not None:
            self.t.bypass += 1

    def __exit__(self, *exc):
        if self.t is not None:
            self.t.bypass -= 1


class Proc:
    """A simulated operating-system process."""

    def __init__(self, world, name, env=None):
        self.world = world
        self.name = name
        self.pid = 4000 + 7 * len(world.procs)
        self.env = dict(world.base_env)
        for k, v in (env or {}).items():
            self.env[os.fsencode(k)] = os.fsencode(v)
        self.mods = {}
        self.dead = False
        self.names = 0          # temporary names handed out
        self.tempdir = world.tmpdir
        self.pending = None
        self.argv = ["python"]
        world.procs.append(self)

    # -- context switching -----------------------------------------------------------------
    def enter(self):
        from . import loader, seams
        loader.swap_in(self.mods)
        os.environ._data = self.env
        seams.tempfile.tempdir = self.tempdir
        sys.argv = self.argv

    def leave(self):
        from . import loader, seams
        self.mods = loader.swap_out()
        self.env = os.environ._data
        self.tempdir = seams.tempfile.tempdir
        self.argv = sys.argv


class Task:
    def __init__(self, world, proc, name, fn):
        self.world, self.proc, self.name, self.fn = world, proc, name, fn
        self.sem = threading.Semaphore(0)
        self.op = "-"
        self.n = 0
        self.bypass = 0
        self.h5depth = 0
        self.noswitch = 0
        self.hot, self.last = False, {}
        self.done = False
        self.crashed = False
        self.error = None
        self.blocked = None      # callable -> bool: becomes runnable when true
        self.wake = None         # simulated wake-up time
        self.faults = True
        self.result = None


# -------------------------------------------------------------------------------- decisions
class Policy:
    """What may go wrong in one run (swarm style: a random subset per run)."""

    def __init__(self, kinds=(), max_faults=0, horizon=200, focus=None, sched="none", p_switch=0.1,
                 changes=3, focus_path=None, n_tasks=1):
        self.kinds = set(kinds)
        self.max_faults = max_faults
        self.horizon = horizon
        self.focus = focus
        self.focus_path = focus_path
        self.sched = sched
        self.p_switch = p_switch
        self.changes = changes


class LiveDecider:
    """Draws every decision from one seeded generator and records the non-default ones."""

    def __init__(self, rng, policy):
        self.rng, self.policy = rng, policy
        self.faults, self.switches = {}, {}
        self.left = policy.max_faults
        self.countdown = self._draw() if self.left else -1
        self.prio = {}
        self.change_at = sorted(rng.randrange(1, 4 * policy.horizon + 2) for _ in range(policy.changes))
        self.seen = 0

    def _draw(self):
        r, h = self.rng, max(2, self.policy.horizon)
        if r.random() < 0.5:
            return int(h ** r.random())
        return r.randrange(1, h + 1)

    def fault(self, key, kind, path, options):
        p = self.policy
        if self.left <= 0 or not options:
            return None
        if p.focus is not None and kind not in p.focus:
            return None
        if p.focus_path is not None and (path is None or p.focus_path not in path):
            return None
        opts = [o for o in options if o[0].split(":")[0] in p.kinds]
        if not opts:
            return None
        self.countdown -= 1
        if self.countdown > 0:
            return None
        self.left -= 1
        self.countdown = self._draw() if self.rng.random() < 0.7 else self.rng.randrange(1, 12)
        spec = self.rng.choice(opts)
        spec = [spec[0], self.rng.randrange(1000)]
        self.faults[key] = spec
        return spec

    def switch(self, key, current, runnable, hot=False):
        """current is None when there is no running task to prefer; hot: it has just changed or looked up shared state."""
        p, r = self.policy, self.rng
        if len(runnable) == 1 and (current is None or current == runnable[0]):
            return runnable[0]
        if p.sched == "pct":
            for t in runnable:
                if t not in self.prio:
                    self.prio[t] = r.random() + 1
            if current is not None:
                self.seen += 1
                if self.change_at and self.seen >= self.change_at[0]:
                    self.change_at.pop(0)
                    self.prio[current] = r.random() * 0.5 - self.seen
            choice = max(runnable, key=lambda t: self.prio[t])
        elif current is None:
            choice = r.choice(runnable)
        elif p.sched == "hot" and r.random() < (p.p_switch if hot else 0.001):
            choice = r.choice([t for t in runnable if t != current] or runnable)
        elif p.sched == "random" and r.random() < p.p_switch:
            choice = r.choice([t for t in runnable if t != current] or runnable)
        else:
            choice = current if current in runnable else r.choice(runnable)
        if choice != current:
            self.switches[key] = choice
        return choice

    def trace(self):
        return {"faults": [[list(k), v] for k, v in self.faults.items()],
                "switches": [[list(k), v] for k, v in self.switches.items()]}


class ReplayDecider:
    """Replays a recorded trace; everything not in it is the default."""

    def __init__(self, trace):
        self.f = {tuple(k): v for k, v in trace.get("faults", [])}
        self.s = {tuple(k): v for k, v in trace.get("switches", [])}
        self.used_f, self.used_s = [], []

    def fault(self, key, kind, path, options):
        v = self.f.get(key)
        if v is None or v[0] not in [o[0] for o in options]:
            return None
        self.used_f.append([list(key), v])
        return v

    def switch(self, key, current, runnable, hot=False):
        v = self.s.get(key)
        if v is not None and v in runnable:
            self.used_s.append([list(key), v])
            return v
        if current is not None and current in runnable:
            return current
        return sorted(runnable)[0]

    def trace(self):
        return {"faults": self.used_f, "switches": self.used_s}


# -------------------------------------------------------------------------------- line events
_monitoring = None      # None: never set up; else whether instructions are reported, too


def _codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from _codes(c)


HOT = {}      # id of a code object -> its lines after which another thread may see or disturb shared state


def _hot_lines(code):
    import dis
    if code.co_name == "__init__":
        return frozenset()
    out, line = set(), code.co_firstlineno
    for i in dis.get_instructions(code):
        if i.positions is not None and i.positions.lineno is not None:
            line = i.positions.lineno
        if i.opname in ("STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR", "CONTAINS_OP") or (
                i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in ("append", "pop", "popitem", "update", "setdefault", "clear",
                                                                         "add", "remove", "discard", "extend", "insert")):
            out.add(line)
    return frozenset(out)


def monitor(opcodes):
    """Report the lines (instructions) of the code under test, and nothing else, to the running world."""
    global _monitoring
    if _monitoring is opcodes:
        return
    from . import loader
    mon, ev = sys.monitoring, sys.monitoring.events
    if _monitoring is None:
        mon.use_tool_id(3, "pspsim")

        def on_line(code, arg):
            t = TASKS.get(_get_ident())
            if t is not None and t.world.trace_lines:
                hot, t.hot = t.hot, False
                t.world.line(t, hot)

        def on_source_line(code, line):
            t = TASKS.get(_get_ident())
            if t is not None and t.world.trace_lines:
                i = id(code)
                # the line that has just ended: the previous one in this function, which may have called others
                hot, t.hot, t.last[i] = t.hot or t.last.get(i, False), line in HOT[i], line in HOT[i]
                t.world.line(t, hot)

        def start(code, offset):        # a module is being imported: import locks are held
            t = TASKS.get(_get_ident())
            if t is not None:
                t.noswitch += 1

        def ret(code, offset, value):
            t = TASKS.get(_get_ident())
            if t is not None and t.noswitch:
                t.noswitch -= 1
        mon.register_callback(3, ev.LINE, on_source_line)
        mon.register_callback(3, ev.INSTRUCTION, on_line)
        mon.register_callback(3, ev.PY_START, start)
        mon.register_callback(3, ev.PY_RETURN, ret)
    _monitoring = opcodes
    for code, _, _ in loader.CODE.values():
        for c in _codes(code):
            if c.co_name == "<module>":
                mon.set_local_events(3, c, ev.PY_START | ev.PY_RETURN)
            else:
                HOT[id(c)] = _hot_lines(c)
                mon.set_local_events(3, c, ev.LINE | (ev.INSTRUCTION if opcodes else 0))


# -------------------------------------------------------------------------------- the world
class World:
    STEP_CAP = 60000

    def __init__(self, root, decider, knobs=None):
        self.root = os.path.abspath(root)
        self.prefix = self.root + os.sep
        self.decider = decider
        self.knobs = dict(knobs or {})
        self.procs, self.tasks = [], []
        self.tmpdir = os.path.join(self.root, "tmp")
        self.base_env = {}
        self.steps = 0
        self.clock = 1.7e9
        self.faults_on = True
        self.switching = False
        self.fault_counts = Counter()
        self.step_counts = Counter()
        self.probes = Counter()
        self.digest = hashlib.blake2b(digest_size=12)
        self.order = hashlib.blake2b(digest_size=12)   # interleaving measure
        self.events = []
        self.violations = []
        self.escapes = []
        self.requests = []
        self.h5files = {}       # (device, inode) -> HDF5 files open on it
        self.watchers = []       # called with the path after every mutating step
        self.extra_read_paths = ()
        self.disk_left = None    # bytes, None = unlimited
        self.server = None
        self.running = None
        self.finished = threading.Semaphore(0)
        self.aborting = False
        self.keep_events = True
        self.rng_noise = random.Random(12345)
        self.trace_lines = False  # line-granular switching in the code under test
        self.uid = 0

    # -- reporting ------------------------------------------------------------------------
    def rel(self, path):
        if path is None:
            return ""
        path = os.fsdecode(path) if isinstance(path, bytes) else str(path)
        if path.startswith(self.prefix):
            path = path[len(self.prefix):]
            if "pspsim_" in path:  # an absolute name re-rooted below the world
                for part in self.root.split(os.sep)[-2:]:
                    path = path.replace(part, "ROOT")
            return path
        return "." if path == self.root else path

    def note(self, text):
        self.digest.update(text.encode("utf-8", "replace") + b"\n")
        if self.keep_events:
            self.events.append(text)

    def violate(self, cls, msg):
        self.note("VIOLATION %s: %s" % (cls, msg))
        self.violations.append((cls, msg))

    def probe(self, name):
        self.probes[name] += 1

    # -- the heart: one intercepted operation ------------------------------------------------
    def step(self, t, kind, path=None, options=(), switch=True):
        """Called by every seam before its effect.  Returns an operation-specific fault or None."""
        if t.proc.dead:
            raise SimCrash()
        if self.aborting:
            raise SimAbort()
        t.n += 1
        self.steps += 1
        self.clock += 2e-5
        self.step_counts[kind] += 1
        if self.steps > self.STEP_CAP:
            self.violate("no-progress", "more than %d steps in one run" % self.STEP_CAP)
            self.aborting = True
            raise SimAbort()
        key = (t.name, t.op, t.n)
        if switch and self.switching and not t.noswitch and not t.h5depth and not phil_owned():
            self.maybe_switch(t, key)
            if t.proc.dead:
                raise SimCrash()
        f = None
        if self.faults_on and t.faults and options:
            f = self.decider.fault(key, kind, self.rel(path), options)
        self.note("%s %s %s %s%s" % (t.name, t.op, kind, self.rel(path), " !%s" % f[0] if f else ""))
        if f is None:
            return None
        self.fault_counts[f[0]] += 1
        name = f[0]
        if name == "crash":
            t.proc.dead = True
            if t.h5depth:
                return f
            raise SimCrash()
        if name in ("kbd", "mem"):
            exc = KeyboardInterrupt if name == "kbd" else MemoryError
            if t.h5depth:
                t.pending_exc = exc
                t.proc.pending = exc
                return None
            raise exc()
        if name.startswith("errno:"):
            e = getattr(errno, name[6:])
            raise OSError(e, os.strerror(e), path)
        return f

    def mutated(self, path):
        for w in self.watchers:
            with Bypass():
                w(path)

    # -- scheduling ------------------------------------------------------------------------
    def _runnable(self):
        out = []
        for x in self.tasks:
            if x.done:
                continue
            if x.blocked is not None:
                if x.blocked():
                    x.blocked = None
                else:
                    continue
            if x.wake is not None:
                if x.wake > self.clock:
                    continue
                x.wake = None
            out.append(x)
        return out

    def maybe_switch(self, t, key, hot=False):
        run = self._runnable()
        if len(run) < 2 and run and run[0] is t:
            return
        name = self.decider.switch(key, t.name, [x.name for x in run], hot)
        if name != t.name:
            self._handoff(t, self._by_name(name))

    def _by_name(self, name):
        for x in self.tasks:
            if x.name == name:
                return x
        raise HarnessError("no task " + name)

    def _handoff(self, t, nxt):
        self.order.update(("%s.%s.%d>%s;" % (t.name, t.op, t.n, nxt.name)).encode())
        self.note("switch %s -> %s" % (t.name, nxt.name))
        if t.proc is not nxt.proc:
            t.proc.leave()
            nxt.proc.enter()
        self.running = nxt
        nxt.sem.release()
        t.sem.acquire()

    def block(self, t, cond=None, wake=None):
        """The task waits for a condition and/or simulated time."""
        if cond is not None:
            t.blocked = cond
        if wake is not None:
            t.wake = wake
        while True:
            run = self._runnable()
            if run:
                break
            wakes = [x.wake for x in self.tasks if not x.done and x.wake is not None]
            if not wakes:
                self.violate("deadlock", "all tasks wait for each other: " + ", ".join(
                    "%s in %s" % (x.name, x.op) for x in self.tasks if not x.done))
                self.aborting = True
                raise SimAbort()
            self.clock = max(self.clock, min(wakes))
        if t in run and len(run) == 1:
            return
        name = self.decider.switch((t.name, t.op, t.n, "b"), t.name if t in run else None, [x.name for x in run])
        if name != t.name:
            self._handoff(t, self._by_name(name))
        if self.aborting:
            raise SimAbort()

    def _task_done(self, t):
        t.done = True
        while True:
            run = self._runnable()
            if run:
                break
            wakes = [x.wake for x in self.tasks if not x.done and x.wake is not None]
            if wakes:
                self.clock = max(self.clock, min(wakes))
                continue
            rest = [x for x in self.tasks if not x.done]
            if not rest:
                t.proc.leave()
                self.running = None
                self.finished.release()
                return
            if not self.aborting:
                self.violate("deadlock", "tasks wait for a lock that is never released: " + ", ".join(
                    "%s in %s" % (x.name, x.op) for x in rest))
                self.aborting = True
            for x in rest:
                x.blocked = x.wake = None
        name = self.decider.switch((t.name, "end", 0), None, [x.name for x in run])
        nxt = self._by_name(name)
        self.order.update(("%s.end>%s;" % (t.name, nxt.name)).encode())
        if t.proc is not nxt.proc:
            t.proc.leave()
            nxt.proc.enter()
        self.running = nxt
        nxt.sem.release()

    def _main(self, t):
        t.sem.acquire()
        TASKS[_get_ident()] = t
        try:
            t.result = t.fn(t)
        except SimCrash:
            t.crashed = True
        except SimAbort:
            pass
        except BaseException as e:      # harness or workload bug
            import traceback
            t.error = "".join(traceback.format_exception(e))
        t.fn = None
        try:
            self._task_done(t)
        finally:
            TASKS.pop(_get_ident(), None)

    def line(self, t, hot=False):
        """A source line (or bytecode instruction) of the code under test: a possible switch point."""
        if self.switching and not t.bypass and not t.noswitch and not t.h5depth and not phil_owned():
            if t.proc.dead or self.aborting:
                return
            t.n += 1
            self.steps += 1
            if self.steps > self.STEP_CAP * 20:
                self.violate("no-progress", "step budget exhausted")
                self.aborting = True
                raise SimAbort()
            self.maybe_switch(t, (t.name, t.op, t.n), hot)

    def run(self, specs, switching=None):
        """specs: list of (proc, task name, fn).  Runs them to completion under the scheduler."""
        self.tasks = [Task(self, p, n, f) for p, n, f in specs]
        self.switching = len(specs) > 1 if switching is None else switching
        threads = []
        if self.trace_lines:
            monitor(bool(self.knobs.get("opcodes")))
        for t in self.tasks:
            th = threading.Thread(target=self._main, args=(t,), daemon=True)
            th._sim = True
            threads.append(th)
            th.start()
        run = self._runnable()
        name = self.decider.switch(("start", ",".join(x.name for x in run), 0), None, [x.name for x in run])
        first = self._by_name(name)
        saved_env = os.environ._data
        from . import loader, seams
        saved_tmp, saved_argv = seams.tempfile.tempdir, sys.argv
        host = loader.swap_out()
        first.proc.enter()
        self.running = first
        first.sem.release()
        if not self.finished.acquire(timeout=240):
            raise HarnessError("a simulated run hangs (real time limit); running=%s" % str(
                self.running and (self.running.name, self.running.op, self.running.n)))
        for th in threads:
            th.join()
        loader.swap_in(host)
        os.environ._data = saved_env
        seams.tempfile.tempdir = saved_tmp
        sys.argv = saved_argv
        for t in self.tasks:
            if t.error:
                raise HarnessError("task %s: %s" % (t.name, t.error))
        return self.tasks
