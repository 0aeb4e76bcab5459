"""C12: every object and download obeys the configuration in force when it is made."""
import os

import numpy as np

from .. import fixtures as fx
from .. import lutstore as ls
from .. import rsrstore as rs
from .. import tables as tb
from ..common import K, Machine, attempt, gen_knobs, gen_policy, yaml_dump
from ..engine import Bypass, Proc
from ..seams import real

ID = "C12"
RUNS = {"quick": 4000, "thorough": 100000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["data directories are removed between calls, not while one is creating them", "the table-cache directory is created by the user",
          "one process changes its configuration variable only between calls"]
NOTE = ("Seeded search over histories of configuration switches, edits, directory removals, object creations and uses with faults, followed by processes racing on "
        "missing directories; values, requests and every touched path are compared with a model of the configuration in force.")
RULE = ("four configuration files drawing responses, tables and table caches from four data areas with different contents and the user's default directory, keys present or "
        "absent, '~' paths, download on or off, per-platform table names; a history of 3-10 switches (variable set, unset, to a missing file or a directory), edits "
        "of the same length and time stamp, removals, creations, downloads and uses of live objects, with up to 2 faults (each failed call is repeated); then 2-4 processes, each under its own "
        "configuration, create objects at the same time under a random or PCT schedule with kills.")
AEROS = ("rural_aerosol", "rayleigh_only")
PLATS = ("EOS-Aqua", "NOAA-19", "GOES-16")
RELS = ("cur", "old", "new")
NDIR = 4


def setup():
    rs.build()
    ls.build()
    from .. import loader
    import yaml
    with open(os.path.join(loader.PKG, "etc", "pyspectral.yaml")) as f:
        BUILTIN.update(yaml.safe_load(f))


BUILTIN = {}


def gen_cfg(rng):
    c = {"rsr": rng.choice([0, 1, 2, 3, 0, 1, "user"]), "ray": rng.choice([0, 1, 2, 3, 0, 1, "user"]), "tb": rng.choice([0, 1, 2, 3, 0, 1, 2, 3, "tmp", "tmp", "absent"]),
         "dl": rng.choice([True, False, False, None]), "style": rng.choice(["plain", "plain", "slash", "tilde"])}
    r = rng.random()
    if r < 0.3:
        c["names"] = {"plat": rng.choice(PLATS), "kind": rng.choice(["str", "str", "dict", "dictlow", "dictother"]), "ext": rng.random() < 0.5,
                      "where": rng.choice([0, 1, 2, 3, "gone", "bare"])}
    return c


def gen_create(rng, u):
    k = rng.choice(["rsr", "rsr", "ray", "ray", "calc", "calc", "getcfg", "getcfg", "getfile", "dlrsr", "dlluts", "chkrsr", "chkluts"])
    op = {"u": u, "op": k, "f": rng.random() < 0.6, "plat": rng.choice(PLATS), "aero": rng.choice(AEROS), "g": rng.randrange(50),
          "band": rng.choice([0.45, 0.51, 0.66, "vis"]), "atm": rng.choice(fx.ATMS)}
    op["now"] = rng.random() < 0.6
    if k == "getfile":
        op["cfg"] = rng.randrange(4)
    return op


def gen(rng):
    wl = {"knobs": gen_knobs(rng)}
    wl["cfgs"] = [gen_cfg(rng) for _ in range(4)]
    wl["areas"] = {str(d): {c: [rng.choice(RELS + (None, "missing")), rng.random() < 0.6] for c in ("rsr",) + AEROS} for d in list(range(NDIR)) + ["user"]}
    wl["start"] = rng.choice([0, 1, 2, 3, "unset"])
    wl["policy"] = gen_policy(rng, 200, p_none=0.4, kinds=["errno", "crash", "kbd", "short", "net", "torn"], max_faults=2, sched="any", n_tasks=3,
                              focus_kinds=[["mkdir"], ["mkdir"], ["stat"], ["open_r"], ["read"], ["open_w", "write"], ["replace"], ["net.connect"]])
    ops = []
    for i in range(rng.randrange(3, 10)):
        u = "o%d" % i
        r = rng.random()
        if r < 0.22:
            ops.append({"u": u, "op": "switch", "to": rng.choice([0, 1, 2, 3, "unset", "missing", "dir"])})
        elif r < 0.36:
            ops.append({"u": u, "op": "edit", "cfg": rng.randrange(4), "new": gen_cfg(rng), "what": rng.choice(["all", "rsr", "ray", "tb", "dl", "gone", "rsr"])})
        elif r < 0.44:
            ops.append({"u": u, "op": "rm", "area": rng.choice([0, 1, 2, 3, "user"]), "what": rng.choice(["rsr", "ray", "both"])})
        elif r < 0.48:
            ops.append({"u": u, "op": "restart"})
        elif r < 0.60:
            ops.append({"u": u, "op": "use", "k": rng.randrange(8), "f": rng.random() < 0.3})
        else:
            ops.append(gen_create(rng, u))
    wl["ops"] = ops
    wl["tasks"] = []
    if rng.random() < 0.5:
        for i in range(rng.randrange(2, 5)):
            wl["tasks"].append({"cfg": rng.choice([0, 0, 1, 2, 3, "unset"]), "ops": [gen_create(rng, "t%d.%d" % (i, j)) for j in range(rng.randrange(1, 3))]})
        wl["rm"] = rng.sample([0, 1, 2, 3, "user"], rng.randrange(0, 5))
    return wl


class Model:
    """What the configuration files say, and what the data areas hold."""

    def __init__(self, m, wl):
        self.m, self.wl = m, wl
        self.cfgs = [dict(c) for c in wl["cfgs"]]
        self.gone = set()

    def area(self, d, comp):
        if d == "user":
            return os.path.join(self.m.root, "home", ".local", "share", "pyspectral")
        return os.path.join(self.m.root, "home", "a%d" % d, comp)

    def tbdir(self, d):
        if d == "absent":                        # configured, but nobody made it
            return os.path.join(self.m.root, "home", "absent", "tbl")
        return self.m.w.tmpdir if d == "tmp" else os.path.join(self.m.root, "home", "a%d" % d, "tbl")

    def path(self, c, comp):
        return self.area(c[comp], comp)

    def write(self, i):
        c = self.cfgs[i]
        out = {"extra": {"number": i}}

        def fmt(p):
            if c["style"] == "tilde":
                return "~" + p[len(os.path.join(self.m.root, "home")):]
            return p + "/" if c["style"] == "slash" else p
        for comp in ("rsr", "ray"):
            if c[comp] != "user":
                out[{"rsr": "rsr_dir", "ray": "rayleigh_dir"}[comp]] = fmt(self.path(c, comp))
        if c["tb"] != "tmp":
            out["tb2rad_dir"] = self.tbdir(c["tb"])
        if c["dl"] is not None:
            out["download_from_internet"] = c["dl"]
        n = c.get("names")
        if n:
            band = fx.NIR_BAND[n["plat"]]
            f = self.named(n)
            entry = f if n["kind"] == "str" else {"dict": {band: f}, "dictlow": {band.lower(): f}, "dictother": {"zz": f}}[n["kind"]]
            out["%s-%s" % (n["plat"], fx.SAT[n["plat"]][1])] = {"tb2rad_lut_filename": entry}
        self.gone.discard(i)
        self.m.put(self.m.cfg_path("c%d.yaml" % i), yaml_dump(out).encode())

    def named(self, n):
        base = "mytable_%s%s" % (n["plat"], ".npz" if n["ext"] else "")
        if n["where"] == "bare":
            return base
        d = os.path.join(self.m.root, "home", "nowhere") if n["where"] == "gone" else self.tbdir(n["where"])
        return os.path.join(d, base)

    def table_dir(self, c, plat):
        """Directory in which the radiance table of *plat* must be."""
        n = c.get("names")
        if n and n["plat"] == plat and n["kind"] != "dictother" and n["where"] not in ("gone", "bare"):
            return self.tbdir(n["where"])
        return self.tbdir(c["tb"])

    def no_table_dir(self, op, c):
        """The table of this calculator belongs in a directory that does not exist: refusing is fine, putting it elsewhere is not."""
        return op["op"] == "calc" and self.table_dir(c, op["plat"]) == self.tbdir("absent")

    def get(self, sel):
        """Effective configuration for a selection, None if it must be an error."""
        if sel == "unset":
            return {"rsr": "user", "ray": "user", "tb": "tmp", "dl": bool(BUILTIN.get("download_from_internet"))}
        if sel in ("missing", "dir") or sel in self.gone:
            return None
        return self.cfgs[sel]

    def allowed(self, c):
        if c is None:
            return []
        dirs = [self.path(c, "rsr"), self.path(c, "ray"), self.tbdir(c["tb"]), self.m.w.tmpdir]
        n = c.get("names")
        if n and n["where"] not in ("gone", "bare"):
            dirs.append(self.tbdir(n["where"]))
        return dirs

    # -- contents
    def rsr_now(self, d, plat):
        """(release of the platform's file or None, store is current)"""
        p = self.area(d, "rsr")
        data = self.m.get(os.path.join(p, fx.SAT[plat][2]))
        mark = self.m.get(os.path.join(p, K.rsr_marker))
        rel = [r for r in RELS if data is not None and data == fx.rsr_file(r, plat)]
        return (rel[0] if rel else None), mark is not None and mark.decode().strip() == K.rsr_version

    def lut_now(self, path, aero, atm):
        data = self.m.get(os.path.join(path, aero, "rayleigh_lut_%s.h5" % atm.replace(" ", "_")))
        mark = self.m.get(os.path.join(path, aero, K.lut_marker[aero]))
        rel = [r for r in RELS if data is not None and data == fx.lut_file(r, aero, atm)]
        return (rel[0] if rel else None), mark is not None and mark.decode().strip() == K.lut_version[aero]


def fill(m, model, wl):
    for d in list(range(NDIR)) + ["user"]:
        with Bypass():
            if d != "user":
                os.makedirs(model.tbdir(d), exist_ok=True)
        a = wl["areas"][str(d)]
        rel, cur = a["rsr"]
        p = model.area(d, "rsr")
        if rel != "missing":
            with Bypass():
                os.makedirs(p, exist_ok=True)
            if rel is not None:
                m.install(p, fx.rsr_release(rel, K.rsr_version if cur else "v0.1.0", K.rsr_marker, PLATS, 0))
        for t in AEROS:
            rel, cur = a[t]
            p = os.path.join(model.area(d, "ray"), t)
            if rel == "missing":
                continue
            with Bypass():
                os.makedirs(p, exist_ok=True)
            if rel is not None:
                m.install(p, fx.lut_release(rel, t, K.lut_version[t] if cur else "v0.1.0", K.lut_marker[t]))
    m.server.files[K.rsr_url] = fx.tarball(rs.release("cur"))
    for t in AEROS:
        m.server.files[K.lut_url[t]] = fx.tarball(ls.release("cur", t))


def make(op, m, model):
    o = op["op"]

    def fn():
        if o == "rsr":
            from pyspectral.rsr_reader import RelativeSpectralResponse
            return RelativeSpectralResponse(op["plat"], fx.SAT[op["plat"]][1])
        if o == "ray":
            from pyspectral.rayleigh import Rayleigh
            return Rayleigh(op["plat"], fx.SAT[op["plat"]][1], aerosol_type=op["aero"], atmosphere=op["atm"])
        if o == "calc":
            return tb.make_calc({"plat": op["plat"], "det": "det-1", "flux": 2.0})
        if o == "getcfg":
            from pyspectral.config import get_config
            return get_config()
        if o == "getfile":
            from pyspectral.config import get_config
            return get_config(m.cfg_path("c%d.yaml" % op["cfg"]))
        if o == "dlrsr":
            from pyspectral.utils import download_rsr
            return download_rsr()
        if o == "dlluts":
            from pyspectral.utils import download_luts
            return download_luts(aerosol_types=[op["aero"]])
        if o == "chkrsr":
            from pyspectral.rsr_reader import check_and_download
            return check_and_download()
        from pyspectral.rayleigh import check_and_download
        return check_and_download(aerosol_types=[op["aero"]])
    return fn


def use(op, obj):
    """Result of using a live object."""
    if op["op"] == "ray":
        a = ls.angles(op["g"])
        b = fx.VIS_BAND[op["plat"]] if op["band"] == "vis" else op["band"]
        return np.asarray(obj.get_reflectance(*a[:3], b, a[3]))
    if op["op"] == "calc":
        s, t39, t11, _ = tb.tbs(op["g"])
        return np.asarray(obj.reflectance_from_tbs(s, t39, t11))
    return obj.rsr


def execute(w, wl):
    m = Machine(w, wl)
    model = Model(m, wl)
    fill(m, model, wl)
    for i in range(4):
        model.write(i)
    with Bypass():
        os.makedirs(m.cfg_path("adir"))
    sel = {}                    # process -> selection
    touched = []

    def watcher(path):
        t = w.running
        if t is None or t.bypass > 1:
            return
        c = t.scope if hasattr(t, "scope") else None
        if c is None:
            return
        for d in c:
            if path == d or path.startswith(d + "/") or d.startswith(path + "/"):
                return
        touched.append((t.name, t.op, path))
    w.watchers.append(watcher)

    def env_of(s):
        if s == "unset":
            return None
        return m.cfg_path("nofile.yaml") if s == "missing" else m.cfg_path("adir") if s == "dir" else m.cfg_path("c%d.yaml" % s)

    def expectation(op, c):
        """(must succeed / must fail / may fail, requests, releases allowed)"""
        o = op["op"]
        if c is None:
            return "fail", [], None
        if o in ("getcfg", "getfile"):
            return "ok", [], None
        dl = bool(c["dl"])
        if o in ("rsr", "calc", "chkrsr", "dlrsr"):
            rel, cur = model.rsr_now(c["rsr"], op["plat"])
            if o == "dlrsr" or (dl and not cur):
                return "ok", [K.rsr_url], "cur"
            if o == "chkrsr":
                return "ok", [], None
            return ("ok" if rel else "fail"), [], rel
        rel, cur = model.lut_now(model.path(c, "ray"), op["aero"], op["atm"])
        if o == "dlluts" or (o == "chkluts" and not cur) or (dl and not cur):
            return "ok", [K.lut_url[op["aero"]]], "cur"
        return "ok", [], rel

    def judge(op, c, r, reqs, exp, what, hit):
        """Check one finished call against the expectation taken before it."""
        must, urls, rel = exp
        o = op["op"]
        if touched:
            w.violate("foreign-directory", "%s touched %s, which its configuration does not name" % (what, w.rel(touched[0][2])))
            return False
        if r.ok and must == "fail":
            w.violate("ignored-configuration", "%s succeeds although %s" % (
                what, "the configured file does not exist" if c is None else "the configured directory has no such data"))
            return False
        if not r.ok:
            if must == "fail":
                if [u for u in reqs if u not in urls]:
                    w.violate("unexpected-request", "%s fails but requested %s" % (what, reqs))
                    return False
                w.probe("refused")
                return True
            if model.no_table_dir(op, c):
                w.probe("refused")
                return True
            if not hit:
                w.violate("failed", "%s: %r" % (what, r))
                return False
            return None
        if sorted(reqs) != sorted(urls) and not hit:
            w.violate("wrong-requests", "%s requested %s instead of %s" % (what, reqs, urls))
            return False
        return check_value(op, c, r.value, rel, what)

    def check_value(op, c, v, rel, what):
        o = op["op"]
        if o in ("getcfg", "getfile"):
            want = {"rsr_dir": model.path(c, "rsr"), "rayleigh_dir": model.path(c, "ray")}
            for k, p in want.items():
                if os.path.normpath(str(v.get(k))) != p:
                    w.violate("wrong-configuration", "%s: %s is %s instead of %s" % (what, k, w.rel(v.get(k)), w.rel(p)))
                    return False
                with Bypass():
                    if not os.path.isdir(p):
                        w.violate("directory-missing", "%s: %s was not created" % (what, w.rel(p)))
                        return False
            if c["tb"] != "tmp" and v.get("tb2rad_dir") != model.tbdir(c["tb"]):
                w.violate("wrong-configuration", "%s: tb2rad_dir is %s" % (what, v.get("tb2rad_dir")))
                return False
            if bool(v.get("download_from_internet", False)) != bool(c["dl"]):
                w.violate("wrong-configuration", "%s: download_from_internet is %s" % (what, v.get("download_from_internet")))
                return False
            return True
        if o == "rsr":
            why = fx.compare_rsr(v.rsr, rel, op["plat"])
            if why:
                w.violate("wrong-data", "%s: not the responses of the configured directory: %s" % (what, why))
                return False
        elif o == "calc":
            if not tb.check_lut(w, v, rel, op["plat"], fx.NIR_BAND[op["plat"]], "det-1", what):
                return False
            d = model.table_dir(c, op["plat"])
            with Bypass():
                here = [n for n in (os.listdir(d) if os.path.isdir(d) else []) if n.endswith(".npz") and not n.startswith(".")]
            if not here:
                w.violate("table-misplaced", "%s: no radiance table in the configured %s" % (what, w.rel(d)))
                return False
            if d != w.tmpdir:
                with Bypass():
                    stray = [n for n in os.listdir(w.tmpdir) if n.endswith(".npz") and n not in known_tmp]
                if stray and model.tbdir(c["tb"]) != w.tmpdir:
                    w.violate("table-misplaced", "%s: radiance table %s in the temporary directory" % (what, stray[0]))
                    return False
            with Bypass():
                known_tmp.update(os.listdir(w.tmpdir))
        elif o in ("dlrsr", "chkrsr"):
            if rel == "cur" and model.rsr_now(c["rsr"], op["plat"]) != ("cur", True):
                w.violate("wrong-destination", "%s: the configured directory %s was not updated" % (what, w.rel(model.path(c, "rsr"))))
                return False
        elif o in ("dlluts", "chkluts", "ray"):
            if rel == "cur" and model.lut_now(model.path(c, "ray"), op["aero"], op["atm"])[0] != "cur":
                w.violate("wrong-destination", "%s: the configured directory %s was not updated" % (what, w.rel(model.path(c, "ray"))))
                return False
        return True
    known_tmp = set()
    live = []

    def on_use(t, op, faults, suffix=""):
        kind, obj, c0, value = live[op["k"] % len(live)]
        s = sel[t.proc]
        c = model.get(s)
        what = "using a live %s object after %s" % (kind["op"], "configuration %s" % s)
        if kind["op"] == "ray":
            # the table file stays that of the object; a band name is looked up now
            where = model.path(c0, "ray")
            rel, _ = model.lut_now(where, kind["aero"], kind["atm"])
            rsrrel = "cur"
            may_fail = rel is None
            if kind["band"] == "vis":
                if c is None:
                    may_fail = True
                else:
                    rsrrel, cur = model.rsr_now(c["rsr"], kind["plat"])
                    if c["dl"] and not cur:
                        rsrrel = "cur"
                    may_fail = may_fail or rsrrel is None
        else:
            may_fail = False
        t.scope = model.allowed(c) + model.allowed(c0)
        before = sum(w.fault_counts.values())
        r = attempt(t, {"u": op["u"] + suffix, "f": faults}, lambda: use(kind, obj))
        t.scope = None
        hit = sum(w.fault_counts.values()) > before
        if touched:
            w.violate("foreign-directory", "%s touched %s" % (what, w.rel(touched[0][2])))
            return False
        if not r.ok:
            if may_fail:
                return True
            if hit:
                return None
            w.violate("failed", "%s: %r" % (what, r))
            return False
        if kind["op"] == "ray":
            if may_fail:
                w.violate("moved-object", "%s: gives a result although its own table file%s is gone" % (what, " or response" if kind["band"] == "vis" else ""))
                return False
            e = ls.expected({"g": kind["g"], "band": fx.VIS_BAND[kind["plat"]] if kind["band"] == "vis" else kind["band"], "plat": kind["plat"],
                             "type": kind["aero"], "atm": kind["atm"], "red": True}, rel, rsrrel)
            if not np.allclose(r.value, e, rtol=1e-5, atol=1e-6):
                w.violate("moved-object", "%s: the correction is not that of the table the object was made for" % what)
                return False
        elif kind["op"] == "rsr":
            why = fx.compare_rsr(r.value, value, kind["plat"])
            if why:
                w.violate("moved-object", "%s: %s" % (what, why))
                return False
        elif value is not None and not np.allclose(r.value, value, equal_nan=True):
            w.violate("moved-object", "%s: different reflectances" % what)
            return False
        return True

    def use_live(t, mine, op):
        saved = live[:]
        live[:] = [x[:4] for x in mine]
        try:
            ok = on_use(t, op, op.get("f"))
            if ok is None:
                ok = on_use(t, op, False, "r")
                if ok is None:
                    w.violate("failed", "using a live object keeps failing after the fault is gone")
        finally:
            live[:] = saved

    def handler(t, op):
        o = op["op"]
        if t.proc not in sel:
            sel[t.proc] = state["sel"]
            apply_env(t, state["sel"])
        if o == "switch":
            state["sel"] = sel[t.proc] = op["to"]
            apply_env(t, op["to"])
            w.probe("nontrivial")
            return
        if o == "edit":
            c = model.cfgs[op["cfg"]]
            if op["what"] == "gone":
                with Bypass():
                    if op["cfg"] not in model.gone:
                        real["unlink"](m.cfg_path("c%d.yaml" % op["cfg"]))
                model.gone.add(op["cfg"])
            else:
                for k, v in op["new"].items():
                    if op["what"] in ("all", k):
                        c[k] = v
                if op["what"] == "all" and "names" not in op["new"]:
                    c.pop("names", None)
                model.write(op["cfg"])
            w.probe("nontrivial")
            return
        if o == "rm":
            remove(op["area"], op["what"])
            return
        if o == "use":
            mine = [x for x in live if x[4] is t.proc]
            if mine:
                use_live(t, mine, op)
            return
        s = sel[t.proc]
        c = model.get(op["cfg"]) if o == "getfile" else model.get(s)
        for suffix, faults in (("", op.get("f")), ("r", False)):
            exp = expectation(op, c)
            n0, before = len(w.requests), sum(w.fault_counts.values())
            t.scope = model.allowed(c)
            r = attempt(t, {"u": op["u"] + suffix, "f": faults}, make(op, m, model))
            t.scope = None
            hit = sum(w.fault_counts.values()) > before
            what = "%s(%s) under configuration %s" % (o, op.get("aero") if o in ("ray", "dlluts", "chkluts") else op["plat"], s if o != "getfile" else "file %d" % op["cfg"])
            ok = judge(op, c, r, [x[3] for x in w.requests[n0:]], exp, what, hit)
            if ok is False:
                return
            if ok:
                break
        else:
            w.violate("failed", "%s keeps failing after the fault is gone: %r" % (what, r))
            return
        if r.ok and o in ("rsr", "ray", "calc"):
            value = exp[2] if o == "rsr" else None
            if o == "calc":
                t.scope = []
                v = attempt(t, {"u": op["u"] + "v"}, lambda: use(op, r.value))
                t.scope = None
                value = v.value
            live.append((op, r.value, dict(c), value, t.proc))
            if o == "ray" and op.get("now"):
                use_live(t, [live[-1]], {"u": op["u"] + "n", "k": 0, "f": False})

    def remove(area, what):
        import shutil
        with Bypass():
            for comp in ("rsr", "ray"):
                if what in (comp, "both"):
                    p = model.area(area, comp)
                    if os.path.isdir(p):
                        shutil.rmtree(p)
                        w.note("removed %s" % w.rel(p))
                        w.probe("nontrivial")
            if area != "user":
                os.makedirs(model.tbdir(area), exist_ok=True)

    def apply_env(t, s):
        e = env_of(s)
        if e is None:
            os.environ.pop("PSP_CONFIG_FILE", None)
        else:
            os.environ["PSP_CONFIG_FILE"] = e
    state = {"sel": wl["start"]}
    m.history(wl["ops"], handler)
    if w.violations or not wl["tasks"]:
        return
    # ---- several processes at once
    for a in wl.get("rm", []):
        remove(a, "both")
    start = {}
    for d in list(range(NDIR)) + ["user"]:
        for p in PLATS:
            start[d, p] = model.rsr_now(d, p)
    cfg_of = [model.get(x["cfg"]) for x in wl["tasks"]]
    del touched[:]
    hits = {}
    decide = w.decider.fault

    def fault(key, kind, path, options):
        f = decide(key, kind, path, options)
        if f is not None:
            hits[key[0]] = hits.get(key[0], 0) + 1
        return f
    w.decider.fault = fault

    def writers(d, comp):
        out = False
        for x, c in zip(wl["tasks"], cfg_of):
            if c is None or c[comp] != d:
                continue
            for op in x["ops"]:
                if c["dl"] or op["op"] in ("dlrsr", "dlluts", "chkluts"):
                    out = True
        return out

    def body(i, x):
        c = cfg_of[i]

        def run(t):
            for op in x["ops"]:
                if op["op"] == "getfile":
                    continue
                o = op["op"]
                t.scope = model.allowed(c)
                before = hits.get(t.name, 0)
                r = attempt(t, op, make(op, m, model))
                t.scope = None
                hit = hits.get(t.name, 0) > before
                what = "%s(%s) in process %s" % (o, op["plat"], t.name)
                if touched:
                    w.violate("foreign-directory", "%s: %s touched %s" % (what, touched[0][0], w.rel(touched[0][2])))
                    return
                if c is None:
                    if r.ok:
                        w.violate("ignored-configuration", "%s succeeds although the configured file does not exist" % what)
                        return
                    continue
                need = o in ("rsr", "calc")
                rels = set()
                if need:
                    rel, cur = start[c["rsr"], op["plat"]]
                    rels = {rel} if not (c["dl"] and not cur) else set()
                    if writers(c["rsr"], "rsr"):
                        rels.add("cur")
                if not r.ok:
                    if hit or (need and None in rels) or model.no_table_dir(op, c):
                        continue
                    w.violate("failed", "%s: %r" % (what, r))
                    return
                if need:
                    good = False
                    for rel in rels:
                        if rel is None:
                            continue
                        if o == "rsr":
                            good = good or fx.compare_rsr(r.value.rsr, rel, op["plat"]) is None
                        else:
                            rad = tb.ref_table(rel, op["plat"], fx.NIR_BAND[op["plat"]], "det-1")[1]
                            got = np.asarray(r.value.lut["radiance"], dtype=np.float64)
                            good = good or (got.shape == rad.shape and np.allclose(got, rad, rtol=3e-5))
                    if not good:
                        w.violate("wrong-data", "%s: not the data of the configured directory" % what)
                        return
                elif o == "getcfg" and not check_value(op, c, r.value, None, what):
                    return
                w.probe("concurrent")
        return run
    specs = []
    for i, x in enumerate(wl["tasks"]):
        p = Proc(w, "Q%d" % i)
        e = env_of(x["cfg"])
        if e is None:
            p.env.pop(b"PSP_CONFIG_FILE", None)
        else:
            p.env[b"PSP_CONFIG_FILE"] = os.fsencode(e)
        specs.append((p, "Q%d" % i, body(i, x)))
    w.run(specs)
