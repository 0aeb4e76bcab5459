"""C04: downloads happen exactly when they are needed and allowed."""
import os

from .. import fixtures as fx
from .. import lutstore as ls
from .. import rsrstore as rs
from ..common import K, Machine, attempt, gen_knobs, gen_policy
from ..engine import Bypass

ID = "C04"
RUNS = {"quick": 5000, "thorough": 120000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["one process at a time", "HTTP requests are counted at requests' transport adapter"]
RULE = ("the run picks initial response and table stores and a history of 3-9 constructions, checks, explicit downloads, scripts, dry runs, "
        "download switches, version-marker edits and store removals, with up to 3 faults; after each operation the requests sent and the "
        "bytes of the data directories are compared with a model that knows only the version markers, the switch and the operation.")


def setup():
    rs.build()
    ls.build()


MARKERS = ["%s", "%s\n", "%s\r\n", "  %s\n", "%s\nbuilt 2024\n", "", "\n", "v1.0.0\n", "%s0\n", "%s.1\n", "%s-rc1\n", "x%s\n", "%.4s\n",
           "v99.0.0\n", "# comment\n%s\n"]


def marker_text(fmt, version):
    return (fmt % version) if "%" in fmt else fmt


def gen(rng):
    every = rng.random() < 0.08
    types = ls.gen_types(rng, len(K.aerosols) if every else rng.choice([1, 2, 2, 3]))
    names = list(types)
    wl = {"knobs": gen_knobs(rng), "store": rs.gen_store(rng), "types": types, "download": rng.random() < 0.75}
    wl["store"]["big"] = False
    wl["policy"] = gen_policy(rng, 500, p_none=0.45, kinds=["errno", "net", "net", "crash", "kbd", "torn", "short"],
                              paths=rs.PATHS + ls.PATHS)
    wl["absent_key"] = rng.random() < 0.1
    ops = []
    for i in range(rng.randrange(3, 9)):
        u = "o%d" % len(ops)
        k = rng.choice(["request"] * 4 + ["request_file", "download", "check", "check", "script", "restart", "switch", "switch", "marker",
                                          "marker", "wipe", "rayleigh", "rayleigh", "rayleigh", "luts", "lutcheck", "lutcheck", "lutscript",
                                          "conv", "calc", "lutmarker", "lutmarker", "keep", "updates", "republish"])
        op = {"u": u, "op": k, "f": rng.random() < 0.6}
        if k == "request":
            op["plat"] = rng.choice(rs.PLATS)
        elif k == "request_file":
            op["path"] = "outside/rsr_file.h5"
        elif k in ("download", "check", "script"):
            if rng.random() < 0.3:
                op["dry"] = True
            if rng.random() < 0.25:
                op["dest"] = "outside/dest"
        elif k == "switch":
            op["to"] = rng.random() < 0.5
        elif k == "marker":
            op["fmt"] = rng.choice(MARKERS)
        elif k == "lutmarker":
            op["fmt"] = rng.choice(MARKERS)
            op["type"] = rng.choice(names)
        elif k == "wipe":
            op["what"] = rng.choice(["rsr"] + names)
        elif k == "rayleigh":
            op.update(ls.gen_rayleigh(rng, u, rng.choice(names)))
            op["noreq"] = rng.random() < 0.4
        elif k in ("luts", "lutcheck", "lutscript"):
            op["types"] = rng.sample(names, rng.randrange(1, len(names) + 1))
            op["as"] = rng.choice(["list", "list", "tuple"])
            if every and rng.random() < 0.5:
                op.update(all=True, types=list(K.aerosols))
            elif k == "luts" and len(op["types"]) == 1 and rng.random() < 0.3:
                op["deprecated"] = True
            if rng.random() < 0.25:
                op["dry"] = True
        elif k in ("conv", "calc"):
            op["plat"] = rng.choice(rs.PLATS)
        elif k == "keep":
            op["plat"] = rng.choice(rs.PLATS)
        elif k == "updates":
            op["dry"] = rng.random() < 0.5
        ops.append(op)
    wl["ops"] = ops
    return wl


def execute(w, wl):
    m = Machine(w, wl)
    m.put(m.root + "/outside/rsr_file.h5", fx.rsr_file("old", "GOES-16"))
    with Bypass():
        os.makedirs(m.root + "/outside/dest")
    state = {"on": wl["download"], "absent": wl.get("absent_key")}

    def config():
        m.download = state["on"]
        cfg = {"rsr_dir": m.rsr_dir, "rayleigh_dir": m.ray_dir, "tb2rad_dir": m.tb_dir, "download_from_internet": m.download}
        if state["absent"] and not m.download:
            del cfg["download_from_internet"]       # documented default: no download
        from ..common import yaml_dump
        m.put(m.cfg_path(), yaml_dump(cfg).encode())
    config()
    rstore = rs.init_store(m, wl)
    lstores = ls.init_types(m, wl["types"])
    dirs = [m.root + "/data", m.root + "/outside"]
    kept = []
    blind = []                  # markers whose look-up failed: os.path.exists, by contract, then says no
    decide = w.decider.fault

    def fault(key, kind, path, options):
        f = decide(key, kind, path, options)
        if f is not None and kind == "stat" and path is not None and "PYSPECTRAL_" in os.path.basename(path):
            blind.append(path)
        return f
    w.decider.fault = fault

    def model(op):
        """(urls that must be requested, needs-current afterwards)"""
        o = op["op"]
        need_rsr = not rstore.is_current()
        on = state["on"]
        rsr = [K.rsr_url] if need_rsr and on else []
        if o in ("request", "conv", "calc", "keep"):
            return rsr
        if o == "request_file":
            return []
        if op.get("dry"):
            return []
        if o == "download":
            return [K.rsr_url]
        if o in ("check", "script"):
            return rsr
        if o == "updates":
            obj = kept[-1]
            return [K.rsr_url] if need_rsr and obj[1] else []
        if o == "rayleigh":
            out = [] if lstores[op["type"]].is_current() or not on else [K.lut_url[op["type"]]]
            if not op["noreq"] and isinstance(op["band"], str):
                out += rsr
            return out
        if o == "luts":
            return [K.lut_url[a] for a in op["types"]]
        if o in ("lutcheck", "lutscript"):
            return [K.lut_url[a] for a in op["types"] if not lstores[a].is_current()]
        raise ValueError(o)

    def fn_of(op):
        o = op["op"]
        if o == "conv":
            def fn():
                from pyspectral.radiance_tb_conversion import RadTbConverter
                return RadTbConverter(op["plat"], fx.SAT[op["plat"]][1], fx.NIR_BAND[op["plat"]])
        elif o == "calc":
            def fn():
                from pyspectral.near_infrared_reflectance import Calculator
                return Calculator(op["plat"], fx.SAT[op["plat"]][1], fx.NIR_BAND[op["plat"]], solar_flux=2.0)
        elif o == "keep":
            def fn():
                from pyspectral.rsr_reader import RelativeSpectralResponse
                return RelativeSpectralResponse(op["plat"], fx.SAT[op["plat"]][1])
        elif o == "updates":
            def fn():
                return kept[-1][0].download_rsr_updates(dry_run=bool(op.get("dry")))
        elif o in ("rayleigh", "luts", "lutcheck", "lutscript"):
            return ls.call(op, m)
        else:
            return rs.call(op, m)
        return fn

    def handler(t, op):
        o = op["op"]
        if o == "switch":
            state["on"] = op["to"]
            config()
            return
        if o == "marker":
            m.put(os.path.join(m.rsr_dir, K.rsr_marker), marker_text(op["fmt"], K.rsr_version).encode())
            return
        if o == "lutmarker":
            m.put(os.path.join(m.ray_dir, op["type"], K.lut_marker[op["type"]]),
                  marker_text(op["fmt"], K.lut_version[op["type"]]).encode())
            return
        if o == "wipe":
            from ..common import seams, shutil
            with Bypass():
                shutil.rmtree(m.rsr_dir if op["what"] == "rsr" else os.path.join(m.ray_dir, op["what"]), ignore_errors=True)
            assert seams
            return
        if o == "republish":
            return
        if o == "updates" and not kept:
            return
        expect = model(op)
        was_current = rstore.is_current()
        before = None if expect else m.snapshot(*dirs)
        had = len(w.requests)
        nf = sum(w.fault_counts.values())
        del blind[:]
        r = attempt(t, op, fn_of(op))
        if blind:
            w.probe("marker_not_found")
            before = None
        faulted = sum(w.fault_counts.values()) > nf
        urls = [q[3] for q in w.requests[had:]]
        methods = {q[2] for q in w.requests[had:]}
        w.probe("nontrivial")
        w.probe("expect_none" if not expect else "expect_%d" % min(len(expect), 3))
        what = "%s %s" % (o, {k: v for k, v in op.items() if k not in ("u", "op", "f", "g")})
        if methods - {"GET"}:
            w.violate("method", "%s sent %s" % (what, methods))
        extra = [u for u in urls if u not in expect] if not blind else []
        if extra:
            w.violate("unneeded-request", "%s asked for %s (download %s, expected %s)" % (
                what, extra[0], "on" if state["on"] else "off", expect or "no request"))
        elif not faulted and r.ok and sorted(urls) != sorted(expect):
            w.violate("request-count", "%s sent %s instead of %s" % (what, urls, expect))
        elif not faulted and not set(expect) <= set(urls):
            w.violate("missing-request", "%s failed without asking for %s: %r" % (what, expect, r))
        elif len(urls) > len(expect) and not blind:
            w.violate("request-count", "%s sent %s instead of %s" % (what, urls, expect))
        if before is not None:
            after = m.snapshot(*dirs)
            changed = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
            changed = [k for k in changed if not (after.get(k) == ("dir",) and k in ("data/rsr", "data/ray"))
                       and not k.startswith("data/tb2rad")]
            if changed:
                w.violate("files-touched", "%s needs no download but changed %s" % (what, sorted(changed)[0]))
        if r.ok:
            if o == "keep":
                kept.append((r.value, state["on"]))
            if K.rsr_url in urls and not op.get("dest") and not rstore.is_current():
                w.violate("not-current", "%s downloaded the responses successfully but the store is not current" % what)
            for a, s in lstores.items():
                if K.lut_url[a] in urls and not s.is_current():
                    w.violate("not-current", "%s downloaded %s successfully but it is not current" % (what, a))
            if o == "updates" and bool(r.value) != (not was_current):
                w.violate("wrong-answer", "download_rsr_updates returned %r although the store was %s" % (
                    r.value, "current" if was_current else "outdated"))

    def crashed(op):
        kept.clear()
    handler.crashed = crashed
    ops = []
    for op in wl["ops"]:
        ops.append(op)
    # objects do not survive a restart
    inner = handler

    def wrapped(t, op):
        if kept and kept[-1][0].__class__.__module__ and state.get("proc") is not t.proc:
            kept.clear()
        state["proc"] = t.proc
        inner(t, op)
    wrapped.crashed = crashed
    m.history(ops, wrapped)
