"""C13: converted spectral-response files are all-or-nothing and read back as given."""
import functools
import io
import os

import h5py
import numpy as np

from .. import rsrstore as rs
from ..common import K, Machine, attempt, gen_knobs, gen_policy, yaml_dump
from ..engine import Bypass
from ..seams import real

ID = "C13"
RUNS = {"quick": 4000, "thorough": 100000}
REAL = rs.REAL + ["rsr_convert_scripts/mersi2_rsr.py (the agency reader class)"]
STUB = rs.STUB
ASSUME = ["failed HDF5 writes are lost writes reported when the file is closed, or kill the process (see DESIGN.md)",
          "all detectors of a band share their wavelengths, as the converter documents", "process kill, no power loss"]
NOTE = ("Seeded search over raw inputs and over crash, interrupt, I/O-error and disk-full points of conversions, with concurrent readers and converters; the final file "
        "is compared after every file operation with the previous and the new contents, and loaded files with the numbers given.")
RULE = ("one to three instruments (single- and multi-detector, wavelengths in um or nm, missing values), previous file present or not; a history of 1-3 conversions of "
        "changing raw data with up to 3 faults, loads by name and by file name after each, then optionally 2-4 processes converting and loading at the same time with kills.")
INSTR = {  # name: (platform, instrument, bands, detectors)
    "mersi": ("FY-3D", "mersi-2", ["ch1", "ch5", "ch20"], None),
    "avhrr": ("NOAA-19", "avhrr/3", ["ch1", "ch3b"], None),
    "viirs": ("Suomi-NPP", "viirs", ["M5", "M12"], ["det-1", "det-2", "det-3"]),
    "modis": ("EOS-Aqua", "modis", ["1", "20"], ["det-%d" % i for i in range(1, 11)]),
    "abi": ("GOES-16", "abi", ["ch1"], ["det-1"]),
    "seviri": ("Meteosat-11", "seviri", ["VIS0.8", "IR10.8", "IR3.9", "HRV"], None),
    "fci": ("MTG-I1", "fci", ["vis_04", "ir_38", "ir_105"], ["det-1", "det-2"]),
}


def setup():
    rs.build()
    p = os.path.join(K.repo, "rsr_convert_scripts", "mersi2_rsr.py")
    with open(p) as f:
        SCRIPT.append(compile(f.read(), p, "exec", dont_inherit=True))


SCRIPT = []


@functools.lru_cache(None)
def raw(name, ver, band, det, n, nans, unit):
    """(wavelength as in the raw file, response) of one detector."""
    k = sum(map(ord, name + band)) % 17
    r = np.random.RandomState(1000 * ver + 10 * k + (det if det else 0))
    w = np.sort(np.random.RandomState(77 * ver + k).uniform(3.0 + 0.1 * k, 4.0 + 0.1 * k, n))
    w = w + np.arange(n) * 1e-3
    y = np.round(r.uniform(0, 1, n), 6)
    w = np.round(w * (1000. if unit == "nm" else 1.), 6)
    if nans:
        w[-nans:] = np.nan
        y[-nans:] = np.nan if ver % 2 else 0.0
    return w, y


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "download": False}
    wl["instr"] = rng.choice(sorted(INSTR))
    wl["init"] = rng.choice(["none", "prev", "prev", "leftover", "prevleft"])
    wl["n"] = rng.choice([2, 5, 40, 40, 700])
    wl["unit"] = "nm" if wl["instr"] == "mersi" else rng.choice(["um", "nm"])
    wl["nans"] = 0 if wl["instr"] == "mersi" else rng.choice([0, 0, 0, 1, 3]) if wl["n"] > 10 else 0
    wl["policy"] = gen_policy(rng, 120, p_none=0.1, sched="any",
                              focus_kinds=[["replace"], ["h5.write"], ["h5.write"], ["open_w"], ["mkdir"], ["h5"], ["unlink"], ["close_w"], ["open_r", "read"],
                                           ["h5.write", "h5", "open_w", "replace"]])
    wl["disk"] = rng.choice([None, None, None, rng.randrange(1, 12000)])
    ops = []
    for i in range(rng.randrange(1, 4)):
        if i and rng.random() < 0.3:
            ops.append({"u": "o%dr" % i, "op": "restart"})
        ops.append({"u": "o%d" % i, "op": "convert", "ver": i + 1, "f": rng.random() < 0.9, "bands": rng.random() < 0.2})
    wl["ops"] = ops
    wl["tasks"] = []
    if rng.random() < 0.5:
        for i in range(rng.randrange(2, 5)):
            t = {"ops": []}
            for j in range(rng.randrange(1, 3)):
                conv = rng.random() < (0.9 if i == 0 else 0.25)
                t["ops"].append({"u": "t%d.%d" % (i, j), "op": "convert" if conv else rng.choice(["load", "loadfile"]),
                                 "ver": rng.choice([5, 6]), "f": rng.random() < 0.5, "bands": False})
            wl["tasks"].append(t)
    return wl


class Expect:
    def __init__(self, wl):
        self.wl = wl
        self.plat, self.instr, self.bands, self.dets = INSTR[wl["instr"]]
        self.scale = 1e-9 if wl["unit"] == "nm" and wl["instr"] != "mersi" else 1e-6

    def names(self, less):
        return self.bands[:1] if less else self.bands

    def given(self, ver, less=False):
        """band -> detector -> (wavelength um, response, central wavelength um as stored)"""
        wl = self.wl
        out = {}
        for b in self.names(less):
            out[b] = {}
            for i in range(len(self.dets or [1])):
                w, y = raw(wl["instr"], ver, b, i, wl["n"], wl["nans"], wl["unit"])
                if wl["instr"] == "mersi":
                    w = w * 0.001
                ok = ~np.isnan(w)
                num, den = _trapz(y[ok] * w[ok], w[ok]), _trapz(y[ok], w[ok])
                out[b]["det-%d" % (i + 1)] = (w * self.scale * 1e6, y, num / den)
        return out


def _trapz(y, x):
    return float(np.sum((y[1:] + y[:-1]) * 0.5 * np.diff(x)))


def differs(rsr, exp):
    """None if the mapping band -> detector -> dict holds what was given."""
    if list(rsr.keys()) != list(exp):
        return "bands %s instead of %s" % (list(rsr.keys()), list(exp))
    for b, dets in exp.items():
        if sorted(rsr[b].keys()) != sorted(dets):
            return "band %s has detectors %s instead of %s" % (b, sorted(rsr[b].keys()), sorted(dets))
        for d, (w, y, cw) in dets.items():
            got = rsr[b][d]
            for k, v in (("wavelength", w), ("response", y)):
                a = np.asarray(got.get(k), dtype=np.float64)
                if a.shape != v.shape:
                    return "%s of band %s %s has shape %s instead of %s" % (k, b, d, a.shape, v.shape)
                if not np.allclose(a, v, rtol=1e-6, atol=1e-9, equal_nan=True):
                    return "%s of band %s %s differs from the one given" % (k, b, d)
            if not np.isclose(float(got["central_wavelength"]), cw, rtol=1e-6):
                return "central wavelength of band %s %s is %r instead of %r" % (b, d, got["central_wavelength"], cw)
    return None


def parse(data):
    """Independent reader of the internal format."""
    out = {}
    with real["h5py.File"](io.BytesIO(data), "r") as h:
        for b in h.attrs["band_names"]:
            b = b.decode() if isinstance(b, bytes) else b
            g = h[b]
            n = int(g.attrs.get("number_of_detectors", 0))
            out[b] = {}
            for i in range(max(1, n)):
                d = "det-%d" % (i + 1)
                dg = g[d] if n and d in g else g
                wg = dg["wavelength"] if "wavelength" in dg else g["wavelength"]
                out[b][d] = {"response": dg["response"][:], "wavelength": wg[:] * wg.attrs["scale"] * 1e6,
                             "central_wavelength": dg.attrs.get("central_wavelength", g.attrs.get("central_wavelength"))}
    return out


def execute(w, wl):
    m = Machine(w, wl)
    ex = Expect(wl)
    rawdir = os.path.join(m.root, "outside", "raw")
    key = "%s-%s" % (ex.plat, ex.instr)
    cfg = {"rsr_dir": m.rsr_dir, "rayleigh_dir": m.ray_dir, "tb2rad_dir": m.tb_dir, "download_from_internet": False,
           key: {"path": rawdir, "filename": "all.txt"}}
    for b in (["ch%d" % i for i in range(1, 26)] if wl["instr"] == "mersi" else ex.bands):
        cfg[key][b] = "%s.txt" % b
    m.put(m.cfg_path(), yaml_dump(cfg).encode())
    with Bypass():
        os.makedirs(m.rsr_dir)
    final = os.path.join(m.rsr_dir, "rsr_%s_%s.h5" % (ex.instr.replace("/", "").replace("-", ""), ex.plat))
    other = os.path.join(m.rsr_dir, "rsr_other_Sat-1.h5")
    m.put(other, b"another file")

    def put_raw(ver, less=False):
        for b in ex.bands:
            cols = [raw(wl["instr"], ver, b, i, wl["n"], wl["nans"], wl["unit"]) for i in range(len(ex.dets or [1]))]
            a = np.array([cols[0][0]] + [c[1] for c in cols]).T
            m.put(os.path.join(rawdir, b + ".txt"), ("\n".join(" ".join("%.9g" % v for v in row) for row in a) + "\n").encode())

    def converter(op):
        def fn():
            from pyspectral.raw_reader import InstrumentRSR
            from pyspectral.utils import convert2hdf5
            if wl["instr"] == "mersi":
                ns = {"__name__": "mersi2_rsr"}
                exec(SCRIPT[0], ns)
                cls = ns["Mersi2RSR"]
            else:
                class cls(InstrumentRSR):
                    def __init__(self, bandname, platform_name):
                        super().__init__(bandname, platform_name, ex.bands)
                        self.instrument = ex.instr
                        self._get_options_from_config()
                        self._get_bandfilenames()
                        a = np.genfromtxt(self.filenames[bandname])
                        if ex.dets is None:
                            self.rsr = {"wavelength": a[:, 0].copy(), "response": a[:, 1].copy()}
                        else:
                            self.rsr = {d: {"wavelength": a[:, 0].copy(), "response": a[:, i + 1].copy()} for i, d in enumerate(ex.dets)}
            kw = {"scale": ex.scale}
            if ex.dets is not None:
                kw["detectors"] = ex.dets
            return convert2hdf5(cls, ex.plat, ex.names(op.get("bands")), **kw)
        return fn

    def loader_(op):
        def fn():
            from pyspectral.rsr_reader import RelativeSpectralResponse
            if op["op"] == "loadfile":
                return RelativeSpectralResponse(filename=final)
            return RelativeSpectralResponse(ex.plat, ex.instr)
        return fn

    # ---- the state under the final name: (version, less) pairs that may be there; None = absent
    state = {"allowed": [None], "good": {}}

    def identify(data):
        """Which conversion produced these bytes (None: none)."""
        if data in state["good"]:
            return state["good"][data]
        try:
            got = parse(data)
        except Exception:
            return None
        for v in state["allowed"] + state.get("coming", []):
            if v is not None and differs(got, ex.given(*v)) is None:
                state["good"][data] = v
                return v
        return None

    def watch(path):
        if w.violations or not (path == final or final.startswith(path + "/")):
            return
        data = m.get(final)
        w.probe("invariant_checks")
        if data is None:
            if None not in state["allowed"]:
                w.violate("file-missing", "the previous file is gone and the new one not there yet")
            return
        v = identify(data)
        if v is None:
            w.violate("torn-file", "under the final name is neither the previous nor the complete new file (%d bytes)" % len(data))
        elif v not in state["allowed"]:
            if v in state.get("coming", []):
                state["allowed"] = [v]
            else:
                w.violate("torn-file", "under the final name is a file of version %s" % (v,))
        else:
            state["allowed"] = [v]
    w.watchers.append(watch)

    def check_file(what):
        if m.get(other) != b"another file":
            w.violate("foreign-file", "%s: another file of the directory was changed" % what)
            return
        watch(final)

    def check_load(t, u, what, must):
        for kind in ("loadfile", "load"):
            r = attempt(t, {"u": u + kind[-1]}, loader_({"op": kind}))
            if not r.ok:
                if must is None and m.get(final) is None:
                    continue
                w.violate("unreadable", "%s: the file does not load: %r" % (what, r))
                return
            why = None
            for v in (must or state["allowed"]):
                why = differs(r.value.rsr, ex.given(*v)) if v is not None else "absent"
                if why is None and list(r.value.band_names) == list(ex.given(*v)) and r.value.platform_name == ex.plat:
                    break
            else:
                w.violate("not-as-given", "%s: %s" % (what, why or "band names or platform differ"))
                return

    # ---- initial state: a file made by the library itself, without faults
    put_raw(0)
    if wl["init"] in ("prev", "prevleft"):
        state["coming"] = [(0, False)]

        def first(t):
            r = attempt(t, {"u": "init"}, converter({}))
            if not r.ok:
                w.violate("unreadable", "a conversion without faults fails: %r" % r)
                return
            check_load(t, "init", "after a conversion without faults", [(0, False)])
        w.run([(m.new_proc(), "I", first)])
        if w.violations:
            return
        state["allowed"], state["coming"] = [(0, False)], []
        m.proc = None
    if wl["init"] in ("leftover", "prevleft"):
        m.put(os.path.join(m.rsr_dir, ".pyspectral_write_zzz", os.path.basename(final)), b"half a fi")
        m.put(final + ".tmp", b"half a fi")

    def handler(t, op):
        if op["op"] != "convert":
            return
        put_raw(op["ver"])
        new = (op["ver"], bool(op.get("bands")))
        state["coming"] = [new]
        before = sum(w.fault_counts.values())
        w.disk_left = wl["disk"] if op.get("f") else None
        r = attempt(t, op, converter(op))
        w.disk_left = None
        hit = sum(w.fault_counts.values()) > before
        check_file("after a conversion")
        if w.violations:
            return
        if r.ok:
            if state["allowed"] != [new]:
                w.violate("not-written", "the conversion returned but the final file is not the new one")
                return
            check_load(t, op["u"] + "v", "after a conversion", [new])
        elif not hit:
            w.violate("failed", "conversion of %s fails without faults: %r" % (wl["instr"], r))
        else:
            w.probe("failed_conversions")
            check_load(t, op["u"] + "v", "after a failed conversion", None)
            if w.violations:
                return
            r = attempt(t, {"u": op["u"] + "again"}, converter(op))
            if not r.ok:
                w.violate("failed", "conversion keeps failing after the fault is gone: %r" % r)
                return
            check_load(t, op["u"] + "w", "after the repeated conversion", [new])

    def crashed(op):
        w.disk_left = None
        check_file("after a killed conversion")
        if not w.violations and op is not None and op["op"] == "convert":
            new = (op["ver"], bool(op.get("bands")))

            def again(t):
                check_load(t, op["u"] + "c", "after a killed conversion", None)
                if w.violations:
                    return
                r = attempt(t, {"u": op["u"] + "again"}, converter(op))
                if not r.ok:
                    w.violate("failed", "conversion after a killed one fails: %r" % r)
                    return
                check_load(t, op["u"] + "w", "after the repeated conversion", [new])
            w.run([(m.new_proc(), "R", again)], switching=False)
            m.proc = None
    handler.crashed = crashed
    m.history(wl["ops"], handler)
    if w.violations or not wl["tasks"]:
        return
    # ---- several processes at once
    vers = sorted({op["ver"] for x in wl["tasks"] for op in x["ops"] if op["op"] == "convert"})
    ver = vers[0] if vers else 0
    put_raw(ver)
    had = m.get(final) is not None
    state["allowed"] = state["allowed"] + [(ver, False)]
    state["coming"] = []
    # either may be there at any time, but once there, it may not vanish
    pool = list(state["allowed"])
    hits = {}
    decide = w.decider.fault

    def fault(key, kind, path, options):
        f = decide(key, kind, path, options)
        if f is not None:
            hits[key[0]] = hits.get(key[0], 0) + 1
        return f
    w.decider.fault = fault

    def watch2(path):
        if w.violations or not (path == final or final.startswith(path + "/")):
            return
        data = m.get(final)
        if data is None:
            if None not in pool:
                w.violate("file-missing", "the final file is gone while processes convert and read")
            return
        if None in pool:
            pool.remove(None)
        state["allowed"] = pool
        if identify(data) is None:
            w.violate("torn-file", "under the final name is neither the previous nor the complete new file (%d bytes)" % len(data))
    w.watchers[:] = [watch2]

    def body(x):
        def run(t):
            for op in x["ops"]:
                there = m.get(final) is not None
                before = hits.get(t.name, 0)
                r = attempt(t, op, converter(op) if op["op"] == "convert" else loader_(op))
                hit = hits.get(t.name, 0) > before
                what = "%s in process %s" % (op["op"], t.name)
                if not r.ok:
                    if hit or (op["op"] != "convert" and not there):
                        continue
                    w.violate("failed", "%s: %r" % (what, r))
                    return
                if op["op"] != "convert":
                    why = None
                    for v in [p for p in pool if p is not None]:
                        why = differs(r.value.rsr, ex.given(*v))
                        if why is None:
                            break
                    else:
                        w.violate("not-as-given", "%s: %s" % (what, why))
                        return
                w.probe("concurrent")
        return run
    from ..engine import Proc
    w.run([(Proc(w, "Q%d" % i), "Q%d" % i, body(x)) for i, x in enumerate(wl["tasks"])])
    _ = had
