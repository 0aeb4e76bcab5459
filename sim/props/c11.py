"""C11: a failing read surfaces as an error, never as altered results."""
import os
import random

import numpy as np

from .. import fixtures as fx
from .. import loader
from .. import lutstore as ls
from .. import rsrstore as rs
from .. import tables as tb
from ..common import K, Machine, attempt, gen_knobs, gen_policy
from ..engine import Bypass, Proc
from ..seams import real

ID = "C11"
RUNS = {"quick": 3000, "thorough": 120000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["only reads, opens, listings and attribute lookups fail here (C01-C03, C06, C13 fail the writes)",
          "HDF5 reports failed reads with the exception types of its standard driver (see DESIGN.md)",
          "truncation happens to a closed file or by replacing it (HDF5 reads zeros beyond the end of a file cut while open)",
          "text files (version markers, solar spectrum, YAML) cannot reveal a truncation and are only made unreadable or removed"]
NOTE = ("Seeded search over the position and kind of failing reads, vanishing and truncated files in every read path; each result is compared with the "
        "one of a fault-free process, and each call is repeated without faults.")
RULE = ("a history of 2-6 calls (load responses by name or file, Rayleigh/aerosol correction eager or lazy, radiance tables and 3.x reflectances, converters, "
        "solar flux, configuration) on new and on live objects, with up to 3 faults: EIO/ESTALE/EACCES/EMFILE, short reads, memory and "
        "interrupts at any open, read, stat or listing, and at any step removing or truncating one file; every call is then repeated with everything restored.")
SOLAR = os.path.join(loader.PKG, "data", "e490_00a.dat")
BUILTIN = os.path.join(loader.PKG, "etc", "pyspectral.yaml")
AERO = "rural_aerosol"


def setup():
    rs.build()
    ls.build()
    with open(SOLAR, "rb") as f:
        SOLAR_DATA.append(f.read())


SOLAR_DATA = []
CALLS = ["rsr", "rsr", "rsr", "rsr_file", "ray", "ray", "raylazy", "calc", "calc", "calcflux", "conv", "convwn", "solar", "solarfile", "cfg", "bw"]
USES = {"ray": "ray_use", "raylazy": "ray_compute", "calc": "calc_use", "rsr": "rsr_again"}


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "env": rng.choice(["set", "set", "unset"]), "download": rng.random() < 0.4,
          "store": rng.choice(["cur", "cur", "old"]), "cache": rng.choice(["keep", "keep", "wipe"]),
          "alike": rng.random() < 0.35, "plat": rng.choice(list(fx.SAT)), "g": rng.randrange(50), "det": rng.randrange(1, 4)}
    if wl["env"] == "unset":
        wl["store"] = "cur"                   # the built-in configuration downloads
    wl["reset"] = rng.random() < 0.25         # every call meets outdated stores and has to notice
    if wl["reset"]:
        wl.update(env="set", store="old", download=True)
    wl["policy"] = gen_policy(rng, 120, p_none=0.25, kinds=["errno", "short", "mem", "kbd", "errno"],
                              focus_kinds=[["read"], ["read"], ["read"], ["open_r"], ["stat"], ["listdir"]])
    if wl["policy"]["focus"] is None:
        wl["policy"]["focus"] = ["read", "open_r", "stat", "listdir"]
    wl["policy"]["horizon"] = rng.choice([3, 12, 40, 120])
    if rng.random() < (0.6 if wl["reset"] else 0.3):        # faults only on one of the files
        marks = [K.rsr_marker, K.lut_marker[AERO]]
        wl["policy"].update(focus=["read", "open_r"], horizon=rng.choice([3, 6, 12]),
                            focus_path=rng.choice(marks if wl["reset"] else marks + ["rsr_", "rayleigh_lut_", ".npz", ".yaml", "solar", ".dat"]))
    ops = []
    for i in range(rng.randrange(1, 5)):
        u = "o%d" % i
        op = {"u": u, "op": rng.choice(CALLS), "f": True, "obj": rng.choice([None, None, 0, 1, 2])}
        if rng.random() < 0.45:
            op["tamper"] = {"what": rng.choice(["rsr", "rsr", "lut", "tb", "marker", "lutmarker", "cfg", "solar"]),
                            "how": rng.choice(["gone", "gone", "cut", "cut", "empty", "dir"]), "frac": rng.randrange(1000),
                            "at": rng.choice([0, 0, 0, 1, 2, 4, 8, 16, 30, 60])}
        if wl["reset"]:
            op.pop("tamper", None)
            op["obj"] = None
            op["op"] = rng.choice(["rsr", "ray", "ray", "conv", "calc"])
        ops.append(op)
    wl["ops"] = ops
    return wl


def angles(g):
    return ls.angles(g)


def build(op, wl, m):
    """op -> (make object, use object)"""
    plat = wl["plat"]
    instr = fx.SAT[plat][1]
    o = op["op"]
    if o in ("rsr", "rsr_file"):
        def mk():
            from pyspectral.rsr_reader import RelativeSpectralResponse
            if o == "rsr_file":
                return RelativeSpectralResponse(filename=os.path.join(m.root, "outside", "some.h5"))
            return RelativeSpectralResponse(plat, instr)

        def use(r):
            return [r.platform_name, r.instrument, r.description, list(r.band_names), r.unit,
                    {b: {d: dict(v) for d, v in dv.items()} for b, dv in r.rsr.items()}]
    elif o in ("ray", "raylazy"):
        def mk():
            from pyspectral.rayleigh import Rayleigh
            return Rayleigh(plat, instr, aerosol_type=AERO, atmosphere="tropical")

        def use(r):
            import dask.array as da
            a = angles(wl["g"])
            if o == "raylazy":
                lazy = r.get_reflectance(*[da.from_array(x, chunks=(1, 2)) for x in a[:3]], fx.VIS_BAND[plat], da.from_array(a[3], chunks=(1, 2)))
                return [np.asarray(lazy.compute(scheduler="sync"))]
            return [np.asarray(r.get_reflectance(*a[:3], fx.VIS_BAND[plat], a[3]))]
    elif o in ("calc", "calcflux"):
        det = "det-%d" % (1 + (wl["det"] - 1) % tb.DETS[plat])

        def mk():
            return tb.make_calc({"plat": plat, "det": det, "flux": None if o == "calcflux" else 2.0})

        def use(c):
            sunz, t39, t11, _ = tb.tbs(wl["g"])
            return [np.asarray(c.reflectance_from_tbs(sunz, t39, t11)), np.asarray(c.emissive_part_3x()), float(c.solar_flux),
                    np.asarray(c.lut["tb"]), np.asarray(c.lut["radiance"])]
    elif o in ("conv", "convwn"):
        def mk():
            from pyspectral.radiance_tb_conversion import RadTbConverter
            return RadTbConverter(plat, instr, fx.SAT[plat][4][2][0], wavespace="wavenumber" if o == "convwn" else "wavelength")

        def use(c):
            return [np.asarray(c.tb2radiance(np.array([240., 290.]))["radiance"]), float(c.rsr_integral)]
    elif o in ("solar", "solarfile"):
        def mk():
            from pyspectral.solar import SolarIrradianceSpectrum
            return SolarIrradianceSpectrum() if o == "solar" else SolarIrradianceSpectrum(os.path.join(m.root, "outside", "solar.dat"))

        def use(s):
            wv = np.linspace(0.5, 0.7, 41)
            return [float(s.solar_constant()), float(s.inband_solarflux({"wavelength": wv, "response": np.hanning(41)}))]
    elif o == "bw":
        def mk():
            from pyspectral.rsr_reader import RelativeSpectralResponse
            return RelativeSpectralResponse(plat, instr)

        def use(r):
            b = fx.SAT[plat][4][2]
            return [r.get_bandname_from_wavelength(b[1], epsilon=0.4), dict(r.integral(b[0]))]
    else:
        def mk():
            return None

        def use(_):
            from pyspectral.config import get_config
            return sorted((k, str(v)) for k, v in get_config().items())
    return mk, use


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float, int, np.generic)) and isinstance(b, (np.ndarray, float, int, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=1e-7, atol=0, equal_nan=True)
    return type(a) is type(b) and a == b


def execute(w, wl):
    m = Machine(w, wl)
    env = {}
    if wl["env"] == "unset":
        m.rsr_dir = m.ray_dir = os.path.join(m.root, "home", ".local", "share", "pyspectral")
    m.install(m.rsr_dir, rs.release(wl["store"]))
    for a in (AERO,):
        m.install(os.path.join(m.ray_dir, a), ls.release(wl["store"], a))
        m.server.files[K.lut_url[a]] = fx.tarball(ls.release("cur", a))
    m.server.files[K.rsr_url] = fx.tarball(rs.release("cur"))
    m.put(m.root + "/outside/some.h5", fx.rsr_file("old", wl["plat"]))
    m.put(m.root + "/outside/solar.dat", SOLAR_DATA[0])
    if wl.get("alike"):                       # somebody's copies of other data under nearly the same name
        d, name = m.rsr_dir, fx.SAT[wl["plat"]][2]
        other = "old" if wl["store"] == "cur" else "near"
        m.put(os.path.join(d, name[:-3] + random.Random(wl["g"]).choice(["_old.h5", "0.h5", "A.h5"])), fx.rsr_file(other, wl["plat"]))
        m.put(os.path.join(m.ray_dir, AERO, "rayleigh_lut_tropical_old.h5"),
              ls.release("cur" if wl["store"] == "old" and not wl["download"] else "old", AERO)["rayleigh_lut_tropical.h5"])
    w.extra_read_paths = (SOLAR, BUILTIN)

    def proc(name):
        p = Proc(w, name, env)
        if wl["env"] == "unset":
            p.env.pop(b"PSP_CONFIG_FILE")
        return p
    # ---- the fault-free results
    expect = {}

    def oracle(t):
        for op in wl["ops"]:
            if op["op"] not in expect:
                mk, use = build(op, wl, m)
                expect[op["op"]] = attempt(t, {"u": "e-" + op["op"]}, lambda: use(mk()))
    w.run([(proc("E"), "E", oracle)])
    if wl["plat"] == "Meteosat-10" and wl["store"] == "old" and not wl.get("reset"):
        expect = {k: r for k, r in expect.items() if k[:4] != "calc"}     # that release's band is out of range
    for k, r in expect.items():
        if not r.ok:
            w.violate("fails-without-faults", "%s for %s fails without any fault: %r" % (k, wl["plat"], r))
            return
    if wl["cache"] == "wipe":
        for d in (m.tb_dir, w.tmpdir):
            with Bypass():
                for n in os.listdir(d):
                    if n.endswith(".npz"):
                        real["unlink"](os.path.join(d, n))
    plat = wl["plat"]

    def target(what):
        if what == "rsr":
            return [os.path.join(m.rsr_dir, fx.SAT[plat][2]), m.root + "/outside/some.h5"]
        if what == "lut":
            return [os.path.join(m.ray_dir, AERO, "rayleigh_lut_tropical.h5")]
        if what == "tb":
            with Bypass():
                return [os.path.join(d, n) for d in (m.tb_dir, w.tmpdir) for n in sorted(os.listdir(d)) if n.endswith(".npz")]
        if what == "marker":
            return [os.path.join(m.rsr_dir, K.rsr_marker)]
        if what == "lutmarker":
            return [os.path.join(m.ray_dir, AERO, K.lut_marker[AERO])]
        if what == "cfg":
            return [m.cfg_path()]
        return [m.root + "/outside/solar.dat"]
    saved, did = {}, []

    def tamper(tm):
        text = tm["what"] in ("marker", "lutmarker", "cfg", "solar")
        how = tm["how"]
        if text and how in ("cut", "empty"):
            how = "gone"
        for p in target(tm["what"]):
            data = m.get(p)
            if data is None:
                continue
            saved.setdefault(p, data)
            with Bypass():
                if how == "gone":
                    real["unlink"](p)
                elif how == "dir":
                    real["unlink"](p)
                    real["mkdir"](p)
                else:
                    m.put(p, b"" if how == "empty" else data[:max(1, len(data) * tm["frac"] // 1000)])
            did.append(p)
        if did:
            w.fault_counts["file:" + how] += 1
            w.note("tamper %s %s" % (tm["what"], how))

    def restore():
        for p, data in saved.items():
            with Bypass():
                if os.path.isdir(p):
                    real["rmdir"](p)
                if not os.path.exists(p) or m.get(p) != data:
                    m.put(p, data)
        saved.clear()
        del did[:]
    orig_step = w.step
    plan = {"tm": None}

    def step(t, kind, path=None, options=(), switch=True):
        tm = plan["tm"]
        if tm is not None and t.n + 1 >= tm["at"] and not t.h5depth:
            plan["tm"] = None
            tamper(tm)
        return orig_step(t, kind, path, options, switch)
    w.step = step
    live = {}
    kinds = []
    decide = w.decider.fault

    def fault(key, kind, path, options):
        f = decide(key, kind, path, options)
        if f is not None:
            kinds.append(kind)
        return f
    w.decider.fault = fault

    def body(t):
        for op in wl["ops"]:
            mk, use = build(op, wl, m)
            key = op["op"]
            if key not in expect:
                continue
            reuse = op.get("obj") is not None and key in live
            before = sum(w.fault_counts.values())
            tm = op.get("tamper")
            plan["tm"] = None
            if tm is not None:
                if tm["at"] == 0:
                    tamper(tm)
                else:
                    plan["tm"] = tm
            box = {}
            if wl.get("reset"):
                m.install(m.rsr_dir, rs.release("old"))
                m.install(os.path.join(m.ray_dir, AERO), ls.release("old", AERO))

            def run():
                obj = live[key] if reuse else mk()
                box["obj"] = obj
                return use(obj)

            def current():
                return (m.get(target("lutmarker")[0]) == ls.release("cur", AERO)[K.lut_marker[AERO]] if key[:3] == "ray"
                        else m.get(target("marker")[0]) == rs.release("cur")[K.rsr_marker] if key == "rsr" else False)
            cur = current()
            del kinds[:]
            r = attempt(t, op, run)
            plan["tm"] = None
            if r.ok and cur and tm is None and not reuse and set(kinds) <= {"open_r", "read"} and current():
                # the marker was there all the time: an error reading it may not pass for an outdated store
                r1 = attempt(t, {"u": op["u"] + "q"}, lambda: getattr(box["obj"], "lutfiles_version_uptodate" if key[:3] == "ray" else "rsr_data_version_uptodate"))
                if not r1.ok or not r1.value:
                    w.violate("altered-result", "%s: a current store is taken for an outdated one because its marker could not be read" % key)
                    return
            hit = sum(w.fault_counts.values()) > before
            what = "%s of %s%s" % (key, plat, " on a live object" if reuse else "")
            if r.ok:
                if not same(r.value, expect[key].value):
                    w.violate("altered-result", "%s returns something else than without faults (%s)" % (what, diff(r.value, expect[key].value)))
                    return
                w.probe("same_result_in_spite" if hit else "unhit")
            elif not hit:
                w.violate("fails-without-faults", "%s: %r" % (what, r))
                return
            else:
                w.probe("raised")
            restore()
            r2 = attempt(t, {"u": op["u"] + "r"}, lambda: use(mk()))
            if not r2.ok:
                w.violate("still-failing", "%s keeps failing after the fault is gone: %r" % (what, r2))
                return
            if not same(r2.value, expect[key].value):
                w.violate("altered-later", "%s after the fault is gone is altered (%s)" % (what, diff(r2.value, expect[key].value)))
                return
            if "obj" in box:                 # the object that was there during the fault must work, too
                obj = box["obj"]
                r3 = attempt(t, {"u": op["u"] + "s"}, lambda: use(obj))
                if not r3.ok:
                    w.violate("still-failing", "%s: the object keeps failing after the fault is gone: %r" % (what, r3))
                    return
                if not same(r3.value, expect[key].value):
                    w.violate("altered-later", "%s: the object gives altered results after the fault (%s)" % (what, diff(r3.value, expect[key].value)))
                    return
                live[key] = obj
    w.run([(proc("P"), "T", body)], switching=False)


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if not same(x, y):
            return "item %d: %.60r instead of %.60r" % (i, x, y)
    return "length"
