"""C09: concurrent threads do not disturb each other's results."""
import numpy as np

from .. import fixtures as fx
from .. import lutstore as ls
from .. import rsrstore as rs
from .. import tables as tb
from ..common import K, Machine, attempt, gen_knobs
from ..engine import Bypass

ID = "C09"
RUNS = {"quick": 3500, "thorough": 110000}
REAL, STUB = rs.REAL, rs.STUB + ["thread scheduling: one thread at a time, switched at source lines (or bytecode instructions) of pyspectral and at "
                                 "every intercepted operation"]
ASSUME = ["code inside numpy, scipy, h5py and dask runs without a switch except at their file operations",
          "the oracle is each operation executed alone in another simulated process"]
NOTE = ("Seeded search over line- and instruction-level interleavings of 2-4 threads sharing objects or using their own; each result is "
        "compared with the one obtained alone.")
RULE = ("2-4 threads of one process each perform 1-4 operations (solar flux and irradiance, integrals, band lookup, conversion to wavenumbers, "
        "radiance conversions with and without table, Rayleigh corrections, loading of responses and tables, calculators of their own, "
        "configuration and download checks, first use with missing data) on shared or own objects; the scheduler switches "
        "at random source lines or bytecode instructions and file operations.")
KINDS = ["flux", "flux", "irr", "constant", "integral", "lookup", "alias", "names", "wavenumber", "tb2rad", "tb2rad_lut", "rad2tb", "ray", "ray", "load", "load",
         "own_conv", "own_calc", "own_convert", "own_ray", "config", "check", "lutcheck", "planck", "own_seviri"]


def setup():
    rs.build()
    for p in fx.SAT:
        fx.rsr_file("cur", p)
    for a in K.aerosols[:2]:
        ls.release("cur", a)


def gen_op(rng, u, plats, kinds, luts):
    op = {"u": u, "kind": rng.choice(kinds), "plat": rng.choice(plats), "g": rng.randrange(4), "wn": rng.random() < 0.3, "f": False}
    op["band"] = rng.choice([b[0] for b in fx.SAT[op["plat"]][4]])
    op["type"], op["atm"] = rng.choice(luts)
    op["det"] = "det-%d" % rng.randrange(1, tb.DETS[op["plat"]] + 1)
    op["red"] = rng.random() < 0.5
    op["rayband"] = rng.choice(rng.choice([fx.VIS_BANDS[op["plat"]], fx.VIS_BANDS[op["plat"]], [op["band"]], [0.45, 0.6]]))
    return op


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "store": rng.choice(["current"] * 4 + ["missing", "old"]), "order": rng.randrange(20)}
    wl["download"] = wl["store"] != "current" or rng.random() < 0.5
    wl["policy"] = {"kinds": [], "max_faults": 0, "horizon": rng.choice([30, 150, 600]),
                    "sched": rng.choice(["random", "pct", "pct"]), "p_switch": rng.choice([0.01, 0.05, 0.2, 0.5]),
                    "changes": rng.randrange(1, 8)}
    if rng.random() < 0.4:
        wl["policy"].update(sched="hot", p_switch=rng.choice([0.05, 0.2, 0.5, 0.9]))
    wl["knobs"]["opcodes"] = wl["policy"]["sched"] != "hot" and rng.random() < 0.35
    plats = fx.pick_plats(rng, [1, 1, 2, 3])
    luts = [[a, b] for a in K.aerosols[:2] for b in fx.ATMS[:2]]
    luts = rng.sample(luts, rng.choice([1, 1, 2, 4]))       # few different objects: more sharing
    kinds = rng.sample(KINDS, rng.randrange(1, 5)) if rng.random() < 0.7 else KINDS
    if wl["store"] != "current":
        kinds = ["load", "own_conv", "own_calc", "own_ray", "check", "lutcheck", "load"]
    if rng.random() < 0.4:        # a duel: the same kind of operation with different arguments on the same object
        wl["store"], plats, luts = "current", plats[:1], luts[:1]
        kinds = [rng.choice(list(NEEDS) + ["ray", "flux", "own_calc", "own_ray", "load"])]
    wl["tasks"] = [{"ops": [gen_op(rng, "o%d" % i, plats, kinds, luts) for i in range(rng.randrange(1, 5))]} for _ in range(rng.choice([2, 2, 2, 3, 4]))]
    if len(kinds) == 1:
        wn = rng.random() < 0.3
        for t in wl["tasks"]:
            for op in t["ops"]:
                op["wn"] = wn
    return wl


class Shared:
    """The objects the threads share; made one after another before the threads start."""

    def __init__(self, tasks):
        self.d = {}
        for spec in tasks:
            for op in spec["ops"]:
                for fn in NEEDS.get(op["kind"], ()):
                    k = (fn.__name__,) + fn(op, None)
                    if k not in self.d:
                        self.d[k] = fn(op, self)

    def get(self, fn, op):
        return self.d[(fn.__name__,) + fn(op, None)]


def o_solar(op, s):
    if s is None:
        return (op["wn"],)
    from pyspectral.solar import SolarIrradianceSpectrum
    return SolarIrradianceSpectrum(**({"wavespace": "wavenumber", "dlambda": 2.0} if op["wn"] else {"dlambda": 0.002}))


def o_rsr(op, s):
    if s is None:
        return (op["plat"], op["wn"])
    from pyspectral.rsr_reader import RelativeSpectralResponse
    r = RelativeSpectralResponse(op["plat"], fx.SAT[op["plat"]][1])
    if op["wn"]:
        r.convert()
    return r


def o_rsrl(op, s):
    if s is None:
        return (op["plat"],)
    return o_rsr(dict(op, wn=False), s)


def o_conv(op, s):
    if s is None:
        return (op["plat"], op["band"], op["wn"])
    from pyspectral.radiance_tb_conversion import RadTbConverter
    c = RadTbConverter(op["plat"], fx.SAT[op["plat"]][1], op["band"], **({"wavespace": "wavenumber"} if op["wn"] else {}))
    t = np.arange(150., 360., 0.1)
    return c, {"tb": t, "radiance": c.tb2radiance(t)["radiance"]}


def o_convl(op, s):
    if s is None:
        return (op["plat"], op["band"])
    return o_conv(dict(op, wn=False), s)


def o_ray(op, s):
    if s is None:
        return (op["plat"], op["type"], op["atm"])
    from pyspectral.rayleigh import Rayleigh
    return Rayleigh(op["plat"], fx.SAT[op["plat"]][1], aerosol_type=op["type"], atmosphere=op["atm"])


NEEDS = {"flux": (o_solar, o_rsr), "irr": (o_solar, o_rsr), "constant": (o_solar,), "integral": (o_rsrl,), "lookup": (o_rsrl,), "alias": (o_rsrl,), "names": (o_rsrl,),
         "wavenumber": (o_rsrl,), "tb2rad": (o_conv,), "tb2rad_lut": (o_convl,), "rad2tb": (o_convl,), "ray": (o_ray,)}


def dump(x):
    """Nested results as comparable data."""
    if isinstance(x, dict):
        return {str(k): dump(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [dump(v) for v in x]
    if isinstance(x, (str, bytes, int, float, bool, type(None))):
        return x
    return np.asarray(x)


def same(a, b, rtol=1e-12):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], rtol) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, float):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind not in "fiub" or b.dtype.kind not in "fiub":
            return a.shape == b.shape and bool(np.all(a == b))
        return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True)
    return a == b


def alias(op):
    """Another name of the band, if there is one."""
    from pyspectral.bandnames import BANDNAMES
    names = BANDNAMES.get(fx.SAT[op["plat"]][1], BANDNAMES["generic"])
    own = {b[0] for b in fx.SAT[op["plat"]][4]}
    return next((a for a in sorted(names) if names[a] == op["band"] and a not in own), op["band"])


def call(op, s):
    k = op["kind"]
    sat = op["plat"], fx.SAT[op["plat"]][1]
    r = np.random.RandomState(op["g"])
    t = r.uniform(200, 310, 5)
    if k in ("flux", "irr"):
        sol, rsr = s.get(o_solar, op), s.get(o_rsr, op)
        band = rsr.rsr[op["band"]]
        det = 1 + op["g"] % len(band)
        return (sol.inband_solarflux if k == "flux" else sol.inband_solarirradiance)(band, detector=det)
    if k == "constant":
        return s.get(o_solar, op).solar_constant()
    if k == "integral":
        return s.get(o_rsrl, op).integral(op["band"] if op["g"] % 2 else alias(op))
    if k == "alias":
        r = s.get(o_rsrl, op).rsr
        return [dump(r[alias(op)]), dump(r.get(alias(op), 0)), r.get("nosuchband", "none")]
    if k == "names":
        r = s.get(o_rsrl, op)
        return [[str(b) for b in r.rsr], sorted(r.rsr.keys()), list(r.band_names), [len(v) for v in r.rsr.values()]]
    if k == "lookup":
        b = [x for x in fx.SAT[op["plat"]][4] if x[0] == op["band"]][0]
        return s.get(o_rsrl, op).get_bandname_from_wavelength(b[1], epsilon=0.2, multiple_bands=True)
    if k == "wavenumber":
        from pyspectral.utils import convert2wavenumber
        return dump(convert2wavenumber(s.get(o_rsrl, op).rsr))
    if k == "tb2rad":
        return dump(s.get(o_conv, op)[0].tb2radiance(t, normalized=bool(op["g"] % 2)))
    if k == "tb2rad_lut":
        c, lut = s.get(o_convl, op)
        return dump(c.tb2radiance(t, lut=lut))
    if k == "rad2tb":
        c = s.get(o_convl, op)[0]
        return c.radiance2tb(c.tb2radiance(t)["radiance"])
    if k in ("ray", "own_ray"):
        sunz, satz, azi, red = ls.angles(op["g"])
        o = s.get(o_ray, op) if k == "ray" else o_ray(op, 0)
        return o.get_reflectance(sunz, satz, azi, op["rayband"], red if op["red"] else None)
    if k == "load":
        return dump(o_rsr(dict(op, wn=False), 0).rsr)
    if k == "own_convert":
        o = o_rsr(dict(op, wn=True), 0)
        return [dump(o.rsr), o.unit, o.si_scale]
    if k == "own_conv":
        return dump(o_conv(op, 0)[0].tb2radiance(t))
    if k == "own_seviri":
        from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
        c = SeviriRadTbConverter("Meteosat-9", "IR10.8")
        return dump([c.tb2radiance(t), c.radiance2tb(c.tb2radiance(t)["radiance"])])
    if k == "own_calc":
        c = tb.make_calc(op if op["g"] % 2 else dict(op, flux=None))
        sunz, t39, t11, t13 = tb.tbs(op["g"])
        return [np.asarray(c.reflectance_from_tbs(sunz, t39, t11)), np.asarray(c.emissive_part_3x())]
    if k == "config":
        from pyspectral.config import get_config
        return dump(get_config())
    if k == "check":
        from pyspectral.rsr_reader import check_and_download
        return check_and_download()
    if k == "lutcheck":
        from pyspectral.rayleigh import check_and_download
        return check_and_download(aerosol_types=[op["type"]])
    if k == "planck":
        from pyspectral.blackbody import blackbody, blackbody_rad2temp, blackbody_wn
        rad = blackbody(np.array([3.9e-6, 1.08e-5]), t)
        return [rad, blackbody_wn(np.array([90000., 250000.]), t), blackbody_rad2temp(1.08e-5, rad[:, 1])]
    raise ValueError(k)


def execute(w, wl):
    m = Machine(w, wl)
    cur = rs.release("cur")
    m.server.files[K.rsr_url] = fx.tarball(cur, wl["order"], K.rsr_marker, "last")
    for a in K.aerosols[:2]:
        m.server.files[K.lut_url[a]] = fx.tarball(ls.release("cur", a), wl["order"], K.lut_marker[a], "first")

    def lay(which):
        if which == "current":
            m.install(m.rsr_dir, cur)
            for a in K.aerosols[:2]:
                m.install(m.ray_dir + "/" + a, ls.release("cur", a))
        elif which == "old":
            m.install(m.rsr_dir, rs.release("old"))
            for a in K.aerosols[:2]:
                m.install(m.ray_dir + "/" + a, ls.release("old", a))
    # 1. alone
    lay("current")
    expect = {}

    def alone(ti, spec):
        def body(t):
            s = Shared([spec])
            for op in spec["ops"]:
                expect[ti, op["u"]] = attempt(t, op, lambda: dump(call(op, s)))
        return body
    for ti, spec in enumerate(wl["tasks"]):
        w.run([(m.new_proc(), "E%d" % ti, alone(ti, spec))])
    import shutil
    with Bypass():
        for d in (m.rsr_dir, m.ray_dir, m.tb_dir):
            shutil.rmtree(d)
        import os
        os.makedirs(m.tb_dir)
    lay(wl["store"])
    # 2. together
    box = {}
    p = m.new_proc()
    w.run([(p, "S", lambda t: box.__setitem__("s", Shared(wl["tasks"])))])
    w.trace_lines = True
    res = []

    def thread(ti, spec):
        def body(t):
            for op in spec["ops"]:
                res.append((ti, op, attempt(t, op, lambda: dump(call(op, box["s"])))))
        return body
    w.run([(p, "T%d" % i, thread(i, s)) for i, s in enumerate(wl["tasks"])], switching=True)
    for ti, op, r in res:
        e = expect[ti, op["u"]]
        what = "thread %d: %s %s" % (ti, op["kind"], op["plat"])
        if r.ok != e.ok:
            w.violate("thread-fails" if e.ok else "thread-works", "%s: %r here, %r alone" % (what, r, e))
        elif not r.ok:
            if r.exc != e.exc:
                w.violate("thread-error", "%s: %r here, %r alone" % (what, r, e))
        elif not same(r.value, e.value):
            w.violate("thread-result", "%s gives another result than alone" % what)
        if w.violations:
            return
