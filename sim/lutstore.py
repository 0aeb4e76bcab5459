"""The atmospheric-correction table store scenario shared by C03, C04 and C05."""
import os

import numpy as np

from . import fixtures as fx
from .common import K, Store
from .engine import Bypass
from .rsrstore import run_script

OLD = "v0.9.0"
PATHS = (".tgz", "rayleigh_lut_", "/data/ray/", "PYSPECTRAL_ATM_CORR_LUT")


def release(name, aero):
    return fx.lut_release(name, aero, K.lut_version[aero] if name == "cur" else OLD, K.lut_marker[aero])


def build():
    for a in K.aerosols:
        release("cur", a)
        release("old", a)


INITS = ["missing", "missing", "empty", "old", "old-nomarker", "current", "leftovers"]


def gen_types(rng, n):
    types = rng.sample(K.aerosols, n)
    return {a: {"init": rng.choice(INITS), "marker_pos": rng.choice(["first", "last", "middle"]), "order": rng.randrange(20)}
            for a in types}


def tar(aero, st):
    return fx.tarball(release("cur", aero), st["order"], K.lut_marker[aero], st["marker_pos"])


def init_types(m, types):
    """Lay out the per-aerosol directories; returns {aerosol: Store}."""
    out = {}
    with Bypass():
        os.makedirs(m.ray_dir, exist_ok=True)
    for a, st in types.items():
        d = os.path.join(m.ray_dir, a)
        i = st["init"]
        if i != "missing":
            with Bypass():
                os.makedirs(d)
        if i in ("old", "old-nomarker", "leftovers"):
            f = dict(release("old", a))
            if i == "old-nomarker":
                f.pop(K.lut_marker[a])
            m.install(d, f)
        if i == "current":
            m.install(d, release("cur", a))
        if i == "leftovers":
            m.put(os.path.join(d, "pyspectral_rayleigh_correction_luts.tgz"), tar(a, st)[:2000])
        m.server.files[K.lut_url[a]] = tar(a, st)
        out[a] = Store(m, d, K.lut_marker[a], K.lut_version[a], release("cur", a), "table directory " + a)
    return out


def as_given(op):
    return {"tuple": tuple, "list": list, None: list}[op.get("as")](op["types"])


def call(op, m=None):
    o = op["op"]
    if o == "rayleigh":
        def fn():
            from pyspectral.rayleigh import Rayleigh
            plat = op["plat"]
            r = Rayleigh(plat, fx.SAT[plat][1], aerosol_type=op["type"], atmosphere=op["atm"])
            if op.get("noreq"):
                return None
            sunz, satz, azi, red = angles(op["g"])
            return r.get_reflectance(sunz, satz, azi, op["band"], red if op.get("red") else None)
    elif o == "luts":
        def fn():
            from pyspectral.utils import download_luts
            kw = {"dry_run": True} if op.get("dry") else {}
            if op.get("deprecated"):
                return download_luts(aerosol_type=op["types"][0], **kw)
            if op.get("all"):
                return download_luts(**kw)
            return download_luts(aerosol_types=as_given(op), **kw)
    elif o == "lutcheck":
        def fn():
            from pyspectral.rayleigh import check_and_download
            kw = {"dry_run": True} if op.get("dry") else {}
            return check_and_download(**kw) if op.get("all") else check_and_download(aerosol_types=as_given(op), **kw)
    elif o == "lutscript":
        def fn():
            return run_script("download_atm_correction_luts.py", (["-d"] if op.get("dry") else []) +
                              ([] if op.get("all") else ["-a"] + list(op["types"])))
    else:
        raise ValueError(o)
    return fn


def angles(g):
    r = np.random.RandomState(g)
    shape = (2, 3)
    return (r.uniform(0, 88, shape), r.uniform(0, 75, shape), r.uniform(0, 180, shape), r.uniform(0, 100, shape))


def expected(op, rel="cur", rsr="cur"):
    sunz, satz, azi, red = angles(op["g"])
    b = op["band"]
    wvl = fx.effective_wavelength_nm(rsr, op["plat"], b) if isinstance(b, str) else b * 1000.
    return fx.ref_rayleigh(rel, op["type"], op["atm"], wvl, sunz, satz, azi, red if op.get("red") else None)


def gen_rayleigh(rng, u, aero, plats=None):
    plat = rng.choice(plats or list(fx.VIS_BAND))
    band = fx.VIS_BAND[plat] if rng.random() < 0.7 else rng.choice([0.45, 0.51, 0.66])
    return {"u": u, "op": "rayleigh", "type": aero, "atm": rng.choice(fx.ATMS), "plat": plat, "band": band,
            "g": rng.randrange(1000), "red": rng.random() < 0.5}


def verify(w, op, value, rels=("cur",), rsrs=("cur",)):
    for rel in rels:
        for rsr in rsrs:
            try:
                v = np.asarray(value, dtype=np.float64)
                e = expected(op, rel, rsr)
                if v.shape == e.shape and np.allclose(v, e, rtol=1e-5, atol=1e-6):
                    return True
            except Exception as ex:
                w.violate("wrong-data", "unusable correction: %r" % ex)
                return False
    w.violate("wrong-data", "correction for %s/%s %s band %s is not that of the released table" % (
        op["type"], op["atm"], op["plat"], op["band"]))
    return False
