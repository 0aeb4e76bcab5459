"""Near-infrared calculators and their table cache: shared by C06, C07, C11, C15."""
import functools

import numpy as np

from . import fixtures as fx

H, KB, C = 6.62606957e-34, 1.3806488e-23, 2.99792458e8     # as documented in pyspectral.blackbody


@functools.lru_cache(None)
def ref_table(release, plat, band, det):
    """Independent reference: band-averaged Planck radiance for 150..360 K in steps of 0.1 K."""
    wvl, resp, _ = fx.band_arrays(release, plat, band, int(det[4:]))
    w = wvl.astype(np.float64) * 1e-6
    r = resp.astype(np.float64)
    tb = 150. + 0.1 * np.arange(2100)
    x = H * C / (KB * w[None, :] * tb[:, None])
    planck = 2 * H * C ** 2 / w[None, :] ** 5 / np.expm1(x)
    y = planck * r[None, :]
    num = np.sum((y[:, 1:] + y[:, :-1]) * 0.5 * np.diff(w)[None, :], axis=1)
    den = np.sum((r[1:] + r[:-1]) * 0.5 * np.diff(w))
    return tb, num / den


def check_lut(w, calc, release, plat, band, det, what):
    """The table of a calculator must be the complete one of its band."""
    try:
        tb = np.asarray(calc.lut["tb"], dtype=np.float64)
        rad = np.asarray(calc.lut["radiance"], dtype=np.float64)
    except Exception as e:
        w.violate("unusable-table", "%s: the table cannot be used: %r" % (what, e))
        return False
    etb, erad = ref_table(release, plat, band, det)
    if tb.shape != etb.shape or rad.shape != erad.shape or not np.allclose(tb, etb, rtol=0, atol=1e-6):
        w.violate("incomplete-table", "%s: the table has %s temperatures, %s radiances" % (what, tb.shape, rad.shape))
        return False
    if not np.allclose(rad, erad, rtol=3e-5):
        w.violate("wrong-table", "%s: the table is not that of %s band %s %s" % (what, plat, band, det))
        return False
    return True


DETS = {p: [max(1, b[3]) for b in s[4] if b[0] == fx.NIR_BAND[p]][0] for p, s in fx.SAT.items()}
NIR_CW = {p: [b[1] for b in s[4] if b[0] == fx.NIR_BAND[p]][0] for p, s in fx.SAT.items()}


def gen_calc(rng, plats=None):
    p = rng.choice(plats or list(fx.NIR_BAND))
    op = {"plat": p, "det": "det-%d" % rng.randrange(1, DETS[p] + 1)}
    if p == "Suomi-NPP" and rng.random() < 0.4:
        op["band"] = "I4"
    return op


def band_of(op):
    return op.get("band") or fx.NIR_BAND[op["plat"]]


def make_calc(op):
    from pyspectral.near_infrared_reflectance import Calculator
    p = op["plat"]
    kw = {}
    if op.get("flux", 2.0) is not None:
        kw["solar_flux"] = op.get("flux", 2.0)
    for k in ("masking_limit", "sunz_threshold"):
        if op.get(k) is not None:
            kw[k] = op[k]
    instr = fx.SAT[p][1]
    if op.get("variant") == "upper":
        instr = instr.upper()
    band = band_of(op)
    if op.get("variant") == "number":
        band = [b[1] for b in fx.SAT[p][4] if b[0] == band][0]
    return Calculator(p, instr, band, detector=op["det"], **kw)


def tbs(seed, shape=(6,), dtype="float64"):
    r = np.random.RandomState(seed)
    return (r.uniform(0, 95, shape).astype(dtype), r.uniform(230, 320, shape).astype(dtype),
            r.uniform(220, 305, shape).astype(dtype), r.uniform(215, 280, shape).astype(dtype))
