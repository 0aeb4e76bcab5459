"""Data releases served by the simulated data host and installed in simulated stores.

Small but structurally faithful: spectral-response files with single- and multi-detector bands and
atmospheric-correction tables, each release with its own numbers so that mixing is visible.
"""
import functools
import gzip
import io
import random
import tarfile

import h5py
import numpy as np

# (platform, instrument as users write it, file stem, sensor attribute, bands)
# band: (name, centre in um, width in um, number of detectors or 0 for a band without detector groups)
SATS = [
    ("EOS-Aqua", "modis", "rsr_modis_EOS-Aqua.h5", "modis",
     [("1", 0.645, 0.03, 3), ("4", 0.555, 0.02, 2), ("20", 3.75, 0.12, 3), ("31", 11.03, 0.3, 2)]),
    ("Suomi-NPP", "viirs", "rsr_viirs_Suomi-NPP.h5", "viirs",
     [("M5", 0.672, 0.02, 2), ("M12", 3.70, 0.1, 2), ("M15", 10.76, 0.5, 2), ("I4", 3.74, 0.2, 2)]),
    ("Meteosat-10", "seviri", "rsr_seviri_Meteosat-10.h5", "seviri",
     [("VIS0.6", 0.635, 0.05, 0), ("IR3.9", 3.92, 0.25, 0), ("IR10.8", 10.8, 0.8, 0)]),
    ("NOAA-19", "avhrr/3", "rsr_avhrr3_NOAA-19.h5", "avhrr/3",
     [("ch1", 0.63, 0.05, 0), ("ch3b", 3.74, 0.15, 0), ("ch4", 10.8, 0.5, 0)]),
    ("GOES-16", "abi", "rsr_abi_GOES-16.h5", "abi",
     [("ch1", 0.47, 0.02, 0), ("ch2", 0.64, 0.04, 0), ("ch7", 3.89, 0.1, 0), ("ch14", 11.2, 0.4, 0)]),
    ("NOAA-20", "viirs", "rsr_viirs_NOAA-20.h5", "viirs",        # the instrument of another platform, slightly different
     [("M5", 0.667, 0.02, 2), ("M12", 3.69, 0.1, 2), ("M15", 10.70, 0.5, 2)]),
    ("FY-3D", "mersi-2", "rsr_mersi2_FY-3D.h5", "mersi-2",
     [("ch3", 0.65, 0.04, 2), ("ch20", 3.80, 0.1, 0), ("ch24", 10.8, 0.5, 1)]),
]
SAT = {s[0]: s for s in SATS}
NIR_BAND = {"EOS-Aqua": "20", "Suomi-NPP": "M12", "Meteosat-10": "IR3.9", "NOAA-19": "ch3b", "GOES-16": "ch7",
            "NOAA-20": "M12", "FY-3D": "ch20"}
VIS_BANDS = {p: [b[0] for b in s[4] if 0.4 < b[1] < 0.8] for p, s in SAT.items()}
VIS_BAND = {"EOS-Aqua": "1", "Suomi-NPP": "M5", "Meteosat-10": "VIS0.6", "NOAA-19": "ch1", "GOES-16": "ch1",
            "NOAA-20": "M5", "FY-3D": "ch3"}


def pick_plats(rng, counts):
    """Some platforms; often two which carry the same instrument."""
    n = rng.choice(counts)
    if n > 1 and rng.random() < 0.35:
        return ["Suomi-NPP", "NOAA-20"]
    return rng.sample(list(NIR_BAND), n)


@functools.lru_cache(None)
def band_arrays(release, plat, band, det):
    """(wavelength um float32, response float32, central wavelength) of one detector in one release."""
    name, cw, width, ndet = [b for b in SAT[plat][4] if b[0] == band][0]
    k = {"cur": 0, "old": 1, "new": 2, "near": 0}.get(release, 3)
    shift = width * (0.15 * k + 0.11 * (det - 1) + 0.001 * (release == "near"))   # "near": a slight revision of "cur"
    n = 31 + 2 * (k % 3)          # release "alt" has files of the same size as "cur"
    # all detectors of a band share one wavelength axis, as in the real files
    wvl = np.linspace(cw - 1.5 * width, cw + 1.5 * width, n).astype(np.float32)
    x = (wvl.astype(np.float64) - cw - shift) / width
    resp = np.clip(np.exp(-0.5 * (x * 2) ** 2) + 0.05 * np.sin(7 * x + det), 0, None)
    resp = (resp / resp.max()).astype(np.float32)
    w64, r64 = wvl.astype(np.float64), resp.astype(np.float64)
    central = float(_trapz(r64 * w64, w64) / _trapz(r64, w64))
    return wvl, resp, central


def _trapz(y, x):
    return float(np.sum((y[1:] + y[:-1]) * 0.5 * np.diff(x)))


@functools.lru_cache(None)
def rsr_file(release, plat):
    """Bytes of one spectral-response file."""
    _, _, _, sensor, bands = SAT[plat]
    bio = io.BytesIO()
    with h5py.File(bio, "w") as h:
        h.attrs["description"] = "Relative Spectral Responses for " + sensor.upper() + " " + release
        h.attrs["platform_name"] = plat
        h.attrs["sensor"] = sensor
        h.attrs["band_names"] = [b[0] for b in bands]
        for name, _, _, ndet in bands:
            g = h.create_group(name)
            if ndet:
                g.attrs["number_of_detectors"] = ndet
                for d in range(1, ndet + 1):
                    wvl, resp, cw = band_arrays(release, plat, name, d)
                    dg = g.create_group("det-%d" % d)
                    dg.attrs["central_wavelength"] = cw
                    dg.create_dataset("response", data=resp)
                    ds = dg.create_dataset("wavelength", data=wvl)
                    ds.attrs["scale"] = 1e-06
                    ds.attrs["unit"] = "m"
            else:
                wvl, resp, cw = band_arrays(release, plat, name, 1)
                g.attrs["central_wavelength"] = cw
                g.create_dataset("response", data=resp)
                ds = g.create_dataset("wavelength", data=wvl)
                ds.attrs["scale"] = 1e-06
                ds.attrs["unit"] = "m"
    return bio.getvalue()


@functools.lru_cache(None)
def blob(n, seed):
    return random.Random("blob%d-%d" % (n, seed)).randbytes(n)


def rsr_release(release, version, marker, plats=None, big=0):
    """{file name: bytes} of a whole release, version marker included."""
    files = {SAT[p][2]: rsr_file(release, p) for p in (plats or SAT)}
    files["CHANGELOG_%s.txt" % "RSR"] = ("release %s\n" % release).encode() * 40
    if big:
        files["rsr_extra_documentation.bin"] = blob(big, {"cur": 0}.get(release, 1))
    files[marker] = version.encode() + b"\n"
    return files


def rsr_expected(release, plat):
    """Reference model: what RelativeSpectralResponse must hold."""
    out = {}
    for name, _, _, ndet in SAT[plat][4]:
        out[name] = {}
        for d in range(1, max(1, ndet) + 1):
            wvl, resp, cw = band_arrays(release, plat, name, d)
            out[name]["det-%d" % d] = {"wavelength": wvl.astype(np.float64), "response": resp.astype(np.float64),
                                       "central_wavelength": cw}
    return out


def compare_rsr(rsr, release, plat, bands=None):
    """None if *rsr* (dict of bands) is that of the release, else a description."""
    exp = rsr_expected(release, plat)
    if set(rsr.keys()) != set(exp):
        return "bands %s instead of %s" % (sorted(rsr.keys()), sorted(exp))
    for b in exp:
        if set(rsr[b].keys()) != set(exp[b]):
            return "band %s has detectors %s instead of %s" % (b, sorted(rsr[b].keys()), sorted(exp[b]))
        for d in exp[b]:
            for k, v in exp[b][d].items():
                got = rsr[b][d].get(k)
                if got is None:
                    return "band %s %s has no %s" % (b, d, k)
                got, v = np.asarray(got, dtype=np.float64), np.asarray(v)
                if got.shape != v.shape:
                    return "band %s %s %s has shape %s instead of %s" % (b, d, k, got.shape, v.shape)
                if not np.allclose(got, v, rtol=2e-6, atol=1e-7):
                    return "band %s %s: %s differs" % (b, d, k)
    return None


# ------------------------------------------------------------------------------ tables
LUT_W = np.linspace(400., 800., 9)
LUT_SUNZ = np.linspace(1.0, 6.0, 6)
LUT_AZI = np.linspace(0.0, 180.0, 5)
LUT_SATZ = np.linspace(1.0, 3.0, 4)


@functools.lru_cache(None)
def lut_axes(release):
    """Wavelengths, sun zenith secants, azimuth differences, satellite zenith secants: releases differ in their grids, too."""
    if release == "old":
        return np.linspace(390., 790., 9), np.linspace(1.0, 5.0, 6), LUT_AZI, np.linspace(1.0, 2.6, 4)
    if release == "new":
        return LUT_W, np.linspace(1.0, 6.5, 6), LUT_AZI, np.linspace(1.0, 3.2, 4)
    return LUT_W, LUT_SUNZ, LUT_AZI, LUT_SATZ


@functools.lru_cache(None)
def lut_values(release, aerosol, atm):
    k = sum(map(ord, release + aerosol + atm)) % 97
    w, s, a, z = lut_axes(release)
    w = w[:, None, None, None] / 800.
    s = s[None, :, None, None]
    a = a[None, None, :, None] / 180.
    z = z[None, None, None, :]
    v = 0.30 / (w ** 2) * (0.15 + 0.02 * s + 0.05 * a * z + 0.03 * z) * (0.6 + k / 200.)
    return np.clip(v, 0, 0.95)


@functools.lru_cache(None)
def lut_file(release, aerosol, atm):
    bio = io.BytesIO()
    w, s, a, z = lut_axes(release)
    with h5py.File(bio, "w") as h:
        h.attrs["info"] = "%s %s %s" % (release, aerosol, atm)
        h.create_dataset("azimuth_difference", data=a)
        h.create_dataset("reflectance", data=lut_values(release, aerosol, atm))
        h.create_dataset("satellite_zenith_secant", data=z)
        h.create_dataset("sun_zenith_secant", data=s)
        h.create_dataset("wavelengths", data=w)
    return bio.getvalue()


ATMS = ["subarctic summer", "subarctic winter", "midlatitude summer", "midlatitude winter", "tropical", "us-standard"]


def lut_release(release, aerosol, version, marker):
    files = {"rayleigh_lut_%s.h5" % a.replace(" ", "_"): lut_file(release, aerosol, a) for a in ATMS}
    files[marker] = version.encode() + b"\n"
    return files


def effective_wavelength_nm(release, plat, band):
    wvl, resp, _ = band_arrays(release, plat, band, 1)
    w, r = wvl.astype(np.float64), resp.astype(np.float64)
    wt = r / w ** 4
    return 1000. * _trapz(wt * w, w) / _trapz(wt, w)


def ref_rayleigh(release, aerosol, atm, wvl_nm, sunz, satz, azidiff, redband=None):
    """Independent reference: linear in wavelength, then trilinear in the three angles."""
    shape = np.shape(sunz)
    values = lut_values(release, aerosol, atm)
    aw, asz, aaz, avz = lut_axes(release)
    if not aw[0] < wvl_nm < aw[-1]:
        res = np.zeros(shape)
    else:
        i = int(np.searchsorted(aw, wvl_nm))
        f = (aw[i] - wvl_nm) / (aw[i] - aw[i - 1])
        grid = f * values[i - 1] + (1 - f) * values[i]
        s = 1 / np.cos(np.deg2rad(np.clip(np.nan_to_num(sunz), 0, np.rad2deg(np.arccos(1 / asz[-1])))))
        z = 1 / np.cos(np.deg2rad(np.clip(np.nan_to_num(satz), 0, np.rad2deg(np.arccos(1 / avz[-1])))))
        a = 180. - azidiff
        res = np.empty(shape)
        for idx in np.ndindex(*shape):
            res[idx] = 100. * _trilin(grid, (asz, aaz, avz), (s[idx], a[idx], z[idx]))
    if redband is not None:
        res = np.where(redband < 20., res, (1 - (redband - 20) / 80) * res)
    return np.clip(res, 0, 100)


def _cell(ax, v):
    j = int(np.clip(np.searchsorted(ax, v, side="right") - 1, 0, len(ax) - 2))
    return j, (v - ax[j]) / (ax[j + 1] - ax[j])


def _trilin(g, axes, point):
    (i, fi), (j, fj), (k, fk) = [_cell(ax, v) for ax, v in zip(axes, point)]
    out = 0.
    for di, wi in ((0, 1 - fi), (1, fi)):
        for dj, wj in ((0, 1 - fj), (1, fj)):
            for dk, wk in ((0, 1 - fk), (1, fk)):
                out += wi * wj * wk * g[i + di, j + dj, k + dk]
    return out


# ------------------------------------------------------------------------------ archives
_TAR = {}


def tarball(files, order_seed=0, marker=None, marker_pos="first", prefix="", fmt=tarfile.PAX_FORMAT):
    key = (tuple(sorted((k, hash(v)) for k, v in files.items())), order_seed, marker, marker_pos, prefix)
    if key in _TAR:
        return _TAR[key]
    names = sorted(files)
    random.Random(order_seed).shuffle(names)
    if marker in names and marker_pos != "any":
        names.remove(marker)
        names.insert({"first": 0, "last": len(names), "middle": len(names) // 2}[marker_pos], marker)
    bio = io.BytesIO()
    with tarfile.open(fileobj=bio, mode="w", format=fmt) as tar:
        for n in names:
            ti = tarfile.TarInfo(prefix + n)
            ti.size, ti.mode, ti.mtime = len(files[n]), 0o644, 1700000000
            ti.uid = ti.gid = 1000
            tar.addfile(ti, io.BytesIO(files[n]))
    out = gzip.compress(bio.getvalue(), 3, mtime=0)
    if len(_TAR) < 400:
        _TAR[key] = out
    return out
