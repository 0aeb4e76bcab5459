"""C15: objects are independent of each other and always reflect the data on disk."""
import functools
import os
import random
import shutil

import numpy as np

from .. import fixtures as fx
from .. import lutstore as ls
from .. import rsrstore as rs
from .. import seams
from .. import tables as tb
from ..common import K, Machine, attempt, gen_knobs, gen_policy
from ..engine import Bypass, LiveDecider, Policy, World
from .c09 import dump, same

ID = "C15"
RUNS = {"quick": 3500, "thorough": 120000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["one thread and one process at a time (C05, C06 and C09 cover several)",
          "the oracle for an object is the same library in a fresh process on a machine which only ever had the present files",
          "Rayleigh objects read their tables when they are used: after an update an earlier one may show either table"]
NOTE = ("Seeded search over histories of several live objects, edits, conversions, file updates, failed operations and faults; every "
        "object is compared with a fresh process when it is made and must stay as it is until it is changed itself.")
RULE = ("a history of 4-12 operations in one or several processes: load responses (by name, by explicit file), converters, calculators, "
        "corrections and solar spectra; convert, edit or clear the data of one of them, or what it returned; edit the returned configuration; "
        "replace files (new file or in place, of the same size, with coarse or unchanged modification times), let the library download a newer release, damage "
        "and repair files; failing operations and up to one fault. Each new object is compared with the one in a fresh process that only ever saw the "
        "present files; after every operation all other live objects must be as before.")
RELS = ["cur", "old", "new", "alt"]
MAKE = ["rsr", "rsr", "rsr", "file", "conv", "conv", "spec", "ray", "calc", "sev"]
_ORACLE = {}


def setup():
    rs.build()
    for r in RELS:
        for p in fx.SAT:
            fx.rsr_file(r, p)
        for a in K.aerosols[:1]:
            for t in fx.ATMS:
                fx.lut_file(r, a, t)


@functools.lru_cache(None)
def spectrum(rel):
    """Text of a solar spectrum file; all of the same size."""
    k = RELS.index(rel)
    x = np.linspace(0.3, 4.2, 160)
    y = 1900. * np.exp(-((x - 0.5 - 0.02 * k) / (0.35 + 0.03 * k)) ** 2 * (x < 0.5)) / (1 + np.exp((x - 0.8) * 2)) + 5 + k
    return "".join("%10.5f %12.5f\n" % v for v in zip(x, y)).encode()


# ------------------------------------------------------------------------------ generation
def gen_make(rng, u, plats):
    k = rng.choice(MAKE)
    p = rng.choice(plats)
    op = {"u": u, "op": "make", "kind": k, "plat": p, "wn": rng.random() < 0.3, "f": rng.random() < 0.15}
    if k in ("conv", "calc"):
        op["det"] = "det-%d" % rng.randrange(1, tb.DETS[p] + 1)
    if k == "conv":
        op["band"] = rng.choice([b[0] for b in fx.SAT[p][4] if b[1] > 3])
        dets = max(1, [b[3] for b in fx.SAT[p][4] if b[0] == op["band"]][0])
        op["det"] = "det-%d" % rng.randrange(1, dets + 1)
    if k == "calc":
        op["flux"] = rng.choice([2.0, None])
    if k == "ray":
        op.update(atm=rng.choice(fx.ATMS[:2]), g=rng.randrange(3), band=fx.VIS_BAND[p], type=K.aerosols[0])
    if k == "sev":
        op.update(plat=rng.choice(["Meteosat-8", "Meteosat-9"]), band=rng.choice(["IR3.9", "IR10.8", "IR_120"]), f=False)
    if k == "spec":
        op["dl"] = rng.choice([None, 0.01])
        op["own"] = rng.random() < 0.7
    return op


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "download": rng.random() < 0.5, "first": rng.choice(RELS)}
    wl["knobs"]["mtime_granularity"] = rng.choice([1e-6, 1.0, 2.0, 3600.])
    wl["policy"] = gen_policy(rng, 60, p_none=0.5, kinds=["errno", "short", "kbd", "mem"])
    wl["policy"]["max_faults"] = min(1, wl["policy"]["max_faults"])
    plats = fx.pick_plats(rng, [1, 1, 2])
    ops = []
    for i in range(rng.randrange(4, 13)):
        u = "o%d" % i
        k = rng.choice(["make"] * 6 + ["edit"] * 3 + ["convert", "result", "cfgedit", "update", "update", "update", "outdate", "fail", "restart"]) if i else "make"
        if k == "make":
            ops.append(gen_make(rng, u, plats))
        elif k == "edit":
            ops.append({"u": u, "op": k, "i": rng.randrange(12), "how": rng.randrange(8)})
        elif k in ("convert", "result"):
            ops.append({"u": u, "op": k, "i": rng.randrange(12)})
        elif k == "update":
            ops.append({"u": u, "op": k, "what": rng.choice(["rsr", "rsr", "rsr", "file", "spec", "lut", "lut"]), "plat": rng.choice(plats),
                        "to": rng.choice(RELS), "mode": rng.choice(["replace", "inplace", "keeptime", "keeptime"])})
        elif k == "fail":
            ops.append({"u": u, "op": k, "how": rng.choice(["unknown", "damaged", "badfile", "nospec"]), "plat": rng.choice(plats), "f": False})
        else:
            ops.append({"u": u, "op": k, "to": rng.choice(RELS), "i": rng.randrange(12)})
    ops.append(dict(gen_make(rng, "o%d" % len(ops), plats), f=False))
    wl["ops"] = ops
    return wl


# ------------------------------------------------------------------------------ objects
def make(op, m):
    k, p = op["kind"], op["plat"]
    if k in ("rsr", "file"):
        from pyspectral.rsr_reader import RelativeSpectralResponse
        if k == "file":
            return RelativeSpectralResponse(filename=os.path.join(m.root, "data", "mine", fx.SAT[p][2]))
        return RelativeSpectralResponse(p, fx.SAT[p][1])
    if k == "conv":
        from pyspectral.radiance_tb_conversion import RadTbConverter
        return RadTbConverter(p, fx.SAT[p][1], op["band"], detector=op["det"], **({"wavespace": "wavenumber"} if op["wn"] else {}))
    if k == "sev":
        from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
        return SeviriRadTbConverter(p, op["band"], **({"wavespace": "wavenumber"} if op["wn"] else {}))
    if k == "calc":
        return tb.make_calc(op)
    if k == "spec":
        from pyspectral.solar import SolarIrradianceSpectrum
        kw = {"wavespace": "wavenumber"} if op["wn"] else {}
        if op["dl"]:
            kw["dlambda"] = op["dl"] * (200. if op["wn"] else 1.)
        if op["own"]:
            kw["filename"] = os.path.join(m.root, "data", "sun.dat")
        return SolarIrradianceSpectrum(**kw)
    if k == "ray":
        from pyspectral.rayleigh import Rayleigh
        return Rayleigh(p, fx.SAT[p][1], aerosol_type=op["type"], atmosphere=op["atm"])
    raise ValueError(k)


T = np.array([205., 250.5, 281.25, 300.])
BAND = {"det-1": {"wavelength": np.linspace(0.55, 0.75, 21), "response": np.hanning(21)}}
BANDN = {"det-1": {"wavenumber": 1e4 / np.linspace(0.75, 0.55, 21), "response": np.hanning(21)}}


def observe(op, o):
    """What the object shows, as copies."""
    k = op["kind"]
    if k in ("rsr", "file"):
        return copy([dump(o.rsr), list(o.band_names), o.unit, o.si_scale, o.platform_name, o.instrument, o.description])
    if k == "conv":
        out = [dump(o.rsr), dump(o.tb2radiance(T)), o.rsr_integral, o.bandname]
        if not op["wn"]:
            out.append(o.radiance2tb(np.array([0.5, 3., 8.]) * 1e6))
        return copy(out)
    if k == "sev":
        rad = o.tb2radiance(T)
        return copy([dump(rad), o.radiance2tb(rad["radiance"]), o.bandname, o.platform_name])
    if k == "calc":
        sunz, t39, t11, t13 = tb.tbs(3)
        return copy([np.asarray(o.reflectance_from_tbs(sunz, t39, t11)), np.asarray(o.emissive_part_3x()), dump(o.rsr)])
    if k == "spec":
        return copy([o.wavelength, o.wavenumber, o.irradiance, o.solar_constant(), o.inband_solarflux(BANDN if op["wn"] else BAND),
                     o.inband_solarirradiance(BANDN if op["wn"] else BAND)])
    sunz, satz, azi, red = ls.angles(op["g"])
    return copy([np.asarray(o.get_reflectance(sunz, satz, azi, op["band"], red))])


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [copy(v) for v in x]
    return np.array(x) if isinstance(x, (np.ndarray, np.generic)) else x


def bits(a, b):
    return same(a, b, 0)


def edit(op, target, o):
    """Change the object's own data, as a user may."""
    k, how = target["kind"], op["how"]
    if k in ("rsr", "file", "conv", "calc"):
        rsr = o.rsr
        band = sorted(rsr)[how % len(rsr)] if len(rsr) else None
        if how in (0, 1, 2) and band:
            for d in rsr[band].values():
                d["response"][...] = d["response"] * 0.5 if how else 0
        elif how == 3 and band:
            for d in rsr[band].values():
                x = d.get("wavelength", d.get("wavenumber"))
                x += 0.01
                d["central_wavelength"] = 1.0
        elif how == 4 and k in ("rsr", "file") and band:
            del rsr[band]
        elif how == 5 and k in ("rsr", "file"):
            o.band_names.append("extra")
            rsr["extra"] = {}
        elif how == 6 and k in ("rsr", "file"):
            rsr.clear()
            o.band_names.clear()
        elif how == 7 and k in ("conv", "calc"):
            o.response[...] = o.response * 0.25
        elif k == "calc":
            try:
                o.lut["radiance"][...] = 1.0
            except (ValueError, TypeError):
                pass
    elif k == "spec":
        if how < 4:
            o.irradiance[...] = o.irradiance * 2
        elif how < 6:
            o.interpolate(dlambda=0.05 if o.wavelength is not None else 7.)
        else:
            x = o.wavelength if o.wavelength is not None else o.wavenumber
            x += 0.001


def scribble(x):
    """Overwrite everything in a returned value."""
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
        x[...] = -1


def results(op, o):
    k = op["kind"]
    if k in ("rsr", "file"):
        b = sorted(o.rsr)[0]
        from pyspectral.utils import convert2wavenumber
        other = convert2wavenumber(o.rsr)[0]          # its arrays may be views of the ones given, but not its dictionaries
        for band in other.values():
            for det in band.values():
                det.clear()
            band.clear()
        return [o.integral(b)] if "wavelength" in o.rsr[b]["det-1"] else []
    if k == "sev":
        return [o.tb2radiance(T)]
    if k == "conv":
        return [o.tb2radiance(T), o.tb2radiance(T, normalized=False)]
    if k == "calc":
        sunz, t39, t11, t13 = tb.tbs(4)
        return [o.tb2radiance(t39, lut=o.lut)]
    if k == "spec":
        return [o.interpolate(ival_wavelength=(0.5, 0.6) if o.wavelength is not None else (16000., 17000.))]
    sunz, satz, azi, red = ls.angles(op["g"])
    return [np.asarray(o.get_reflectance(sunz, satz, azi, op["band"], red))]


# ------------------------------------------------------------------------------ oracle
def layout(m, files):
    """Put the present files in place: {what: release}."""
    for (what, p), rel in files.items():
        put_one(m, what, p, rel, "replace")
    m.put(os.path.join(m.rsr_dir, K.rsr_marker), K.rsr_version.encode() + b"\n")
    d = os.path.join(m.ray_dir, K.aerosols[0])
    m.put(os.path.join(d, K.lut_marker[K.aerosols[0]]), K.lut_version[K.aerosols[0]].encode() + b"\n")


def put_one(m, what, p, rel, mode):
    if what == "rsr":
        items = [(os.path.join(m.rsr_dir, fx.SAT[p][2]), fx.rsr_file(rel, p))]
    elif what == "file":
        items = [(os.path.join(m.root, "data", "mine", fx.SAT[p][2]), fx.rsr_file(rel, p))]
    elif what == "spec":
        items = [(os.path.join(m.root, "data", "sun.dat"), spectrum(rel))]
    else:
        items = [(os.path.join(m.ray_dir, K.aerosols[0], "rayleigh_lut_%s.h5" % a.replace(" ", "_")), fx.lut_file(rel, K.aerosols[0], a))
                 for a in fx.ATMS]
    for path, data in items:
        with Bypass():
            st = os.stat(path) if os.path.exists(path) else None
            if mode == "inplace" and st is not None:
                with seams.real["open"](path, "r+b") as f:
                    f.truncate(0)
                    f.write(data)
                seams._stamp(m.w, path)
            else:
                m.put(path, data)
            if mode == "keeptime" and st is not None:
                seams.real["utime"](path, ns=(st.st_atime_ns, st.st_mtime_ns))


def oracle(op, files):
    """The object in a fresh process on a machine which only ever had these files."""
    p = op["plat"]
    need = {"rsr": [("rsr", p)], "file": [("file", p)], "conv": [("rsr", p)], "calc": [("rsr", p)], "spec": [("spec", None)], "sev": [],
            "ray": [("rsr", p), ("lut", None)]}[op["kind"]]
    rels = {n: files[n] for n in need}
    key = tuple(sorted((k, v) for k, v in op.items() if k not in ("u", "f", "op", "fd"))) + tuple(sorted((str(k), v) for k, v in rels.items()))
    if key in _ORACLE:
        return _ORACLE[key]
    from .. import runner
    root = os.path.join(runner.scratch(), "o%08d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    w2 = World(root, LiveDecider(random.Random(0), Policy()), {})
    w2.keep_events = False
    m2 = Machine(w2, {"download": False})
    layout(m2, rels)
    box = []

    def body(t):
        box.append(attempt(t, {"u": "x"}, lambda: observe(op, make(op, m2))))
    w2.run([(m2.new_proc(), "T", body)])
    shutil.rmtree(root, ignore_errors=True)
    if len(_ORACLE) > 4000:
        _ORACLE.clear()
    _ORACLE[key] = box[0]
    return box[0]


def execute(w, wl):
    m = Machine(w, wl)
    files = {(x, p): wl["first"] for x in ("rsr", "file") for p in fx.SAT}
    files.update({("spec", None): wl["first"], ("lut", None): wl["first"]})
    layout(m, files)
    live = []          # [op, object, observation, table and response releases acceptable for a Rayleigh object, name]
    later = []         # comparisons with fresh processes, made after the history
    st = {"proc": None}

    def what(op):
        return {"rsr": "responses of %s", "file": "responses from the file of %s", "conv": "converter for %s", "calc": "calculator for %s",
                "spec": "solar spectrum (%s)", "ray": "correction for %s", "sev": "SEVIRI converter for %s"}[op["kind"]] % op["plat"]

    def others(after, me=None):
        """All other live objects must be as they were."""
        for e in live:
            if e is me or e[0]["kind"] == "ray":
                continue
            try:
                now = observe(e[0], e[1])
            except Exception as ex:
                w.violate("object-broken", "%s: after %s of something else it cannot be used: %r" % (what(e[0]), after, ex))
                return
            if not bits(now, e[2]):
                w.violate("object-changed", "%s changed although only %s was done" % (what(e[0]), after))
                return

    def handler(t, op):
        if st["proc"] is not t.proc:
            st["proc"] = t.proc
            live.clear()
        o = op["op"]
        e = live[op["i"] % len(live)] if o in ("edit", "convert", "result") and live else None
        if o == "make":
            nf = sum(w.fault_counts.values())
            r = attempt(t, op, lambda: make(op, m))
            sync()
            if sum(w.fault_counts.values()) != nf and not r.ok:
                w.probe("make_failed")
                others("failed creation of a %s" % op["kind"])
                return
            if not r.ok:
                later.append(("make", op, dict(files), r, None))
                return
            got = attempt(t, dict(op, u=op["u"] + "x", f=False), lambda: observe(op, r.value))
            sync()
            later.append(("make", op, dict(files), r, got))
            if not got.ok:
                return
            me = [op, r.value, got.value, ({files["lut", None]}, {files.get(("rsr", op["plat"]))})]
            live.append(me)
            if len(live) > 1:
                w.probe("nontrivial")
            others("the creation of a %s" % op["kind"], me)
        elif o == "edit" and e:
            try:
                edit(op, e[0], e[1])
            except Exception as ex:        # e.g. read-only data: the user cannot change it
                w.probe("edit_refused_" + type(ex).__name__)
            w.probe("edited")
            settle(e)
            others("an edit of a %s" % e[0]["kind"], e)
        elif o == "convert" and e:
            if e[0]["kind"] not in ("rsr", "file"):
                return
            before = e[1].unit
            r = attempt(t, op, e[1].convert)
            if not r.ok:
                w.probe("convert_refused")
                if before == e[1].unit and r.exc == "NotImplementedError":
                    others("a refused conversion")
                    return
            settle(e)
            others("a conversion to wavenumbers", e)
        elif o == "result" and e:
            r = attempt(t, op, lambda: results(e[0], e[1]))
            sync()
            if r.ok:
                scribble(r.value)
                if e[0]["kind"] == "ray":
                    ray(t, op, e)
                others("an edit of returned results")
        elif o == "cfgedit":
            r = attempt(t, op, get_conf)
            if r.ok:
                import copy
                was = copy.deepcopy(r.value)
                for v in r.value.values():
                    if isinstance(v, dict):
                        v["mine"] = 1
                if op["i"] % 2:
                    r.value.clear()
                r.value["added"] = {"by": "user"}
                r.value["rsr_dir"] = os.path.join(m.root, "nowhere")
                r.value["download_from_internet"] = not wl["download"]
                r2 = attempt(t, {"u": op["u"] + "g"}, get_conf)
                if not r2.ok or r2.value != was:
                    w.violate("not-independent", "editing one configuration dictionary changes what the next one holds")
        elif o == "update":
            if op["what"] == "rsr" and st.get("outdated"):
                return
            key = (op["what"], op["plat"] if op["what"] in ("rsr", "file") else None)
            put_one(m, op["what"], op["plat"], op["to"], op["mode"])
            files[key] = op["to"]
            w.probe("updated")
            for x in live:
                if op["what"] == "lut":
                    x[3][0].add(op["to"])
                elif op["what"] == "rsr" and x[0]["plat"] == op["plat"]:
                    x[3][1].add(op["to"])
            others("an update of files")
        elif o == "outdate":               # a newer release is out: the library has to fetch it
            if not wl["download"]:
                return
            m.put(os.path.join(m.rsr_dir, K.rsr_marker), b"v0.1.0\n")
            rel = {fx.SAT[p][2]: fx.rsr_file(op["to"], p) for p in fx.SAT}
            rel[K.rsr_marker] = K.rsr_version.encode() + b"\n"
            m.server.files[K.rsr_url] = fx.tarball(rel, 1, K.rsr_marker)
            st["outdated"] = op["to"]
        elif o == "fail":
            fail(t, op)
            others("a failed operation")

    def sync():
        """Did the library fetch the newer release?"""
        if not st.get("outdated") or m.get(os.path.join(m.rsr_dir, K.rsr_marker)) != K.rsr_version.encode() + b"\n":
            return
        for p in fx.SAT:
            files["rsr", p] = st["outdated"]
        for x in live:
            x[3][1].add(st["outdated"])
        st["outdated"] = None

    def settle(e):
        try:
            e[2] = observe(e[0], e[1])
        except Exception:
            live.remove(e)                 # the user broke it
            st.setdefault("kept", []).append(e)

    def ray(t, op, e):
        got = attempt(t, dict(op, u=op["u"] + "y"), lambda: observe(e[0], e[1]))
        if not got.ok:
            w.violate("object-broken", "%s cannot be used any more: %r" % (what(e[0]), got))
            return
        cand = []
        for a in e[3][0]:
            for b in e[3][1]:
                f2 = dict(files)
                f2["lut", None], f2["rsr", e[0]["plat"]] = a, b
                cand.append(f2)
        later.append(("ray", e[0], cand, None, got))

    def get_conf():
        from pyspectral.config import get_config
        return get_config()

    def fail(t, op):
        p = op["plat"]
        path = os.path.join(m.rsr_dir if op["how"] == "damaged" else os.path.join(m.root, "data", "mine"), fx.SAT[p][2])
        if op["how"] == "unknown":
            from_ = lambda: make({"kind": "rsr", "plat": "GOES-16"}, m) and unknown()     # noqa: E731

            def unknown():
                from pyspectral.rsr_reader import RelativeSpectralResponse
                return RelativeSpectralResponse("Nosuch-1", "abi")
            if st.get("outdated"):
                return
            attempt(t, op, from_)
        elif op["how"] == "nospec":
            def fn():
                from pyspectral.solar import SolarIrradianceSpectrum
                return SolarIrradianceSpectrum(filename=os.path.join(m.root, "data", "nosuch.dat"))
            attempt(t, op, fn)
        else:
            if st.get("outdated"):
                return
            key = ("rsr" if op["how"] == "damaged" else "file", p)
            data = fx.rsr_file(files[key], p)
            m.put(path, data[:len(data) // 3] + b"\xff" * (len(data) - len(data) // 3))
            r = attempt(t, op, lambda: make({"kind": key[0], "plat": p}, m))
            if not r.ok:
                w.probe("damaged_refused")
            put_one(m, key[0], p, files[key], "keeptime")

    m.history(wl["ops"], handler)
    for kind, op, f, r, got in later:
        if kind == "ray":
            if not any(x.ok and same(got.value, x.value, 1e-12) for x in (oracle(op, f2) for f2 in f)):
                w.violate("object-changed", "%s gives another result after its returned array was edited" % what(op))
            continue
        exp = oracle(op, f)
        if not r.ok:
            if exp.ok:
                w.violate("creation-fails", "%s cannot be made here (%r) but in a fresh process" % (what(op), r))
        elif not exp.ok or not got.ok:
            if exp.ok != got.ok:
                w.violate("creation-differs", "%s: %r here, %r in a fresh process" % (what(op), got, exp))
        elif not same(got.value, exp.value, 1e-5 if op["kind"] == "calc" else 1e-12):
            w.violate("not-what-is-on-disk", "%s, made after the files were in place, is not the one a fresh process makes from them" % what(op))
