"""The spectral-response store scenario shared by C01, C02, C04 and C05."""
import os
import sys

from . import fixtures as fx
from .common import K, Machine, Store, gen_knobs, gen_policy, attempt
from .engine import Bypass

REAL = ["pyspectral (all modules, compiled from /repo's working tree, a fresh copy per simulated process)",
        "bin/download_rsr.py and bin/download_atm_correction_luts.py", "requests above its transport adapter",
        "urllib3 response decoding", "tarfile, gzip, tempfile, pathlib, shutil", "h5py and the HDF5 library",
        "numpy, scipy, dask, xarray, yaml"]
STUB = ["network: requests' transport adapter answers from the simulated data host",
        "file system: the real one in a scratch directory, every call intercepted; HDF5's sec2 driver replaced by its "
        "Python file-object driver", "clock, sleep, process id, urandom, temporary names, directory order",
        "data releases: small synthetic files with the structure of the real ones",
        "process kill: the simulated process stops at an intercepted operation, memory lost, completed writes kept"]
PLATS = [s[0] for s in fx.SATS]
OLD = "v1.0.0"
PATHS = ("PYSPECTRAL_RSR_VERSION", ".tgz", "rsr_", "/.pyspectral_download")
SUBSET = ("Meteosat-10", "EOS-Aqua")


def release(name, big=0, plats=None, nested=False):
    f = fx.rsr_release(name, K.rsr_version if name == "cur" else OLD, K.rsr_marker, plats, big if name == "cur" else 0)
    if nested:
        f["doc/sub/about.txt"] = b"about %s\n" % name.encode() * 20
        f["doc/changes.txt"] = b"changes %s\n" % name.encode() * 20
        f["doc/.index"] = b"index %s\n" % name.encode()
        f[".checksums"] = b"sums %s\n" % name.encode()
        f["doc/empty.txt"] = b""
        f["doc/sub dir/Meteosat 10 \u00b5m.txt"] = b"odd name %s\n" % name.encode()
    return f


def build():
    for n in ("download_rsr.py", "download_atm_correction_luts.py"):
        p = os.path.join(K.repo, "bin", n)
        with open(p) as f:
            SCRIPTS[n] = compile(f.read(), p, "exec", dont_inherit=True)
    for r in ("cur", "old", "near"):
        release(r)
    release("cur", 2300000)


INITS = ["missing", "empty", "old", "old", "old-nomarker", "current", "leftovers", "subset"]


def gen_store(rng):
    return {"init": rng.choice(INITS), "big": rng.random() < 0.06, "marker_pos": rng.choice(["first", "last", "middle"]),
            "order": rng.randrange(50), "own": rng.random() < 0.4, "prefix": rng.choice(["", "", "./"]),
            "nested": rng.random() < 0.2}


def init_store(m, wl):
    """Lay out the store before the history begins."""
    st = wl["store"]
    d = m.rsr_dir
    i = st["init"]
    nested = bool(st.get("nested"))
    cur = release("cur", 2300000 if st["big"] else 0, nested=nested)
    if i == "missing":
        pass
    else:
        with Bypass():
            os.makedirs(d, exist_ok=True)
    if i in ("old", "old-nomarker", "leftovers"):
        f = release("old", nested=nested)
        if i == "old-nomarker":
            f.pop(K.rsr_marker)
        m.install(d, f)
    if i == "subset":          # an older release without some of the instruments
        m.install(d, release("old", plats=SUBSET))
    if i == "current":
        m.install(d, cur)
    if i == "leftovers":       # what an interrupted download of an earlier version may have left
        tb = fx.tarball(cur, st["order"], K.rsr_marker, st["marker_pos"])
        m.put(os.path.join(d, "pyspectral_rsr_data.tgz"), tb[:len(tb) // 2])
        m.install(os.path.join(d, ".pyspectral_download_zzz", "data"), {"rsr_abi_GOES-16.h5": b"partial"})
    if st["own"] and i != "missing":
        m.put(os.path.join(d, "rsr_mycam_MySat-1.h5"), fx.rsr_file("old", "GOES-16"))
        m.put(os.path.join(d, "notes", "readme.txt"), b"my notes\n" * 50)
    m.server.files[K.rsr_url] = fx.tarball(cur, st["order"], K.rsr_marker, st["marker_pos"], st["prefix"])
    return Store(m, d, K.rsr_marker, K.rsr_version, cur, "the response store")


def run_script(name, args):
    """Run one of the repository's bin/ scripts inside the simulated process."""
    argv = sys.argv
    sys.argv = [name] + list(args)
    try:
        exec(SCRIPTS[name], {"__name__": "__main__", "__file__": name})
    finally:
        sys.argv = argv


SCRIPTS = {}


def call(op, m=None):
    """Operation -> function to attempt."""
    o = op["op"]
    if o == "request":
        plat = op["plat"]

        def fn():
            from pyspectral.rsr_reader import RelativeSpectralResponse
            return RelativeSpectralResponse(plat, fx.SAT[plat][1])
    elif o == "request_file":
        path = op["path"]

        def fn():
            from pyspectral.rsr_reader import RelativeSpectralResponse
            return RelativeSpectralResponse(filename=os.path.join(m.root, path))
    elif o == "download":
        def fn():
            from pyspectral.utils import download_rsr
            kw = {}
            if op.get("dest"):
                kw["dest_dir"] = os.path.join(m.root, op["dest"])
            if op.get("dry"):
                kw["dry_run"] = True
            return download_rsr(**kw)
    elif o == "check":
        def fn():
            from pyspectral.rsr_reader import check_and_download
            kw = {}
            if op.get("dest"):
                kw["dest_dir"] = os.path.join(m.root, op["dest"])
            if op.get("dry"):
                kw["dry_run"] = True
            return check_and_download(**kw)
    elif o == "script":
        def fn():
            args = ["-d"] if op.get("dry") else []
            if op.get("dest"):
                args += ["-o", os.path.join(m.root, op["dest"])]
            return run_script("download_rsr.py", args)
    else:
        raise ValueError(o)
    return fn


def gen_ops(rng, n, kinds=("request", "request", "request", "download", "check", "script"), p_fault=0.8, restart=0.25):
    ops = []
    for i in range(n):
        if ops and rng.random() < restart:
            ops.append({"u": "o%d" % len(ops), "op": "restart"})
        op = {"u": "o%d" % len(ops), "op": rng.choice(kinds), "f": rng.random() < p_fault}
        if op["op"] == "request":
            op["plat"] = rng.choice(PLATS)
        ops.append(op)
    return ops


def verify_rsr(w, obj, plat, rel="cur", what="request"):
    """The object must hold exactly the released data."""
    try:
        why = fx.compare_rsr(obj.rsr, rel, plat)
        if why is None and sorted(obj.band_names) != sorted(b[0] for b in fx.SAT[plat][4]):
            why = "band names %s" % (obj.band_names,)
    except Exception as e:
        why = "unusable object: %r" % e
    if why is not None:
        w.violate("wrong-data", "%s of %s: %s" % (what, plat, why))
    return why is None


_ = Machine, gen_knobs, gen_policy, attempt
