"""Helpers of the demonstrations: fake data, a fake data host, kills and errors at the k-th file operation (in forked children)."""
import errno
import io
import os
import shutil
import sys
import tarfile
import tempfile

SCRATCH = tempfile.mkdtemp(prefix="psp_demo_")
_OWNER = os.getpid()


def done(ok, msg=""):
    if os.getpid() == _OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    print("OK" if ok else "BROKEN: " + msg)
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def fresh(name="m"):
    """A machine: configuration and data directories in the scratch directory."""
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    for s in ("rsr", "ray", "tb", "tmp"):
        os.makedirs(os.path.join(d, s))
    config(d)
    os.environ["TMPDIR"] = os.path.join(d, "tmp")
    tempfile.tempdir = os.path.join(d, "tmp")
    return d


def config(d, name="cfg.yaml", **over):
    cfg = {"rsr_dir": os.path.join(d, "rsr"), "rayleigh_dir": os.path.join(d, "ray"), "tb2rad_dir": os.path.join(d, "tb"),
           "download_from_internet": True}
    cfg.update(over)
    import yaml
    p = os.path.join(d, name)
    with open(p, "w") as f:
        yaml.safe_dump(cfg, f)
    os.environ["PSP_CONFIG_FILE"] = p
    return p


def rsr_bytes(platform="GOES-16", sensor="abi", bands=(("ch1", 0.47, 0), ("ch7", 3.89, 0)), shift=0.0):
    import h5py
    import numpy as np
    bio = io.BytesIO()
    with h5py.File(bio, "w") as h:
        h.attrs["description"] = "test"
        h.attrs["platform_name"] = platform
        h.attrs["sensor"] = sensor
        h.attrs["band_names"] = [b[0] for b in bands]
        for name, cw, ndet in bands:
            g = h.create_group(name)
            if ndet:
                g.attrs["number_of_detectors"] = ndet
            for k in range(max(1, ndet)):
                s = g.create_group("det-%d" % (k + 1)) if ndet else g
                w = np.linspace(cw * .97, cw * 1.03, 41).astype("f4")
                c = cw * (1 + 0.004 * k + shift)
                s.create_dataset("response", data=np.exp(-((w - c) / (cw * .01)) ** 2).astype("f4"))
                ds = s.create_dataset("wavelength", data=w)
                ds.attrs["scale"] = 1e-06
                s.attrs["central_wavelength"] = float(c)
    return bio.getvalue()


def lut_bytes(value=0.2):
    import h5py
    import numpy as np
    bio = io.BytesIO()
    with h5py.File(bio, "w") as h:
        h["azimuth_difference"] = np.linspace(0, 180, 5)
        h["satellite_zenith_secant"] = np.linspace(1, 3, 4)
        h["sun_zenith_secant"] = np.linspace(1, 6, 6)
        h["wavelengths"] = np.linspace(400., 800., 9)
        h["reflectance"] = np.full((9, 6, 5, 4), value)
    return bio.getvalue()


def release(shift=0.0, version=None):
    from pyspectral import utils as u
    return {"rsr_abi_GOES-16.h5": rsr_bytes(shift=shift),
            "rsr_modis_EOS-Aqua.h5": rsr_bytes("EOS-Aqua", "modis", (("1", 0.645, 3), ("20", 3.75, 3)), shift),
            "rsr_seviri_Meteosat-10.h5": rsr_bytes("Meteosat-10", "seviri", (("VIS0.6", 0.635, 0), ("IR3.9", 3.92, 0)), shift),
            u.RSR_DATA_VERSION_FILENAME: (version or u.RSR_DATA_VERSION).encode()}


ATMS = ["subarctic_summer", "subarctic_winter", "midlatitude_summer", "midlatitude_winter", "tropical", "us-standard"]


def lut_release(aerosol, value=0.2, version=None):
    from pyspectral import utils as u
    v = u.ATM_CORRECTION_LUT_VERSION[aerosol]
    f = {"rayleigh_lut_%s.h5" % a: lut_bytes(value + 0.01 * i) for i, a in enumerate(ATMS)}
    f[v["filename"]] = (version or v["version"]).encode()
    return f


def put(d, files):
    for n, b in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def tgz(files, first=None):
    bio = io.BytesIO()
    names = sorted(files, key=lambda n: (n != first, n))
    with tarfile.open(fileobj=bio, mode="w:gz") as t:
        for n in names:
            ti = tarfile.TarInfo(n)
            ti.size = len(files[n])
            t.addfile(ti, io.BytesIO(files[n]))
    return bio.getvalue()


class Host:
    """The data host behind requests' transport adapter."""

    def __init__(self, files):
        import requests.adapters
        import urllib3
        self.files, self.log = dict(files), []
        self.status, self.cut, self.hook = 200, None, None

        def send(adapter, request, **kw):
            self.log.append(request.url)
            if self.hook:
                self.hook(request.url)
            body = self.files.get(request.url)
            status = self.status if body is not None else 404
            body = body or b"not found"
            head = {"Content-Length": str(len(body))}
            if self.cut is not None:
                body = body[:self.cut]
                head = {}
            resp = urllib3.HTTPResponse(body=io.BytesIO(body), headers=head, status=status, preload_content=False)
            return adapter.build_response(request, resp)
        requests.adapters.HTTPAdapter.send = send


EVENTS = ("open", "os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.scandir", "os.listdir")
_fault = {"k": -1, "what": None, "n": 0, "root": None, "only": None}


def _hook(event, args):
    if _fault["what"] is None or event not in EVENTS:
        return
    p = args[0]
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not isinstance(p, (str, os.PathLike)) or not str(p).startswith(SCRATCH):
        return
    if _fault["only"] and not _fault["only"](event, args):
        return
    _fault["n"] += 1
    if _fault["n"] == _fault["k"]:
        w = _fault["what"]
        if w == "kill":
            os._exit(99)
        if w == "kbd":
            raise KeyboardInterrupt()
        raise OSError(getattr(errno, w), os.strerror(getattr(errno, w)), str(p))


sys.addaudithook(_hook)


def faulty(k, what, op, only=None):
    """Run op in a forked child with a fault at its k-th file operation; returns (exit status, operations seen)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            _fault.update(k=k, what=what, n=0, only=only)
            rc = 0
            try:
                op()
            except BaseException:
                rc = 1
            _fault["what"] = None
            os.write(w, b"%d" % _fault["n"])
            os._exit(rc)
        finally:
            os._exit(98)
    os.close(w)
    n = os.read(r, 50)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), int(n or 0)


def sweep(setup, op, check, whats=("kill", "EIO", "kbd"), only=None, limit=400):
    """For every file operation of op: fault there, then check(); check returns a complaint or None."""
    for what in whats:
        k = 0
        while k < limit:
            k += 1
            state = setup()
            rc, n = faulty(k, what, op, only)
            why = check(state)
            if why:
                return "%s at file operation %d: %s" % (what, k, why)
            if rc != 99 and k > n:
                break
    return None
