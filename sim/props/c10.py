"""C10: test-support contexts block the network and leave no trace."""
import os

import numpy as np

from .. import fixtures as fx
from .. import lutstore as ls
from .. import rsrstore as rs
from ..common import K, Machine, attempt, gen_knobs, gen_policy, wipe
from ..engine import Bypass, SimAbort, SimCrash

ID = "C10"
RUNS = {"quick": 2500, "thorough": 60000}
REAL, STUB = rs.REAL, rs.STUB
ASSUME = ["one process, contexts strictly nested", "explicit download functions are only called with downloads forbidden",
          "a temporary directory may stay behind only if its own removal was hit by an injected error"]
NOTE = ("Seeded search over nestings of the public contexts, bodies and faults while setting up, using or leaving them; after each exit environment, "
        "configuration, response loading and HTTP behaviour are compared with a fingerprint taken before entering; file and network use inside is "
        "checked against the directories the context owns.")
RULE = ("a random tree (depth <= 3) of override_config, mock_rsr, mock_rsr_files, mock_rayleigh, mock_rayleigh_luts, mock_tb_conversion, "
        "mock_pyspectral_downloads, init_tb_cache and forbid_pyspectral_downloads with given or temporary directories; bodies create responses, corrections and "
        "calculators, attempt downloads, raise; up to 3 faults (I/O errors, torn writes, interrupts, memory) anywhere; the process starts with "
        "the configuration variable set, unset or pointing to a missing file.")
CTX = ["mock_pyspectral_downloads", "mock_rsr", "mock_rayleigh", "mock_tb_conversion", "override_config", "forbid_pyspectral_downloads",
       "mock_pyspectral_downloads", "mock_rsr", "mock_rayleigh", "mock_tb_conversion", "mock_rsr_files", "mock_rayleigh_luts", "init_tb_cache"]
CWL = {"VIS006": 0.61, "IR_039": 3.7, "IR_108": 11.5}
SMALL_LUT = None


def setup():
    global SMALL_LUT
    rs.build()
    ls.build()
    SMALL_LUT = {"azimuth_difference": fx.LUT_AZI, "reflectance": np.full((9, 6, 5, 4), 0.25), "satellite_zenith_secant": fx.LUT_SATZ,
                 "sun_zenith_secant": fx.LUT_SUNZ, "wavelengths": fx.LUT_W}


EXTRA = {"key": lambda c, d: {"made_by": c["u"]}, "tb": lambda c, d: {"tb2rad_dir": d + "/other"},
         "platform": lambda c, d: {"Sat-%s-imager" % c["u"]: {"path": d, "ch1": "a.txt"}}}


def gen_ctx(rng, st, depth):
    st["n"] += 1
    c = {"u": "c%d" % st["n"], "k": rng.choice(CTX), "dir": rng.random() < 0.5, "f": rng.random() < 0.7}
    if c["k"] in ("mock_rsr", "mock_rsr_files", "mock_tb_conversion", "mock_pyspectral_downloads"):
        c["cw"] = rng.random() < 0.4
    if c["k"] in ("mock_rsr", "mock_rsr_files"):
        c["ver"] = rng.choice([None, None, None, "none", "v0.0.1"])
    if c["k"] in ("mock_rayleigh", "mock_rayleigh_luts"):
        c["ver"] = rng.choice([None, None, None, "none", "v0.0.1"])
    if c["k"] in ("mock_rayleigh", "mock_tb_conversion"):
        c["rsr"] = rng.random() < 0.3
    if c["k"] == "mock_pyspectral_downloads":
        c["extra"] = rng.choice([None, None, "key", "tb", "platform"])
    if c["k"] == "override_config":
        c["how"] = rng.choice(["options", "options", "path", "empty"])
    c["depth"] = depth
    c["reuse"] = rng.random() < 0.2          # the directory of an earlier context of the same run
    body = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.3 and depth < 3:
            body.append(gen_ctx(rng, st, depth + 1))
        else:
            st["n"] += 1
            body.append({"u": "b%d" % st["n"], "use": rng.choice(["rsr", "rsr", "ray", "calc", "dl", "dlluts", "check", "conv", "cfg", "cfg"]),
                         "f": rng.random() < 0.5})
    if rng.random() < 0.25:
        st["n"] += 1
        body.insert(rng.randrange(len(body) + 1), {"u": "b%d" % st["n"], "use": "raise", "exc": rng.choice(["V", "K", "S", "G"])})
    c["body"] = body
    return c


def gen(rng):
    wl = {"knobs": gen_knobs(rng), "env": rng.choice(["set", "set", "set", "unset", "missing", "empty"]), "download": True,
          "store": rng.choice(["current", "old"])}
    wl["policy"] = gen_policy(rng, 400, p_none=0.25, kinds=["errno", "torn", "short", "kbd", "mem"],
                              focus_kinds=[["open_w"], ["write"], ["unlink"], ["mkdir"], ["replace"], ["listdir"], ["close_w"], ["open_r", "read"],
                                           ["stat"], ["mkdir", "open_w", "write", "close_w", "replace"]])
    st = {"n": 0}
    wl["ops"] = [gen_ctx(rng, st, 1) for _ in range(rng.choice([1, 1, 2]))]
    return wl


class Body(Exception):
    pass


EXC = {"V": Body, "K": KeyboardInterrupt, "S": SystemExit, "G": GeneratorExit}


def make(m, c, st):
    """The context manager and what it promises: own directories per component."""
    from pathlib import Path

    from pyspectral import testing
    base = Path(m.root) / "given" / (c["u"] if not c.get("reuse") else "shared%d" % c["depth"])
    kw, own = {}, {}
    k = c["k"]
    cw = dict(CWL) if c.get("cw") else None
    if k == "mock_pyspectral_downloads":
        if c["dir"]:
            kw["tmp_path"] = base
        if cw:
            kw["rsr_files_kwargs"] = {"central_wavelengths": cw}
        if c.get("extra"):
            kw["extra_config_options"] = EXTRA[c["extra"]](c, str(base))
            if c["extra"] == "tb":
                with Bypass():
                    os.makedirs(base / "other", exist_ok=True)
        own = {"rsr": cw, "ray": "default", "tb": True,
               "cfg": dict({"download_from_internet": False}, **kw.get("extra_config_options", {}))}
    elif k in ("mock_rsr", "mock_rsr_files"):
        if c["dir"] or k == "mock_rsr_files":
            kw["rsr_dir"] = base / "r"
        if cw:
            kw["central_wavelengths"] = cw
        if c["ver"]:
            kw["rsr_data_version"] = None if c["ver"] == "none" else c["ver"]
        own = {"rsr": cw}
    elif k in ("mock_rayleigh", "mock_rayleigh_luts"):
        kw["lut_data"] = SMALL_LUT
        if c["dir"] or k == "mock_rayleigh_luts":
            kw["rayleigh_dir"] = base / "y"
        if c["ver"]:
            kw["existing_version"] = False if c["ver"] == "none" else c["ver"]
        if c.get("rsr"):
            kw["rsr_dir"] = base / "r"
        own = {"rsr": None, "ray": "none" if c["ver"] == "none" else "small"}
    elif k == "mock_tb_conversion":
        if c["dir"]:
            kw["tb2rad_dir"] = base / "t"
            with Bypass():
                os.makedirs(base / "t", exist_ok=True)
        if c.get("rsr"):
            kw["rsr_dir"] = base / "r"
        if cw:
            kw["central_wavelengths"] = cw
        own = {"rsr": cw, "tb": True}
    elif k == "init_tb_cache":
        return testing.init_tb_cache(base / "t"), {}
    elif k == "override_config":
        if c["how"] == "path":
            m.write_config("given_%s.yaml" % c["u"], rsr_dir=str(base / "r"), rayleigh_dir=str(base / "y"), tb2rad_dir=str(base / "t"))
            kw["config_path"] = Path(m.cfg_path("given_%s.yaml" % c["u"]))
        elif c["how"] == "options":
            kw["config_options"] = {"rsr_dir": str(base / "r"), "rayleigh_dir": str(base / "y"), "download_from_internet": False}
            own = {"cfg": dict(kw["config_options"])}
    elif k == "forbid_pyspectral_downloads":
        return testing.forbid_pyspectral_downloads(), {"forbid": True}
    return getattr(testing, k)(**kw), own


def fingerprint(m, t):
    """How configuration, response loading and HTTP behave right now (no faults while looking)."""
    w = m.w
    fo, w.faults_on = w.faults_on, False
    nreq = len(w.requests)
    out = [("env", tuple(sorted(os.environ.items())))]
    try:
        from pyspectral.config import get_config
        from pyspectral.rsr_reader import RelativeSpectralResponse
        from pyspectral.utils import download_rsr
        try:
            cfg = get_config()
            out.append(("config", tuple(sorted((k, str(v)) for k, v in cfg.items()))))
        except OSError as e:
            out.append(("config", type(e).__name__))
        try:
            r = RelativeSpectralResponse(filename=os.path.join(m.root, "outside", "rsr_abi_GOES-16.h5"))
            b = sorted(r.rsr)[0]
            out.append(("loading", (tuple(sorted(r.rsr)), float(r.rsr[b]["det-1"]["central_wavelength"]),
                                    float(np.sum(r.rsr[b]["det-1"]["response"])))))
        except (OSError, ValueError) as e:
            out.append(("loading", type(e).__name__))
        dest = os.path.join(m.root, "outside", "dest")
        wipe(dest)
        try:
            download_rsr(dest_dir=dest)
            out.append(("http", "%d requests, %s" % (len(w.requests) - nreq, sorted(m.snapshot(dest)))))
        except Exception as e:
            out.append(("http", "%s, %d requests" % (type(e).__name__, len(w.requests) - nreq)))
    except (SimAbort, SimCrash):
        raise
    except Exception as e:
        out.append(("unusable", repr(e)[:200]))
    wipe(os.path.join(m.root, "outside", "dest"))
    del w.requests[nreq:]
    w.faults_on = fo
    return out


def tmp_list(m):
    with Bypass():
        return sorted(os.listdir(m.w.tmpdir))


def nfaults(w):
    return sum(w.fault_counts.values())


def execute(w, wl):
    m = Machine(w, wl)
    m.install(m.rsr_dir, rs.release("cur" if wl["store"] == "current" else "old"))
    m.install(os.path.join(m.ray_dir, "marine_clean_aerosol"), ls.release("old", "marine_clean_aerosol"))
    m.put(m.root + "/outside/rsr_abi_GOES-16.h5", fx.rsr_file("cur", "GOES-16"))
    small = {K.rsr_marker: K.rsr_version.encode(), "a.txt": b"a"}
    m.server.files[K.rsr_url] = fx.tarball(small)
    for a in K.aerosols:
        m.server.files[K.lut_url[a]] = fx.tarball({"a.txt": b"a"})
    env = {}
    if wl["env"] == "missing":
        env["PSP_CONFIG_FILE"] = m.root + "/etc/gone.yaml"
    elif wl["env"] == "empty":
        env["PSP_CONFIG_FILE"] = ""
    p = m.new_proc(env)
    if wl["env"] == "unset":
        p.env.pop(b"PSP_CONFIG_FILE")
    watched = [os.path.join(m.root, "data", x) + os.sep for x in ("rsr", "ray", "tb2rad")] + [os.path.join(m.root, "home") + os.sep]
    opened = []
    orig_step = w.step

    def step(t, kind, path=None, options=(), switch=True):
        if path is not None and kind in ("open_r", "open_w") and any(str(path).startswith(d) for d in watched):
            opened.append((kind, w.rel(path)))
        return orig_step(t, kind, path, options, switch)
    w.step = step

    def check_config(top):
        """Inside a context that sets the configuration, that is the one in force, with nothing of an earlier context."""
        from pyspectral.config import get_config
        w.probe("nontrivial")
        cfg = get_config()
        for k, v in top["cfg"].items():
            if cfg.get(k) != v:
                w.violate("wrong-configuration", "inside %s the configuration has %s=%r instead of %r" % (top["k"], k, cfg.get(k), v))
        more = sorted(set(cfg) - set(top["cfg"]) - {"rsr_dir", "rayleigh_dir", "tb2rad_dir", "download_from_internet"})
        if more:
            w.violate("wrong-configuration", "inside %s the configuration has %s, which nobody set" % (top["k"], more))

    def use(t, b, scopes):
        """One use inside the contexts; returns nothing, raises what the body sees."""
        t.op, t.n, t.faults = b["u"], 0, bool(b.get("f"))
        eff = {}
        for s in scopes:
            eff.update(s)
        top = scopes[-1] if scopes else {}
        nreq, nf = len(w.requests), nfaults(w)
        del opened[:]
        k = b["use"]
        if k == "raise":
            raise EXC[b["exc"]]("body")
        guarded = False
        try:
            if k == "cfg" and top.get("cfg") is not None:
                check_config(top)
            elif k == "rsr" and "rsr" in top:
                guarded = True
                from pyspectral.rsr_reader import RelativeSpectralResponse
                r = RelativeSpectralResponse("Meteosat-10", "seviri")
                cw = float(r.rsr["IR_108"]["det-1"]["central_wavelength"])
                want = (top["rsr"] or {}).get("IR_108", 0.46)
                if abs(cw - want) > 1e-6:
                    w.violate("wrong-fake", "responses inside %s are centred at %s instead of %s" % (top["k"], cw, want))
            elif k == "ray" and "ray" in top and top["ray"] != "none":
                guarded = True
                from pyspectral.rayleigh import Rayleigh
                r = Rayleigh("Meteosat-10", "seviri", aerosol_type="marine_clean_aerosol")
                a = np.full((2, 2), 30.)
                refl = np.asarray(r.get_reflectance(a, a, a, 0.5))
                want = 25.0 if top["ray"] == "small" else 100 * np.interp(500., [400., 800.], [0.668, 0.115])
                if refl.shape != (2, 2) or not np.allclose(refl, want, rtol=1e-4):
                    w.violate("wrong-fake", "correction inside %s is %s instead of %s" % (top["k"], refl.ravel()[:2], want))
            elif k == "calc" and "tb" in top and top["rsr"]:
                guarded = True
                from pyspectral.near_infrared_reflectance import Calculator
                c = Calculator("Meteosat-10", "seviri", "IR3.9", solar_flux=2.0)
                tb = np.asarray(c.lut["tb"])
                if tb.shape != (2100,):
                    w.violate("wrong-fake", "table with %s temperatures" % (tb.shape,))
            elif k == "conv" and "rsr" in top:
                guarded = True
                from pyspectral.radiance_tb_conversion import RadTbConverter
                RadTbConverter("Meteosat-10", "seviri", "IR10.8").tb2radiance(np.array([280.]))
            elif k == "check" and top.get("rsr", 0) != 0 and not top.get("ver"):
                guarded = True
                from pyspectral.rsr_reader import check_and_download
                check_and_download()
            elif k in ("dl", "dlluts") and eff.get("forbid"):
                guarded = True
                from pyspectral import utils
                raised = False
                try:
                    if k == "dl":
                        utils.download_rsr()
                    else:
                        utils.download_luts(aerosol_types=["marine_clean_aerosol"])
                except (SimAbort, SimCrash):
                    raise
                except BaseException:
                    raised = True
                    if nfaults(w) > nf:
                        raise
                if not raised:
                    w.violate("not-forbidden", "a download with downloads forbidden did not raise")
        except (SimAbort, SimCrash):
            raise
        except (KeyboardInterrupt, MemoryError, OSError, RuntimeError, Exception) as e:
            if nfaults(w) == nf and wl["env"] not in ("missing", "empty"):
                w.violate("unusable", "%s inside %s fails: %r" % (k, [s["k"] for s in scopes], e))
            raise
        finally:
            t.faults = False
            if guarded:
                w.probe("nontrivial")
                if len(w.requests) > nreq:
                    w.violate("request-left", "%s inside %s sent %s" % (k, [s["k"] for s in scopes], w.requests[-1][2:]))
                if opened and not (k in ("dl", "dlluts")):
                    w.violate("other-directory", "%s inside %s: %s %s" % ((k, [s["k"] for s in scopes]) + opened[0]))

    def block(t, c, scopes):
        """Enter, run the body, leave; check that nothing changed.  Exceptions propagate."""
        before, tmp0 = fingerprint(m, t), tmp_list(m)
        cm, own = make(m, c, None)
        own = dict(own, k=c["k"], ver=c.get("ver"))
        own.pop("ver") if not own["ver"] else None
        phase, fexit = "enter", [0, 0]
        t.op, t.n, t.faults = c["u"], 0, bool(c.get("f"))
        err = None
        nf = nfaults(w)
        try:
            try:
                with cm:
                    t.faults = False
                    phase = "body"
                    try:
                        for b in c["body"]:
                            if "k" in b:
                                # only a context that sets the configuration, too, makes its mocks effective
                                block(t, b, scopes + [own])
                            else:
                                use(t, b, scopes + [effective(scopes, own)])
                        # nothing an inner context did may have changed this one
                    finally:
                        t.op, t.n, t.faults = c["u"] + "x", 0, bool(c.get("f"))
                        fexit[0] = nfaults(w)
                        phase = "exit"
            finally:
                t.faults = False
                fexit[1] = nfaults(w)
        except (SimAbort, SimCrash):
            raise
        except BaseException as e:
            err = e
        w.note("%s left in %s by %s" % (c["u"], phase, type(err).__name__))
        # the exception, if any, is still alive here, as it is in an except clause or a test report
        after, tmp1 = fingerprint(m, t), tmp_list(m)
        how = "normally" if err is None else "by %s in %s" % (type(err).__name__, phase)
        if after != before:
            diff = [a[0] for a, b in zip(after, before) if a != b] or ["?"]
            w.violate("trace-left", "%s left %s: %s differs from before" % (c["k"], how, ", ".join(diff)))
        removal_hit = fexit[1] > fexit[0] if phase != "enter" else False
        if phase == "enter" and nfaults(w) > nf + 1:
            removal_hit = True                   # several faults while setting up: one may have hit the removal
        if tmp1 != tmp0 and not removal_hit and not st["excused"]:
            w.violate("temp-left", "%s left %s: %s stays in the temporary directory" % (
                c["k"], how, [x[:26] for x in tmp1 if x not in tmp0] or "something"))
        elif tmp1 != tmp0:
            st["excused"] = True
        if err is None and phase == "enter":
            w.violate("swallowed", "%s: the body did not run" % c["k"])
        if err is not None:
            w.probe("left_by_exception_in_" + phase)
            if nfaults(w) == nf and not isinstance(err, tuple(EXC.values())) and wl["env"] not in ("missing", "empty") and not w.violations:
                w.violate("context-fails", "%s %s: %r" % (c["k"], how, err))
            raise err
        elif any(b.get("use") == "raise" for b in c["body"]):
            w.violate("swallowed", "%s swallowed the exception of its body" % c["k"])

    def effective(scopes, own):
        k = own["k"]
        if k in ("mock_rsr_files", "mock_rayleigh_luts", "init_tb_cache"):
            return {"k": k}                      # without the configuration nothing is promised
        if k == "forbid_pyspectral_downloads":
            return dict(effective(scopes[:-1], scopes[-1]) if scopes else {"k": k}, forbid=True)
        return own

    st = {"excused": False}

    def body(t):
        for c in wl["ops"]:
            try:
                block(t, c, [])
            except (SimAbort, SimCrash):
                raise
            except BaseException as e:
                e.__traceback__ = None
            if w.violations:
                return
    w.run([(p, "T", body)], switching=False)


_ = attempt
