"""C14: whatever an archive contains, nothing outside of its data directory is touched."""
import gzip
import io
import lzma
import os
import stat as statmod
import tarfile

from .. import fixtures as fx
from .. import lutstore as ls
from .. import net
from .. import rsrstore as rs
from .. import seams
from ..common import K, Machine, Store, attempt, gen_knobs, gen_policy
from ..engine import Bypass

ID = "C14"
RUNS = {"quick": 4000, "thorough": 120000}
REAL, STUB = rs.REAL, rs.STUB + ["device nodes and fifos: a plain stand-in file is made in their place"]
OWN_ESCAPES = True
NOTE = ("Seeded search over histories of hostile, damaged and genuine archives with faults; every mutating call's landing place and a snapshot of "
        "everything outside the destination are checked.")
ASSUME = ["hostile archives use what tar can express (names, links, PAX headers, special files, modes, damaged streams); bugs of the "
          "standard library's extraction filter itself are not searched for",
          "the data directories themselves and the temporary directory are the only places a download may write to"]
RULE = ("the run lays out a response directory and two table directories next to files which must not change (some reached by links "
        "inside the data directories), then a history of downloads, checks, script runs and requests of hostile and genuine archives, "
        "with restarts and up to 2 faults; after every mutating call the place it landed, and after every operation everything outside "
        "the destination (content, mode, link count, modification time), must be as before; archives which cannot be "
        "extracted safely must raise and never make the store current, and a genuine download must then succeed.")
EVIL = b"evil\n" * 8
AEROS = 2


def setup():
    rs.build()
    ls.build()


# ------------------------------------------------------------------------------ archives
# members: [type, name, target or data key, mode, pax]; placeholders: @R = world root (padded), @M = the store's marker
def f(name, data="evil", mode=0o644, **pax):
    return ["f", name, data, mode, pax]


def sym(name, target):
    return ["s", name, target, 0o777, {}]


def hard(name, target):
    return ["h", name, target, 0o644, {}]


def d(name, mode=0o755):
    return ["d", name, "", mode, {}]


def gen_bad(rng):
    """An archive no extraction may accept."""
    up = "../" * rng.randrange(1, 5)
    out = rng.choice(["evil.txt", "victim.txt", "outside/victim.txt", "outside/new/evil.txt", "@S/@M", "@S/evil.h5"])
    k = rng.randrange(12)
    if k == 0:
        return [f(up + out)]
    if k == 1:
        return [f("x.txt", path=up + out)]                      # name replaced by an extended header
    if k == 2:
        return [f("sub/../" + up + out)]
    if k == 3:
        return [sym("l", up + out)] + ([f("l")] if rng.random() < 0.5 else [])
    if k == 4:
        return [sym("l", "@R/outside/victim.txt"), f("l")]
    if k == 5:
        return [sym("l", up.rstrip("/")), f("l/" + out)]
    if k == 6:
        return [sym("l", "@R/outside"), f("l/victim.txt")]
    if k == 7:
        return [hard("h", up + out), f("h")]
    if k == 8:
        return [hard("h", "@R/outside/victim.txt"), f("h")]
    if k == 9:
        return [[rng.choice("cbp"), "node", "", 0o666, {}]]
    if k == 10:
        return [d(up + "outside/newdir"), f(up + "outside/newdir/x")]
    if rng.random() < 0.3:
        return [["s", "l", "x", 0o777, {"linkpath": up + out}], f("l")]
    return [f("m/n/" + "../" * rng.randrange(3, 7) + out)]


def gen_odd(rng):
    """Archives that may be accepted or refused; they only have to stay inside."""
    k = rng.randrange(13)
    if k == 0:
        return [f("@R/outside/victim.txt"), f("/abs.txt")]
    if k == 1:
        return []
    if k == 2:
        return [sym("l", "x.txt"), f("x.txt"), f("l")]
    if k == 3:
        return [d("k1/k2"), sym("k1/k2/up", "../..")]
    if k == 4:
        return [d("k1/k2/up"), sym("k1/k2/up/l", "../../../" + rng.choice(["", "victim.txt", "outside", "@S"]))]
    if k == 5:
        return [f("l/" + rng.choice(["evil.txt", "victim.txt", "@M"]))]
    if k == 6:
        return [f("notes/evil.txt"), f("notes/victim.txt"), f("linkdir/victim.txt"), f("linkdir/new/evil.txt")]
    if k == 7:
        return [f("linkfile"), d("linkdir")]
    if k == 8:
        return [d("x.txt"), f("x.txt/y")]
    if k == 9:
        return [d("ro", 0o500), f("ro/x", mode=0o000), f("s", mode=0o6755)]
    if k == 10:
        return [f("n" * rng.choice([100, 200, 254, 300])), f("a/" * 60 + "x")]
    if k == 11:
        return [hard("h", "x.txt"), f("x.txt"), hard("h2", "x.txt"), f("h2")]
    return [d("linkdir"), d("linkdir/sub"), sym("linkdir/sub/l", ".."), f("linkdir/sub/l/victim.txt")]


def gen_arch(rng):
    r = rng.random()
    if r < 0.22:
        return {"cat": "genuine", "wrap": "gz"}
    a = {"rel": rng.choice(["none", "marker", "marker", "some", "all"]), "at": rng.random()}
    if r < 0.6:
        a.update(cat="bad", wrap=rng.choice(["gz", "gz", "gz", "tar", "xz"]), mem=gen_bad(rng))
    elif r < 0.72:
        a.update(cat="bad", wrap=rng.choice(["garbage", "html", "empty", "trunc", "garbagegz", "gzgarbage"]), mem=[],
                 cut=rng.randrange(20, 990))
        if a["wrap"] == "trunc":
            a["rel"] = rng.choice(["all", "some", "marker"])
    else:
        a.update(cat="odd", wrap=rng.choice(["gz", "gz", "tar", "xz"]), mem=gen_odd(rng))
    return a


def pad(root):
    return root + "/" * (90 - len(root))


def make(a, files, marker, root, sibling):
    """The bytes the data host sends."""
    if a["cat"] == "genuine":
        return fx.tarball(files, 1, marker, "first")
    if a["wrap"] == "html":
        return net.HTML
    if a["wrap"] == "empty":
        return b""
    if a["wrap"] == "garbage":
        return bytes((i * 7 + 3) % 251 for i in range(3000))
    names = [n for n in sorted(files) if n != marker]
    take = {"none": [], "marker": [marker], "some": [marker] + names[:2], "all": [marker] + names}[a["rel"]]
    entries = [["f", n, "rel:" + n, 0o644, {}] for n in take]
    i = int(round(a["at"] * len(entries)))
    if a["wrap"] not in ("trunc", "garbagegz", "gzgarbage"):
        entries[i:i] = a["mem"]

    def sub(s):
        return s.replace("@R", pad(root)).replace("@M", marker).replace("@S", sibling)
    bio = io.BytesIO()
    with tarfile.open(fileobj=bio, mode="w", format=tarfile.PAX_FORMAT) as tar:
        for kind, name, x, mode, pax in entries:
            ti = tarfile.TarInfo(sub(name))
            ti.mode, ti.mtime, ti.uid, ti.gid = mode, 1700000000, 1000, 1000
            ti.pax_headers = {k: sub(v) for k, v in pax.items()}
            data = None
            if kind == "f":
                data = files[x[4:]] if x.startswith("rel:") else EVIL
                ti.size = len(data)
            else:
                ti.type = {"s": tarfile.SYMTYPE, "h": tarfile.LNKTYPE, "d": tarfile.DIRTYPE, "c": tarfile.CHRTYPE,
                           "b": tarfile.BLKTYPE, "p": tarfile.FIFOTYPE}[kind]
                if kind in "sh":
                    ti.linkname = sub(x)
                if kind in "cb":
                    ti.devmajor, ti.devminor = 1, 3
            tar.addfile(ti, io.BytesIO(data) if data is not None else None)
    raw = bio.getvalue()
    if a["wrap"] == "tar":
        return raw
    if a["wrap"] == "xz":
        return lzma.compress(raw, preset=0)
    if a["wrap"] == "garbagegz":
        return b"\x1f\x8b\x08\x00" + bytes((i * 5 + 1) % 256 for i in range(2500))
    if a["wrap"] == "gzgarbage":
        return gzip.compress(bytes((i * 11 + 5) % 253 for i in range(5000)), 0, mtime=0)
    gz = gzip.compress(raw, 0, mtime=0)
    if a["wrap"] == "trunc":
        end = len(gz) - (len(raw) - tar_end(raw)) - 16
        return gz[:max(1, end * a["cut"] // 1000)]
    return gz


def tar_end(raw):
    """Where the members end and the closing zero blocks begin."""
    n = len(raw)
    while n > 512 and raw[n - 512:n] == b"\0" * 512:
        n -= 512
    return n


# ------------------------------------------------------------------------------ scenario
def gen(rng):
    aeros = rng.sample(K.aerosols, AEROS)
    wl = {"knobs": gen_knobs(rng), "policy": gen_policy(rng, 300, max_faults=2, p_none=0.5), "aeros": aeros,
          "links": [x for x in ("linkdir", "linkfile", "dest", "notes") if rng.random() < 0.35],
          "init": [rng.choice(["empty", "old", "current"]) for _ in range(1 + AEROS)]}
    if wl["knobs"]["content_length"] == "encoded":
        wl["knobs"]["content_length"] = "right"      # keep damaged archives as they are on their way
    ops = []
    attack = rng.random() < 0.3          # one store, several archives building on each other
    tgt = rng.randrange(1 + AEROS)
    chain = [[d("k1/k2"), sym("k1/k2/up", "../..")],
             [d("k1/k2/up"), sym("k1/k2/up/l", "../../../" + rng.choice(["", "outside", "@S", "../outside"]))],
             [f("l/" + rng.choice(["evil.txt", "victim.txt", "outside/victim.txt", "@M"]))]]
    n = rng.choice([1, 2, 2, 3, 3, 4])
    for i in range(3 if attack else n):
        if ops and rng.random() < 0.2:
            ops.append({"u": "o%d" % len(ops), "op": "restart"})
        store = tgt if attack else rng.randrange(1 + AEROS)
        arch = gen_arch(rng)
        if attack:
            arch = {"cat": "odd", "wrap": "gz", "rel": rng.choice(["none", "some"]), "at": rng.random(), "mem": chain[i]}
        if rng.random() < 0.15:
            arch["disp"] = rng.choice(["../../outside/victim.txt", "../" * rng.randrange(1, 5) + "evil.tgz", "@R/outside/victim.txt", "data.tgz", "@R/outside/new.tgz"])
        kinds = ["download", "download", "check", "script", "request"]
        ops.append({"u": "o%d" % len(ops), "op": rng.choice(kinds[:2] if attack else kinds), "s": store, "a": arch,
                    "f": rng.random() < (0.2 if attack else 0.5)})
    ops.append({"u": "o%d" % len(ops), "op": rng.choice(["download", "request"]), "s": rng.randrange(1 + AEROS),
                "a": {"cat": "genuine", "wrap": "gz"}, "f": False})
    wl["ops"] = ops
    return wl


def snap(root, allowed):
    """Everything below *root* except what is below the allowed directories."""
    out = {}
    with Bypass():
        for base, ds, fs in os.walk(root):
            for n in list(ds):
                p = os.path.join(base, n)
                st = os.lstat(p)
                if statmod.S_ISLNK(st.st_mode):
                    out[p] = ("link", os.readlink(p))
                elif p in allowed:
                    ds.remove(n)
                    out[p] = ("allowed",)
                else:
                    out[p] = ("dir", st.st_mode)
            for n in fs:
                p = os.path.join(base, n)
                st = os.lstat(p)
                if statmod.S_ISLNK(st.st_mode):
                    out[p] = ("link", os.readlink(p))
                elif statmod.S_ISREG(st.st_mode):
                    with seams.real["open"](p, "rb") as fh:
                        out[p] = ("file", st.st_mode, st.st_nlink, st.st_mtime_ns, st.st_size, fh.read())
                else:
                    out[p] = ("node", st.st_mode)
    return out


def execute(w, wl):
    m = Machine(w, wl)
    # deep enough that every parent-directory name used stays inside of the world
    base = os.path.join(w.root, "data", "a", "b", "c")
    m.rsr_dir, m.ray_dir = os.path.join(base, "rsr"), os.path.join(base, "ray")
    m.write_config()
    dests = [m.rsr_dir] + [os.path.join(m.ray_dir, a) for a in wl["aeros"]]
    markers = [K.rsr_marker] + [K.lut_marker[a] for a in wl["aeros"]]
    versions = [K.rsr_version] + [K.lut_version[a] for a in wl["aeros"]]
    rels = [rs.release("cur")] + [ls.release("cur", a) for a in wl["aeros"]]
    olds = [rs.release("old")] + [ls.release("old", a) for a in wl["aeros"]]
    urls = [K.rsr_url] + [K.lut_url[a] for a in wl["aeros"]]
    for where in ("outside", "data", "data/a", "data/a/b", "data/a/b/c", "data/a/b/c/ray", "."):
        m.put(os.path.normpath(os.path.join(w.root, where, "victim.txt")), b"victim " + where.encode())
        m.put(os.path.normpath(os.path.join(w.root, where, "outside", "victim.txt")), b"victim in outside of " + where.encode())
    for p, i, o in zip(dests, wl["init"], olds):
        if "dest" in wl["links"]:       # the data directory itself is a link: that is the user's choice
            real_d = os.path.join(w.root, "store", "a", "b", "c", os.path.basename(p))
            with Bypass():
                os.makedirs(real_d, exist_ok=True)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(real_d, p)
        m.install(p, {} if i == "empty" else o if i == "old" else rels[dests.index(p)])
        with Bypass():
            if "linkdir" in wl["links"]:
                os.symlink(os.path.join(w.root, "outside"), os.path.join(p, "linkdir"))
            if "linkfile" in wl["links"]:
                os.symlink(os.path.join(w.root, "outside", "victim.txt"), os.path.join(p, "linkfile"))
        if "notes" in wl["links"]:
            m.put(os.path.join(p, "notes", "mine.txt"), b"mine")
    with Bypass():
        reals = [os.path.realpath(p) for p in dests]
    stores = [Store(m, p, mk, v, r, "the store in %s" % w.rel(p)) for p, mk, v, r in zip(dests, markers, versions, rels)]
    state = {"allowed": (), "before": None, "odd": set(), "op": None}

    def inside(p):
        return any(p == a or p.startswith(a + "/") for a in state["allowed"])

    def watch(path):
        if state["op"] is None:
            return
        land = seams._resolve(path, False)
        if not inside(land):
            w.violate("outside", "%s touches %s, which is outside of its data directory" % (describe(state["op"]), w.rel(land)))
    w.watchers.append(watch)

    def describe(op):
        a = op["a"]
        return "%s of %s archive (%s%s)" % (op["op"], {"bad": "a hostile", "odd": "an unusual", "genuine": "the genuine"}[a["cat"]],
                                            a["wrap"], ", members %s" % [x[:3] for x in a["mem"]] if a.get("mem") else "")

    def outside_unchanged(op):
        before, after = state["before"], snap(w.root, state["allowed"])
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p):
                how = "created" if p not in before else "deleted" if p not in after else "changed"
                w.violate("outside", "%s %s %s, which is outside of its data directory" % (describe(op), how, w.rel(p)))
                return
        if w.escapes:
            w.violate("outside", "%s reaches outside of the machine's directories: %s %s" % (
                describe(op), w.escapes[0][0], w.rel(w.escapes[0][1])))

    def fn_of(op):
        s = op["s"]
        if s == 0:
            return rs.call({"op": op["op"], "plat": "GOES-16"}, m)
        aero = wl["aeros"][s - 1]
        if op["op"] == "request":
            return ls.call({"op": "rayleigh", "plat": "GOES-16", "type": aero, "atm": "us-standard", "noreq": True}, m)
        return ls.call({"op": {"download": "luts", "check": "lutcheck", "script": "lutscript"}[op["op"]], "types": [aero]}, m)

    def finish(op):
        state["op"] = None
        if state["before"] is not None:
            outside_unchanged(op)

    def handler(t, op):
        s, a = op["s"], op["a"]
        if s and op["op"] == "request" and 0 in state["odd"]:
            op = dict(op, op="download")
        sib = os.path.relpath(dests[(s + 1) % len(dests)], os.path.dirname(dests[s]))
        body = make(a, rels[s], markers[s], w.root, sib)
        if a.get("disp"):                        # the server also proposes a file name
            body = (200, {"Content-Disposition": 'attachment; filename="%s"' % a["disp"].replace("@R", w.root)}, body)
        m.server.files[urls[s]] = body
        store = stores[s]
        cur_before = None
        if s not in state["odd"] and a["cat"] != "odd":
            store.rebase()
            cur_before = store.current()
        if a["cat"] == "odd":
            state["odd"].add(s)
        if s and op["op"] == "request" and not stores[0].is_current():
            m.server.files[urls[0]] = make({"cat": "genuine"}, rels[0], markers[0], w.root, "")
            state["allowed"] = (reals[s], w.tmpdir, reals[0])
        else:
            state["allowed"] = (reals[s], w.tmpdir)
        state["before"], state["op"] = snap(w.root, state["allowed"]), op
        had = len([q for q in w.requests if q[3] == urls[s]])
        r = attempt(t, op, fn_of(op))
        finish(op)
        fetched = len([q for q in w.requests if q[3] == urls[s]]) > had
        w.probe("fetched_" + a["cat"] if fetched else "not_fetched")
        if a["cat"] == "bad" and fetched:
            if r.ok:
                w.violate("accepted", "%s returned normally" % describe(op))
            elif cur_before is False and store.is_current():
                w.violate("made-current", "%s raised %s but the store now reports version %s" % (describe(op), r.exc, store.version))
        if cur_before is not None:
            store.check()
        if a["cat"] == "genuine" and not op.get("f") and not state["odd"]:
            if not r.ok:
                w.violate("no-recovery", "a genuine archive after hostile ones: fault-free %s fails: %r" % (op["op"], r))
            elif not store.is_current() or store.missing():
                w.violate("not-complete", "fault-free %s of the genuine archive left the store not current or incomplete" % op["op"])

    def crashed(op):
        if op is None or op["op"] == "restart":
            return
        finish(op)
        if op["s"] not in state["odd"]:
            stores[op["s"]].check()
            if op["a"]["cat"] == "bad":
                stores[op["s"]].rebase()
    handler.crashed = crashed
    m.history(wl["ops"], handler)
