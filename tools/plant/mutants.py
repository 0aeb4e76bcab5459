#!/usr/bin/env python3
"""Try mutants: mutants.py FILE [names].  FILE: '### name | C12 C04' then blocks '<<<path\nold\n===\nnew\n>>>'.

Each is applied to a private clone of /repo; the stable tests and the named checks are run on it.  `--apply NAME DIR` only applies.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def parse(fn):
    out = []
    for part in re.split(r"^### ", open(fn).read(), flags=re.M)[1:]:
        head, body = part.split("\n", 1)
        name, props = (head.split("|") + [""])[:2]
        blocks = re.findall(r"^<<<(\S+)\n(.*?)\n===\n(.*?)\n?>>>", body, flags=re.M | re.S)
        out.append((name.strip(), props.split(), blocks))
    return out


def apply(blocks, d):
    for path, old, new in blocks:
        p = os.path.join(d, path)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit("%s: %d matches for %r" % (path, s.count(old), old[:60]))
        open(p, "w").write(s.replace(old, new))


def main():
    if sys.argv[1] == "--apply":
        fn, name, d = sys.argv[2:5]
        apply([m for m in parse(fn) if m[0] == name][0][2], d)
        return
    for name, props, blocks in parse(sys.argv[1]):
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        top = tempfile.mkdtemp(prefix="plant_")
        try:
            d = os.path.join(top, "repo")
            subprocess.run(["cp", "-a", "/repo", d], check=True)
            subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
            try:
                apply(blocks, d)
            except SystemExit as e:
                print(name, "NOT APPLIED", e, flush=True)
                continue
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "pyspectral/tests"], cwd=d, capture_output=True, text=True)
            res = ["tests " + (t.stdout.strip().splitlines() or ["?"])[-1]]
            for p in props:
                r = subprocess.run([os.path.join(VERIF, "check"), p], env=dict(os.environ, PYSPECTRAL_REPO=d), capture_output=True, text=True)
                lines = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "  "))]
                res.append("%s rc=%d %s" % (p, r.returncode, " ".join(lines)[:200] if r.returncode else "QUIET"))
                if r.returncode not in (0, 1):
                    res.append(r.stderr[-400:])
            print(name, "\n    ".join([""] + res), flush=True)
        finally:
            shutil.rmtree(top, ignore_errors=True)


main()
