"""Loads fresh copies of the pyspectral modules of /repo's working tree, one set per simulated process."""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("PYSPECTRAL_REPO", "/repo")
PKG = os.path.join(REPO, "pyspectral")
CODE = {}       # module name -> (code, filename, is_package)


def precompile():
    """Compile the working tree's package once; workers share the code objects after fork."""
    CODE.clear()
    for base, dirs, files in os.walk(PKG):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "tests", "data", "etc"))
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(base, f)
            mod = os.path.relpath(path, REPO)[:-3].replace(os.sep, ".")
            pkg = f == "__init__.py"
            if pkg:
                mod = mod[:-len(".__init__")]
            with open(path, "rb") as fh:
                src = fh.read()
            CODE[mod] = (compile(src, path, "exec", dont_inherit=True), path, pkg)
    if "pyspectral.version" not in CODE:
        CODE["pyspectral.version"] = (compile("version = __version__ = '0+sim'\n", "version.py", "exec"),
                                      os.path.join(PKG, "version.py"), False)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        ent = CODE.get(name)
        if ent is None:
            return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=ent[1], is_package=ent[2])
        spec.has_location = True
        if ent[2]:
            spec.submodule_search_locations = [os.path.dirname(ent[1])]
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(CODE[module.__name__][0], module.__dict__)


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    swap_out()


def swap_out():
    """Take this process's pyspectral modules out of sys.modules."""
    mods = {}
    sm = sys.modules
    for n in CODE:
        m = sm.pop(n, None)
        if m is not None:
            mods[n] = m
    return mods


def swap_in(mods):
    sm = sys.modules
    for n in CODE:
        if n not in mods:
            sm.pop(n, None)
    sm.update(mods)
