"""Builds and imports the magpie of /repo's working tree, from a scratch copy.

Nothing is ever written under /repo.  The Fortran extensions are compiled from
the copied sources with f2py, the way the repository's setup.py does (the list
of extensions is read from setup.py); they are compiled only by the checks that
exercise them, the other checks get a stand-in that raises when it is called.
"""
import ast
import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable


def make_scratch():
    base = tempfile.mkdtemp(prefix="mc_magpie_")
    owner = os.getpid()

    def rm():
        if os.getpid() == owner:
            shutil.rmtree(base, ignore_errors=True)
    atexit.register(rm)
    return base


def copy_tree(base):
    dst = os.path.join(base, "pkg")
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "magpie"), os.path.join(dst, "magpie"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.pyc"))
    return dst


def extensions():
    """[(module name, [sources])] of the Extension(...) calls in setup.py."""
    with open(os.path.join(REPO, "setup.py")) as f:
        tree = ast.parse(f.read())
    out = []
    for node in ast.walk(tree):
        if isinstance(node, ast.Call):
            fn = node.func
            name = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", "")
            if name == "Extension":
                kw = {k.arg: k.value for k in node.keywords}
                pos = list(node.args)
                nm = kw.get("name", pos[0] if pos else None)
                src = kw.get("sources", pos[1] if len(pos) > 1 else None)
                out.append((ast.literal_eval(nm), ast.literal_eval(src)))
    return out


def build_fortran(pkg, flags=None):
    """Compiles every extension into the scratch copy.  Returns '' or an error."""
    procs = []
    for name, sources in extensions():
        mod = name.split(".")[-1]
        wd = os.path.join(pkg, "_b_" + mod)
        os.makedirs(wd)
        srcs = [os.path.join(pkg, s) for s in sources]
        srcdir = os.path.dirname(srcs[0])
        env = dict(os.environ)
        env.pop("MALLOC_PERTURB_", None)
        if flags:
            env["FFLAGS"] = flags
        env["PATH"] = os.path.dirname(PY) + os.pathsep + env.get("PATH", "")
        cmd = [PY, "-m", "numpy.f2py", "-c", "--backend", "meson",
               "-I" + srcdir, "-m", mod] + srcs
        log = open(os.path.join(wd, "log"), "w")
        procs.append((mod, wd, srcdir, subprocess.Popen(
            cmd, cwd=wd, env=env, stdout=log, stderr=subprocess.STDOUT)))
    err = ""
    for mod, wd, srcdir, p in procs:
        p.wait()
        so = [f for f in os.listdir(wd) if f.endswith(".so")]
        if p.returncode or not so:
            with open(os.path.join(wd, "log")) as f:
                err += "%s: %s\n" % (mod, f.read()[-1500:])
        for f in so:
            shutil.move(os.path.join(wd, f), os.path.join(srcdir, f))
        shutil.rmtree(wd, ignore_errors=True)
    return err


class _Absent(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def missing(*a, **k):
            raise RuntimeError("the Fortran extension is not built for this check")
        return missing


def import_magpie(pkg, with_src, with_maps):
    sys.dont_write_bytecode = True
    sys.path.insert(0, pkg)
    if not with_src:
        for name, _ in extensions():
            sys.modules[name] = _Absent(name)
    import magpie
    if with_maps:
        import magpie.densegrid
        import magpie.montecarlo
    assert os.path.realpath(magpie.__file__).startswith(os.path.realpath(pkg))
    return magpie
