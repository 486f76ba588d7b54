"""Process set-up: environment, seams that must exist before anything is
imported, the two extension modules (built from /repo's current tree), and the
import of pystruct itself from /repo."""
import contextlib
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EXTENSIONS = {
    # imported name -> candidate .pyx sources under REPO
    "pystruct.models.utils": ["src/utils.pyx"],
    "pystruct.inference._viterbi": ["pystruct/inference/_viterbi.pyx"],
}
ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
       "MPLBACKEND": "Agg", "JOBLIB_MULTIPROCESSING": "1"}


class BuildError(Exception):
    """The current tree does not build: an error of the check, no verdict."""


def ensure_env():
    """Thread counts have to be fixed before numpy is loaded."""
    changed = False
    for k, v in ENV.items():
        if os.environ.get(k) != v:
            os.environ[k] = v
            changed = True
    sys.dont_write_bytecode = True
    return changed


def build_extensions():
    """Compile the .pyx files of the current tree (cached by content)."""
    import numpy
    import Cython
    os.makedirs(BUILD, exist_ok=True)
    procs, result = [], {}
    for name, cands in EXTENSIONS.items():
        src = next((os.path.join(REPO, c) for c in cands
                    if os.path.exists(os.path.join(REPO, c))), None)
        if src is None:
            raise BuildError("no source for %s" % name)
        with open(src, "rb") as f:
            text = f.read()
        key = hashlib.sha256(text + Cython.__version__.encode()
                             + numpy.__version__.encode()
                             + sys.version.encode()).hexdigest()[:16]
        mod = name.rsplit(".", 1)[1]
        so = os.path.join(BUILD, "%s-%s.so" % (mod, key))
        result[name] = so
        if os.path.exists(so):
            continue
        tmp = os.path.join(BUILD, "tmp-%s-%s-%d" % (mod, key, os.getpid()))
        os.makedirs(tmp, exist_ok=True)
        pyx = os.path.join(tmp, mod + ".pyx")
        with open(pyx, "wb") as f:
            f.write(text)
        inc = sysconfig.get_paths()["include"]
        cmd = ("%s -m cython -2 -o %s/%s.c %s && gcc -shared -fPIC -pthread "
               "-O1 -fwrapv -w -I%s -I%s %s/%s.c -o %s/%s.so && mv %s/%s.so %s"
               "; r=$?; find %s -type f -delete; rmdir %s; exit $r"
               % (sys.executable, tmp, mod, pyx, inc, numpy.get_include(),
                  tmp, mod, tmp, mod, tmp, mod, so, tmp, tmp))
        procs.append((name, subprocess.Popen(
            ["bash", "-c", cmd], stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)))
    for name, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError("building %s failed:\n%s"
                             % (name, out.decode(errors="replace")[-3000:]))
    return result


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


_booted = False


def boot():
    """Install the seams and import pystruct.  Idempotent."""
    global _booted
    if _booted:
        return
    ensure_env()
    warnings.simplefilter("ignore")
    table = build_extensions()
    sys.meta_path.insert(0, _Finder(table))
    sys.path.insert(0, REPO)
    from . import seams
    seams.install()
    import pystruct
    got = os.path.abspath(pystruct.__file__)
    if not got.startswith(os.path.abspath(REPO) + os.sep):
        raise BuildError("pystruct imported from %s" % got)
    import pystruct.models
    import pystruct.learners
    import pystruct.inference
    import pystruct.utils
    import pystruct.datasets
    import pystruct.models.utils
    import pystruct.inference._viterbi
    seams.after_import()
    _booted = True


@contextlib.contextmanager
def quiet():
    """Send what the code under test prints to nowhere."""
    old = sys.stdout, sys.stderr
    with open(os.devnull, "w") as null:
        sys.stdout = sys.stderr = null
        try:
            yield
        finally:
            sys.stdout, sys.stderr = old
