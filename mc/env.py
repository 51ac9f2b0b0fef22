"""Closes the system under test: imports dwave-gate from /repo's working tree,
with extensions that are known to be compiled from it, and owns randomness.

Nothing below /repo is written.  If /repo's compiled extensions cannot be shown
to stem from the current sources, they are compiled in a scratch directory and
only the extension modules are taken from there; all Python sources always come
from /repo.
"""
import atexit
import filecmp
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
PY = "/opt/venv/bin/python"
_scratch = []


def _cleanup():
    for pid, d in list(_scratch):
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
            _scratch.remove((pid, d))


atexit.register(_cleanup)


def scratch_dir(prefix="mc-"):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    _scratch.append((os.getpid(), d))
    return d


FINGERPRINT = r"""
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin PYTHONDONTWRITEBYTECODE=1
cd "$1" || exit 1
{
    "$2" -V; g++ --version
    for f in setup.py setup.cfg pyproject.toml; do [ -f $f ] && sha256sum $f; done
    find dwave -type f ! -name '*.py' ! -name '*.pyi' ! -name '*.pyc' | LC_ALL=C sort | while read -r f; do
        case $f in *.cpp|*.c) [ -f "${f%.*}.pyx" ] && continue;; esac
        sha256sum "$f"
    done
    sha256sum dwave/gate/__init__.py
} | sha256sum
"""


def _env():
    e = dict(os.environ)
    for k in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX="/nonexistent")
    return e


def _extensions_current():
    """Whether /repo's extensions were compiled from /repo's current sources."""
    stamp = os.path.join(REPO, "build", "vp-stamp")
    if not os.path.isfile(stamp):
        return False
    got = subprocess.run(
        ["bash", "-c", FINGERPRINT, "fp", REPO, PY], capture_output=True, text=True, env=_env()
    ).stdout
    with open(stamp) as f:
        if f.read() != got:
            return False
    # the kernels' source is generated: regenerate it elsewhere and compare
    d = scratch_dir()
    os.makedirs(os.path.join(d, "dwave/gate/simulator"))
    gen = os.path.join(REPO, "dwave/gate/simulator/operation_generation.py")
    r = subprocess.run([PY, gen], cwd=d, env=_env(), capture_output=True)
    same = r.returncode == 0 and all(
        os.path.isfile(os.path.join(REPO, "dwave/gate/simulator", n))
        and filecmp.cmp(
            os.path.join(d, "dwave/gate/simulator", n),
            os.path.join(REPO, "dwave/gate/simulator", n),
            shallow=False,
        )
        for n in ("ops.h", "ops.pxd")
    )
    shutil.rmtree(d, ignore_errors=True)
    return same


def _compile_extensions():
    """Compile the extensions of /repo's working tree in a scratch directory."""
    d = scratch_dir("mc-build-")

    def ignore(path, names):
        skip = {".git", "build", "__pycache__", "tests", "docs", "examples", "releasenotes"}
        return [n for n in names if n in skip or n.endswith((".so", ".pyc", ".egg-info"))]

    tree = os.path.join(d, "tree")
    shutil.copytree(REPO, tree, ignore=ignore, symlinks=True)
    for root, _, files in os.walk(os.path.join(tree, "dwave")):
        for f in files:
            base, ext = os.path.splitext(f)
            if ext in (".c", ".cpp") and base + ".pyx" in files:
                os.remove(os.path.join(root, f))
            if f in ("ops.h", "ops.pxd") and os.path.basename(root) == "simulator":
                os.remove(os.path.join(root, f))
    for cmd in (
        [PY, "dwave/gate/simulator/operation_generation.py"],
        [PY, "setup.py", "-q", "build_ext", "--inplace", "--force", "-j", "4"],
    ):
        r = subprocess.run(cmd, cwd=tree, env=_env(), capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
            raise SystemExit(3)
    mods = {}
    for root, _, files in os.walk(os.path.join(tree, "dwave")):
        for f in files:
            if f.endswith(".so"):
                rel = os.path.relpath(os.path.join(root, f.split(".")[0]), tree)
                mods[rel.replace(os.sep, ".")] = os.path.join(root, f)
    return mods


class _Finder:
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        if name in self.mods:
            loader = importlib.machinery.ExtensionFileLoader(name, self.mods[name])
            return importlib.util.spec_from_file_location(name, self.mods[name], loader=loader)
        return None


class Randomness:
    """The answers given to whoever asks numpy for a random generator.

    hook(seed) -> generator, or None for numpy's own behaviour."""

    hook = None


def setup():
    """Prepare the import of dwave.gate; returns how the extensions were obtained."""
    import warnings

    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)

    if _extensions_current():
        how = "extensions of /repo (fingerprint and generated kernels verified)"
    else:
        mods = _compile_extensions()
        sys.meta_path.insert(0, _Finder(mods))
        how = "extensions compiled from /repo in a scratch directory"

    import numpy as np

    real = np.random.default_rng

    def default_rng(seed=None):
        if Randomness.hook is not None:
            return Randomness.hook(seed)
        return real(seed)

    np.random.default_rng = default_rng
    Randomness.real = staticmethod(real)

    import dwave.gate

    if not os.path.realpath(dwave.gate.__file__).startswith(os.path.realpath(REPO) + os.sep):
        sys.stderr.write("dwave.gate is not imported from %s\n" % REPO)
        raise SystemExit(3)
    return how


def make_scripted():
    """Class of generators answering uniform draws from a script."""
    import numpy as np

    class Scripted(np.random.Generator):
        def __init__(self, answers, default=None):
            super().__init__(np.random.PCG64(0))
            self.answers = list(answers)
            self.used = []
            self.other = 0
            self.default = default

        def _next(self):
            if len(self.used) < len(self.answers):
                u = self.answers[len(self.used)]
            elif self.default is not None:
                u = self.default
            else:
                raise Exhausted()
            self.used.append(u)
            return u

        def uniform(self, low=0.0, high=1.0, size=None):
            if size is None:
                return low + (high - low) * self._next()
            n = int(np.prod(size))
            return (low + (high - low) * np.array([self._next() for _ in range(n)])).reshape(size)

        def random(self, size=None, dtype=np.float64, out=None):
            if size is None:
                return self._next()
            n = int(np.prod(size))
            return np.array([self._next() for _ in range(n)]).reshape(size)

    return Scripted


class Exhausted(Exception):
    """More random draws than scripted answers."""
