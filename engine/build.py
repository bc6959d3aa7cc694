"""Locate an importable sonolus tree whose compiled extensions match /repo's current sources.

If the extensions in /repo were built from exactly the current sources (content hashes, as recorded by the
build) they are used in place; otherwise the tree is copied to a scratch directory and rebuilt there.
"""

import atexit
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
OPT = "sonolus/backend/_opt"


class BuildError(Exception):
    pass


def _sha(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _hashes(root):
    out = {}
    for pat in (OPT + "/*.pyx", OPT + "/*.pxd", OPT + "/*.h", "setup.py", "pyproject.toml"):
        for p in glob.glob(os.path.join(root, pat)):
            out[os.path.relpath(p, root)] = _sha(p)
    return out


def _stamp(root):
    out = {}
    try:
        with open(os.path.join(root, "build/vp-stamp")) as f:
            for line in f:
                a, _, b = line.rstrip("\n").partition("  ")
                if len(a) == 64 and b:
                    out[b] = a
    except OSError:
        return None
    return out


def _complete(root):
    names = [os.path.basename(p)[:-4] for p in glob.glob(os.path.join(root, OPT, "*.pyx"))]
    return all(glob.glob(os.path.join(root, OPT, n + ".*.so")) for n in names)


def prepare():
    """Returns (root to import sonolus from, description)."""
    cur, old = _hashes(REPO), _stamp(REPO)
    if old == cur and _complete(REPO):
        return REPO, "extensions in /repo match its sources"
    d = tempfile.mkdtemp(prefix="sonolus-check-")
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)

    atexit.register(clean)
    root = os.path.join(d, "repo")
    os.mkdir(root)
    for name in ("sonolus", "build", "setup.py", "pyproject.toml", "README.md", "LICENSE", "MANIFEST.in"):
        src = os.path.join(REPO, name)
        if os.path.isdir(src):
            shutil.copytree(
                src, os.path.join(root, name), symlinks=True, ignore=shutil.ignore_patterns("__pycache__")
            )
        elif os.path.exists(src):
            shutil.copy2(src, root)
    shared = lambda h: {k: v for k, v in h.items() if not k.endswith(".pyx")}
    if old is None or shared(old) != shared(cur):
        for p in glob.glob(os.path.join(root, OPT, "*.cpp")):
            os.remove(p)
        for p in glob.glob(os.path.join(root, "build", "lib.*")) + glob.glob(os.path.join(root, "build", "temp.*")):
            shutil.rmtree(p)
    else:
        for k, v in cur.items():
            if k.endswith(".pyx") and old.get(k) != v:
                p = os.path.join(root, k[:-4] + ".cpp")
                if os.path.exists(p):
                    os.remove(p)
    for p in glob.glob(os.path.join(root, OPT, "*.so")):
        os.remove(p)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1", HOME=os.environ.get("HOME", "/root"))
    env.pop("SONOLUS_OPT_DEBUG_BUILD", None)
    env.pop("PYTHONPATH", None)
    r = subprocess.run(
        [PY, "setup.py", "-q", "build_ext", "--inplace", "-j", "8"], cwd=root, env=env, capture_output=True, text=True
    )
    if r.returncode or not _complete(root):
        sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
        raise BuildError("the extensions do not build")
    return root, "extensions rebuilt in a scratch copy"


def use(root):
    """Import sonolus from `root` in this process."""
    from . import shim

    sys.dont_write_bytecode = True
    sys.path.insert(0, root)
    shim.install()
    import sonolus

    assert os.path.realpath(sonolus.__file__).startswith(os.path.realpath(root)), sonolus.__file__
