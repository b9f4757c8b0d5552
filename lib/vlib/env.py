"""Process environment: which tree is checked, native extension build, import path.

VERIF_REPO selects another checkout (used only to try planted bugs in scratch
copies); every registered command runs with it unset, i.e. against /repo.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SPEC = os.path.join(VERIF, "spec")

_BUILD_SUFFIX = (".cpp", ".cc", ".c", ".h", ".hpp", ".cuh", ".inl")
_BUILD_NAMES = ("setup.py", "pyproject.toml", "setup.cfg", "README.md")


def _build_inputs():
    found = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(
            d for d in dirs
            if not d.startswith(".") and not (rel == "." and d == "build") and d != "__pycache__"
        )
        for name in sorted(files):
            if name.endswith(_BUILD_SUFFIX) or (rel == "." and name in _BUILD_NAMES):
                found.append(os.path.normpath(os.path.join(rel, name)))
    return found


def build_extensions():
    """Compile the native extensions of the checked tree outside the tree."""
    inputs = _build_inputs()
    digest = hashlib.sha256()
    for rel in inputs:
        digest.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as stream:
            digest.update(hashlib.sha256(stream.read()).digest())
    os.makedirs(CACHE, exist_ok=True)
    target = os.path.join(CACHE, "ext-" + digest.hexdigest()[:24])
    with open(os.path.join(CACHE, "ext.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(target, "DONE")):
            return target
        # Keep the cache small: drop builds of other trees.
        entries = sorted(
            (os.path.getmtime(os.path.join(CACHE, e)), e)
            for e in os.listdir(CACHE) if e.startswith("ext-")
        )
        for _, entry in entries[:-6]:
            shutil.rmtree(os.path.join(CACHE, entry), ignore_errors=True)
        work = tempfile.mkdtemp(prefix="extbuild-", dir=CACHE)
        try:
            for rel in inputs:
                dst = os.path.join(work, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, rel), dst)
            env = dict(os.environ)
            env.pop("PYTHONPATH", None)
            done = subprocess.run(
                [sys.executable, "setup.py", "-q", "build_ext", "--inplace", "-j", "3"],
                cwd=work, env=env, capture_output=True, text=True,
            )
            built = [f for f in os.listdir(work) if f.endswith(".so")]
            if done.returncode != 0 or not built:
                sys.stderr.write(done.stdout + done.stderr)
                raise SystemExit(3)
            os.makedirs(target, exist_ok=True)
            for name in built:
                shutil.move(os.path.join(work, name), os.path.join(target, name))
            open(os.path.join(target, "DONE"), "w").close()
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return target


def activate(tmpdir, *, extensions=True):
    """Make the checked tree importable without writing into it."""
    os.environ.setdefault("KEOPS_CACHE_FOLDER", os.path.join(tmpdir, "keops"))
    os.environ.setdefault("TORCHINDUCTOR_CACHE_DIR", os.path.join(tmpdir, "inductor"))
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(tmpdir, "mpl"))
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if extensions:
        sys.path.insert(0, build_extensions())
