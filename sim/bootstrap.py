"""Process bootstrap: decides which tree the code under test is imported from, pins the numeric
environment and installs the (dormant) global seams *before* anything of pymoo is imported.

Nothing in here writes to /repo.
"""
import hashlib
import json
import os
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"

ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "VECLIB_MAXIMUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
    "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYMOO_DATA_TIMEOUT": "5",
    "PYTHONWARNINGS": "ignore",
}


def base_env(hashseed="0", **extra):
    env = dict(os.environ)
    env.update(ENV)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONPATH"] = VERIF
    env.update({k: str(v) for k, v in extra.items()})
    return env


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def extension_inputs(repo=REPO):
    d = os.path.join(repo, "pymoo", "functions", "compiled")
    out = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith((".pyx", ".pxd")):
                out.append(os.path.join("pymoo/functions/compiled", n))
    out.append("setup.py")
    return [p for p in out if os.path.exists(os.path.join(repo, p))]


def extensions_fresh(repo=REPO):
    """True when the compiled modules lying in the tree were built from the .pyx files lying there."""
    stamp = os.path.join(repo, "build", "vp-ext.stamp")
    if not os.path.exists(stamp):
        return False
    text = open(stamp).read()
    for rel in extension_inputs(repo):
        if _sha(os.path.join(repo, rel)) not in text:
            return False
    d = os.path.join(repo, "pymoo", "functions", "compiled")
    so = [n for n in os.listdir(d) if n.endswith(".so")]
    if not so:
        return False
    return all(_sha(os.path.join(d, n)) in text for n in so)


def prepare_tree(scratch, repo=REPO):
    """Return the directory pymoo must be imported from.

    The working tree itself when its compiled modules are up to date; otherwise a scratch copy of the
    package in which the extensions were rebuilt from the tree's current sources."""
    if extensions_fresh(repo):
        return repo
    dst = os.path.join(scratch, "tree")
    os.makedirs(dst, exist_ok=True)
    subprocess.check_call(["cp", "-a", os.path.join(repo, "pymoo"), dst])
    for n in ("setup.py", "pyproject.toml", "README.rst", "MANIFEST.in", "LICENSE"):
        p = os.path.join(repo, n)
        if os.path.exists(p):
            subprocess.check_call(["cp", "-a", p, dst])
    d = os.path.join(dst, "pymoo", "functions", "compiled")
    for n in os.listdir(d):
        if n.endswith((".so", ".cpp", ".c")):
            os.remove(os.path.join(d, n))
    r = subprocess.run([PYTHON, "setup.py", "build_ext", "--inplace"], cwd=dst,
                       env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-3000:])
        raise RuntimeError("rebuilding the compiled modules failed")
    return dst


def enter():
    """Called once in every simulation process, before pymoo is imported."""
    tree = os.environ["VERIF_TREE"]
    if tree in sys.path:
        sys.path.remove(tree)
    sys.path.insert(0, tree)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    from sim import seams
    seams.install()
    import pymoo
    got = os.path.dirname(os.path.dirname(os.path.abspath(pymoo.__file__)))
    if os.path.realpath(got) != os.path.realpath(tree):
        raise RuntimeError("pymoo imported from %s instead of %s" % (got, tree))
