"""Replay for the Python layer: the package of the current tree, run in a scratch copy."""
import json
import os
import shutil
import subprocess
import tempfile
import time
import replay as rp

PY = "/opt/vp/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def build_ext(repo, where):
    e = rp.env()
    e.update(PYO3_PYTHON="/usr/bin/python3.12", CARGO_TARGET_DIR=os.path.join(VERIF, "replay", "pytarget"),
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    src = repo
    if os.path.realpath(repo) == "/repo":
        # the tree is only read: cargo runs on a copy
        src = os.path.join(where, "tree")
        shutil.copytree(repo, src, ignore=shutil.ignore_patterns("target", ".git", "*.so", "__pycache__"))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "sparseglmpy", "--features", "pyo3/abi3-py37"], cwd=src, env=e,
                       capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-1500:]
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "libsparseglmpy.so"), None


def run(pid, seed, budget, repo):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="pyreplay")
    crate = None
    try:
        pkg = os.path.join(scratch, "pkg", "sparseglm")
        os.makedirs(pkg)
        for f in os.listdir(os.path.join(repo, "python", "sparseglm")):
            if f.endswith(".py"):
                shutil.copy(os.path.join(repo, "python", "sparseglm", f), pkg)
        ref = "-"
        if pid == "C18":
            so, err = build_ext(repo, scratch)
            if so is None:
                return dict(failing=None, note="the extension does not build from this tree", error=err)
            shutil.copy(so, os.path.join(pkg, "_lib.abi3.so"))
            ref, err, crate = rp.build(repo)
            if ref is None:
                return dict(failing=None, note="the replay program does not build against this tree", error=err)
        else:
            # the extension is replaced by a module that records what it is given
            shutil.copy(os.path.join(VERIF, "replay", "py", "recorder.py"), os.path.join(pkg, "_lib.py"))
        secs = max(15.0, min(budget, 120) - (time.time() - t0))
        procs = []
        env = dict(os.environ, PYTHONPATH=os.path.join(scratch, "pkg"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1")
        for i in range(8):
            f = os.path.join(scratch, "r%d" % i)
            procs.append((seed * 1000 + i, f, subprocess.Popen(
                [PY, os.path.join(VERIF, "replay", "py", "oracle.py"), pid, str(seed * 1000 + i), "%.1f" % secs, f, ref, scratch],
                env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch)))
        bad, tried, notes = None, 0, []
        for s, f, p in procs:
            try:
                _, err = p.communicate(timeout=secs + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                continue
            if os.path.exists(f):
                d = json.load(open(f))
                tried += d["tried"]
                if d["failing"] and bad is None:
                    bad = dict(property=pid, seed=s, what=d["failing"])
            else:
                notes.append(err.decode("utf8", "replace")[-400:])
        if bad is None and len(notes) == len(procs):
            # the package cannot even be imported or driven
            return dict(failing=dict(property=pid, seed=seed, what="the package cannot be used: " + notes[0]), inputs=0)
        return dict(failing=bad, inputs=tried, seconds=round(time.time() - t0, 1), notes=notes[:1],
                    method="seeded search over generated well-formed inputs against independent oracles (not counted as proof)")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if crate:
            shutil.rmtree(crate, ignore_errors=True)
