"""Replay of a violation against the real code: the library is built from the
current tree and searched for an input that breaks the property."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY_PROPS = ("C18", "C19")


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build(repo):
    """build the replay program against the given tree; returns (binary, error)"""
    crate = os.path.join(VERIF, "replay")
    e = env()
    src = crate
    scratch = None
    if os.path.realpath(repo) != "/repo":
        scratch = tempfile.mkdtemp(prefix="replay")
        src = os.path.join(scratch, "replay")
        shutil.copytree(crate, src, ignore=shutil.ignore_patterns("target"))
        t = os.path.join(src, "Cargo.toml")
        s = open(t).read().replace('path = "/repo"', 'path = "%s"' % os.path.realpath(repo))
        open(t, "w").write(s)
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "replay", "target") if scratch is None else os.path.join(scratch, "target")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=src, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-1500:], scratch
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "replay"), None, scratch


def run(pid, seed, budget, repo):
    t0 = time.time()
    if pid in PY_PROPS:
        import pyreplay
        return pyreplay.run(pid, seed, budget, repo)
    b, err, scratch = build(repo)
    try:
        if b is None:
            return dict(failing=None, note="the replay program does not build against this tree", error=err)
        secs = max(20.0, min(budget, 600) - (time.time() - t0))
        procs, out = [], tempfile.mkdtemp(prefix="replayout")
        k = 8
        for i in range(k):
            f = os.path.join(out, "r%d" % i)
            procs.append((seed * 1000 + i, f, subprocess.Popen([b, pid, str(seed * 1000 + i), "%.1f" % secs, f],
                                                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        end = t0 + budget + 30
        bad, tried = None, 0
        live = list(procs)
        while live and bad is None:
            time.sleep(0.05)
            for x in list(live):
                s, f, p = x
                rc = p.poll()
                if rc is None:
                    if time.time() > end:
                        p.kill()
                        live.remove(x)
                    continue
                live.remove(x)
                txt = open(f).read() if os.path.exists(f) else ""
                if txt.startswith("OK"):
                    tried += int(txt.split()[1])
                elif txt.startswith("FAIL"):
                    case, what = txt.split("\n", 1)
                    bad = dict(property=pid, seed=s, case=int(case.split()[1]), what=what.strip(),
                               rerun="%s %s %s 60 /dev/stdout %s" % (b, pid, s, case.split()[1]))
                else:
                    bad = dict(property=pid, seed=s, what="the process was ended (status %s)" % rc)
        for s, f, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        shutil.rmtree(out, ignore_errors=True)
        return dict(failing=bad, inputs=tried, seconds=round(time.time() - t0, 1),
                    method="seeded search over generated well-formed inputs against independent oracles (not counted as proof)")
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
