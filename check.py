#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: discharge the contracts of one property."""
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.join(VERIF, "engine"), os.path.join(VERIF, "specs")]
sys.setrecursionlimit(20000)

_prog = None
_deadline = 300
_timeout = 6000


def work(i):
    import spec
    c = spec.CASES[i]
    try:
        return i, spec.run_case(_prog, c, _timeout, _deadline)
    except BaseException as e:   # never lose a case
        return i, dict(case=c["name"], status="unsupported", why="engine: %r" % (e,), obls=[], functions={}, assumed={},
                       time=0, stats={}, bounded=c.get("bounded"))


def run_all(jobs, overall):
    """every case in its own worker; a case that hangs or dies is reported as such"""
    import spec
    res = {}
    n = len(spec.CASES)
    ctx = mp.get_context("fork")
    pend = list(range(n))
    live = {}
    t0 = time.time()
    while pend or live:
        while pend and len(live) < jobs:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)

            def go(i=i, b=b):
                b.send(work(i))
                b.close()
            p = ctx.Process(target=go)
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        done = []
        for i, (p, a, t) in live.items():
            if a.poll(0.02):
                try:
                    res[i] = a.recv()[1]
                except EOFError:
                    res[i] = dict(status="timeout", why="worker died")
                done.append(i)
            elif not p.is_alive():
                res[i] = dict(status="timeout", why="worker died")
                done.append(i)
            elif time.time() - t > _deadline + 30 or time.time() - t0 > overall:
                p.kill()
                res[i] = dict(status="timeout", why="time limit")
                done.append(i)
        for i in done:
            p, a, t = live.pop(i)
            p.join(1)
            if p.is_alive():
                p.kill()
            r = res[i]
            r.setdefault("case", spec.CASES[i]["name"])
            for k, d in (("obls", []), ("functions", {}), ("assumed", {}), ("stats", {}), ("time", round(time.time() - t, 2)),
                         ("bounded", spec.CASES[i].get("bounded"))):
                r.setdefault(k, d)
    return [res[i] for i in range(n)]


# lemmas whose instances the engine adds to the facts of a proof; proved in lean/Lemmas.lean
LEMMAS = {
    "C01": ["cauchy_schwarz", "cauchy_schwarz_abs", "cos_third"],
    "C02": ["cauchy_schwarz", "cauchy_schwarz_abs"],
    "C03": ["exp_bound"],
    "C04": ["log1pexp_curv", "exp_bound"],
    "C06": ["gram"],
    "C07": ["gram"],
    "C09": ["counting"],
    "C10": ["gram"],
    "C11": ["triangular_kernel"],
    "C15": ["gram"],
    "C16": ["exp_bound"],
}
KERNEL_AXIOMS = {"propext", "Classical.choice", "Quot.sound"}


def lean_start(pid):
    if not LEMMAS.get(pid):
        return None
    try:
        return subprocess.Popen(["lean", "Lemmas.lean"], cwd=os.path.join(VERIF, "lean"), stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True)
    except OSError:
        return None


def lean_finish(pid, p):
    """which of the lemmas this property uses did Lean accept on this run?"""
    out = {}
    for n in LEMMAS.get(pid, []):
        out[n] = "not rechecked on this run"
    if p is None:
        return out
    try:
        txt, _ = p.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return out
    for n in out:
        m = re.search(r"'%s' depends on axioms: \[([^\]]*)\]" % n, txt)
        if p.returncode == 0 and m and {a.strip() for a in m.group(1).split(",")} <= KERNEL_AXIOMS:
            out[n] = "proved (Lean 4 kernel, Mathlib; no axiom beyond propext, choice, Quot.sound)"
        else:
            out[n] = "NOT proved by Lean on this run"
    return out


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding:\s*property=(\S+)\s+key=(\S+)\s+(.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    global _prog, _deadline, _timeout
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import spec
    import program
    spec.TIER[0] = tier
    thorough = tier == "thorough"
    overall = 600 if thorough else 420
    _deadline = 560 if thorough else 380
    _timeout = 20000 if thorough else 6000
    mod = importlib.import_module(pid)
    results, fatal = [], None
    lean = lean_start(pid)
    try:
        _prog = program.Program(REPO, getattr(mod, "SUBS", ("src",)))
        if _prog.errors:
            fatal = "does not parse: %s" % _prog.errors
    except subprocess.CalledProcessError as e:
        fatal = "front end failed: %s" % (e.stderr or e)
    if fatal is None:
        spec.CASES[:] = [c for c in spec.CASES if c["tier"] in (None, tier)]
        results = run_all(int(os.environ.get("VERIF_JOBS", "8")), overall)
    failed, unsup = [], []
    nob = nd = 0
    funs, assumed, backs = {}, {}, {}
    stats = {}
    bounded = []
    for r in results:
        for o in r["obls"]:
            nob += 1
            if o["how"]:
                nd += 1
                for h in set(o["how"].split("+")):
                    backs[h] = backs.get(h, 0) + 1
            else:
                failed.append(dict(o, case=r["case"]))
        if r["status"] not in ("ok", "escape"):
            unsup.append("%s: %s: %s" % (r["case"], r["status"], r.get("why")))
            if r["status"] in ("vacuous",):
                failed.append(dict(case=r["case"], name="vacuity", goal=r["why"], model=None, where=None))
        if r["status"] == "escape" and not any(not o["how"] for o in r["obls"]):
            failed.append(dict(case=r["case"], name="reachability", goal=r["why"], model=None, where=None))
        if r["bounded"]:
            bounded.append("%s: %s" % (r["case"], r["bounded"]))
        funs.update(r["functions"])
        assumed.update(r["assumed"])
        for k, v in r["stats"].items():
            stats[k] = round(stats.get(k, 0) + v, 3)
    if fatal:
        unsup.append(fatal)
    # functions whose cases all failed to run are covered by the bounded stand-in only
    violation, rp, note = None, None, None
    replay_info = {}
    if os.environ.get("VERIF_NOREPLAY") is None and (failed or unsup or thorough):
        import replay
        budget = 200 if thorough else 180
        replay_info = replay.run(pid, seed, budget, REPO)
        if replay_info.get("failing"):
            violation = "VIOLATION property=%s replay=%s"
        elif failed:
            violation = "VIOLATION property=%s replay=%s no-failing-input-found"
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s.json" % pid)
        json.dump(dict(property=pid, failed_obligations=failed[:40], unsupported=unsup, replay=replay_info),
                  open(rp, "w"), indent=1, default=str)
    level = getattr(mod, "LEVEL", "proof")
    lem = lean_finish(pid, lean)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=nob, discharged=nd,
            checker_cmd="python3-vt /verif/check.py %s %s" % (pid, tier),
            trusted_base=TRUSTED + getattr(mod, "TRUSTED", []),
            functions_under_contract=[dict(function=f, at=w) for f, w in sorted(funs.items())],
            cases=[dict(case=r["case"], status=r["status"], obligations=len(r["obls"]),
                        discharged=sum(1 for o in r["obls"] if o["how"]), seconds=r["time"],
                        **({"why": r.get("why")} if r["status"] != "ok" else {})) for r in results],
            back_ends={"how": backs, "z3_calls": stats.get("smt_calls", 0), "solver_seconds": stats.get("smt_time", 0)},
            lemmas_used=lem,
            bounded_cases=bounded,
            unproved_bounded_stand_in=unsup,
            replay=None if not replay_info else {k: v for k, v in replay_info.items() if k != "failing"},
        ),
        assumptions=ASSUME + getattr(mod, "ASSUMPTIONS", []) + ["%s: %s" % kv for kv in sorted(assumed.items())] + [
            "lemma %s of lean/Lemmas.lean: %s" % kv for kv in sorted(lem.items()) if not kv[1].startswith("proved")],
        wall_s=round(time.time() - t0, 2),
        violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d obligations, %d discharged, %d functions under contract, %.1f s" % (pid, tier, nob, nd, len(funs), time.time() - t0))
    for u in unsup:
        print("BOUNDED (not proved, bounded stand-in only): " + u[:600])
    for f in failed[:12]:
        print("UNDISCHARGED %s / %s at %s: %s | %s" % (f["case"], f["name"], f.get("where"), (f.get("goal") or "")[:400], (f.get("model") or "")[:300]))
    if violation:
        if replay_info and replay_info.get("failing"):
            print("failing input: %s" % json.dumps(replay_info["failing"])[:1500])
        print(violation % (pid, rp))
        sys.exit(1)
    sys.exit(0)


TRUSTED = [
    "the front end (syn) and the symbolic interpreter of Rust in /verif/engine (strongest postconditions over the parsed bodies)",
    "the contracts of std, ndarray and num-traits operations written in /verif/engine/natives.py",
    "the term normaliser in /verif/engine/term.py and z3 %s" % "4",
]
ASSUME = [
    "floating-point arithmetic is treated as exact real arithmetic (inputs finite; rounding, overflow, NaN and signed zero out of scope)",
    "usize arithmetic is checked for underflow; overflow of usize and of the i32 indices is out of scope (sizes below 2^31)",
    "infinity is a symbolic real larger than every value it is compared with",
]

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
