"""oracle.py PROPERTY SEED SECONDS OUT REF SCRATCH"""
import json
import os
import struct
import subprocess
import sys
import time
import numpy as np
import scipy.sparse as sp

prop, seed, secs, out, ref, scratch = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4], sys.argv[5], sys.argv[6]
rng = np.random.RandomState(seed % (2 ** 31))
CLASSES = [
    ("Lasso", "LassoWrapper", None, False), ("MultiTaskLasso", "MultiTaskLassoWrapper", None, True),
    ("ElasticNet", "ElasticNetWrapper", "l1_ratio", False), ("MultiTaskElasticNet", "MultiTaskElasticNetWrapper", "l1_ratio", True),
    ("MCPRegressor", "MCPWrapper", "gamma", False), ("BlockMCPRegressor", "BlockMCPWrapper", "gamma", True),
]


def pick(xs):
    return xs[rng.randint(len(xs))]


# ------------------------------------------------------------------ C18
def bits(x):
    return str(struct.unpack("<Q", struct.pack("<d", float(x)))[0])


def captured(f):
    """value of f() and what was written to standard output"""
    path = os.path.join(scratch, "cap%d" % os.getpid())
    sys.stdout.flush()
    save = os.dup(1)
    fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    try:
        v = f()
    finally:
        os.dup2(save, 1)
        os.close(save)
        os.close(fd)
    return v, os.path.getsize(path)


def c18():
    from sparseglm import _lib
    _, wn, extra, multi = pick(CLASSES)
    n, p, t = rng.randint(2, 9), rng.randint(1, 9), rng.randint(1, 4)
    X = rng.randn(n, p)
    if rng.rand() < 0.5:
        X[rng.rand(n, p) < 0.4] = 0.0
    Y = rng.randn(n, t) if multi else rng.randn(n)
    s = dict(alpha=float(10 ** rng.uniform(-3, 0)), max_iterations=int(rng.randint(1, 5)), max_epochs=int(rng.randint(1, 40)),
             tolerance=float(10 ** rng.uniform(-9, -0.5)), ws_start_size=int(rng.randint(1, p + 2)), use_acceleration=bool(rng.rand() < 0.5),
             k=int(rng.randint(1, 7)), verbose=bool(rng.rand() < 0.3))
    if extra == "l1_ratio":
        s[extra] = float(rng.rand())
    if extra == "gamma":
        s[extra] = float(1.0 + 10 ** rng.uniform(-1, 1))
        # a step length compatible with the non-convex penalty
        X *= np.sqrt(n) / np.maximum(np.linalg.norm(X, axis=0), 1e-3)
    sparse = rng.rand() < 0.5
    order = pick("CF")
    inp = os.path.join(scratch, "in%d" % os.getpid())
    res = os.path.join(scratch, "out%d" % os.getpid())
    # the library takes the settings in its own order
    tok = [wn, bits(s["alpha"]), bits(s.get(extra, 0.0)), s["max_iterations"], s["max_epochs"], bits(s["tolerance"]), s["ws_start_size"],
           int(s["use_acceleration"]), s["k"], int(s["verbose"]), int(sparse), int(order == "F"), n, p, t if multi else 1]
    tok += [bits(v) for v in Y.ravel()] + [bits(v) for v in X.ravel()]
    open(inp, "w").write(" ".join(map(str, tok)))
    r = subprocess.run([ref, "pyref", inp, res], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    crashed = r.returncode != 0

    def build():
        w = getattr(_lib, wn)(**s)
        xs = sp.csc_matrix(X)
        fit = (lambda: w.fit_sparse(xs.data, xs.indices, xs.indptr, np.asarray(Y, order=order))) if sparse else \
            (lambda: w.fit(np.asarray(X, order=order), np.asarray(Y, order=order)))
        return fit(), fit()
    try:
        (a, b), printed = captured(build)
    except BaseException as e:
        if crashed:
            return None
        return "%s %s sparse=%s: %s" % (wn, s, sparse, e)
    if crashed:
        return None
    want = np.array([struct.unpack("<d", struct.pack("<Q", int(v)))[0] for v in open(res).read().split()])
    want = want.reshape((p, t) if multi else (p,))
    for g in (a, b):
        g = np.asarray(g)
        if g.shape != want.shape or not np.allclose(g, want, rtol=1e-9, atol=1e-11):
            return "%s %s sparse=%s X=%s Y=%s: coefficients %s, the library gives %s" % (
                wn, s, sparse, X.tolist(), Y.tolist(), g.tolist(), want.tolist())
    if (printed > 0) != (len(r.stdout) > 0):
        return "%s %s: verbose output differs from the library's" % (wn, s)
    return None


# ------------------------------------------------------------------ C19
class F(float):
    pass


VALUES = [0.0, 1.0, 0.5, 1e-300, -1e-300, -0.5, -1.0, 2.0, 1.0000001, 0.9999999, 1e9, -1e9, 3, 0, -2, True, False, None, "0.5", [0.5],
          np.float64(0.3), np.float64(-0.3), np.float64(1.5), np.float32(0.5), float("inf"), float("-inf"), -0.0, F(0.7), F(-0.7), 0.25, 0.75,
          np.int64(1), 1 + 0j, np.array(0.5), (), {}]


def c19():
    from sparseglm import estimators, _lib
    name, wn, extra, multi = pick(CLASSES)
    valid = rng.rand() < 0.6
    fl = lambda lo, hi: float(rng.uniform(lo, hi))
    a = dict(alpha=fl(0, 2) if valid else pick(VALUES))
    if extra:
        a[extra] = (fl(0, 1) if extra == "l1_ratio" else fl(1, 9)) if valid else pick(VALUES + [fl(-1, 5)])
    opts = dict(max_iter=rng.randint(0, 99), max_epochs=rng.randint(0, 99), tol=fl(0, 1), p0=rng.randint(0, 99), use_accel=bool(rng.rand() < .5),
                K=rng.randint(0, 99), verbose=bool(rng.rand() < .5))
    for k in opts:
        if isinstance(opts[k], (int, np.integer)) and not isinstance(opts[k], bool):
            opts[k] = int(opts[k])
        if not valid and rng.rand() < 0.5:
            opts[k] = pick(VALUES)
    given = dict(a)
    for k in opts:
        if rng.rand() < 0.8:
            given[k] = opts[k]
    isf = lambda v: isinstance(v, float)
    bad = not isf(a["alpha"]) or a["alpha"] < 0
    if extra == "gamma":
        bad = bad or not isf(a[extra]) or a[extra] < 1
    if extra == "l1_ratio":
        bad = bad or not isf(a[extra]) or a[extra] < 0 or a[extra] > 1
    cls = getattr(estimators, name)
    try:
        est = cls(**given)
    except ValueError:
        return None if bad else "%s(%r) raised ValueError" % (name, given)
    except Exception as e:
        return "%s(%r) raised %r" % (name, given, e)
    if bad:
        return "%s(%r) was accepted" % (name, given)
    for k, v in given.items():
        if getattr(est, k, "missing") is not v:
            return "%s(%r): %s is %r" % (name, given, k, getattr(est, k, "missing"))
    n, p, t = rng.randint(2, 7), rng.randint(1, 7), rng.randint(1, 4)
    if multi and rng.rand() < 0.2:
        t = 1
    X, Y = rng.randn(n, p), (rng.randn(n, t) if multi else rng.randn(n))
    Z = rng.randn(rng.randint(1, 5), p)
    try:
        est.predict(Z)
        return "%s: predict without fit returned" % name
    except Exception:
        pass
    if not valid:
        return None
    X[rng.rand(n, p) < 0.3] = 0.0
    sparse = rng.rand() < 0.5
    xs = sp.csc_matrix(X) if sparse else X
    c = rng.randn(p, t) if multi else rng.randn(p)
    if rng.rand() < 0.2:
        c = c * 0
    _lib.LOG.clear()
    _lib.COEF[0] = c
    try:
        r = est.fit(xs, Y)
    except Exception as e:
        return "%s(%r).fit raised %r" % (name, given, e)
    log = list(_lib.LOG)
    if len(log) != 2 or log[0][0] != "new" or log[0][1] != wn or log[0][4] != log[1][4]:
        return "%s(%r).fit called the extension as %r" % (name, given, [(l[0], l[1]) for l in log])
    kw = {"max_iter": "max_iterations", "max_epochs": "max_epochs", "tol": "tolerance", "p0": "ws_start_size", "use_accel": "use_acceleration",
          "K": "k", "verbose": "verbose", "alpha": "alpha", "gamma": "gamma", "l1_ratio": "l1_ratio"}
    want = {kw[k]: getattr(est, k) for k in list(opts) + list(a)}
    if log[0][2] or log[0][3] != want:
        return "%s(%r).fit gave the extension %r" % (name, given, log[0][3])
    for k, v in given.items():
        if getattr(est, k) is not v:
            return "%s(%r).fit changed %s" % (name, given, k)
    how, args = log[1][0], log[1][2]
    ok = how == ("fit_sparse" if sparse else "fit") and not log[1][3]
    if ok:
        exp = [xs.data, xs.indices, xs.indptr, Y] if sparse else [X, Y]
        ok = len(args) == len(exp) and all(np.array_equal(np.asarray(u), v) for u, v in zip(args, exp))
    if not ok:
        return "%s(%r).fit: %s received %r" % (name, given, how, args)
    try:
        got = est.predict(Z)
    except Exception as e:
        return "%s: predict after fit raised %r (coefficients %r)" % (name, e, c.tolist())
    if not np.allclose(got, Z @ c):
        return "%s: predict gave %r instead of %r" % (name, got, Z @ c)
    return None


end = time.time() + secs
tried, failing = 0, None
while time.time() < end and failing is None:
    failing = (c18 if prop == "C18" else c19)()
    tried += 1
json.dump(dict(tried=tried, failing=failing), open(out, "w"))
