"""C16: objective values equal the documented formulas."""
from spec import *


@cases([(c, s) for c in DATAFITS for s in ("dense", "sparse")])
def datafit(w, cls, sp):
    n, p = w.size("n"), w.size("p")
    X = design(w, n, p, sp == "sparse")
    ds = w.dataset(X, w.arr("y", [n]))
    df = w.cell(w.new(cls))
    w.method("initialize", df, ds)
    u = w.arr("u", [n])
    v = w.t(w.method("value", df, ds, u))
    if cls == "Quadratic":
        doc = scale(mul(inv(n), S(ZERO, n, lambda i: sq(sub(w.el("y", i), w.el("u", i))))), half)
    else:
        doc = mul(inv(n), S(ZERO, n, lambda i: log(add(ONE, exp(neg(mul(w.el("y", i), w.el("u", i))))))))
    w.goal("documented loss", eq(v, doc))


@cases(["dense", "sparse"])
def datafit_multi(w, sp):
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    X = design(w, n, p, sp == "sparse")
    ds = w.dataset(X, w.arr("Y", [n, T]))
    df = w.cell(w.new("QuadraticMultiTask"))
    w.method("initialize", df, ds)
    v = w.t(w.method("value", df, ds, w.arr("U", [n, T])))
    doc = scale(mul(inv(n), S(ZERO, n, lambda i: S(ZERO, T, lambda t: sq(sub(w.el("Y", i, t), w.el("U", i, t)))))), half)
    w.goal("documented loss", eq(v, doc))


def phi(cls, vs, a):
    """documented penalty of a weight (or row) of size a >= 0"""
    if cls in ("L1", "L21"):
        return mul(vs[0], a)
    if cls in ("L1PlusL2", "BlockL1PlusL2"):
        return mul(vs[0], add(mul(vs[1], a), scale(mul(sub(ONE, vs[1]), sq(a)), half)))
    if cls in ("MCP", "BlockMCP"):
        al, ga = vs
        return ite(le(a, mul(al, ga)), sub(mul(al, a), scale(mul(sq(a), inv(ga)), half)), scale(mul(ga, sq(al)), half))
    if cls == "L05":
        return mul(vs[0], sqrt(a))


@cases(SPEN)
def penalty_single(w, cls, ps):
    p = w.size("p", 0)
    P, vs = penalty(w, cls, ps)
    W = w.arr("w", [p])
    v = w.t(w.method("value", P, W))
    w.goal("documented, separable penalty", eq(v, S(ZERO, p, lambda j: phi(cls, vs, absv(w.el("w", j))))))
    w.goal("non-negative", le(ZERO, v))
    w.goal("zero at zero weights", eq(w.t(w.method("value", P, lam1(p, lambda j: ZERO))), ZERO))
    s = lambda j: ite(app("flip", (j,), B), neg(w.el("w", j)), w.el("w", j))
    w.goal("unchanged by sign flips", eq(w.t(w.method("value", P, lam1(p, s))), v))


@cases(BPEN)
def penalty_block(w, cls, ps):
    p, T = w.size("p", 0), w.size("T", 0)
    P, vs = penalty(w, cls, ps)
    W = w.arr("W", [p, T])
    v = w.t(w.method("value", P, W))
    nrm = lambda j: sqrt(S(ZERO, T, lambda t: sq(w.el("W", j, t))))
    w.goal("documented, separable penalty", eq(v, S(ZERO, p, lambda j: phi(cls, vs, nrm(j)))))
    w.goal("non-negative", le(ZERO, v))
    w.goal("zero at zero weights", eq(w.t(w.method("value", P, lam2(p, T, lambda j, t: ZERO))), ZERO))
    s = lambda j, t: ite(app("flip", (j,), B), neg(w.el("W", j, t)), w.el("W", j, t))
    w.goal("unchanged by sign flips", eq(w.t(w.method("value", P, lam2(p, T, s))), v))
