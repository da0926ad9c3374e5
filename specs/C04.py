"""C04: step constants bound the curvature along each feature."""
from spec import *


@cases([(c, s) for c in DATAFITS for s in ("dense", "sparse")])
def single(w, cls, sp):
    n, p = w.size("n"), w.size("p")
    X = design(w, n, p, sp == "sparse")
    y = w.arr("y", [n])
    if cls == "Logistic":
        i = fresh("i", tm.I)
        w.I.assume(mkforall(i, ZERO, n, eq(sq(w.el("y", i)), ONE)))
        w.lemma(lemmas.log1pexp_curv)
    ds = w.dataset(X, y)
    df = w.cell(w.new(cls))
    w.method("initialize", df, ds)
    j = w.index("j", p)
    d = var("d", R)
    u = w.arr("u", [n])
    ud = lam1(n, lambda i: add(w.el("u", i), mul(d, w.el("X", i, j))))
    if cls == "Quadratic":
        u = lam1(n, lambda i: S(ZERO, p, lambda k: mul(w.el("X", i, k), w.el("w", k))))
        ud = lam1(n, lambda i: add(S(ZERO, p, lambda k: mul(w.el("X", i, k), w.el("w", k))), mul(d, w.el("X", i, j))))
    v0, v1 = w.t(w.method("value", df, ds, u)), w.t(w.method("value", df, ds, ud))
    g = w.t(w.method("gradient_j", df, ds, u, w.U(j)))
    L = w.rv(w.method("step_size", df))
    w.goal("one step constant per feature", eq(L.dims[0], p))
    Lj = w.t(L.at(j))
    w.goal("L_j >= 0", le(ZERO, Lj))
    bound = add(v0, mul(d, g), scale(mul(Lj, sq(d)), half))
    if cls == "Quadratic":
        w.goal("value(w+d e_j) = quadratic model", eq(v1, bound))
    else:
        w.goal("value(w+d e_j) <= quadratic model", le(v1, bound))
    i = w.index("i0", n)
    w.goal("L_j = 0 only for a null column", mkor(mknot(eq(Lj, ZERO)), eq(w.el("X", i, j), ZERO)))


@cases(["dense", "sparse"])
def multi(w, sp):
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    X = design(w, n, p, sp == "sparse")
    ds = w.dataset(X, w.arr("Y", [n, T]))
    df = w.cell(w.new("QuadraticMultiTask"))
    w.method("initialize", df, ds)
    j = w.index("j", p)
    fit = lambda m: lam2(n, T, lambda i, t: add(S(ZERO, p, lambda k: mul(w.el("X", i, k), w.el("W", k, t))),
                                                mul(num(m), w.el("d", t), w.el("X", i, j))))
    v0, v1 = w.t(w.method("value", df, ds, fit(0))), w.t(w.method("value", df, ds, fit(1)))
    g = w.rv(w.method("gradient_j", df, ds, fit(0), w.U(j)))
    L = w.rv(w.method("step_size", df))
    w.goal("one step constant per feature", eq(L.dims[0], p))
    Lj = w.t(L.at(j))
    w.goal("L_j >= 0", le(ZERO, Lj))
    bound = add(v0, S(ZERO, T, lambda t: mul(w.el("d", t), w.t(g.at(t)))),
                scale(mul(Lj, S(ZERO, T, lambda t: sq(w.el("d", t)))), half))
    w.goal("value(W + e_j d') = quadratic model", eq(v1, bound))
    i = w.index("i0", n)
    w.goal("L_j = 0 only for a null column", mkor(mknot(eq(Lj, ZERO)), eq(w.el("X", i, j), ZERO)))
