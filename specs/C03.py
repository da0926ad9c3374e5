"""C03: the gradient is the derivative of the value."""
from spec import *
from lemmas import diff


def loss(w, cls, n, fit):
    """documented loss at a model fit"""
    if cls == "Quadratic":
        return scale(mul(inv(n), S(ZERO, n, lambda i: sq(sub(w.el("y", i), w.t(fit.at(i)))))), half)
    return mul(inv(n), S(ZERO, n, lambda i: log(add(ONE, exp(neg(mul(w.el("y", i), w.t(fit.at(i)))))))))


def slope(w, v, d, doc):
    """d v / d d at 0; a value written piecewise is differentiated by its documented formula"""
    try:
        return subst(diff(v, d), {d: ZERO})
    except ValueError:
        w.goal("value = documented loss along the move", eq(v, doc()))
        return subst(diff(doc(), d), {d: ZERO})


@cases([(c, s) for c in DATAFITS for s in ("dense", "sparse")])
def single(w, cls, sp):
    n, p = w.size("n"), w.size("p")
    X = design(w, n, p, sp == "sparse")
    ds = w.dataset(X, w.arr("y", [n]))
    df = w.cell(w.new(cls))
    w.method("initialize", df, ds)
    j = w.index("j", p)
    d = var("d", R)
    W = w.arr("w", [p])
    fit = lambda e: lam1(n, lambda i: add(S(ZERO, p, lambda k: mul(w.el("X", i, k), w.el("w", k))), mul(e, w.el("X", i, j))))
    v = w.t(w.method("value", df, ds, fit(d)))
    g = w.t(w.method("gradient_j", df, ds, fit(ZERO), w.U(j)))
    w.goal("gradient_j = d value / d w_j", eq(g, slope(w, v, d, lambda: loss(w, cls, n, fit(d)))))
    fg = w.rv(w.method("full_grad", df, ds, fit(ZERO)))
    w.goal("full_grad has one entry per feature", eq(fg.dims[0], p))
    w.goal("full_grad[j] = gradient_j", eq(w.t(fg.at(j)), g))


@cases(["dense", "sparse"])
def multi(w, sp):
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    X = design(w, n, p, sp == "sparse")
    ds = w.dataset(X, w.arr("Y", [n, T]))
    df = w.cell(w.new("QuadraticMultiTask"))
    w.method("initialize", df, ds)
    j = w.index("j", p)
    t = w.index("t", T)
    d = var("d", R)
    fit = lambda e: lam2(n, T, lambda i, s: add(S(ZERO, p, lambda k: mul(w.el("X", i, k), w.el("W", k, s))),
                                                mul(e, iv(eq(s, t)), w.el("X", i, j))))
    v = w.t(w.method("value", df, ds, fit(d)))
    g = w.rv(w.method("gradient_j", df, ds, fit(ZERO), w.U(j)))
    w.goal("gradient row has one entry per task", eq(g.dims[0], T))
    w.goal("gradient_j[t] = d value / d W_jt", eq(w.t(g.at(t)), subst(diff(v, d), {d: ZERO})))
    fg = w.rv(w.method("full_grad", df, ds, fit(ZERO)))
    w.goal("full_grad shape", mkand(eq(fg.dims[0], p), eq(fg.dims[1], T)))
    w.goal("full_grad[j] = gradient_j", eq(w.t(fg.at(j, t)), w.t(g.at(t))))
