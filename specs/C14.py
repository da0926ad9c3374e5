"""C14: at or above the critical regularisation the fitted model is null."""
from spec import *
import loops
import solverspec as sv

CRIT = [("single", "dense", "compute_alpha_max"), ("single", "sparse", "compute_alpha_max_sparse"),
        ("multi", "dense", "compute_alpha_max_mtl")]
XE = lambda i, j: app("X", (i, j), R)


def correlation(n, T, multi, j):
    """|X_j . y|, or the norm of X_j^T Y"""
    if multi:
        return sqrt(S(ZERO, T, lambda t: sq(S(ZERO, n, lambda i: mul(XE(i, j), app("Y", (i, t), R))))))
    return absv(S(ZERO, n, lambda i: mul(XE(i, j), app("y", (i,), R))))


def critical(n, p, T, multi):
    v = fresh("v", tm.I)
    return mul(bigmax(v, ZERO, p, correlation(n, T, multi, v), ZERO), inv(n))


def data(w, multi, sparse):
    w.lemma(lemmas.bigmax_bounds)
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    X = design(w, n, p, sparse)
    Y = w.arr("Y", [n, T]) if multi else w.arr("y", [n])
    return n, p, T, X, Y


@cases(CRIT)
def value(w, kind, sp, fn):
    """the critical value is the largest correlation divided by the number of samples"""
    multi = kind == "multi"
    n, p, T, X, Y = data(w, multi, sp == "sparse")
    w.eqgoal("largest correlation / n", w.free(fn, X, Y), w.F(critical(n, p, T, multi)))


def zero_templates(n, p, T, multi):
    """weights and model fit stay zero"""
    want = ([n, T], [p, T]) if multi else ([n], [p])

    def templates(I_, heap0, okeys):
        out = []
        for q in okeys:
            try:
                v = loops.getp(heap0[q[0]], q[1])
            except Exception:
                continue
            if isinstance(v, Seq) and isinstance(v.elem, Num) and v.elem.kind == "f" and list(v.dims) in want:
                def zeros(h, v=v):
                    vs = tuple(fresh("z", tm.I) for _ in v.dims)
                    return Seq(list(v.dims), vs, Num(ZERO, "f"), v.tag)
                out.append(loops.Inv("zero", q, zeros))
        return out
    return templates


def any_effect(I_, fn, args):
    """a call known only by what it may modify: the arrays it is given mutably"""
    muts = [a for k, a in enumerate(args) if isinstance(a, Ref) and fn.ast["ps"][k].get("ty", {}).get("mut")]
    for a in muts:
        v = I_.rv(a)
        if not isinstance(v, Seq) or not isinstance(v.elem, Num):
            return NotImplemented
    for a in muts:
        cell, path, _ = I_.resolve(a.cell, a.path)
        I_.write(cell, path, loops.havoc(I_, None, I_.rv(a), tag="any").val)
    I_.assumed[fn.qual] = "any effect on its mutable arguments"
    return UNIT


@cases([(k, s) for k in ("single", "multi") for s in ("dense", "sparse")])
def null(w, kind, sp):
    """alpha >= the critical value: exactly zero coefficients"""
    multi = kind == "multi"
    n, p, T, X, Y = data(w, multi, sp == "sparse")
    w.I.inv_templates = zero_templates(n, p, T, multi)
    w.I.overrides["anderson_accel"] = any_effect
    w.I.deadcheck = True
    P, vals = built_params(w, "MultiTaskLassoParams" if multi else "LassoParams", ())
    for _, c in invalid(vals).values():
        w.I.assume(mknot(c))
    w.I.assume(le(critical(n, p, T, multi), vals["alpha"].t))
    r = get(w, w.method("fit", P, w.dataset(X, Y)), "Ok")
    co = w.rv(w.method("coefficients", r))
    w.goal("one coefficient per feature", mkand(*[eq(a, b) for a, b in zip(co.dims, [p, T] if multi else [p])]))
    j, t = w.index("j", p), w.index("t", T)
    w.goal("coefficients are zero", eq(w.t(co.at(j, t) if multi else co.at(j)), ZERO))


@cases([(k, s) for k in ("single", "multi") for s in ("dense", "sparse")])
def nonnull(w, kind, sp):
    """alpha < the critical value: zero coefficients violate the optimality conditions: the
    violation exceeds that of the feature that attains the critical value"""
    multi = kind == "multi"
    n, p, T, X, Y = data(w, multi, sp == "sparse")
    alpha = w.real("alpha", 0)
    j = w.index("j", p)
    ds = w.dataset(X, Y)
    df = w.cell(w.new("QuadraticMultiTask" if multi else "Quadratic"))
    w.method("initialize", df, ds)
    zw = lam2(p, T, lambda a, b: ZERO) if multi else lam1(p, lambda a: ZERO)
    zf = lam2(n, T, lambda a, b: ZERO) if multi else lam1(n, lambda a: ZERO)
    i = fresh("i", tm.I)
    feats = Seq([p], (i,), Num(i, "u"))
    pen = w.new("L21" if multi else "L1", w.F(alpha))
    r = w.rv(w.free("opt_cond_violation", ds, zw, zf, feats, df, pen, hint="anderson_bcd" if multi else "anderson_cd"))
    v = w.t(r.items[1])
    w.goal("violation at zero >= correlation / n - alpha", le(sub(mul(correlation(n, T, multi, j), inv(n)), alpha), v))
