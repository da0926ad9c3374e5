"""C13: each estimator solves its documented problem with the user's settings."""
from spec import *

DEFAULTS = {"alpha": 1, "gamma": 3, "l1_ratio": Fraction(1, 2), "max_iterations": 50, "max_epochs": 1000, "ws_start_size": 10,
            "tolerance": Fraction(1, 10 ** 6), "K": 5, "use_acceleration": True, "verbose": True}


def valid_view(w, P, extra):
    """the settings a params object holds, seen through its validated form"""
    return None


def const(q, kind):
    d = DEFAULTS[q]
    return Bool(TRUE if d else FALSE) if kind == "b" else Num(num(d), kind)


@cases([(e[0], e[1], e[2]) for e in ESTIMATORS])
def setters(w, name, ptype, extra):
    qs = settings_of(extra)
    ok = get(w, w.method("check", w.new(ptype)), "Ok")
    for q, k in qs:
        w.goal("default %s" % q, w.veq(w.method(q, ok), const(q, k)))
    ok = get(w, w.method("check", w.free_assoc(ptype, "default")), "Ok")
    for q, k in qs:
        w.goal("Default::default %s" % q, w.veq(w.method(q, ok), const(q, k)))
    ok = get(w, w.method("check", w.free_assoc(name, "params")), "Ok") if name in w.prog.structs else ok
    for q, k in qs:
        w.goal("params() %s" % q, w.veq(w.method(q, ok), const(q, k)))
    # every setter changes its own setting only: on an object with arbitrary settings
    P, vals = built_params(w, ptype, extra)
    for _, c in invalid(vals).values():
        w.I.assume(mknot(c))
    for q, k in qs:
        new = {kk: v for kk, v in vals.items()}
        nv = sym_setting(w, q + "'", k)
        new[q] = nv
        for _, c in invalid(new).values():
            w.I.assume(mknot(c))
        ok = get(w, w.method("check", w.method(q, P, nv)), "Ok")
        for q2, _ in qs:
            w.goal("setter %s leaves/sets %s" % (q, q2), w.veq(w.method(q2, ok), new[q2]))


@case()
def solver_setters(w):
    d = dict(DEFAULTS, tolerance=Fraction(1, 10 ** 8))
    qs = [(q, k) for q, k in COMMON if q != "alpha"]
    for ctor in ("new", "default"):
        S_ = w.I.rv(w.free_assoc("Solver", ctor))
        for q, k in qs:
            v = Bool(TRUE if d[q] else FALSE) if k == "b" else Num(num(d[q]), k)
            w.goal("Solver::%s %s" % (ctor, q), w.veq(S_.fields[q], v))
    P = w.new("Solver")
    vals = {}
    for q, k in qs:
        vals[q] = sym_setting(w, q, k)
        P = w.method(q, P, vals[q])
    for q, k in qs:
        new = dict(vals)
        new[q] = sym_setting(w, q + "'", k)
        S_ = w.I.rv(w.method(q, P, new[q]))
        for q2, _ in qs:
            w.goal("setter %s leaves/sets %s" % (q, q2), w.veq(S_.fields[q2], new[q2]))


ORDER = ["ws_start_size", "max_iterations", "max_epochs", "tolerance", "K", "use_acceleration", "verbose"]


def expect_call(w, calls, multi, ds0, datafit, pen, pargs, vals):
    w.goal("exactly one solver run", TRUE if len(calls) == 1 else FALSE)
    if len(calls) != 1:
        return
    c = calls[0]
    w.goal("the right solver", TRUE if c["name"] == ("block_coordinate_descent" if multi else "coordinate_descent") else FALSE)
    a = c["args"]
    w.goal("on the given dataset", w.veq(a[0], ds0))
    df = w.rv(a[1])
    w.goal("documented datafit", TRUE if isinstance(df, Struct) and df.name == datafit else FALSE)
    pe = w.rv(a[2])
    w.goal("documented penalty", TRUE if isinstance(pe, Struct) and pe.name == pen else FALSE)
    w.goal("with the configured strength", w.veq(pe, w.new(pen, *pargs)))
    fn = [f for f in w.prog.fns[c["name"]]][0]
    for q, v in zip(ORDER, a[3:]):
        w.goal("solver receives %s" % q, w.veq(v, vals[q]))


@cases([(e[0], e[1], e[2], e[3], e[4], e[5], s) for e in ESTIMATORS for s in ("dense", "sparse")])
def fitting(w, name, ptype, extra, multi, datafit, pen, sp):
    calls = []
    ov = solver_recorder(w, calls)
    ds, X, Y = est_dataset(w, multi, sp == "sparse", ov)
    P, vals = built_params(w, ptype, extra)
    for _, c in invalid(vals).values():
        w.I.assume(mknot(c))
    r = w.method("fit", P, ds)
    pargs = [vals["alpha"]] + [vals[q] for q in extra]
    expect_call(w, calls, multi, ds, datafit, pen, pargs, vals)
    est = get(w, r, "Ok")
    p, T = ov.dims["p"], ov.dims["T"]
    w.goal("coefficients are the solver's", w.veq(w.method("coefficients", est), w.arr("coef0", [p, T] if multi else [p])))


@cases(["single", "multi"])
def solver(w, kind):
    multi = kind == "multi"
    calls = []
    ov = solver_recorder(w, calls)
    ds, X, Y = est_dataset(w, multi, False, ov)
    S_ = w.new("Solver")
    vals = {}
    for q, k in COMMON:
        if q != "alpha":
            vals[q] = sym_setting(w, q, k)
            S_ = w.method(q, S_, vals[q])
    df = w.cell(w.new("QuadraticMultiTask" if multi else "Quadratic"))
    al = Num(var("alpha", R), "f")
    pen = w.new("L21" if multi else "L1", al)
    r = w.method("solve_multi_task" if multi else "solve", S_, ds, df, pen)
    expect_call(w, calls, multi, ds, "QuadraticMultiTask" if multi else "Quadratic", "L21" if multi else "L1", [al], vals)
    p, T = ov.dims["p"], ov.dims["T"]
    w.goal("returns the solver's coefficients", w.veq(get(w, r, "Ok"), w.arr("coef0", [p, T] if multi else [p])))
