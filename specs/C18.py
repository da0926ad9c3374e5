"""C18: the Python extension classes forward every argument to the estimator of
the same name and return its coefficients."""
from spec import *

SUBS = ("src", "python/src")
WRAPPERS = [
    ("LassoWrapper", "Lasso"), ("MultiTaskLassoWrapper", "MultiTaskLasso"), ("ElasticNetWrapper", "ElasticNet"),
    ("MultiTaskElasticNetWrapper", "MultiTaskElasticNet"), ("MCPWrapper", "MCPEstimator"), ("BlockMCPWrapper", "BlockMCPEstimator"),
]
KEY = {"K": "k"}
ORDER = ["ws_start_size", "max_iterations", "max_epochs", "tolerance", "K", "use_acceleration", "verbose"]


def wrapper(w, cls, extra):
    """constructed with arbitrary keyword arguments"""
    fns = [f for f in w.prog.methods.get("new", []) if "python" in f.file.split("/")[0] and
           (f.impl["self"].get("p") or [{}])[-1].get("n") == cls]
    if len(fns) != 1:
        raise Unsupported("%d constructors of %s" % (len(fns), cls))
    names = [p["pat"]["n"] for p in fns[0].ast["ps"]]
    vals = {q: sym_setting(w, q, k) for q, k in settings_of(extra)}
    kw = {KEY.get(q, q): v for q, v in vals.items()}
    w.goal("the documented keywords", TRUE if sorted(kw) == sorted(names) else FALSE)
    return w.I.call_fn(fns[0], [kw.get(n) for n in names]), vals


def info(est):
    return [e for e in ESTIMATORS if e[0] == est][0]


@cases([(c, e, s) for c, e in WRAPPERS for s in ("dense", "sparse")])
def fitting(w, cls, est, sp):
    name, ptype, extra, multi, datafit, pen = info(est)
    calls = []
    ov = solver_recorder(w, calls)
    ds, X, Y = est_dataset(w, multi, sp == "sparse", ov)
    r, vals = wrapper(w, cls, extra)
    for _, c in invalid(vals).values():
        w.I.assume(mknot(c))
    w.goal("construction succeeds", is_variant(w, r, "Ok"))
    W_ = get(w, r, "Ok")
    cell = w.cell(W_)
    before = w.rv(cell)
    py = Opaque("py")
    if sp == "sparse":
        x = w.rv(X)
        args = [w.rv(x.fields[f]) for f in ("data", "indices", "indptr")] + [Y]
    else:
        args = [X, Y]
    r = w.method("fit_sparse" if sp == "sparse" else "fit", cell, py, *args)
    pargs = [vals["alpha"]] + [vals[q] for q in extra]
    w.goal("exactly one solver run", TRUE if len(calls) == 1 else FALSE)
    if len(calls) != 1:
        return
    a = calls[0]["args"]
    w.goal("the right solver", TRUE if calls[0]["name"] == ("block_coordinate_descent" if multi else "coordinate_descent") else FALSE)
    w.goal("on the given arrays", w.veq(a[0], ds))
    df, pe = w.rv(a[1]), w.rv(a[2])
    w.goal("the estimator's datafit", TRUE if isinstance(df, Struct) and df.name == datafit else FALSE)
    w.goal("the estimator's penalty", TRUE if isinstance(pe, Struct) and pe.name == pen else FALSE)
    w.goal("the given strengths", w.veq(pe, w.new(pen, *pargs)))
    for q, v in zip(ORDER, a[3:]):
        w.goal("solver receives %s" % q, w.veq(v, vals[q]))
    w.goal("fitting succeeds", is_variant(w, r, "Ok"))
    p, T = ov.dims["p"], ov.dims["T"]
    w.goal("the coefficients", w.veq(get(w, r, "Ok"), w.arr("coef0", [p, T] if multi else [p])))
    w.goal("settings kept", w.veq(w.rv(cell), before))
