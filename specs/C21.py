"""C21: datasets and targets are presented faithfully."""
from spec import *


@cases([(s, k) for s in ("dense", "sparse") for k in ("1d", "2d")])
def dataset(w, sp, k):
    n, p, T = w.size("n", 0), w.size("p", 0), w.size("T", 0)
    X = design(w, n, p, sp == "sparse")
    Y = w.arr("y", [n]) if k == "1d" else w.arr("Y", [n, T])
    for label, ds in (("new", w.new("DatasetBase", X, Y)), ("from", w.free_assoc("DatasetBase", "from", Tup([X, Y])))):
        w.eqgoal("%s: design_matrix()" % label, w.method("design_matrix", ds), X)
        w.eqgoal("%s: targets()" % label, w.method("targets", ds), Y)
    w.goal("n_features", eq(w.t(w.method("n_features", X)), p))
    w.goal("n_features of a reference", eq(w.t(w.ref_method("n_features", X)), p))
    w.eqgoal("matrix_type", w.method("matrix_type", X), w.ref_method("matrix_type", X))
    w.goal("matrix_type value", TRUE if alts(w, w.method("matrix_type", X))[0][1].name == ("Sparse" if sp == "sparse" else "Dense") else FALSE)
    views = []
    for label, f in (("", w.method), (" (reference)", w.ref_method)):
        w.goal("n_samples" + label, eq(w.t(f("n_samples", Y)), n))
        w.goal("n_tasks" + label, eq(w.t(f("n_tasks", Y)), ONE if k == "1d" else T))
        M = w.rv(f("as_multi_tasks", Y))
        w.goal("as_multi_tasks shape" + label, mkand(eq(M.dims[0], n), eq(M.dims[1], ONE if k == "1d" else T)) if len(M.dims) == 2 else FALSE)
        views.append((label, M))
    i, t = w.index("i", n), w.index("t", ONE if k == "1d" else T)
    for label, M in views:
        w.goal("as_multi_tasks entries" + label, eq(w.t(M.at(i, t)), w.el("y", i) if k == "1d" else w.el("Y", i, t)))


@cases(["1d", "2d"])
def single(w, k):
    n, T = w.size("n", 0), w.size("T")
    Y = w.arr("y", [n]) if k == "1d" else w.arr("Y", [n, T])
    if k == "1d":
        r = w.method("try_single_target", Y)
        one = TRUE
    else:
        fn = [f for f in w.prog.provided.get("try_single_target", [])]
        if not fn:
            raise Unsupported("try_single_target has no provided body")
        r = w.I.call_fn(fn[0], [Y])
        one = le(T, ONE)
    w.goal("succeeds exactly for one column", iff(is_variant(w, r, "Ok"), one))
    for c, v in payload(w, r, "Ok"):
        v = w.rv(v)
        w.goal("one entry per sample", imp(c, eq(v.dims[0], n)) if len(v.dims) == 1 else FALSE)
        i = w.index("i", n)
        w.goal("the same entries", imp(mkand(c, one), eq(w.t(v.at(i)), w.el("y", i) if k == "1d" else w.el("Y", i, ZERO))))


@cases(["dense", "sparse"])
def references(w, sp):
    n, p, T, m = w.size("n"), w.size("p"), w.size("T"), w.size("m", 0)
    X = design(w, n, p, sp == "sparse")
    ws = w.index_array("ws", m, p)
    j = w.index("j", p)
    wa, Wa = w.arr("wacc", [p]), w.arr("Wacc", [p, T])
    d, dv = w.F(var("d", R)), w.arr("dv", [T])
    u, U = w.arr("u", [n]), w.arr("U", [n, T])
    r = []
    for f in (w.method, w.ref_method):
        cu, cU = w.cell(u), w.cell(U)
        f("update_model_fit", X, cu, d, w.U(j))
        f("update_model_fit_multi_task", X, cU, dv, w.U(j))
        r.append((f("compute_extrapolated_fit", X, ws, wa, w.U(n)),
                  f("compute_extrapolated_fit_multi_task", X, ws, Wa, w.U(n), w.U(T)), w.rv(cu), w.rv(cU)))
    for k, nm in enumerate(["extrapolated_fit", "extrapolated_fit_multi_task", "update_model_fit", "update_model_fit_multi_task"]):
        w.eqgoal(nm + " through a reference", r[0][k], r[1][k])
