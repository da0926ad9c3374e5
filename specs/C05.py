"""C05: sparse and dense design matrices give the same results."""
from spec import *


def both(w, n, p):
    return w.arr("X", [n, p]), w.csc(n, p)


@cases(["Quadratic", "Logistic"])
def datafit(w, cls):
    n, p = w.size("n"), w.size("p")
    D, C = both(w, n, p)
    y = w.arr("y", [n])
    u = w.arr("u", [n])
    j = w.index("j", p)
    r = []
    for X in (D, C):
        ds = w.dataset(X, y)
        df = w.cell(w.new(cls))
        w.method("initialize", df, ds)
        r.append((w.method("value", df, ds, u), w.method("gradient_j", df, ds, u, w.U(j)),
                  w.method("full_grad", df, ds, u), w.method("step_size", df)))
    for k, nm in enumerate(["value", "gradient_j", "full_grad", "step_size"]):
        w.eqgoal(nm, r[0][k], r[1][k])


@case()
def datafit_multi(w):
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    D, C = both(w, n, p)
    Y = w.arr("Y", [n, T])
    U = w.arr("U", [n, T])
    j = w.index("j", p)
    r = []
    for X in (D, C):
        ds = w.dataset(X, Y)
        df = w.cell(w.new("QuadraticMultiTask"))
        w.method("initialize", df, ds)
        r.append((w.method("value", df, ds, U), w.method("gradient_j", df, ds, U, w.U(j)),
                  w.method("full_grad", df, ds, U), w.method("step_size", df)))
    for k, nm in enumerate(["value", "gradient_j", "full_grad", "step_size"]):
        w.eqgoal(nm, r[0][k], r[1][k])


@case()
def fits(w):
    n, p, T, m = w.size("n"), w.size("p"), w.size("T"), w.size("m", 0)
    D, C = both(w, n, p)
    ws = w.index_array("ws", m, p)
    j = w.index("j", p)
    wa, Wa = w.arr("wacc", [p]), w.arr("Wacc", [p, T])
    d, dv = w.F(var("d", R)), w.arr("dv", [T])
    u, U = w.arr("u", [n]), w.arr("U", [n, T])
    r = []
    for X in (D, C):
        cu, cU = w.cell(u), w.cell(U)
        w.method("update_model_fit", X, cu, d, w.U(j))
        w.method("update_model_fit_multi_task", X, cU, dv, w.U(j))
        r.append((w.method("compute_extrapolated_fit", X, ws, wa, w.U(n)),
                  w.method("compute_extrapolated_fit_multi_task", X, ws, Wa, w.U(n), w.U(T)), w.rv(cu), w.rv(cU)))
    for k, nm in enumerate(["extrapolated_fit", "extrapolated_fit_multi_task", "update_model_fit", "update_model_fit_multi_task"]):
        w.eqgoal(nm, r[0][k], r[1][k])


@case()
def critical(w):
    n, p = w.size("n"), w.size("p")
    D, C = both(w, n, p)
    y = w.arr("y", [n])
    w.eqgoal("alpha_max", w.free("compute_alpha_max", D, y), w.free("compute_alpha_max_sparse", C, y))
