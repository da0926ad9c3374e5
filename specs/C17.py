"""C17: with one task, multi-task components agree with the single-task ones."""
from spec import *


def col(w, a, n):
    """the one-column matrix holding the entries of an array"""
    i, t = fresh("i", tm.I), fresh("t", tm.I)
    return Seq([n, ONE], (i, t), Num(app(a, (i,), R), "f"))


def column_is(w, name, M, v):
    """goal: the one-column matrix M holds exactly the entries of v"""
    M, v = w.rv(M), w.rv(v)
    w.goal(name + ": shape", mkand(eq(M.dims[0], v.dims[0]), eq(M.dims[1], ONE)) if len(M.dims) == 2 else FALSE)
    i = w.index("i", v.dims[0])
    w.goal(name + ": entries", eq(w.t(M.at(i, ZERO)), w.t(v.at(i))))


@cases(["dense", "sparse"])
def datafit(w, sp):
    n, p = w.size("n"), w.size("p")
    X = design(w, n, p, sp == "sparse")
    s, d = w.dataset(X, w.arr("y", [n])), w.dataset(X, col(w, "y", n))
    a, b = w.cell(w.new("Quadratic")), w.cell(w.new("QuadraticMultiTask"))
    w.method("initialize", a, s)
    w.method("initialize", b, d)
    u, U = w.arr("u", [n]), col(w, "u", n)
    w.eqgoal("value", w.method("value", a, s, u), w.method("value", b, d, U))
    w.eqgoal("step constants", w.method("step_size", a), w.method("step_size", b))
    j = w.index("j", p)
    g = w.rv(w.method("gradient_j", b, d, U, w.U(j)))
    w.goal("gradient row has one entry", eq(g.dims[0], ONE))
    w.goal("gradient", eq(w.t(w.method("gradient_j", a, s, u, w.U(j))), w.t(g.at(ZERO))))
    column_is(w, "full gradient", w.method("full_grad", b, d, U), w.method("full_grad", a, s, u))


PAIRS = [("L1", "L21", ("alpha",)), ("L1PlusL2", "BlockL1PlusL2", ("alpha", "l1_ratio")), ("MCP", "BlockMCP", ("alpha", "gamma"))]


def pair(w, cls, bcls, ps):
    P, vs = penalty(w, cls, ps)
    return P, w.new(bcls, *[w.F(v) for v in vs]), vs


@cases(PAIRS)
def value(w, cls, bcls, ps):
    p = w.size("p", 0)
    P, B_, vs = pair(w, cls, bcls, ps)
    w.eqgoal("value", w.method("value", P, w.arr("w", [p])), w.method("value", B_, col(w, "w", p)))


@cases(PAIRS)
def prox(w, cls, bcls, ps):
    P, B_, vs = pair(w, cls, bcls, ps)
    step = var("step", R)
    w.I.assume(lt(ZERO, step))
    if "gamma" in ps:
        w.I.assume(lt(step, vs[1]))
    x = var("x", R)
    z = w.t(w.method("prox", P, w.F(x), w.F(step)))
    r = w.rv(w.method("prox", B_, lam1(ONE, lambda i: x), w.F(step)))
    w.goal("prox has one entry", eq(r.dims[0], ONE))
    w.goal("prox", eq(w.t(r.at(ZERO)), z))


@cases(PAIRS)
def violation(w, cls, bcls, ps):
    p, m = w.size("p"), w.size("m", 0)
    P, B_, vs = pair(w, cls, bcls, ps)
    ws = w.index_array("ws", m, p, distinct=False)
    a = w.rv(w.method("subdiff_distance", P, w.arr("w", [p]), w.arr("g", [m]), ws))
    b = w.rv(w.method("subdiff_distance", B_, col(w, "w", p), col(w, "g", m), ws))
    w.eqgoal("distances", a.items[0], b.items[0])
    w.eqgoal("maximum", a.items[1], b.items[1])


@cases(["dense", "sparse"])
def fits(w, sp):
    n, p, m = w.size("n"), w.size("p"), w.size("m", 0)
    X = design(w, n, p, sp == "sparse")
    ws = w.index_array("ws", m, p)
    j, d = w.index("j", p), var("d", R)
    cu, cU = w.cell(w.arr("u", [n])), w.cell(col(w, "u", n))
    w.method("update_model_fit", X, cu, w.F(d), w.U(j))
    w.method("update_model_fit_multi_task", X, cU, lam1(ONE, lambda i: d), w.U(j))
    column_is(w, "update_model_fit", w.rv(cU), w.rv(cu))
    column_is(w, "extrapolated fit", w.method("compute_extrapolated_fit_multi_task", X, ws, col(w, "wacc", p), w.U(n), w.U(ONE)),
              w.method("compute_extrapolated_fit", X, ws, w.arr("wacc", [p]), w.U(n)))


@case()
def critical(w):
    n, p = w.size("n"), w.size("p")
    X = w.arr("X", [n, p])
    w.eqgoal("critical regularisation", w.free("compute_alpha_max", X, w.arr("y", [n])), w.free("compute_alpha_max_mtl", X, col(w, "y", n)))
