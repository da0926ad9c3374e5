"""C15: nothing a fit does on well-formed data panics.

The goals here are the side obligations alone: every index in bounds, every shape
compatible, no unsigned subtraction below zero, no division by zero, every unwrap
and expect reached with a value, no explicit panic, the preconditions of the callees
that rule out panics inside them. Each function a fit uses is run on arbitrary
well-formed arguments; callers rely on the contracts of the callees."""
from spec import *
import loops
import solverspec as sv

PANIC = ("bounds", "cast", "defined", "divzero", "panic", "shape", "underflow", "unwrap", "terminates",
         "contract:unknowns", "contract:ws", "contract:initialised", "contract:step")


def strict(w):
    w.I.obl_kinds = PANIC


def setup(w, cls, sp):
    strict(w)
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    multi = cls == "QuadraticMultiTask"
    X = design(w, n, p, sp == "sparse")
    y = w.arr("Y", [n, T]) if multi else w.arr("y", [n])
    u = w.arr("u", [n, T]) if multi else w.arr("u", [n])
    return n, p, T, multi, w.dataset(X, y), X, u


@cases([(c, s) for c in ("Quadratic", "Logistic", "QuadraticMultiTask") for s in ("dense", "sparse")])
def datafit(w, cls, sp):
    n, p, T, multi, ds, X, u = setup(w, cls, sp)
    df = w.cell(w.new(cls))
    w.method("initialize", df, ds)
    w.method("value", df, ds, u)
    g = w.rv(w.method("gradient_j", df, ds, u, w.U(w.index("j", p))))
    f = w.rv(w.method("full_grad", df, ds, u))
    L = w.rv(w.method("step_size", df))
    w.goal("one step constant per feature", eq(L.dims[0], p))
    w.goal("one gradient per feature", eq(f.dims[0], p))
    if multi:
        w.goal("one gradient entry per task", mkand(eq(g.dims[0], T), eq(f.dims[1], T)))


@cases(SPEN)
def penalty_single(w, cls, ps):
    strict(w)
    p, m = w.size("p"), w.size("m", 0)
    P, vs = penalty(w, cls, ps)
    W, g, ws = w.arr("w", [p]), w.arr("g", [m]), w.index_array("ws", m, p, distinct=False)
    w.method("value", P, W)
    w.method("prox", P, w.F(w.real("x")), w.F(w.real("s", 0, strict=True)))
    d = w.rv(w.rv(w.method("subdiff_distance", P, W, g, ws)).items[0])
    w.goal("one distance per listed feature", eq(d.dims[0], m))


@cases(BPEN)
def penalty_block(w, cls, ps):
    strict(w)
    p, T, m = w.size("p"), w.size("T"), w.size("m", 0)
    P, vs = penalty(w, cls, ps)
    W, g, ws = w.arr("W", [p, T]), w.arr("G", [m, T]), w.index_array("ws", m, p, distinct=False)
    w.method("value", P, W)
    q = w.rv(w.method("prox", P, w.arr("x", [T]), w.F(w.real("s", 0, strict=True))))
    w.goal("one entry per task", eq(q.dims[0], T))
    d = w.rv(w.rv(w.method("subdiff_distance", P, W, g, ws)).items[0])
    w.goal("one distance per listed feature", eq(d.dims[0], m))


@cases(["dense", "sparse"])
def dataset(w, sp):
    """construction and every query of a dataset"""
    n, p, T, multi, ds, X, u = setup(w, "Quadratic", sp)
    n2, p2, T2, multi2, ds2, X2, U = setup(w, "QuadraticMultiTask", sp)
    k = w.size("k", 0)
    ws = w.index_array("ws", k, p)
    j = w.U(w.index("j", p))
    for nm in ("n_features",):
        w.goal(nm, eq(w.t(w.method(nm, X)), p))
    w.method("update_model_fit", X, w.cell(u), w.F(w.real("d")), j)
    w.method("update_model_fit_multi_task", X, w.cell(U), w.arr("dv", [T]), j)
    a = w.rv(w.method("compute_extrapolated_fit", X, ws, w.arr("wa", [p]), w.U(n)))
    b = w.rv(w.method("compute_extrapolated_fit_multi_task", X, ws, w.arr("Wa", [p, T]), w.U(n), w.U(T)))
    w.goal("one fit per sample", mkand(eq(a.dims[0], n), eq(b.dims[0], n), eq(b.dims[1], T)))


@cases([("single", "dense", "compute_alpha_max"), ("single", "sparse", "compute_alpha_max_sparse"),
        ("multi", "dense", "compute_alpha_max_mtl")])
def critical(w, kind, sp, fn):
    n, p, T, multi, ds, X, u = setup(w, "QuadraticMultiTask" if kind == "multi" else "Quadratic", sp)
    w.free(fn, X, u)


@case()
def linear_system(w):
    """the elimination routine on every square system with at least one unknown"""
    strict(w)
    N = w.size("N")
    w.I.inv_templates = lambda I_, h, k: []
    r = w.free("solve_lin_sys", w.arr("A", [N, N]), w.arr("b", [N]))
    for c, x in payload(w, r, "Ok"):
        w.goal("one value per unknown", imp(c, eq(w.rv(x).dims[0], N)))


@cases([("anderson_cd", False), ("anderson_bcd", True)])
def working_set(w, hint, multi):
    """scores that can be compared, start size within the number of features"""
    strict(w)
    p, T = w.size("p"), w.size("T")
    W_ = w.arr("W", [p, T]) if multi else w.arr("w", [p])
    start = var("start", tm.I)
    w.I.assume(le(ONE, start))
    w.I.assume(le(start, p))
    r = w.rv(w.free("construct_ws_from_kkt", w.cell(w.arr("kkt", [p])), W_, w.U(start), hint=hint))
    w.goal("length", eq(r.items[0].dims[0], w.t(r.items[1])))


@cases([(k, s) for k in ("single", "multi") for s in ("dense", "sparse")])
def acceleration(w, kind, s):
    strict(w)
    st = sv.Step(w, kind, s == "sparse")
    st.run()


@cases([(k, a) for k in ("single", "multi") for a in ("accelerated", "plain")])
def solver(w, kind, accel):
    """any tolerance >= 0, K >= 1, start size >= 1, number of features, samples, tasks >= 1"""
    strict(w)
    pb = sv.Problem(w, kind == "multi", strict_init=True, accel=accel == "accelerated")
    pb.templates = lambda I_, h, k: []       # bounds need no invariant over values
    r = pb.solve()
    w.goal("one coefficient per feature", mkand(*[eq(a, b) for a, b in zip(r.dims, [pb.p, pb.T] if pb.multi else [pb.p])]))


@cases([(e[0], e[1], e[2], e[3], s) for e in ESTIMATORS for s in ("dense", "sparse")])
def estimator(w, name, ptype, extra, multi, sp):
    """fit as a whole; the solver is known by its contract"""
    strict(w)
    ov = solver_recorder(w, [])
    ds, X, Y = est_dataset(w, multi, sp == "sparse", ov)
    P, vals = built_params(w, ptype, extra)
    for _, c in invalid(vals).values():
        w.I.assume(mknot(c))
    r = w.method("fit", P, ds)
    w.goal("fit succeeds", is_variant(w, r, "Ok"))
