"""C06: the model fit maintained by the solver is always X times the weights."""
from spec import *
import loops
import prover as pv
import solverspec as sv


def setup(w, sparse, multi):
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    X = design(w, n, p, sparse)
    fit = w.arr("fit", [n, T]) if multi else w.arr("fit", [n])
    return n, p, T, X, fit


XE = lambda i, j: app("X", (i, j), R)
KINDS = [(s, m) for s in ("dense", "sparse") for m in ("single", "multi")]


@cases(KINDS)
def update(w, s, m):
    """update_model_fit adds the change times the column and nothing else"""
    multi = m == "multi"
    n, p, T, X, fit = setup(w, s == "sparse", multi)
    j = w.index("j", p)
    cell = w.cell(fit)
    xc = w.cell(X)
    if multi:
        d = w.arr("d", [T])
        w.method("update_model_fit_multi_task", xc, cell, d, w.U(j))
        want = lam2(n, T, lambda i, t: add(app("fit", (i, t), R), mul(app("d", (t,), R), XE(i, j))))
    else:
        d = w.F(w.real("d"))
        w.method("update_model_fit", xc, cell, d, w.U(j))
        want = lam1(n, lambda i: add(app("fit", (i,), R), mul(var("d", R), XE(i, j))))
    w.eqgoal("fit + change * column", w.rv(cell), want)
    w.eqgoal("the design matrix is untouched", w.rv(xc), X)


@cases(KINDS)
def extrapolated(w, s, m):
    """the extrapolated fit of a working set is X times weights supported on it"""
    multi = m == "multi"
    n, p, T, X, fit = setup(w, s == "sparse", multi)
    k = w.size("k", 0)
    ws = w.index_array("ws", k, p)
    a = lambda i: app("ws", (i,), tm.I)
    if multi:
        wa = w.arr("wacc", [p, T])
        r = w.method("compute_extrapolated_fit_multi_task", X, ws, wa, w.U(n), w.U(T))
        want = lam2(n, T, lambda i, t: S(ZERO, k, lambda b: mul(XE(i, a(b)), app("wacc", (a(b), t), R))))
    else:
        wa = w.arr("wacc", [p])
        r = w.method("compute_extrapolated_fit", X, ws, wa, w.U(n))
        want = lam1(n, lambda i: S(ZERO, k, lambda b: mul(XE(i, a(b)), app("wacc", (a(b),), R))))
    w.eqgoal("sum over the working set", w.rv(r), want)


def fit_check(pb):
    """every model fit handed to the datafit is X times a weights array that is alive"""
    def check(I_, fit):
        nd = 2 if pb.multi else 1
        best = None
        for c in sorted(I_.heap, key=str):
            for path, v in loops.leaf_paths(I_.heap[c]):
                if isinstance(v, Seq) and isinstance(v.elem, Num) and v.elem.kind == "f" and len(v.dims) == nd \
                        and v.dims[0] is pb.p and (nd == 1 or v.dims[1] is pb.T):
                    g = I_.veq(fit, pb.fit_of(v))
                    if g is not TRUE:
                        g = pv.simplify(g, I_.ctx)
                    if g is TRUE:
                        best = g
                        break
                    if best is None or len(subterms(g)) < len(subterms(best)):
                        best = g
            if best is TRUE:
                break
        I_.oblige("contract:fit", best if best is not None else FALSE, "the model fit is X times the weights")
    return check


@cases([(k, a) for k in ("single", "multi") for a in ("accelerated", "plain")])
def solver(w, kind, accel):
    pb = sv.Problem(w, kind == "multi", accel=accel == "accelerated")
    pb.on_fit = fit_check(pb)
    pb.solve()


@cases(KINDS)
def acceleration(w, s, m):
    """the acceleration step replaces weights and model fit together"""
    st = sv.Step(w, m, s == "sparse")
    st.pb.on_fit = fit_check(st.pb)
    out = st.run()
    w.goal("model fit = X * weights", w.veq(out["fit"], st.pb.fit_of(out["w"])))
