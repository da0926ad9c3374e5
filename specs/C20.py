"""C20: a fit does not depend on anything that happened before."""
from spec import *
import loops
import solverspec as sv


def scrambled(w, cell, tag):
    """every number, flag and array (of any size) stored in the object becomes arbitrary"""
    v = w.rv(cell)
    for n, (path, leaf) in enumerate(list(loops.leaf_paths(v))):
        nm = "%s_%d" % (tag, n)
        if isinstance(leaf, Num):
            new = Num(var(nm, R if leaf.kind in (None, "f") else tm.I), leaf.kind)
        elif isinstance(leaf, Bool):
            new = Bool(var(nm, B))
        elif isinstance(leaf, Seq):
            dims = [w.size("%s_d%d" % (nm, k), 0) for k in range(len(leaf.dims))]
            e = leaf.elem
            new = w.arr(nm, dims, e.kind or "f") if isinstance(e, Num) else None
        elif isinstance(leaf, Enum):
            continue
        else:
            new = None
        if new is None:
            raise Unsupported("state of type %s" % type(leaf).__name__)
        w.I.heap[cell.cell] = loops.setp(w.I.heap[cell.cell], path, new)
    return cell


def observe(w, df, ds, fit, j):
    return [("value", w.method("value", df, ds, fit)), ("gradient_j", w.method("gradient_j", df, ds, fit, w.U(j))),
            ("full_grad", w.method("full_grad", df, ds, fit)), ("step_size", w.method("step_size", df))]


COMBOS = [(c, s) for c in ("Quadratic", "Logistic", "QuadraticMultiTask") for s in ("dense", "sparse")]


def setup(w, cls, sp):
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    multi = cls == "QuadraticMultiTask"
    X = design(w, n, p, sp == "sparse")
    y = w.arr("Y", [n, T]) if multi else w.arr("y", [n])
    u = w.arr("u", [n, T]) if multi else w.arr("u", [n])
    return w.dataset(X, y), u, w.index("j", p)


@cases(COMBOS)
def reinitialised(w, cls, sp):
    """whatever the datafit holds, initialising it makes it behave like a fresh one"""
    ds, u, j = setup(w, cls, sp)
    fresh_, used = w.cell(w.new(cls)), w.cell(w.new(cls))
    scrambled(w, used, "old")
    w.method("initialize", fresh_, ds)
    w.method("initialize", used, ds)
    a, b = observe(w, fresh_, ds, u, j), observe(w, used, ds, u, j)
    for (nm, x), (_, y) in zip(a, b):
        w.eqgoal(nm, x, y)


@cases(COMBOS)
def reused(w, cls, sp):
    """a datafit that was initialised and used on another dataset of other sizes"""
    ds, u, j = setup(w, cls, sp)
    n2, p2, T2 = w.size("n2"), w.size("p2"), w.size("T2")
    multi = cls == "QuadraticMultiTask"
    X2 = w.csc(n2, p2, "X2", "2") if sp == "sparse" else w.arr("X2", [n2, p2])
    y2 = w.arr("Y2", [n2, T2]) if multi else w.arr("y2", [n2])
    u2 = w.arr("u2", [n2, T2]) if multi else w.arr("u2", [n2])
    ds2 = w.dataset(X2, y2)
    j2 = w.index("j2", p2)
    fresh_, used = w.cell(w.new(cls)), w.cell(w.new(cls))
    w.method("initialize", used, ds2)
    observe(w, used, ds2, u2, j2)
    w.method("initialize", used, ds)
    w.method("initialize", fresh_, ds)
    a, b = observe(w, fresh_, ds, u, j), observe(w, used, ds, u, j)
    for (nm, x), (_, y) in zip(a, b):
        w.eqgoal(nm, x, y)
    # reading leaves the datafit as it was
    before = w.rv(used)
    observe(w, used, ds, u, j)
    w.eqgoal("queries leave the datafit unchanged", w.rv(used), before)


@cases([(e[0], e[1], e[2], e[3], s) for e in ESTIMATORS for s in ("dense", "sparse")])
def refit(w, name, ptype, extra, multi, sp):
    calls = []
    ov = solver_recorder(w, calls)
    ds, X, Y = est_dataset(w, multi, sp == "sparse", ov)
    P, vals = built_params(w, ptype, extra)
    for _, c in invalid(vals).values():
        w.I.assume(mknot(c))
    cp, cd = w.cell(P), w.cell(ds)
    P0, d0 = w.rv(cp), w.rv(cd)
    w.method("fit", cp, cd)
    w.goal("settings unchanged", w.veq(w.rv(cp), P0))
    w.goal("dataset unchanged", w.veq(w.rv(cd), d0))
    w.method("fit", cp, cd)
    w.goal("two solver runs", TRUE if len(calls) == 2 else FALSE)
    if len(calls) == 2:
        a, b = calls
        w.goal("same solver", TRUE if a["name"] == b["name"] else FALSE)
        for k, (x, y) in enumerate(zip(a["args"], b["args"])):
            if k == 1:
                # the datafit: both are initialised by the solver (case solver_initialises), so
                # only its type matters
                w.goal("same datafit type", TRUE if isinstance(x, Struct) and isinstance(y, Struct) and x.name == y.name else FALSE)
                continue
            w.goal("same argument %d" % k, w.veq(x, y))
    ok = get(w, w.method("check_ref", cp), "Ok")
    for q, k in settings_of(extra):
        w.goal("setting %s" % q, w.veq(w.method(q, ok), vals[q]))


@cases([(k, a) for k in ("single", "multi") for a in ("accelerated", "plain")])
def solver_initialises(w, kind, accel):
    """the solver initialises the datafit on the given dataset before it asks it anything,
    whatever was done with it before, and changes neither dataset nor penalty"""
    pb = sv.Problem(w, kind == "multi", strict_init=True, accel=accel == "accelerated")
    r = pb.solve()
    w.goal("initialised", pb.flag("init"))
    w.goal("dataset unchanged", w.veq(w.rv(pb.ds_cell), pb.ds))
