"""C19: the Python estimators accept exactly the documented parameters, hand every
setting to the extension class under its own name and predict with the fitted
coefficients. The methods are executed symbolically from the current source."""
from spec import *
import pyexec as px

SUBS = ("src",)
FILE = "python/sparseglm/estimators.py"
CLASSES = [
    ("Lasso", "LassoWrapper", (), False), ("MultiTaskLasso", "MultiTaskLassoWrapper", (), True),
    ("ElasticNet", "ElasticNetWrapper", ("l1_ratio",), False), ("MultiTaskElasticNet", "MultiTaskElasticNetWrapper", ("l1_ratio",), True),
    ("MCPRegressor", "MCPWrapper", ("gamma",), False), ("BlockMCPRegressor", "BlockMCPWrapper", ("gamma",), True),
]
OPTIONS = ["max_iter", "max_epochs", "tol", "p0", "use_accel", "K", "verbose"]
KEYWORD = {"max_iter": "max_iterations", "max_epochs": "max_epochs", "tol": "tolerance", "p0": "ws_start_size",
           "use_accel": "use_acceleration", "K": "k", "verbose": "verbose", "alpha": "alpha", "gamma": "gamma", "l1_ratio": "l1_ratio"}


def hooks(what, x, *a):
    if what == "call":
        f, args, kw = a
        n = f.path
        if n in px.IDENTITY and args:
            return args[0]
        if n.startswith("._lib."):
            t = px.Tree("ext " + n[6:], [px.Tup(args), px.Dct(kw)], False)
            x.calls.append(("new", n[6:], args, kw, t))
            return t
        if n.split(".")[-1] in ("issparse", "isspmatrix", "isspmatrix_csc") and len(args) == 1:
            return px.Cond(var("sparse " + repr(px.key(args[0])), B))
        if n.split(".")[-1] == "check_X_y" and len(args) >= 2:
            return px.Tup(args[:2])
        if n.split(".")[-1] == "check_is_fitted" and args:
            o = args[0]
            if isinstance(o, px.Obj):
                return px.Const(None)
        if n in ("numpy.dot", "numpy.matmul") and len(args) == 2:
            return px.Tree("@", args)
        if n == "numpy.transpose" and len(args) == 1 and isinstance(args[0], px.Tree):
            return x.attribute(args[0], "T")
        if n in ("numpy.shape",) and len(args) == 1:
            return x.attribute(args[0], "shape")
        if n in ("numpy.ndim",) and len(args) == 1:
            return x.attribute(args[0], "ndim")
        raise Unsupported("call of " + n)
    if what == "method":
        m, args, kw = a
        if m.recv.op.startswith("ext ") and m.name in ("fit", "fit_sparse"):
            t = px.Tree("fitted", [m.recv, px.Const(m.name), px.Tup(args)])
            x.calls.append((m.name, m.recv, args, kw, t))
            return t
        return None
    if what == "attr":
        v, n = a
        if isinstance(v, px.Super) and n == "__init__":
            return px.Ext("object.__init__")
        if n == "_validate_data":
            # scikit-learn's conversion of (X, y): the same values
            return px.Fun(px.ast.parse("lambda X, y=None, **kw: (X, y) if y is not None else X", mode="eval").body, {}, x.mod)
        if n in ("_check_feature_names", "_check_n_features", "_more_tags", "get_params", "set_params"):
            raise Unsupported(n)
        raise px.Raised("AttributeError")


def setup(w):
    m = px.Module(w.prog.root, FILE)
    w.I.called = m.called
    w.I.assumed["scikit-learn check_array and _validate_data"] = "return the values they are given"
    w.I.assumed["BaseEstimator"] = "adds no behaviour to construction and attribute access"
    return m


def args(w, extra):
    out = {}
    for q in ["alpha"] + list(extra) + OPTIONS:
        a = px.Arg(q)
        out[q] = a
        w.I.assume(mknot(mkand(a.isa("float"), a.isa("int"))))
        w.I.assume(imp(a.isa("bool"), a.isa("int")))
        w.I.assume(imp(a.isa("None"), mknot(mkor(a.isa("float"), a.isa("int")))))
    return out


def bad(a, extra):
    al = a["alpha"]
    cs = [mknot(al.isa("float")), lt(al.val, ZERO)]
    for q in extra:
        v = a[q]
        cs.append(mknot(v.isa("float")))
        if q == "gamma":
            cs.append(lt(v.val, ONE))
        else:
            cs += [lt(v.val, ZERO), lt(ONE, v.val)]
    return mkor(*cs)


def t(b):
    return TRUE if b else FALSE


@cases([(c[0], c[2]) for c in CLASSES])
def construct(w, name, extra):
    m = setup(w)
    a = args(w, extra)
    b = bad(a, extra)
    made = []

    def run(x):
        return x.call(m.cls(name), [], dict(a))
    some = []
    for x, out, v, pc in px.paths(m, w.I.ctx, run, hooks):
        if out == "ValueError":
            w.goal("rejected only outside the domain", imp(pc, b))
        elif out == "return":
            some.append(pc)
            w.goal("accepted only inside the domain", imp(pc, mknot(b)))
            for q in a:
                w.goal("%s stored" % q, imp(pc, t(q in v.attrs and px.same(v.attrs[q], a[q]))))
            w.goal("not fitted", imp(pc, t("coef_" in v.attrs and px.same(v.attrs["coef_"], px.Const(None)))))
        else:
            w.goal("no other exception (%s)" % out, mknot(pc))
    w.goal("some value is accepted", t(some))


def valid(w, m, a, o, extra):
    """every setting as the documentation asks"""
    for q in ["alpha", "tol"] + list(extra):
        w.I.assume(a[q].isa("float"))
        w.I.assume(le(ZERO, a[q].val))
    for q in ["max_iter", "max_epochs", "p0", "K"]:
        w.I.assume(a[q].isa("int"))
        w.I.assume(le(ZERO, a[q].val))
    w.I.assume(mknot(bad(a, extra)))


def shapes(w, X, Y, multi):
    nd = lambda v: var("ndim %r" % (v.key(),), tm.I)
    sh = lambda v: var("shape[0] %r" % (v.key(),), tm.I)
    w.I.assume(eq(nd(X), num(2)))
    w.I.assume(eq(nd(Y), num(2 if multi else 1)))
    w.I.assume(eq(sh(X), sh(Y)))


@cases([(c[0], c[1], c[2], c[3], s) for c in CLASSES for s in ("dense", "sparse")])
def fit(w, name, wrapper, extra, multi, s):
    m = setup(w)
    a = args(w, extra)
    o = None
    X, Y, X2 = px.Tree("X"), px.Tree("Y"), px.Tree("X2")
    valid(w, m, a, o, extra)
    shapes(w, X, Y, multi)
    sp = var("sparse " + repr(px.key(X)), B)
    w.I.assume(sp if s == "sparse" else mknot(sp))
    w.I.assume(mknot(var("sparse " + repr(px.key(Y)), B)))
    kept = {}

    def run(x):
        o = x.call(m.cls(name), [], dict(a))
        x.obj = o
        x.before = dict(o.attrs)
        x.calls.clear()
        f = x.attribute(o, "fit")
        r = x.call(f, [X, Y], {})
        x.after = dict(o.attrs)
        x.pred = x.call(x.attribute(o, "predict"), [X2], {})
        return r
    ok = False
    for x, out, v, pc in px.paths(m, w.I.ctx, run, hooks):
        w.goal("fitting and predicting succeed", t(out == "return") if out == "return" else mknot(pc))
        if out != "return":
            continue
        ok = True
        news = [c for c in x.calls if c[0] == "new"]
        fits = [c for c in x.calls if c[0] != "new"]
        w.goal("one extension object, fitted once", imp(pc, t(len(news) == 1 and len(fits) == 1)))
        if len(news) != 1 or len(fits) != 1:
            continue
        _, cls, pos, kw, obj = news[0]
        w.goal("the matching class", imp(pc, t(cls == wrapper)))
        w.goal("settings by keyword", imp(pc, t(not pos and sorted(kw) == sorted(KEYWORD[q] for q in a))))
        for q in a:
            w.goal("%s under %s" % (q, KEYWORD[q]), imp(pc, t(KEYWORD[q] in kw and px.same(kw[KEYWORD[q]], a[q]))))
        how, recv, fa, fkw, res = fits[0]
        w.goal("the object just built", imp(pc, t(recv is obj and not fkw)))
        at = lambda n: px.Tree("." + n, [X])
        want = [at("data"), at("indices"), at("indptr"), Y] if s == "sparse" else [X, Y]
        w.goal("the given arrays", imp(pc, t(how == ("fit_sparse" if s == "sparse" else "fit") and len(fa) == len(want) and
                                             all(px.same(p, q) for p, q in zip(fa, want)))))
        for q in a:
            w.goal("%s kept" % q, imp(pc, t(q in x.after and px.same(x.after[q], a[q]))))
        w.goal("prediction is X times the coefficients", imp(pc, t(px.same(x.pred, px.Tree("@", [X2, res])))))
        w.goal("returns the estimator", imp(pc, t(v is x.obj)))
    w.goal("some path succeeds", t(ok))


@cases([c[0] for c in CLASSES])
def predict(w, name):
    m = setup(w)
    extra = [c for c in CLASSES if c[0] == name][0][2]
    a = args(w, extra)
    valid(w, m, a, None, extra)
    X = px.Tree("X")

    def fresh_(x):
        o = x.call(m.cls(name), [], dict(a))
        return x.call(x.attribute(o, "predict"), [X], {})
    for x, out, v, pc in px.paths(m, w.I.ctx, fresh_, hooks):
        w.goal("an estimator never fitted raises", mknot(pc) if out == "return" else TRUE)

    def fitted(x):
        o = x.call(m.cls(name), [], dict(a))
        o.attrs["coef_"] = px.Tree("coef")
        return x.call(x.attribute(o, "predict"), [X], {})
    for x, out, v, pc in px.paths(m, w.I.ctx, fitted, hooks):
        w.goal("any fitted coefficients are accepted", TRUE if out == "return" else mknot(pc))
        if out == "return":
            w.goal("X times the coefficients", imp(pc, t(px.same(v, px.Tree("@", [X, px.Tree("T", [px.Tree("coef")])])))))
