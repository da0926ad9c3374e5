"""Contracts: cases, goals and the discharge of everything a case generates."""
import time
import traceback
from api import *
import lemmas
import loops
import prover as pv

CASES = []
TIER = ["quick"]


def case(*names, **kw):
    """register a contract case; with several names it is instantiated for each"""
    def deco(f):
        CASES.append(dict(name=kw.get("name", f.__name__), fn=f, args=(), tier=kw.get("tier"), bounded=kw.get("bounded")))
        return f
    return deco


def cases(params, name=None, tier=None, bounded=None):
    """register f(w, *args) for each tuple of params"""
    def deco(f):
        for a in params:
            a = a if isinstance(a, tuple) else (a,)
            CASES.append(dict(name="%s[%s]" % (name or f.__name__, ",".join(str(x) for x in a if not callable(x))),
                              fn=f, args=a, tier=tier, bounded=bounded))
        return f
    return deco


class W(World):
    def __init__(self, prog):
        super().__init__(prog)
        self.goals = []
        self.I.lemmas = []
        self.assumptions = []

    def goal(self, name, g, timeout=None):
        self.goals.append((name, g, list(self.I.ctx.facts), timeout))

    def eqgoal(self, name, a, b, timeout=None):
        self.goal(name, self.veq(a, b), timeout)

    def le(self, name, a, b, timeout=None):
        self.goal(name, le(self.t(a) if isinstance(a, V) else a, self.t(b) if isinstance(b, V) else b), timeout)

    def index(self, name, n, kind="u"):
        """an arbitrary index below n"""
        j = var(name, tm.I)
        self.I.assume(le(ZERO, j))
        self.I.assume(lt(j, n))
        return j

    def lemma(self, *ls):
        for l in ls:
            if l not in self.I.lemmas:
                self.I.lemmas.append(l)


def run_case(prog, c, timeout=5000, deadline=300):
    t0 = time.time()
    out = dict(case=c["name"], status="ok", obls=[], functions={}, assumed={}, bounded=c.get("bounded"))
    tm_stats = dict(pv.STATS)
    pv.DEADLINE[0] = t0 + deadline
    w = None
    try:
        w = W(prog)
        c["fn"](w, *c["args"])
    except (Unsupported, loops_unsup()) as e:
        out["status"] = "unsupported"
        out["why"] = "%s (at %s)" % (e, where_of(w))
    except Escape:
        # everything after this point is unreachable: an obligation must say why
        out["status"] = "escape"
        out["why"] = "no execution continues past %s" % where_of(w)
    except pv.OutOfTime:
        out["status"] = "timeout"
        out["why"] = "time limit"
    except RecursionError:
        out["status"] = "unsupported"
        out["why"] = "expression too deep"
    except Exception as e:
        out["status"] = "unsupported"
        out["why"] = "engine: %s: %s | %s" % (type(e).__name__, e, traceback.format_exc()[-900:])
    if w is not None:
        out["functions"] = dict(w.I.called)
        out["assumed"] = dict(w.I.assumed)
        items = [("side:" + o.kind, o.goal, o.facts, o.where, o.how, None) for o in w.I.obls]
        items += [("goal:" + n, g, f, None, None, to) for n, g, f, to in w.goals]
        seen = {}
        for name, g, facts, where, how, to in items:
            if how is None:
                key = (g, tuple(facts))
                if key in seen:
                    how, model, dt = seen[key]
                else:
                    t1 = time.time()
                    model = None
                    ctx = w.I.ctx
                    save, ctx.facts = ctx.facts, list(facts)
                    tm.DECIDE[0] = ctx.decide
                    try:
                        P = w.prover(to or timeout)
                        r = P.prove(g)
                        how, model = (r.how if r else None), (None if r else "%s %s" % (r.how, r.model))
                    except pv.OutOfTime:
                        how, model = None, "time limit"
                    except Exception as e:
                        how, model = None, "prover: %s: %s" % (type(e).__name__, e)
                    finally:
                        ctx.facts = save
                    dt = time.time() - t1
                    seen[key] = (how, model, dt)
            else:
                model, dt = None, 0.0
            out["obls"].append(dict(name=name, where=where, how=how, time=round(dt, 3),
                                    goal=None if how else show(g)[:1200], model=model))
        if out["status"] == "ok":
            if not out["obls"]:
                out["status"] = "vacuous"
                out["why"] = "no obligation was generated"
            else:
                # the preconditions must be satisfiable
                fs = [f for f in w.I.ctx.facts]
                try:
                    if pv.smt(fs, FALSE, 1500) is True:
                        out["status"] = "vacuous"
                        out["why"] = "the assumptions are contradictory"
                except pv.OutOfTime:
                    pass
    pv.DEADLINE[0] = None
    out["time"] = round(time.time() - t0, 2)
    out["stats"] = {k: round(pv.STATS[k] - tm_stats[k], 3) for k in pv.STATS}
    return out


def loops_unsup():
    return Unsupported


def where_of(w):
    if w is None:
        return "?"
    fn = w.I.frames[-1].fn if w.I.frames else None
    return "%s:%s" % (fn.file if fn else "?", w.I.cur_line)


# ---------------------------------------------------------------- shared inputs
DATAFITS = ["Quadratic", "Logistic"]
SPEN = [("L1", ("alpha",)), ("L1PlusL2", ("alpha", "l1_ratio")), ("MCP", ("alpha", "gamma")), ("L05", ("alpha",))]
BPEN = [("L21", ("alpha",)), ("BlockL1PlusL2", ("alpha", "l1_ratio")), ("BlockMCP", ("alpha", "gamma"))]


def penalty(w, cls, ps):
    vs = []
    for q in ps:
        v = var(q, R)
        vs.append(v)
        w.I.assume(le(ZERO, v))
        if q == "l1_ratio":
            w.I.assume(le(v, ONE))
        if q == "gamma":
            w.I.assume(le(ONE, v))
    return w.new(cls, *[w.F(v) for v in vs]), vs


def design(w, n, p, sparse, X="X"):
    return w.csc(n, p, X) if sparse else w.arr(X, [n, p])


def lam1(n, f, tag="arr"):
    i = fresh("i", tm.I)
    return Seq([n], (i,), Num(f(i), "f"), tag)


def lam2(n, m, f):
    i, j = fresh("i", tm.I), fresh("j", tm.I)
    return Seq([n, m], (i, j), Num(f(i, j), "f"))


def S(lo, hi, f):
    v = fresh("s", tm.I)
    return mksum(v, lo, hi, f(v))


half = Fraction(1, 2)


def sq(t):
    return powi(t, 2)


# ---------------------------------------------------------------- variants
def alts(w, v):
    """the alternatives of an enum-valued result: [(condition, Enum)]"""
    v = w.I.rv(v)
    if isinstance(v, Mux):
        return [(mkand(c, c2), x) for c, y in v.alts for c2, x in alts(w, y)]
    return [(TRUE, v)]


def is_variant(w, v, name):
    return mkor(*[c for c, x in alts(w, v) if isinstance(x, Enum) and x.name == name])


def payload(w, v, name):
    """[(condition, value)] of the payload of a variant"""
    return [(c, x.args[0]) for c, x in alts(w, v) if isinstance(x, Enum) and x.name == name]


def get(w, v, name):
    """the payload under the assumption that v is that variant"""
    ps = payload(w, v, name)
    if not ps:
        raise Unsupported("never " + name)
    r = ps[-1][1]
    for c, x in ps[:-1]:
        r = w.I.vite(c, x, r)
    return r


# name, params type, valid type, extra settings, multi, datafit, penalty
ESTIMATORS = [
    ("Lasso", "LassoParams", (), False, "Quadratic", "L1"),
    ("ElasticNet", "ElasticNetParams", ("l1_ratio",), False, "Quadratic", "L1PlusL2"),
    ("MCPEstimator", "MCParams", ("gamma",), False, "Quadratic", "MCP"),
    ("MultiTaskLasso", "MultiTaskLassoParams", (), True, "QuadraticMultiTask", "L21"),
    ("MultiTaskElasticNet", "MultiTaskElasticNetParams", ("l1_ratio",), True, "QuadraticMultiTask", "BlockL1PlusL2"),
    ("BlockMCPEstimator", "BlockMCParams", ("gamma",), True, "QuadraticMultiTask", "BlockMCP"),
]
COMMON = (("alpha", "f"), ("max_iterations", "u"), ("max_epochs", "u"), ("ws_start_size", "u"), ("tolerance", "f"), ("K", "u"),
          ("use_acceleration", "b"), ("verbose", "b"))


def settings_of(extra):
    return list(COMMON) + [(e, "f") for e in extra]


def sym_setting(w, q, kind):
    if kind == "b":
        return Bool(var(q + "?", B))
    v = var(q, R if kind == "f" else tm.I)
    if kind == "u":
        w.I.assume(le(ZERO, v))
    return Num(v, kind)


def built_params(w, ptype, extra):
    """params object with every setting chosen through its setter"""
    P = w.new(ptype)
    vals = {}
    for q, kind in settings_of(extra):
        vals[q] = sym_setting(w, q, kind)
        P = w.method(q, P, vals[q])
    return P, vals


def invalid(vals):
    t = lambda q: vals[q].t
    c = {"InvalidRegularization": ("alpha", lt(t("alpha"), ZERO)), "InvalidTolerance": ("tolerance", lt(t("tolerance"), ZERO)),
         "InvalidK": ("K", eq(t("K"), ZERO)), "InvalidWSSize": ("ws_start_size", eq(t("ws_start_size"), ZERO))}
    if "l1_ratio" in vals:
        c["InvalidL1Ratio"] = ("l1_ratio", mkor(lt(t("l1_ratio"), ZERO), lt(ONE, t("l1_ratio"))))
    if "gamma" in vals:
        c["InvalidGamma"] = ("gamma", lt(t("gamma"), ONE))
    return c


def check_error(w, label, err, vals, under=TRUE):
    """an error value must name an offending setting and carry its value"""
    bad = invalid(vals)
    for c, e in alts(w, err):
        c = mkand(under, c)
        if not isinstance(e, Enum) or e.name not in bad:
            w.goal("%s: unexpected error" % label, mknot(c))
            continue
        q, off = bad[e.name]
        w.goal("%s: %s only if %s offends" % (label, e.name, q), imp(c, off))
        w.goal("%s: %s carries %s" % (label, e.name, q), imp(c, w.veq(e.args[0], vals[q])))


def solver_recorder(w, calls, names=("coordinate_descent", "block_coordinate_descent")):
    """replace the solvers by opaque functions of their arguments that record
    each call (their own contracts are the subject of other properties)"""
    def ov(I_, fn, args):
        ds = I_.rv(args[0])
        X = I_.rv(ds.fields["design_matrix"])
        n = len(calls)
        multi = fn.name.startswith("block")
        p = ov.dims["p"]
        T = ov.dims["T"]
        calls.append(dict(name=fn.name, args=[I_.rv(a) for a in args], pc=I_.ctx.copyfacts()))
        r = w.arr("coef%d" % n, [p, T] if multi else [p])
        I_.assumed[fn.qual] = "recorded call (its behaviour is decided by C06-C08, C10, C14, C15)"
        return r
    ov.dims = {}
    for n in names:
        w.I.overrides[n] = ov
    return ov


def est_dataset(w, multi, sparse, ov=None):
    n, p, T = w.size("n"), w.size("p"), w.size("T")
    X = design(w, n, p, sparse)
    Y = w.arr("Y", [n, T]) if multi else w.arr("y", [n])
    if ov is not None:
        ov.dims.update(p=p, T=T)
    return w.dataset(X, Y), X, Y
