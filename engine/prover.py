"""Discharging goals: canonical forms first, then SMT on what is left."""
import os
import time
import z3
from fractions import Fraction
from term import *
import term as tm

z3.set_param("timeout", 0)
STATS = {"smt_calls": 0, "smt_time": 0.0, "nf": 0, "smt": 0, "cvc5": 0}
DEADLINE = [None]


class OutOfTime(Exception):
    pass


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise OutOfTime()


class Export:
    """export terms to z3 with defining axioms for the interpreted atoms"""

    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.exps = []
        self.foralls = []       # (term, z3bool)
        self.done_inst = set()
        self.insts = {}
        self.sk = {}
        self.n = 0
        self.nonlinear = False

    def fresh(self, p, sort):
        self.n += 1
        return z3.Const("%s!%d" % (p, self.n), sort)

    def real(self, t):
        e = self.arith(t)
        return z3.ToReal(e) if e.is_int() else e

    def arith(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._arith(t)
            self.memo[t] = r
        return r

    def _arith(self, t):
        op = t.op
        if op == "num":
            v = t.args[0]
            if v.denominator == 1:
                return z3.IntVal(v.numerator)
            return z3.RealVal(str(v))
        if op == "var":
            return z3.Int(t.args[0]) if t.sort == I else z3.Real(t.args[0])
        if op == "poly":
            isint = is_int(t)
            cv = (lambda a: self.arith(a)) if isint else (lambda a: self.real(a))
            tot = []
            for m, c in t.args:
                fs = []
                if c != 1 or not m:
                    fs.append(z3.IntVal(int(c)) if isint else z3.RealVal(str(c)))
                for a, e in m:
                    x = cv(a)
                    if e < 0:
                        x = self.inverse(a)
                        e = -e
                    fs += [x] * e
                if sum(abs(e) for _, e in m) > 1 or any(e < 0 for _, e in m):
                    self.nonlinear = True
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                tot.append(p)
            r = tot[0]
            for x in tot[1:]:
                r = r + x
            return r
        if op == "iv":
            return z3.If(self.bool(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "app":
            return self.app(t)
        if op == "abs":
            x = self.real(t.args[0])
            return z3.If(x >= 0, x, -x)
        if op == "max":
            xs = [self.arith(x) for x in t.args]
            if any(not x.is_int() for x in xs):
                xs = [self.real(x) for x in t.args]
            r = xs[0]
            for x in xs[1:]:
                r = z3.If(r >= x, r, x)
            return r
        if op == "sqrt":
            self.nonlinear = True
            s = self.fresh("sqrt", z3.RealSort())
            p = self.real(t.args[0])
            self.axioms.append(s >= 0)
            self.axioms.append(z3.Implies(p >= 0, s * s == p))
            return s
        if op == "inv":
            return self.inverse(t.args[0])
        if op == "exp":
            s = self.fresh("exp", z3.RealSort())
            a = self.real(t.args[0])
            self.axioms.append(s > 0)
            self.axioms.append(s >= 1 + a)
            for (u, su) in self.exps:
                self.axioms.append(z3.And(z3.Implies(self.real(u) < a, su < s), z3.Implies(self.real(u) > a, su > s),
                                          z3.Implies(self.real(u) == a, su == s)))
                if add(u, t.args[0]) is ZERO:
                    self.axioms.append(su * s == 1)
            self.exps.append((t.args[0], s))
            return s
        if op == "powf":
            b, c = t.args
            self.nonlinear = True
            s = self.fresh("powf", z3.RealSort())
            if c.op == "num":
                p, q = c.args[0].numerator, c.args[0].denominator
                x = self.real(b)
                lhs, rhs = s, z3.RealVal(1)
                for _ in range(q - 1):
                    lhs = lhs * s
                base = x
                for _ in range(abs(p) - 1):
                    base = base * x
                self.axioms.append(z3.Implies(x >= 0, s >= 0))
                if p > 0:
                    self.axioms.append(z3.Implies(x >= 0, lhs == base))
                else:
                    self.axioms.append(z3.Implies(x > 0, lhs * base == 1))
            return s
        if op in ("idiv", "imod"):
            a, b = t.args
            q = self.fresh("q", z3.IntSort())
            r = self.fresh("r", z3.IntSort())
            za, zb = self.arith(a), self.arith(b)
            self.axioms.append(z3.Implies(zb > 0, z3.And(za == zb * q + r, r >= 0, r < zb)))
            self.axioms.append(z3.Implies(z3.And(zb > 0, za >= 0), q >= 0))
            self.memo[tm._mk("idiv", (a, b), I)] = q
            self.memo[tm._mk("imod", (a, b), I)] = r
            return q if op == "idiv" else r
        if op in ("sum", "bigmax"):
            return self.opaque(t)
        # log, cos, acos, ...
        return self.opaque(t)

    def inverse(self, a):
        key = ("inv", a)
        r = self.memo.get(key)
        if r is None:
            self.nonlinear = True
            r = self.fresh("inv", z3.RealSort())
            self.memo[key] = r
            x = self.real(a)
            self.axioms.append(z3.Implies(x != 0, x * r == 1))
        return r

    def opaque(self, t):
        """uninterpreted, as a function of its free integer variables"""
        tmpl, fvs = template(t)
        name = "%s#%d" % (t.op, tmpl.id)
        rs = z3.RealSort()
        if fvs:
            r = z3.Function(name, *([z3.IntSort()] * len(fvs) + [rs]))(*[self.arith(v) for v in fvs])
        else:
            r = z3.Const(name, rs)
        if t.op == "sum":
            if sign(t.args[3]) in ("nn", "pos"):
                self.axioms.append(r >= 0)
                if not any(v.args[0].startswith("#") for v in t.fv):
                    z = tm.eq0(t)
                    if z.op in ("forall", "and", "or", "not"):
                        self.memo[t] = r
                        self.axioms.append((r == 0) == self.bool(z))
        if t.op == "bigmax":
            self.memo[t] = r
            self.axioms.append(r >= self.real(t.args[4]))
        if t.op == "log":
            self.memo[t] = r
        return r

    def app(self, t):
        name = t.args[0]
        args, sorts = [], []
        for a in t.args[1:]:
            if a.sort == "A":
                name += "<%d>" % a.id
                continue
            if a.sort == B:
                z = self.bool(a)
            else:
                z = self.arith(a)
            args.append(z)
            sorts.append(z.sort())
        rs = {I: z3.IntSort(), R: z3.RealSort(), B: z3.BoolSort()}[t.sort]
        # normalise int arguments passed where reals are expected
        sig = self.memo.get(("sig", name, len(args)))
        if sig is None:
            self.memo[("sig", name, len(args))] = sorts
        else:
            for n, s in enumerate(sig):
                if s != sorts[n]:
                    if s == z3.RealSort():
                        args[n] = z3.ToReal(args[n])
                    else:
                        name += "$r"
        if not args:
            return z3.Const(name, rs)
        return z3.Function(name, *([a.sort() for a in args] + [rs]))(*args)

    def bool(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._bool(t)
            self.memo[t] = r
        return r

    def _bool(self, t):
        op = t.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.bool(t.args[0]))
        if op == "and":
            return z3.And(*[self.bool(x) for x in t.args])
        if op == "or":
            return z3.Or(*[self.bool(x) for x in t.args])
        if op == "lt0":
            x = self.arith(t.args[0])
            return x < 0
        if op == "eq0":
            x = self.arith(t.args[0])
            return x == 0
        if op == "var":
            return z3.Bool(t.args[0])
        if op == "app":
            return self.app(t)
        if op == "forall":
            tmpl, ts = template(t)
            if ts:
                p = z3.Function("all#%d" % tmpl.id, *([z3.IntSort()] * len(ts) + [z3.BoolSort()]))(*[self.arith(x) for x in ts])
            else:
                p = z3.Bool("all#%d" % t.id)
            self.foralls.append((t, p))
            return p
        raise ValueError("bool export " + op)

    def skolem(self):
        """not forall -> witness"""
        new = []
        for t, p in list(self.foralls):
            if t not in self.sk:
                v = fresh("sk", I)
                self.sk[t] = v
                b = subst(t.args[3], {t.args[0]: v})
                c = mkand(le(t.args[1], v), lt(v, t.args[2]), mknot(b))
                self.axioms.append(z3.Or(p, self.bool(c)))
                new.append((v, c))
        return new

    def instantiate(self, terms, pos=None):
        any_new = False
        for t, p in list(self.foralls):
            xs = terms
            if pos is not None:
                trg = triggers(t)
                if trg:
                    xs = []
                    for q in trg:
                        for x in pos.get(q, ()):
                            if x not in xs:
                                xs.append(x)
            for x in xs:
                if (t, x) in self.done_inst:
                    continue
                self.done_inst.add((t, x))
                b = subst(t.args[3], {t.args[0]: x})
                c = mkor(mknot(le(t.args[1], x)), mknot(lt(x, t.args[2])), b)
                if c is TRUE:
                    continue
                self.insts[(t, x)] = c
                self.axioms.append(z3.Or(z3.Not(p), self.bool(c)))
                any_new = True
        return any_new


_tmplmemo = {}


def template(t):
    """(skeleton, integer terms): t with its closed integer index terms pulled out,
    so that equal indices make equal opaque terms"""
    r = _tmplmemo.get(t)
    if r is not None:
        return r
    out = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "var":
            if x.sort == I and x.args[0][0] != "#" and x not in out:
                out.append(x)
            return
        if x.op == "app":
            for a in x.args[1:]:
                if not isinstance(a, T):
                    continue
                if a.sort == I and a.op != "num" and a.fv and not any(v.args[0][0] == "#" for v in a.fv):
                    if a not in out:
                        out.append(a)
                else:
                    go(a)
            return
        for c in children(x):
            go(c)
    go(t)
    if not out:
        r = (t, [])
    else:
        m = {x: var("?%d" % n, I) for n, x in enumerate(out)}
        if all(x.op == "var" for x in out):
            r = (subst(t, m), out)
        else:
            tmpl = tm.replace_terms(t, m)
            back = subst(tmpl, {v: x for x, v in m.items()})
            if back is t:
                r = (tmpl, out)
            else:
                vs = [x for x in sorted(t.fv, key=lambda v: v.id) if x.sort == I]
                m = {x: var("?%d" % n, I) for n, x in enumerate(vs)}
                r = (subst(t, m), vs)
    _tmplmemo[t] = r
    return r


def index_terms(ts, limit=40):
    """closed integer terms used as indices"""
    out = []
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == "app":
                for a in x.args[1:]:
                    if isinstance(a, T) and a.sort in (I,) and not any(v.args[0][0] == "#" for v in a.fv):
                        if a not in out:
                            out.append(a)
            elif x.op == "var" and x.sort == I and x.args[0][0] != "#":
                if x not in out:
                    out.append(x)
    out.sort(key=lambda a: a.id)
    return out[:limit]


_trgmemo = {}


def triggers(t):
    """(function, position) pairs at which the bound variable of t is an argument"""
    r = _trgmemo.get(t)
    if r is None:
        v = t.args[0]
        r = []
        for x in subterms(t.args[3]):
            if x.op == "app":
                for n, a in enumerate(x.args[1:]):
                    if a is v and (x.args[0], n) not in r:
                        r.append((x.args[0], n))
        r.sort()
        _trgmemo[t] = r
    return r


def arg_positions(ts):
    """(function, position) -> closed integer terms occurring there"""
    out = {}
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == "app":
                for n, a in enumerate(x.args[1:]):
                    if isinstance(a, T) and a.sort == I and not any(v.args[0][0] == "#" for v in a.fv):
                        l = out.setdefault((x.args[0], n), [])
                        if a not in l and not nested(a):
                            l.append(a)
    for l in out.values():
        l.sort(key=lambda a: a.id)
    return out


class Result:
    __slots__ = ("ok", "how", "model")

    def __init__(self, ok, how="", model=None):
        self.ok, self.how, self.model = ok, how, model

    def __bool__(self):
        return self.ok is True


_smtmemo = {}
NL = ("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "simplify", "tseitin-cnf", "qfnra-nlsat")
OLDZ3 = "/usr/bin/z3"


def zcheck(asserts, timeout, nonlinear):
    """a portfolio in fresh solver contexts, so that the outcome depends on the query only"""
    ctx = z3.Context()
    A = [a.translate(ctx) for a in asserts]

    def run(s, ms):
        s.set("timeout", max(50, int(ms)))
        for a in A:
            s.add(a)
        STATS["smt_calls"] += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            return None
        return True if r == z3.unsat else False if r == z3.sat else None

    def seeded(n):
        s = z3.Solver(ctx=ctx)
        s.set("random_seed", n)
        return s
    if not nonlinear:
        return run(z3.Solver(ctx=ctx), timeout)
    t = timeout / 8.0
    for f in (lambda: run(z3.Then(*NL, ctx=ctx).solver(), t), lambda: run(z3.Solver(ctx=ctx), t),
              lambda: oldz3(A, ctx, 2 * t), lambda: run(z3.Then(*NL, ctx=ctx).solver(), 2 * t), lambda: run(seeded(17), t)):
        r = f()
        if r is not None:
            return r
        check_deadline()
    return None


def oldz3(A, ctx, ms):
    """the other installed release of z3, as a second back end"""
    if not os.path.exists(OLDZ3):
        return None
    import subprocess
    s = z3.Solver(ctx=ctx)
    for a in A:
        s.add(a)
    STATS["smt_calls"] += 1
    try:
        o = subprocess.run([OLDZ3, "-in", "-t:%d" % int(ms)], input=s.to_smt2(), capture_output=True, text=True,
                           timeout=ms / 1000.0 + 2).stdout
    except (OSError, subprocess.SubprocessError):
        return None
    l = o.strip().splitlines()[:1]
    return True if l == ["unsat"] else False if l == ["sat"] else None


def smt(facts, goal, timeout=4000, want_model=False, tactic=None, light=False):
    """unsat(facts & not goal)?  returns True / False(sat) / None(unknown)"""
    key = (tuple(facts), goal)
    if key in _smtmemo and not want_model and (_smtmemo[key][0] is not None or _smtmemo[key][2] >= timeout):
        return _smtmemo[key][0]
    check_deadline()
    if DEADLINE[0] is not None:
        timeout = max(100, min(timeout, int(1000 * (DEADLINE[0] - time.time()))))
    t0 = time.time()
    if tactic is None and not want_model and any(f.op == "forall" or f.op == "or" or f.op == "not" for f in list(facts) + [goal]):
        r = triggered(facts, goal, min(timeout, 3000), 2 if light else 5)
        if r is True:
            STATS["smt_time"] += time.time() - t0
            _smtmemo[key] = (True, None, timeout)
            return True
        if r is None and (light or _many(facts, goal)):
            STATS["smt_time"] += time.time() - t0
            return None
    ex = Export()
    bs = [ex.bool(f) for f in facts]
    g = ex.bool(goal)
    news = ex.skolem()
    for rnd in range(3):
        if not ex.foralls:
            break
        terms = index_terms(list(facts) + [goal] + [c for _, c in news] + list(ex.insts.values()))
        ch = ex.instantiate(terms)
        n2 = ex.skolem()
        news += n2
        if not ch and not n2:
            break
        if len(ex.insts) > 400:
            break
    if tactic is not None or want_model:
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", timeout)
        for b in bs:
            s.add(b)
        s.add(z3.Not(g))
        for a in ex.axioms:
            s.add(a)
        r = s.check()
        STATS["smt_calls"] += 1
        res = True if r == z3.unsat else False if r == z3.sat else None
    else:
        res = zcheck(bs + [z3.Not(g)] + ex.axioms, timeout, ex.nonlinear)
    STATS["smt_time"] += time.time() - t0
    model = None
    if res is False and want_model:
        model = str(s.model())[:2000]
    _smtmemo[key] = (res, model, timeout)
    if want_model:
        return res, model
    return res


def _many(facts, goal):
    """too many quantified facts for the exhaustive instantiation"""
    n = sum(1 for t in set().union(*[subterms(f) for f in list(facts) + [goal]]) if t.op == "forall")
    return n * len(index_terms(list(facts) + [goal])) > 150


def nested(t):
    """a term that applies the same function inside itself"""
    def go(x, inside):
        if x.op == "app":
            if x.args[0] in inside:
                return True
            inside = inside | {x.args[0]}
        return any(go(c, inside) for c in children(x))
    return go(t, frozenset())


def triggered(facts, goal, timeout, rounds):
    """quantifiers instantiated only at matching argument positions; True when
    unsatisfiable, "qf" when there is no quantifier, None when undecided"""
    ex = Export()
    bs = [ex.bool(f) for f in facts]
    g = ex.bool(goal)
    if not ex.foralls:
        return "qf"
    base = bs + [z3.Not(g)]
    news = ex.skolem()
    for rnd in range(rounds):
        pos = arg_positions(list(facts) + [goal] + [c for _, c in news] + list(ex.insts.values()))
        terms = None
        if any(not triggers(t) for t, _ in ex.foralls):
            terms = index_terms(list(facts) + [goal] + [c for _, c in news], 12)
        ch = ex.instantiate(terms or [], pos)
        n2 = ex.skolem()
        news += n2
        if zcheck(base + ex.axioms, timeout, ex.nonlinear) is True:
            return True
        if not ch and not n2:
            break
        if len(ex.insts) > (200 if rounds < 3 else 1500):
            break
        check_deadline()
    return None


def _pure_real(facts, goal):
    return True


# ------------------------------------------------------------------ linear arithmetic over opaque monomials
class Linear:
    """every monomial is an opaque real number, every quantified formula an opaque truth
    value: a weakening of the facts, so unsatisfiable here is unsatisfiable"""

    def __init__(self):
        self.memo = {}

    def poly(self, p):
        out = []
        for m, c in pdict(p).items():
            q = z3.RealVal(str(c))
            if m:
                q = q * z3.Real("m" + "_".join("%d^%d" % (a.id, e) for a, e in m))
            out.append(q)
        return z3.Sum(out) if out else z3.RealVal(0)

    def bool(self, t):
        r = self.memo.get(t)
        if r is None:
            if t is TRUE or t is FALSE:
                r = z3.BoolVal(t is TRUE)
            elif t.op == "and":
                r = z3.And([self.bool(x) for x in t.args])
            elif t.op == "or":
                r = z3.Or([self.bool(x) for x in t.args])
            elif t.op == "not":
                r = z3.Not(self.bool(t.args[0]))
            elif t.op == "lt0":
                r = self.poly(t.args[0]) < 0
            elif t.op == "eq0":
                r = self.poly(t.args[0]) == 0
            else:
                r = z3.Bool("b%d" % t.id)
            self.memo[t] = r
        return r


def linear(facts, goal, timeout=1500):
    ex = Linear()
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", timeout)
    t0 = time.time()
    for f in facts:
        s.add(ex.bool(f))
    s.add(z3.Not(ex.bool(goal)))
    STATS["smt_calls"] += 1
    r = s.check() == z3.unsat
    STATS["smt_time"] += time.time() - t0
    return r


# ------------------------------------------------------------------ context
class Ctx:
    """a stack of facts; provides quick decisions for the term constructors"""

    def __init__(self):
        self.facts = []
        self.memo = {}
        self.version = ()
        self.axioms = []     # background facts always used in prove()

    def copyfacts(self):
        return list(self.facts)

    def mark(self):
        return len(self.facts)

    def reset(self, n):
        del self.facts[n:]

    def add(self, f):
        if f is TRUE:
            return
        if f.op == "and":
            for x in f.args:
                self.add(x)
            return
        if f not in self.facts:
            self.facts.append(f)

    def decide(self, c):
        """True if entailed by the simple facts, else None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return None
        fs = self.facts
        if c in fs:
            return True
        simple = _relevant(c, [f for f in fs if _simple(f)])
        key = (tuple(simple), c)
        r = self.memo.get(key)
        if r is None:
            if not _simple(c):
                r = False
            else:
                r = smt(simple, c, timeout=600, light=True) is True
            self.memo[key] = r
        return True if r else None

    def known(self, c):
        """True/False/None"""
        if self.decide(c):
            return True
        if self.decide(mknot(c)):
            return False
        return None


def _relevant(c, fs):
    """facts connected to c through free variables / function symbols"""
    syms = set(c.fv) | set(c.funs)
    todo = list(fs)
    keep = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f in todo:
            s = set(f.fv) | set(f.funs)
            if not s or (s & syms):
                keep.append(f)
                syms |= s
                changed = True
            else:
                rest.append(f)
        todo = rest
    return [f for f in fs if f in keep]


_simplememo = {}


def _simple(f):
    r = _simplememo.get(f)
    if r is None:
        r = True
        for x in subterms(f):
            if x.op in ("sum", "bigmax", "lam", "exp", "log", "cos", "acos", "powf", "sqrt"):
                r = False
                break
        if len(subterms(f)) > 60:
            r = False
        _simplememo[f] = r
    return r


# ------------------------------------------------------------------ simplification under facts
def closed_conds(t):
    """conditions without bound variables occurring in Iverson brackets anywhere"""
    out = []
    for x in subterms(t):
        if x.op == "iv":
            c = x.args[0]
            if not any(v.args[0].startswith("#") for v in c.fv):
                if c not in out:
                    out.append(c)
    out.sort(key=lambda c: c.id)
    return out


def hidden_conds(t):
    """closed atomic conditions nested inside binders or opaque arguments"""
    out = []

    def go(x, inside):
        for c in children(x):
            ins = inside or x.op in ("sum", "bigmax", "forall", "lam", "app", "sqrt", "exp", "log")
            if inside or ins:
                if c.op in ("lt0", "eq0") or (c.op in ("var", "app") and c.sort == B):
                    if not any(v.args[0].startswith("#") for v in c.fv) and c not in out:
                        out.append(c)
            go(c, ins)
    go(t, False)
    return out


def set_cond(t, c, val):
    m = {c: TRUE if val else FALSE}
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = m.get(x)
            if r is None:
                r = rebuild(x, go) if x.op not in ("num", "var", "arrsym") else x
            memo[x] = r
        return r
    return go(t)


def resolve(t, c, val):
    """t under the assumption that c is val; absolute values of c's term too"""
    t = set_cond(t, c, val)
    if c.op == "lt0":
        p = c.args[0]
        m = {}
        for x in subterms(t):
            if x.op == "abs":
                q = x.args[0]
                if q is p or tm._posprop(p, q):
                    m[x] = neg(q) if val else q
                elif tm._posprop(p, neg(q)):
                    m[x] = q if val else neg(q)
        if m:
            t = tm.replace_terms(t, m)
    return t


def simplify(t, ctx, depth=0):
    """decide Iverson conditions (closed ones by the facts, bound ones also by
    the range of their binder) and rebuild"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("num", "var", "arrsym", "true", "false"):
            r = x
        elif x.op in ("lt0", "eq0"):
            y = rebuild(x, go)
            r = y
            if y.op in ("lt0", "eq0"):
                k = ctx.known(y)
                if k is not None:
                    r = TRUE if k else FALSE
        elif x.op in ("sum", "forall", "bigmax"):
            lo, hi = go(x.args[1]), go(x.args[2])
            v, body = opened(x)
            mark = ctx.mark()
            ctx.add(le(lo, v))
            ctx.add(lt(v, hi))
            b2 = simplify(body, ctx, depth + 1)
            ctx.reset(mark)
            if x.op == "sum":
                r = mksum(v, lo, hi, b2)
            elif x.op == "forall":
                r = mkforall(v, lo, hi, b2)
            else:
                r = bigmax(v, lo, hi, b2, go(x.args[4]))
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    old = tm.DECIDE[0]
    tm.DECIDE[0] = ctx.decide
    try:
        return go(t)
    finally:
        tm.DECIDE[0] = old


def equalities(facts):
    """variable eliminations v := t from equational facts"""
    for f in facts:
        if f.op == "eq0":
            p = f.args[0]
            for v in sorted(p.fv, key=lambda v: -v.id):
                t = lin_solve(p, v)
                if t is not None and (v.sort == R or is_int(t)):
                    return v, t, f
    return None


# ------------------------------------------------------------------ proving
class Prover:
    def __init__(self, ctx, timeout=6000):
        self.ctx = ctx
        self.timeout = timeout
        self.lemmas = []         # callables(goal terms, ctx) -> list of facts
        self.log = []

    def prove(self, goal, extra=(), depth=0):
        ctx = self.ctx
        mark = ctx.mark()
        for f in extra:
            ctx.add(f)
        try:
            if depth == 0 and not extra and goal is not TRUE and goal.op != "forall" and goal not in ctx.facts \
                    and linear(ctx.facts, goal):
                STATS["smt"] += 1
                return Result(True, "smt")
            return self._prove(goal, depth)
        finally:
            ctx.reset(mark)

    def _prove(self, goal, depth):
        check_deadline()
        ctx = self.ctx
        if goal is TRUE:
            STATS["nf"] += 1
            return Result(True, "nf")
        if goal in ctx.facts:
            STATS["nf"] += 1
            return Result(True, "nf")
        if goal.op == "and":
            hows = set()
            for g in goal.args:
                r = self._prove(g, depth)
                if not r:
                    return r
                hows.add(r.how)
            return Result(True, "+".join(sorted(hows)))
        if goal.op == "forall":
            v, body = opened(goal)
            return self.prove(body, [le(goal.args[1], v), lt(v, goal.args[2])], depth)
        if goal.op == "or":
            # assume the negation of all but the most complex disjunct
            ds = sorted(goal.args, key=lambda d: (-len(subterms(d)), d.id))
            main = ds[0]
            for d in ds:
                if d.op in ("eq0", "forall") and not (main.op == "and" and 4 * len(subterms(d)) < len(subterms(main))):
                    main = d
                    break
            others = [mknot(d) for d in ds if d is not main]
            for o in others:
                if o is FALSE or o in [mknot(f) for f in ctx.facts]:
                    return Result(True, "nf")
            return self.prove(main, others, depth)
        # quick consistency: substitute equalities
        e = equalities([f for f in ctx.facts if f.op == "eq0"])
        if e is not None:
            v, t, f = e
            save = ctx.facts
            ctx.facts = [subst(x, {v: t}) for x in save if x is not f]
            if any(x is FALSE for x in ctx.facts):
                ctx.facts = save
                return Result(True, "nf")
            ctx.facts = [x for x in ctx.facts if x is not TRUE]
            nf = []
            for x in ctx.facts:
                for y in (x.args if x.op == "and" else (x,)):
                    if y not in nf:
                        nf.append(y)
            ctx.facts = nf
            try:
                return self._prove(subst(goal, {v: t}), depth)
            finally:
                ctx.facts = save
        g2 = simplify(goal, ctx)
        if g2 is not goal:
            if g2 is TRUE:
                STATS["nf"] += 1
                return Result(True, "nf")
            if g2.op in ("and", "forall", "or"):
                return self._prove(g2, depth)
            goal = g2
        if goal.op == "eq0":
            r = self.zero(goal.args[0], depth)
            if r:
                return r
        # split on closed conditions hidden inside binders or opaque terms
        if depth < 8:
            hc = [c for c in hidden_conds(goal) if ctx.known(c) is None]
            if hc:
                c = hc[0]
                r1 = self.prove(set_cond(goal, c, True), [c], depth + 1)
                if not r1:
                    return r1
                r2 = self.prove(set_cond(goal, c, False), [mknot(c)], depth + 1)
                return r2 if not r2 else Result(True, "split+" + r1.how + "+" + r2.how)
        if goal.op == "not" and goal.args[0].op == "lt0":
            r = self.nonneg(goal.args[0].args[0], depth)
            if r:
                return r
            r = self.maxbound(goal.args[0].args[0], depth)
            if r:
                return r
        rad = any(x.op in ("powf", "cos", "acos") for x in subterms(goal))
        if rad and depth < 12:
            r = self.cases(goal, depth)
            if r or r.how != "no-cases":
                return r
            r = self.radical(goal, depth)
            if r:
                return r
        r = self.by_smt(goal)
        if r or depth >= 8:
            return r
        for f in (lambda: self.polyleaf(goal), lambda: self.cases(goal, depth),
                  lambda: Result(None) if rad else self.radical(goal, depth)):
            q = f()
            if q:
                return q
        return r

    def radical(self, goal, depth):
        """fractional powers and cos(2/3 acos y) become polynomial variables"""
        fs = [f for f in self.facts_for(goal) if f.op != "forall"]
        terms = [goal] + fs
        allsub = sorted({x for t in terms for x in subterms(t)}, key=lambda x: x.id)
        if not any(x.op in ("powf", "cos", "sqrt") for x in allsub):
            return Result(None)
        extra = []
        m = {}
        # cos(2/3 acos y) = 2c^2-1 where 4c^3-3c = y and 1/2 <= c <= 1   (for -1 <= y <= 1)
        for K in allsub:
            if K.op == "cos":
                a = K.args[0]
                d = pdict(a)
                if len(d) == 1:
                    (mm, cf), = d.items()
                    if len(mm) == 1 and mm[0][0].op == "acos" and mm[0][1] == 1 and cf == Fraction(2, 3):
                        y = mm[0][0].args[0]
                        rng = mkand(le(num(-1), y), le(y, ONE))
                        if not self.prove(rng, [], max(depth, 6) + 1):
                            return Result(None)
                        c = var("cos3!%d" % y.id, R)
                        m[K] = sub(scale(powi(c, 2), 2), ONE)
                        extra += [eq(sub(scale(powi(c, 3), 4), scale(c, 3)), y), le(num(Fraction(1, 2)), c), le(c, ONE)]
        if m:
            goal = tm.replace_terms(goal, m)
            fs = [tm.replace_terms(f, m) for f in fs] + extra
            terms = [goal] + fs
            allsub = sorted({x for t in terms for x in subterms(t)}, key=lambda x: x.id)
        # fractional powers, grouped by their base
        bases = {}
        for x in allsub:
            if x.op == "powf" and x.args[1].op == "num":
                q = x.args[1].args[0].denominator
            elif x.op == "sqrt" and x.args[0].op != "num":
                q = 2
            else:
                continue
            b = x.args[0]
            bases.setdefault(b, set()).add(q)
        import math
        m1, m2 = {}, {}
        new = []
        base_facts = list(fs)
        for b, qs in sorted(bases.items(), key=lambda kv: kv[0].id):
            if smt([f for f in base_facts if not any(x.op in ("powf", "sqrt") for x in subterms(f))],
                   mknot(lt0(b)), self.timeout) is not True:
                if smt(base_facts, mknot(lt0(b)), self.timeout) is not True:
                    return Result(None)
            Q = 1
            for q in qs:
                Q = Q * q // math.gcd(Q, q)
            r = var("rad!%d" % b.id, R)
            new.append(mknot(lt0(r)))
            for x in allsub:
                if x.op == "powf" and x.args[0] is b and x.args[1].op == "num":
                    k = x.args[1].args[0] * Q
                    m1[x] = powi(r, int(k)) if k > 0 else inv(powi(r, int(-k)))
                elif x.op == "sqrt" and x.args[0] is b:
                    m1[x] = powi(r, Q // 2)
            full = powi(r, Q)
            if b.op in ("var", "app", "abs"):
                m2[b] = full
                if b.op == "abs":
                    new.append(mkor(eq(b.args[0], full), eq(b.args[0], neg(full))))
            else:
                d = pdict(b)
                done = False
                if len(d) == 1:
                    (mm, cf), = d.items()
                    for a, e in mm:
                        if e == 1 and a.op == "var" and a not in m2 and not any(a in k.fv for k in m2):
                            others = mkpoly({tuple(x for x in mm if x[0] is not a): cf})
                            if smt(base_facts, mknot(eq0(others)), self.timeout) is True:
                                m2[a] = mul(full, inv(others))
                                done = True
                                break
                if not done:
                    new.append(eq(full, b))
        low = lambda t: tm.replace_terms(tm.replace_terms(t, m1), m2)
        g = low(goal)
        fs2 = []
        for f in fs + new:
            h = low(f)
            if h.op == "and":
                fs2 += list(h.args)
            elif h is not TRUE:
                fs2.append(h)
        pos = [h for h in fs2]
        fs3 = []
        for h in fs2:
            k = self.rational(h, pos)
            if k is not None:
                fs3.append(k)
        g = self.rational(g, pos)
        if g is None:
            return Result(None)
        for hs in (_relevant(g, fs3), fs3):
            r = smt(hs, g, self.timeout)
            if r is True:
                STATS["smt"] += 1
                return Result(True, "smt-radical")
        return Result(None)

    def rational(self, f, pos):
        """a comparison with denominators of known sign cleared (None: cannot)"""
        neg_ = False
        h = f
        if h.op == "not":
            neg_, h = True, h.args[0]
        if h.op not in ("lt0", "eq0"):
            return f if not any(x.op == "inv" for x in subterms(f)) else None
        q = h.args[0]
        for _ in range(8):
            dens = {}
            for mono, _c in pdict(q).items():
                for a, e in mono:
                    if a.op == "inv":
                        dens[a.args[0]] = max(dens.get(a.args[0], 0), e)
                    elif e < 0:
                        dens[a] = max(dens.get(a, 0), -e)
            if not dens:
                break
            a = min(dens, key=lambda t: t.id)
            e = dens[a]
            sg = 1
            ps = [p for p in pos if not any(x.op == "inv" for x in subterms(p))]
            if h.op == "eq0" or e % 2 == 0:
                if smt(ps, mknot(eq0(a)), self.timeout) is not True:
                    return None
            elif smt(ps, lt0(neg(a)), self.timeout) is not True:
                if smt(ps, lt0(a), self.timeout) is not True:
                    return None
                sg = -1
            q = add(*[_cancel(mono, c * sg, a, e) for mono, c in pdict(q).items()])
        r = eq0(q) if h.op == "eq0" else lt0(q)
        return mknot(r) if neg_ else r

    def polyleaf(self, goal):
        """an inequality between rational functions: multiply by denominators of
        known sign, roots become variables, bounds on mixed sums substituted"""
        strict = goal.op == "lt0"
        if goal.op == "not" and goal.args[0].op == "lt0":
            p = goal.args[0].args[0]
        elif strict:
            p = neg(goal.args[0])
        else:
            return Result(None)
        if any(x.op in ("abs", "iv", "max") for x in subterms(p)):
            return Result(None)
        fs = self.facts_for(goal)
        m = {}
        nn = []
        for x in sorted(subterms(p), key=lambda x: x.id):
            if x.op == "sqrt" and x not in m:
                v = var("rt!%d" % x.id, R)
                nn.append(mknot(lt0(v)))
                m[x] = v
                if x.args[0].op == "sum":
                    m[x.args[0]] = powi(v, 2)
        low = lambda t: tm.replace_terms(t, m)
        q = low(p)
        for _ in range(8):
            dens = {}
            for mono, _c in pdict(q).items():
                for a, e in mono:
                    if a.op == "inv":
                        dens[a.args[0]] = max(dens.get(a.args[0], 0), e)
                    elif e < 0:
                        dens[a] = max(dens.get(a, 0), -e)
            if not dens:
                break
            a = min(dens, key=lambda t: t.id)
            e = dens[a]
            sg = 1
            if e % 2:
                if smt(fs + nn, lt0(neg(a)), self.timeout) is not True:
                    if smt(fs + nn, lt0(a), self.timeout) is not True:
                        return Result(None)
                    sg = -1
            elif smt(fs + nn, mknot(eq0(a)), self.timeout) is not True:
                return Result(None)
            q = add(*[_cancel(mono, c * sg, a, e) for mono, c in pdict(q).items()])
        if any(a.op in ("inv",) or e < 0 for mono in pdict(q) for a, e in mono):
            return Result(None)
        hyp = nn + [low(f) for f in fs]
        # upper bounds s <= b for a sum occurring linearly
        for f in list(hyp):
            pass
        g = lt0(neg(q)) if strict else mknot(lt0(q))
        syms = g.fv | g.funs
        hyp = [h for h in hyp if h is not TRUE and not any(x.op in ("inv", "abs", "iv", "sqrt", "forall") for x in subterms(h))
               and not any(e < 0 for x in subterms(h) if x.op == "poly" for mm, _ in x.args for _a, e in mm)]
        for hs in ([h for h in hyp if (h.fv | h.funs) <= syms], hyp):
            r = smt(hs, g, self.timeout)
            if r is True:
                STATS["smt"] += 1
                return Result(True, "smt-poly")
        return Result(None)

    def cases(self, goal, depth):
        """split on the closed conditions and signs occurring in a goal"""
        cs = []
        for x in subterms(goal):
            c = None
            if x.op == "iv":
                c = x.args[0]
                while c.op in ("not", "and", "or"):
                    c = c.args[0]
            elif x.op == "abs" and not any(y.op == "cos" for y in subterms(x)):
                c = lt0(x.args[0])
            if c is not None and c.op in ("lt0", "eq0") and not any(v.args[0][0] == "#" for v in c.fv):
                cs.append(c)
        if not cs:
            return Result(None, "no-cases")
        cs.sort(key=lambda c: (len(subterms(c)), c.id))
        c = cs[0]
        hows = set()
        for val in (True, False):
            a = c if val else mknot(c)
            fs = self.facts_for(goal)
            if smt(fs, mknot(a), self.timeout // 4) is True:
                continue
            g = resolve(goal, c, val)
            save = self.ctx.facts
            self.ctx.facts = []
            for f in save:
                self.ctx.add(resolve(f, c, val))
            try:
                r = self.prove(g, [a], depth + 1)
            finally:
                self.ctx.facts = save
            if not r:
                return r
            hows.add(r.how)
        return Result(True, "split+" + "+".join(sorted(hows)))

    def facts_for(self, goal):
        fs = list(self.ctx.facts)
        for lem in self.lemmas:
            for f in lem([goal] + fs, self.ctx):
                if f is not TRUE and f not in fs:
                    fs.append(f)
        # relevant facts only
        return fs

    def by_smt(self, goal):
        fs = self.facts_for(goal)
        rel = _relevant(goal, fs)
        r = smt(rel, goal, self.timeout)
        if r is True:
            STATS["smt"] += 1
            return Result(True, "smt")
        if r is not True and len(rel) < len(fs):
            r2 = smt(fs, goal, self.timeout)
            if r2 is True:
                STATS["smt"] += 1
                return Result(True, "smt")
        return Result(None, "smt-" + ("sat" if r is False else "unknown"), show(goal)[:1500])

    # -- equalities of canonical polynomials with sums
    def zero(self, p, depth):
        if p is ZERO:
            return Result(True, "nf")
        p2 = clear_den(p)
        if p2 is not p:
            p2 = simplify(p2, self.ctx)
        if p2 is ZERO:
            return Result(True, "nf")
        if any(x.op == "sum" and any(y.op == "sum" for y in subterms(x.args[3])) for x in subterms(p2)):
            p3 = flatten_sums(p2)
            if p3 is ZERO:
                return Result(True, "nf")
        r = self.congruence(p2, depth)
        if r:
            return r
        # delta normalisation on closed equalities in Iversons
        groups, rest = sum_groups(p2)
        if groups and depth < 6:
            ok = True
            hows = set()
            for (lo, hi), body_v in groups.items():
                v, body = body_v
                r = self.prove(eq0(body), [le(lo, v), lt(v, hi)], depth + 1)
                if not r:
                    ok = False
                    break
                hows.add(r.how)
            if ok:
                if rest is ZERO:
                    return Result(True, "sumext+" + "+".join(sorted(hows)))
                r = self.prove(eq0(rest), [], depth + 1)
                if r:
                    return Result(True, "sumext+" + r.how)
        if depth < 8:
            cs = [c for c in top_conds(p2)]
            hc = cs + [c for c in hidden_conds(eq0(p2) if p2 is not ZERO else TRUE) if c not in cs]
            hc = [c for c in hc if self.ctx.known(c) is None]
            if hc:
                c = hc[0]
                r1 = self.prove(set_cond(eq0(p2), c, True), [c], depth + 1)
                if not r1:
                    return r1
                r2 = self.prove(set_cond(eq0(p2), c, False), [mknot(c)], depth + 1)
                return r2 if not r2 else Result(True, "split+" + r1.how + "+" + r2.how)
        return Result(None, "nf-nonzero", show(p2)[:1500])

    def square_sum(self, p):
        """p is a sum of squares once the powers of a norm N are read as
        multiples of N^2 = sum x^2"""
        roots = sorted({x for x in subterms(p) if x.op == "sqrt" and x.args[0].op == "sum"}, key=lambda x: x.id)
        if len(roots) != 1:
            return False
        N = roots[0]
        v = var("rt!%d" % N.id, R)
        q = tm.replace_terms(p, {N: v})
        groups, rest = sum_groups(q)
        key = (N.args[0].args[1], N.args[0].args[2])
        if list(groups) != [key]:
            return False
        g, body = groups[key]
        xx = subst(N.args[0].args[3], {N.args[0].args[0]: g})
        body = add(body, mul(rest, powi(v, -2), xx))
        if body is ZERO:
            return True
        for c in (1, 2, Fraction(1, 2)):
            if tm.poly_sqrt(scale(body, c)) is not None:
                return True
        return False

    def congruence(self, p, depth):
        """identify two atoms of the same kind whose arguments are provably equal"""
        if depth > 6:
            return Result(None)
        cand = {}
        for m, _c in pdict(p).items():
            for a, _e in m:
                if a.op in ("bigmax", "sqrt", "abs", "exp", "log", "app", "inv", "sum"):
                    cand.setdefault((a.op, a.args[0] if a.op == "app" else None), [])
                    if a not in cand[(a.op, a.args[0] if a.op == "app" else None)]:
                        cand[(a.op, a.args[0] if a.op == "app" else None)].append(a)
        for (op, _), as_ in sorted(cand.items(), key=lambda kv: kv[0][0]):
            if not 2 <= len(as_) <= 4:
                continue
            if op == "sum":
                continue
            for i in range(len(as_)):
                for j in range(i + 1, len(as_)):
                    r = self.same(as_[i], as_[j], depth + 1)
                    if r:
                        q = tm.replace_terms(p, {as_[j]: as_[i]})
                        r2 = self.prove(eq0(q) if q is not ZERO else TRUE, [], depth + 1)
                        return r2 if not r2 else Result(True, "cong+" + r.how + "+" + r2.how)
        # c * max(g) = max(c * g) for c >= 0
        d = {}
        moved = False
        for m, c in pdict(p).items():
            ms = [a for a, e in m if a.op == "bigmax" and e == 1]
            if len(ms) == 1 and len(m) > 1 and not {tm.NEGINF, tm.POSINF} & set(ms[0].args[4].fv):
                f = tm.mkpoly({tuple(x for x in m if x[0] is not ms[0]): abs(c)})
                if not self.prove(mknot(lt0(f)), [], depth + 1):
                    return Result(None)
                v, body = opened(ms[0])
                t = tm.bigmax(v, ms[0].args[1], ms[0].args[2], tm.mul(f, body), tm.mul(f, ms[0].args[4]))
                for m2, c2 in pdict(t).items():
                    d[m2] = d.get(m2, 0) + (c2 if c > 0 else -c2)
                moved = True
            else:
                d[m] = d.get(m, 0) + c
        if moved:
            q = tm.mkpoly(d)
            r = self.prove(eq0(q) if q is not ZERO else TRUE, [], depth + 1)
            return r if not r else Result(True, "scale+" + r.how)
        return Result(None)

    def same(self, a, b, depth):
        if a is b:
            return Result(True, "nf")
        if a.op != b.op or a.sort != b.sort:
            return Result(None)
        if a.op in ("bigmax", "sum", "forall"):
            if a.args[1] is not b.args[1] or a.args[2] is not b.args[2] or \
                    (a.op == "bigmax" and a.args[4] is not b.args[4]):
                return Result(None)
            v, x = opened(a)
            y = subst(b.args[3], {b.args[0]: v})
            return self.prove(eq(x, y), [le(a.args[1], v), lt(v, a.args[2])], depth)
        if a.op == "lam":
            if len(a.args[0]) != len(b.args[0]):
                return Result(None)
            vs = [fresh("o", I) for _ in a.args[0]]
            x = subst(a.args[1], dict(zip(a.args[0], vs)))
            y = subst(b.args[1], dict(zip(b.args[0], vs)))
            return self.prove(eq(x, y), [], depth)
        if a.op == "app":
            if a.args[0] != b.args[0] or len(a.args) != len(b.args):
                return Result(None)
            hows = ["nf"]
            for x, y in zip(a.args[1:], b.args[1:]):
                if x is y:
                    continue
                r = self.same(x, y, depth) if x.sort == "A" else self.prove(eq(x, y), [], depth)
                if not r:
                    return r
                hows.append(r.how)
            return Result(True, "+".join(sorted(set(hows))))
        if a.op in ("sqrt", "abs", "exp", "log", "inv"):
            return self.prove(eq(a.args[0], b.args[0]), [], depth)
        return Result(None)

    def maxbound(self, p, depth):
        """p >= 0 where p contains -c * M for a maximum M: p for every entry of M"""
        if depth > 6:
            return Result(None)
        for m, c in pdict(p).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "bigmax" and c < 0:
                M = m[0][0]
                if sum(1 for m2 in pdict(p) for a, _ in m2 if M in subterms(a)) != 1:
                    continue
                v, body = opened(M)
                lo, hi, init = M.args[1], M.args[2], M.args[4]
                rest = sub(p, scale(M, c))
                if init is not tm.NEGINF or tm.POSINF in rest.fv:     # finite - (-infinity) >= 0
                    r = self.prove(mknot(lt0(add(rest, scale(init, c)))), [], depth + 1)
                    if not r:
                        return r
                r = self.prove(mknot(lt0(add(rest, scale(body, c)))), [le(lo, v), lt(v, hi)], depth + 1)
                return r if not r else Result(True, "max+" + r.how)
        return Result(None)

    def nonneg(self, p, depth):
        """p >= 0 by pointwise non-negativity of sums"""
        if self.square_sum(p):
            return Result(True, "nf")
        groups, rest = sum_groups(p)
        if not groups or depth > 6:
            return Result(None)
        for (lo, hi), (v, body) in groups.items():
            r = self.prove(mknot(lt0(body)), [le(lo, v), lt(v, hi)], depth + 1)
            if not r:
                return r
        r = self.prove(mknot(lt0(rest)), [], depth + 1)
        return r if not r else Result(True, "summono+" + r.how)


def _cancel(mono, c, a, e):
    """c * mono * a^e, cancelling the powers of 1/a in mono"""
    rest = {}
    for x, k in mono:
        if x.op == "inv" and x.args[0] is a:
            e -= k
        elif x is a:
            e += k
        else:
            rest[x] = k
    m = tuple(sorted(rest.items(), key=lambda xe: xe[0].id))
    return mul(mkpoly({m: c}), powi(a, e))


def flatten_sums(p, limit=400):
    """distribute products over sums and order the summations canonically, so
    that iterated finite sums are compared up to exchange of summations"""
    import itertools
    out = {}

    def flat(mono, c):
        """monomial -> list of (coeff, [(v,lo,hi)], mono without linear sums)"""
        todo = [(c, [], dict(mono))]
        res = []
        n = 0
        while todo:
            n += 1
            if n > limit:
                return None
            c, vs, m = todo.pop()
            s = None
            for a, e in m.items():
                if a.op == "sum" and e >= 1:
                    s = a
                    break
            if s is None:
                res.append((c, vs, m))
                continue
            if m[s] == 1:
                m = {k: v for k, v in m.items() if k is not s}
            else:
                m = dict(m)
                m[s] -= 1
            v, body = opened(s)
            for bm, bc in pdict(body).items():
                m2 = dict(m)
                for a, e in bm:
                    m2[a] = m2.get(a, 0) + e
                    if not m2[a]:
                        del m2[a]
                todo.append((c * bc, vs + [(v, s.args[1], s.args[2])], m2))
        return res

    for mono, c in pdict(p).items():
        r = flat(mono, c)
        if r is None:
            return p
        for c1, vs, m in r:
            m = tuple(sorted(m.items(), key=lambda ae: ae[0].id))
            body = mkpoly({m: ONE.args[0]})
            if len(vs) > 4:
                return p
            best = None
            for perm in itertools.permutations(vs):
                ok = True
                seen = set()
                for v, lo, hi in perm:
                    if any(x in lo.fv or x in hi.fv for x, _, _ in vs if x not in seen):
                        ok = False
                        break
                    seen.add(v)
                if not ok:
                    continue
                names = [var("?f%d" % k, I) for k in range(len(perm))]
                ren = {v: nv for (v, _, _), nv in zip(perm, names)}
                b = subst(body, ren)
                rng = tuple((subst(lo, ren), subst(hi, ren)) for _, lo, hi in perm)
                key = (b.id,) + tuple((x.id, y.id) for x, y in rng)
                if best is None or key < best[0]:
                    best = (key, b, rng)
            key, b, rng = best
            o = out.setdefault(key, [Fraction(0), b, rng])
            o[0] += c1
    tot = ZERO
    for c, b, rng in out.values():
        if not c:
            continue
        t = b
        for k in range(len(rng) - 1, -1, -1):
            v = var("?f%d" % k, I)
            w = fresh("f", I)
            t = mksum(w, rng[k][0], rng[k][1], subst(t, {v: w}))
        tot = add(tot, scale(t, c))
    return tot


def sum_groups(p):
    """collect the sums occurring linearly in p by range; coefficients are moved
    inside.  returns ({(lo,hi): (v, body)}, rest)"""
    groups = {}
    rest = {}
    for m, c in pdict(p).items():
        sums = [a for a, e in m if a.op == "sum" and e == 1]
        if len(sums) >= 1:
            a = max(sums, key=lambda s: (len(subterms(s)), s.id))
            others = tuple(x for x in m if x[0] is not a)
            key = (a.args[1], a.args[2])
            if key not in groups:
                groups[key] = [fresh("g", I), ZERO]
            v = groups[key][0]
            b = subst(a.args[3], {a.args[0]: v})
            groups[key][1] = add(groups[key][1], mul(mkpoly({others: c}), b))
        else:
            rest[m] = c
    # n * m  ==  sum over 0..n of m : let a group absorb such monomials
    for (lo, hi), g in groups.items():
        if lo is not ZERO or isnum(hi):
            continue
        dh = pdict(hi)
        if len(dh) != 1:
            continue
        (mh, ch), = dh.items()
        for m in list(rest):
            md = dict(m)
            if all(md.get(a, 0) >= e for a, e in mh):
                for a, e in mh:
                    md[a] -= e
                    if not md[a]:
                        del md[a]
                mm = tuple(sorted(md.items(), key=lambda ae: ae[0].id))
                g[1] = add(g[1], mkpoly({mm: rest.pop(m) / ch}))
    return {k: tuple(v) for k, v in groups.items()}, mkpoly(rest)


def clear_den(p):
    """multiply by the denominators at the top level (they are non-zero by the
    definedness obligations)"""
    for _ in range(6):
        dens = {}
        for m, _c in pdict(p).items():
            for a, e in m:
                if a.op == "inv":
                    dens[a] = max(dens.get(a, 0), e)
                elif e < 0:
                    dens[a] = min(dens.get(a, 0), e)
        if not dens:
            return p
        f = ONE
        for a, e in dens.items():
            f = mul(f, powi(a.args[0], e) if a.op == "inv" else powi(a, -e))
        # multiply monomial-wise so that inv(p)*p cancels
        out = []
        for m, c in pdict(p).items():
            keep = {}
            fac = ONE
            seen = set()
            for a, e in m:
                if a in dens:
                    seen.add(a)
                    if a.op == "inv":
                        fac = mul(fac, powi(a.args[0], dens[a] - e))
                    else:
                        fac = mul(fac, powi(a, e - dens[a])) if e - dens[a] else fac
                else:
                    keep[a] = e
            for a in dens:
                if a not in seen:
                    fac = mul(fac, powi(a.args[0], dens[a]) if a.op == "inv" else powi(a, -dens[a]))
            km = tuple(sorted(keep.items(), key=lambda ae: ae[0].id))
            out.append(mul(mkpoly({km: c}), fac))
        q = add(*out)
        if q is p:
            return p
        p = q
    return p
