"""Proofs about rows of a linear system: case split on the closed conditions, the
hypotheses (for all rows, sum = value) taken at the rows named in the goal, sums
whose terms all vanish dropped, and the equations used to eliminate sums."""
from term import *
import term as tm
import prover as pv
from prover import Prover, subterms, set_cond, check_deadline, opened


def is_closed(t):
    return not any(v.args[0][0] == "#" for v in t.fv)


def conds(ts):
    """closed atomic conditions, the small ones"""
    out = []
    seen = set()
    for t in ts:
        for x in subterms(t):
            if x.op in ("lt0", "eq0") and x not in seen:
                seen.add(x)
                if is_closed(x) and x is not t and len(subterms(x)) < 30 and pv._simple(x) and not x.args[0].op == "sum":
                    out.append(x)
    out.sort(key=lambda c: (not is_int(c.args[0]), len(subterms(c)), c.id))
    return out


_sums = {}


def has_sum(f):
    r = _sums.get(f)
    if r is None:
        r = _sums[f] = any(x.op == "sum" for x in subterms(f))
    return r


def rows_of(ts):
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == "app" and len(x.args) == 3:
                a = x.args[1]
                if isinstance(a, T) and a.sort == I and is_closed(a) and a not in out:
                    out.append(a)
    out.sort(key=lambda a: a.id)
    return out


def shifted(h, rows):
    """values of the bound variable that make an index equal to one of the rows"""
    v = h.args[0]
    out = []
    for x in subterms(h.args[3]):
        if x.op == "app":
            for a in x.args[1:]:
                if isinstance(a, T) and a.sort == I and a is not v and v in a.fv:
                    rest = sub(a, v)
                    if v not in rest.fv and is_closed(rest):
                        for t in rows:
                            y = sub(t, rest)
                            if y not in out:
                                out.append(y)
    return out


def units(fs):
    """what is left of the disjunctions among the facts"""
    out = []
    for f in fs:
        if f.op == "or":
            ds = [d for d in f.args if mknot(d) not in fs]
            if len(ds) == 1:
                out.append(ds[0])
    return out


def zero_facts(fs):
    """(bound variables with ranges, application known to be zero)"""
    out = []
    for f in fs:
        vs = []
        while f.op == "forall":
            v, body = opened(f)
            vs.append((v, f.args[1], f.args[2]))
            f = body
        if f.op == "eq0" and f.args[0].op == "app" and vs:
            out.append((vs, f.args[0]))
    return out


def match(pat, x, vs):
    if pat.args[0] != x.args[0] or len(pat.args) != len(x.args):
        return None
    m = {}
    names = [v for v, _, _ in vs]
    for a, b in zip(pat.args[1:], x.args[1:]):
        if a in names and a not in m:
            m[a] = b
        elif a in m:
            if m[a] is not b:
                return None
        elif a is not b:
            return None
    return m if len(m) == len(vs) else None


class Elim:
    def __init__(self, ctx, timeout=3000, lemmas=()):
        self.ctx, self.timeout, self.lemmas = ctx, timeout, list(lemmas)
        self.zeros = {}
        self.open = None

    def prove(self, goal):
        ctx = self.ctx
        save = ctx.facts
        ctx.facts = list(save)
        try:
            ok = self.run([], goal, 0, False)
            return pv.Result(ok or None, "elim", self.open)
        finally:
            ctx.facts = save

    def assume(self, H, f):
        """None when contradictory"""
        if f is FALSE:
            return None
        if f is TRUE:
            return H
        if f.op == "and":
            for x in f.args:
                H = self.assume(H, x)
                if H is None:
                    return None
            return H
        if pv._simple(f) and f.op in ("lt0", "eq0", "not") and self.ctx.known(f) is False:
            return None
        if f.op in ("lt0", "eq0") or (f.op == "not" and f.args[0].op in ("lt0", "eq0")):
            if pv._simple(f):
                self.ctx.add(f)
                return H
        return H + [f] if f not in H else H

    def run(self, H, g, depth, instd):
        check_deadline()
        ctx = self.ctx
        if g is TRUE or any(h is FALSE for h in H) or g in H or g in ctx.facts:
            return True
        if g.op == "and":
            return all(self.scoped(H, x, depth, instd) for x in g.args)
        if g.op == "or":
            ds = list(g.args)
            main = None
            for d in ds:
                if d.op == "forall" or (d.op == "eq0" and not pv._simple(d)):
                    main = d
                    break
            if main is None:
                main = max(ds, key=lambda d: (len(subterms(d)), d.id))
            for d in ds:
                if d is not main:
                    H = self.assume(H, mknot(d))
                    if H is None:
                        return True
            return self.run(H, main, depth, instd)
        e = self.equality(H + [g])
        if e is not None:
            v, t = e
            ctx.facts = [x for x in (subst(f, {v: t}) for f in ctx.facts) if x is not TRUE]
            if any(f is FALSE for f in ctx.facts):
                return True
            return self.renorm([subst(h, {v: t}) for h in H], subst(g, {v: t}), depth, instd)
        # conditions
        cs = conds(H + [g])
        for c in cs:
            if c is g:
                continue
            k = ctx.known(c)
            if k is not None:
                H = [set_cond(h, c, k) for h in H]
                g = set_cond(g, c, k)
                return self.renorm(H, g, depth, instd)
        if cs and depth < 14:
            c = cs[0]
            for val in (True, False):
                m = list(ctx.facts)
                ctx.add(c if val else mknot(c))
                ok = self.renorm([set_cond(h, c, val) for h in H], set_cond(g, c, val), depth + 1, instd)
                ctx.facts = m
                if not ok:
                    return False
            return True
        if g.op == "forall":
            v, body = opened(g)
            ctx.add(le(g.args[1], v))
            ctx.add(lt(v, g.args[2]))
            return self.run(H, body, depth, False)
        if not instd:
            ins = []
            T_ = rows_of(H + [g])
            for h in H:
                if h.op == "forall" and h.args[3].op != "forall":
                    for x in T_:
                        if ctx.known(le(h.args[1], x)) is not False and ctx.known(lt(x, h.args[2])) is not False:
                            b = subst(h.args[3], {h.args[0]: x})
                            b = mkor(mknot(le(h.args[1], x)), mknot(lt(x, h.args[2])), b)
                            if b not in H and b not in ins:
                                ins.append(b)
            for h in H + ctx.facts + units(ctx.facts):
                if h.op == "forall" and h.args[3].op != "forall" and is_closed(h):
                    for x in shifted(h, T_):
                        b = subst(h.args[3], {h.args[0]: x})
                        b = mkor(mknot(le(h.args[1], x)), mknot(lt(x, h.args[2])), b)
                        if b not in H and b not in ins and b not in ctx.facts:
                            ins.append(b)
            if ins:
                return self.renorm([h for h in H if h.op != "forall"] + ins, g, depth, True)
        return self.leaf(H, g)

    def equality(self, ts):
        """an index known equal to another term"""
        for f in self.ctx.facts:
            if f.op == "eq0" and is_int(f.args[0]) and pv._simple(f):
                for v in sorted(f.args[0].fv, key=lambda v: -v.id):
                    if any(v in t.fv for t in ts):
                        t = lin_solve(f.args[0], v)
                        if t is not None and is_int(t):
                            return v, t
        return None

    def scoped(self, H, g, depth, instd):
        m = list(self.ctx.facts)
        try:
            return self.run(H, g, depth, instd)
        finally:
            self.ctx.facts = m

    def renorm(self, H, g, depth, instd):
        H2 = []
        for h in H:
            H2 = self.assume(H2, h)
            if H2 is None:
                return True
        return self.run(H2, g, depth, instd)

    def null(self, s):
        """all the terms of this sum vanish"""
        key = (s, tuple(self.ctx.facts))
        r = self.zeros.get(key)
        if r is None:
            v, body = opened(s)
            r = self.zeros[key] = self.null_terms(v, s.args[1], s.args[2], body)
        return r

    def null_terms(self, v, lo, hi, body, given=()):
        """body vanishes for all v in the range that satisfy the given conditions"""
        ctx = self.ctx
        m = ctx.mark()
        ctx.add(le(lo, v))
        ctx.add(lt(v, hi))
        for c in given:
            ctx.add(c)
        zf = zero_facts(ctx.facts)
        r = all(self.vanishes(mono, zf) for mono, _ in monos(body))
        ctx.reset(m)
        return r

    def vanishes(self, mono, zf):
        ctx = self.ctx
        m = ctx.mark()
        try:
            for a, _ in mono:
                if a.op == "iv":
                    ctx.add(a.args[0])
            for a, e in mono:
                if a.op != "app" or e < 0:
                    continue
                for vs, pat in zf:
                    mm = match(pat, a, vs)
                    if mm is not None and all(ctx.known(le(subst(lo, mm), mm[v])) and ctx.known(lt(mm[v], subst(hi, mm)))
                                              for v, lo, hi in vs):
                        return True
            return False
        finally:
            ctx.reset(m)

    def leaf(self, H, g):
        ts = H + [g]
        m = {}
        for t in ts:
            for x in subterms(t):
                if x.op == "sum" and is_closed(x) and x not in m:
                    y = pv.simplify(x, self.ctx)
                    if self.null_parts(y) is not y:
                        m[x] = self.null_parts(y)
                    elif y is not x:
                        m[x] = y
        if m:
            H = [tm.replace_terms(h, m) for h in H]
            g = tm.replace_terms(g, m)
        eqs = [h for h in H if h.op == "eq0"]
        done = [h for h in H if h.op not in ("eq0", "forall")]
        while eqs:
            e = eqs.pop(0)
            if e is TRUE:
                continue
            s = pivot(e.args[0]) if e.op == "eq0" else None
            if e is FALSE:
                return True
            if s is None:
                done.append(e)
                continue
            val = solve(e.args[0], s)
            mm = {s: val}
            eqs = [tm.replace_terms(x, mm) for x in eqs]
            done = [tm.replace_terms(x, mm) for x in done]
            g = tm.replace_terms(g, mm)
        if g is TRUE or any(h is FALSE for h in done):
            return True
        P = Prover(self.ctx, self.timeout)
        P.lemmas = self.lemmas
        r = bool(P.prove(g, done))
        if not r and self.open is None:
            self.open = (" ; ".join(show(h)[:600] for h in H), show(g)[:800], " ; ".join(show(h)[:200] for h in self.ctx.facts))
        return r

    def null_parts(self, y):
        """drop the sums of y all of whose terms vanish"""
        m = {}
        for x in subterms(y):
            if x.op == "sum" and is_closed(x):
                if self.null(x):
                    m[x] = ZERO
                else:
                    z = self.widened(x)
                    if z is not None:
                        m[x] = z
        return tm.replace_terms(y, m) if m else y

    def widened(self, s):
        """Sum [c] f as Sum f, when the terms of Sum [not c] f vanish"""
        v, body = opened(s)
        ms = monos(body)
        if not ms:
            return None
        for a, e in ms[0][0]:
            if a.op != "iv" or e != 1 or v not in a.fv or any(all(b is not a for b, _ in mo) for mo, _ in ms[1:]):
                continue
            rest = ZERO
            for mo, c in ms:
                t = num(c)
                for b, eb in mo:
                    if b is not a:
                        t = mul(t, powi(b, eb))
                rest = add(rest, t)
            if self.null_terms(v, s.args[1], s.args[2], rest, (mknot(a.args[0]),)):
                return mksum(v, s.args[1], s.args[2], rest)
        return None


def mkforall_t(s):
    v, body = opened(s)
    return mkforall(v, s.args[1], s.args[2], eq(body, ZERO))


def pivot(p):
    """a closed sum occurring on its own with a numeric coefficient"""
    if p.op == "sum":
        return p
    if p.op != "poly":
        return None
    for m, c in p.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum" and is_closed(m[0][0]):
            a = m[0][0]
            if sum(1 for m2, _ in p.args for b, _ in m2 if b is a) == 1:
                return a
    return None


def solve(p, s):
    if p.op == "sum":
        return ZERO
    for m, c in p.args:
        if len(m) == 1 and m[0][0] is s:
            return neg(mul(sub(p, mul(num(c), s)), num(1 / c)))


def monos(p):
    if p is ZERO:
        return []
    if p.op == "poly":
        return list(p.args)
    return [(((p, 1),), 1)]
