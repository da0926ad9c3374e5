"""Instances of standard mathematical lemmas, added to the facts of a proof.

Every lemma is a theorem of real analysis (machine-checked counterparts are in
/verif/lean); the functions below only choose which instances to add.
"""
from term import *
import term as tm


def closed(t):
    return not any(v.args[0].startswith("#") for v in t.fv)


def sum_atoms(terms):
    out = []
    seen = set()
    for t in terms:
        for x in subterms(t, seen):
            if x.op == "sum" and closed(x) and x not in out:
                out.append(x)
    out.sort(key=lambda x: x.id)
    return out


def cauchy_schwarz(terms, ctx):
    """(sum x*y)^2 <= (sum x^2) * (sum y^2)"""
    out = []
    for s in sum_atoms(terms):
        d = pdict(s.args[3])
        if len(d) != 1:
            continue
        (m, c), = d.items()
        if len(m) != 2 or any(e != 1 for _, e in m):
            continue
        (x, _), (y, _) = m
        v, lo, hi = s.args[:3]
        xx = mksum_open(v, lo, hi, mul(x, x))
        yy = mksum_open(v, lo, hi, mul(y, y))
        out.append(le(mul(s, s), mul(xx, yy)))
        out.append(le(absv(s), mul(sqrt(xx), sqrt(yy))))
    return out


def mksum_open(v, lo, hi, body):
    w = fresh("cs", I)
    return mksum(w, lo, hi, subst(body, {v: w}))


def sums_nonneg(terms, ctx):
    out = []
    for s in sum_atoms(terms):
        b = s.args[3]
        if sign(b) in ("nn", "pos"):
            continue
    return out


# ---------------------------------------------------------------- calculus
def diff(t, v):
    """derivative of t with respect to the real variable v (t built from sums,
    products, exp, log and roots; conditions must not depend on v)"""
    if v not in t.fv:
        return ZERO
    if t is v:
        return ONE
    op = t.op
    if op == "poly":
        out = []
        for m, c in t.args:
            for k, (a, e) in enumerate(m):
                if v not in a.fv:
                    continue
                rest = m[:k] + m[k + 1:]
                out.append(mul(mkpoly({rest: c}), scale(powi(a, e - 1), e) if e != 1 else ONE, diff(a, v)))
        return add(*out)
    if op == "exp":
        return mul(t, diff(t.args[0], v))
    if op == "log":
        return mul(inv(t.args[0]), diff(t.args[0], v))
    if op == "inv":
        return neg(mul(powi(t, 2), diff(t.args[0], v)))
    if op == "sqrt":
        return scale(mul(inv(t), diff(t.args[0], v)), Fraction(1, 2))
    if op == "sum":
        if v in t.args[1].fv or v in t.args[2].fv:
            raise ValueError("derivative of a sum range")
        w = fresh("d", I)
        return mksum(w, t.args[1], t.args[2], diff(subst(t.args[3], {t.args[0]: w}), v))
    raise ValueError("derivative of " + op)


def log1pexp_curv(terms, ctx):
    """phi(b) <= phi(a) + s(a) (b-a) + (b-a)^2/8, phi(x)=log(1+e^x), s(x)=e^x/(1+e^x)"""
    out = []
    atoms = []
    seen = set()
    for t in terms:
        for x in subterms(t, seen):
            if x.op == "log" and closed(x):
                a = _log1pexp(x)
                if a is not None:
                    atoms.append((x, a))
    atoms.sort(key=lambda xa: xa[0].id)
    for x, a in atoms:
        for y, b in atoms:
            if x is y:
                continue
            h = sub(b, a)
            s = mul(exp(a), inv(add(ONE, exp(a))))
            out.append(le(y, add(x, mul(s, h), scale(powi(h, 2), Fraction(1, 8)))))
    return out


def _log1pexp(x):
    d = pdict(x.args[0])
    if len(d) == 2 and d.get(()) == 1:
        (m, c), = [(m, c) for m, c in d.items() if m]
        if c == 1 and len(m) == 1 and m[0][0].op == "exp" and m[0][1] == 1:
            return m[0][0].args[0]
        if c == 1 and all(a.op == "exp" for a, e in m):
            return add(*[scale(a.args[0], e) for a, e in m])
    return None


def bigmax_bounds(terms, ctx):
    """a maximum bounds every entry, and is the initial value or attained"""
    out, done = [], []
    seen = set()
    for t in terms:
        for x in subterms(t, seen):
            if x.op == "bigmax" and closed(x) and x not in done:
                done.append(x)
    done.sort(key=lambda x: x.id)
    for M in done:
        b, lo, hi, body, init = M.args
        v = fresh("m", I)
        e = subst(body, {b: v})
        out.append(mkforall(v, lo, hi, le(e, M)))
        out.append(le(init, M))
        out.append(mkor(eq(M, init), mkexists(v, lo, hi, eq(M, e))))
    # c * entry <= c * maximum for the non-negative cofactors c that occur
    seen, mons = set(), []
    for t in terms:
        for x in subterms(t, seen):
            if x.op == "poly":
                for m, _c in x.args:
                    for k, (a, d) in enumerate(m):
                        if a.op == "bigmax" and d == 1 and len(m) > 1 and a in done and m not in mons:
                            c = mkpoly({m[:k] + m[k + 1:]: 1})
                            if closed(c) and (sign(c) in ("nn", "pos") or ctx.decide(le(ZERO, c))):
                                mons.append(m)
                                b, lo, hi, body, init = a.args
                                v = fresh("m", I)
                                out.append(mkforall(v, lo, hi, le(mul(c, subst(body, {b: v})), mul(c, a))))
    return out
