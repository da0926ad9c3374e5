"""Hash-consed terms over the reals/integers with a canonical polynomial form.

Arithmetic is mathematical (reals, unbounded integers).  Atoms of polynomials
are variables, applications, Iverson brackets [cond], finite sums, ...  The
constructors below are the only way to build terms and they normalise, so that
two terms that differ by ring laws, sum linearity, delta collapse, or the
column lemma of CSC matrices are the same Python object.
"""
from fractions import Fraction
import itertools

I, R, B = "I", "R", "B"


class T:
    __slots__ = ("op", "args", "sort", "fv", "bh", "id", "funs", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_tab = {}
_ids = itertools.count()
_EMPTY = frozenset()


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = next(_ids)
    fv = _EMPTY
    funs = _EMPTY
    bh = 0
    bound = ()
    if op == "var":
        fv = frozenset((t,))
    elif op == "poly":
        for mono, _ in args:
            for a, _e in mono:
                fv = fv | a.fv
                funs = funs | a.funs
                if a.bh > bh:
                    bh = a.bh
    else:
        if op == "app":
            funs = frozenset((args[0],))
        if op in BINDERS:
            bound = args[0] if op == "lam" else (args[0],)
        for a in args:
            if isinstance(a, T):
                fv = fv | a.fv
                funs = funs | a.funs
                bh = max(bh, a.bh)
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        fv = fv | x.fv
                        funs = funs | x.funs
                        bh = max(bh, x.bh)
        if bound:
            fv = fv - frozenset(bound)
            for b in bound:
                bh = max(bh, int(b.args[0][1:]))
    t.fv, t.bh, t.funs = fv, bh, funs
    _tab[key] = t
    return t


# binder terms: sum/forall/bigmax: (var, lo, hi, body[, init]); lam: ((vars), body)
BINDERS = ("sum", "forall", "bigmax", "lam")

# ---------------------------------------------------------------- numbers
_FRESH = [0]


def num(x):
    return _mk("num", (Fraction(x),), R)


ZERO = num(0)
ONE = num(1)
TWO = num(2)
HALF = num(Fraction(1, 2))
TRUE = _mk("true", (), B)
FALSE = _mk("false", (), B)


def var(name, sort):
    return _mk("var", (name,), sort)


def fresh(prefix, sort):
    _FRESH[0] += 1
    return var("%s@%d" % (prefix, _FRESH[0]), sort)


def isnum(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


ROWFUN = set()      # functions of a row: conditions about the row as a whole are lifted out


def _lam_cond(l):
    for c in top_conds(l.args[1]):
        if not (c.fv & frozenset(l.args[0])):
            return c
    return None


def _row_split(f, args, n, c, sort):
    a = args[n]
    mk = lambda v: app(f, args[:n] + (lam(a.args[0], assume_cond(a.args[1], c, v)),) + args[n + 1:], sort)
    return ite(c, mk(True), mk(False))


def app(f, args, sort):
    """uninterpreted application; args are terms (or lam terms)"""
    args = tuple(args)
    for n, a in enumerate(args):
        if a.op == "lam" and f in ROWFUN:
            c = _lam_cond(a)
            if c is not None:
                return _row_split(f, args, n, c, sort)
        c = _lift_cond(a)
        if c is not None:
            return ite(c, app(f, args[:n] + (assume_cond(a, c, True),) + args[n + 1:], sort),
                       app(f, args[:n] + (assume_cond(a, c, False),) + args[n + 1:], sort)) \
                if sort != B else \
                bite(c, app(f, args[:n] + (assume_cond(a, c, True),) + args[n + 1:], sort),
                     app(f, args[:n] + (assume_cond(a, c, False),) + args[n + 1:], sort))
    return _mk("app", (f,) + args, sort)


# ---------------------------------------------------------------- polynomials
def pdict(t):
    if t.op == "num":
        v = t.args[0]
        return {(): v} if v else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def is_int(t):
    """integer-sorted?"""
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op == "poly":
        return all(c.denominator == 1 and all(a.sort == I and e > 0 for a, e in m) for m, c in t.args)
    return t.sort == I


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: (tuple((a.id, e) for a, e in mc[0])))
    s = I
    for m, c in items:
        if c.denominator != 1:
            s = R
        for a, e in m:
            if a.sort != I or e < 0:
                s = R
    return _mk("poly", tuple(items), s)


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d)


def neg(t):
    return mkpoly({m: -c for m, c in pdict(t).items()})


def sub(a, b):
    return add(a, neg(b))


def scale(t, c):
    c = Fraction(c)
    return mkpoly({m: v * c for m, v in pdict(t).items()})


def _mono_mul(m1, m2):
    """product of two monomials; returns (monomial, extra) with extra a list of
    terms that still have to be multiplied in"""
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return _mono_fix(d)


def _mono_fix(d):
    extra = []
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.op == "iv":
            if e != 1:
                d[a] = 1
        elif a.op == "abs" and (e >= 2 or e <= -2):
            k = abs(e) // 2
            r = e - 2 * k if e > 0 else e + 2 * k
            if r:
                d[a] = r
            else:
                del d[a]
            p = a.args[0]
            q = powi(p, 2 * k)
            extra.append(q if e > 0 else inv(q))
        elif a.op == "sqrt" and (e >= 2 or e <= -2):
            k = abs(e) // 2
            r = e - 2 * k if e > 0 else e + 2 * k
            if r:
                d[a] = r
            else:
                del d[a]
            q = powi(a.args[0], k)
            extra.append(q if e > 0 else inv(q))
        elif a.op == "inv" and e < 0:
            del d[a]
            extra.append(powi(a.args[0], -e))
    # products of roots of numbers
    ns = [a for a in d if a.op == "sqrt" and a.args[0].op == "num"]
    if len(ns) > 1 or any(d[a] < 0 for a in ns):
        f = ONE
        num_, c_ = Fraction(1), Fraction(1)
        for a in ns:
            v = a.args[0].args[0]
            if d[a] > 0:
                num_ *= v
            else:           # 1/sqrt(v) = sqrt(v)/v
                num_ *= v
                c_ /= v
            del d[a]
        extra.append(scale(sqrt(num(num_)), c_))
    # S * sqrt(S)^-1 -> sqrt(S)
    for a in list(d):
        if a.op == "sqrt" and d[a] < 0 and d.get(a.args[0], 0) > 0:
            S = a.args[0]
            d[S] -= 1
            if not d[S]:
                del d[S]
            del d[a]
            extra.append(a)
    # exp(a)*exp(b) -> exp(a+b)
    ex = [a for a in d if a.op == "exp"]
    if len(ex) > 1 or (len(ex) == 1 and d[ex[0]] != 1):
        tot = ZERO
        for a in ex:
            tot = add(tot, scale(a.args[0], d[a]))
            del d[a]
        extra.append(exp(tot))
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), extra


def mul(*ts):
    acc = None
    for t in ts:
        acc = t if acc is None else _mul2(acc, t)
    return ONE if acc is None else acc


_mulmemo = {}


def _mul2(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    key = (a, b) if a.id <= b.id else (b, a)
    r = _mulmemo.get(key)
    if r is not None:
        return r
    if isnum(a):
        r = scale(b, a.args[0])
    elif isnum(b):
        r = scale(a, b.args[0])
    else:
        d = {}
        rest = []
        for m1, c1 in pdict(a).items():
            for m2, c2 in pdict(b).items():
                m, extra = _mono_mul(m1, m2)
                if extra:
                    t = mkpoly({m: c1 * c2})
                    for x in extra:
                        t = _mul2(t, x)
                    rest.append(t)
                else:
                    d[m] = d.get(m, 0) + c1 * c2
        r = mkpoly(d)
        if rest:
            r = add(r, *rest)
    _mulmemo[key] = r
    return r


def powi(t, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(t, -n))
    r = ONE
    for _ in range(n):
        r = _mul2(r, t)
    return r


def _content(d):
    """largest common monomial with common coefficient of the leading term"""
    ms = list(d)
    common = dict(ms[0])
    for m in ms[1:]:
        md = dict(m)
        for a in list(common):
            if a in md:
                e1, e2 = common[a], md[a]
                common[a] = min(e1, e2)
            else:
                if common[a] > 0:
                    del common[a]
        for a, e in md.items():
            if e < 0 and a not in common:
                common[a] = e
        for a in list(common):
            if a not in md and common[a] < 0:
                pass
    common = {a: e for a, e in common.items() if e}
    return common


def lead(d):
    return min(d, key=lambda m: tuple((a.id, e) for a, e in m))


def inv(t):
    if t.op == "num":
        if not t.args[0]:
            return _mk("app", ("inv0",), R)
        return num(1 / t.args[0])
    c = _lift_cond(t)
    if c is not None:
        return ite(c, inv(assume_cond(t, c, True)), inv(assume_cond(t, c, False)))
    d = pdict(t)
    if len(d) == 1:
        (m, c), = d.items()
        fd = {a: -e for a, e in m}
        m2, extra = _mono_fix(fd)
        r = mkpoly({m2: 1 / c})
        for x in extra:
            r = _mul2(r, x)
        return r
    com = _content(d)
    r = ONE
    if com:
        cm = mkpoly({tuple(sorted(com.items(), key=lambda ae: ae[0].id)): Fraction(1)})
        icm = inv(cm)
        return _mul2(icm, inv(_mul2(t, icm)))
    lc = d[lead(d)]
    p = scale(t, 1 / lc)
    return scale(_mk("inv", (p,), R), 1 / lc)


def div(a, b):
    return _mul2(a, inv(b))


# ---------------------------------------------------------------- Iverson lifting
LIFT_MAX = 12


def top_conds(t):
    """conditions of Iverson atoms occurring at the top level of polynomial t"""
    out = []
    for m, _ in pdict(t).items():
        for a, _e in m:
            if a.op == "iv" and a.args[0] not in out:
                out.append(a.args[0])
    return out


def _lift_cond(t):
    if t.sort == B or t.op not in ("poly", "iv"):
        return None
    if t.op == "iv":
        return t.args[0]
    for m, _ in t.args:
        for a, _e in m:
            if a.op == "iv":
                return a.args[0]
    return None


_acmemo = {}


def assume_cond(t, c, val):
    """replace Iverson atoms [c] at the top level by 1/0"""
    key = (t, c, val)
    r = _acmemo.get(key)
    if r is not None:
        return r
    ivc = _mk("iv", (c,), I)
    d = {}
    for m, co in pdict(t).items():
        if any(a is ivc for a, _ in m):
            if not val:
                continue
            m = tuple(x for x in m if x[0] is not ivc)
        d[m] = d.get(m, 0) + co
    r = mkpoly(d)
    _acmemo[key] = r
    return r


def iv(c):
    """Iverson bracket as a polynomial over atomic conditions"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return sub(ONE, iv(c.args[0]))
    if c.op == "and":
        r = ONE
        for x in c.args:
            r = _mul2(r, iv(x))
        return r
    if c.op == "or":
        r = ONE
        for x in c.args:
            r = _mul2(r, sub(ONE, iv(x)))
        return sub(ONE, r)
    return _mk("iv", (c,), I)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == B or b.sort == B:
        return bite(c, a, b)
    # max / min recognition
    cc, x, y = c, a, b
    if cc.op == "not":
        cc, x, y = cc.args[0], b, a
    if cc.op == "lt0":
        p = cc.args[0]
        dxy = sub(x, y)
        if _posprop(p, dxy):      # x < y chooses x
            return mn(x, y)
        if _posprop(p, neg(dxy)):  # y < x chooses x
            return mx(x, y)
    # linear: b + [c](a-b)
    return add(b, _mul2(iv(c), sub(a, b)))


def _posprop(p, q):
    """q = k*p with k>0 ?"""
    dp, dq = pdict(p), pdict(q)
    if len(dp) != len(dq) or not dp:
        return False
    k = None
    for m, c in dp.items():
        if m not in dq:
            return False
        r = dq[m] / c
        if r <= 0 or (k is not None and r != k):
            return False
        k = r
    return True


# ---------------------------------------------------------------- functions
def _un(op, t, sort=R):
    return _mk(op, (t,), sort)


def _lifted(f, t):
    c = _lift_cond(t)
    if c is None:
        return None
    return ite(c, f(assume_cond(t, c, True)), f(assume_cond(t, c, False)))


def absv(t):
    if isnum(t):
        return num(abs(t.args[0]))
    r = _lifted(absv, t)
    if r is not None:
        return r
    d = pdict(t)
    lc = d[lead(d)]
    if len(d) == 1:
        # |c * m| = |c| * prod |a|^e
        (m, c), = d.items()
        r = num(abs(c))
        for a, e in m:
            if e % 2 == 0 or a.op in ("abs", "sqrt", "exp", "iv"):
                x = mkpoly({((a, e),): Fraction(1)})
            else:
                x = powi(_un("abs", a), e) if e > 0 else inv(powi(_un("abs", a), -e))
            r = _mul2(r, x)
        return r
    com = _content(d)
    if com:
        cm = mkpoly({tuple(sorted(com.items(), key=lambda ae: ae[0].id)): Fraction(1)})
        q = _mul2(t, inv(cm))
        dq = pdict(q)
        if len(dq) == len(d) and not _content(dq):
            return _mul2(absv(cm), absv(q))
    p = scale(t, 1 / lc)
    return scale(_un("abs", p), abs(lc))


def _is_square(t):
    """t = c * m^2 with c>0 a rational square and all exponents even -> root"""
    d = pdict(t)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if c <= 0 or any(e % 2 for _, e in m):
        return None
    import math
    n, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or q * q != c.denominator:
        return None
    return mkpoly({tuple((a, e // 2) for a, e in m): Fraction(n, q)})


def sqrt(t):
    if isnum(t):
        s = _is_square(t) if t.args[0] > 0 else (ZERO if t is ZERO else None)
        if s is not None:
            return s
        v = t.args[0]
        if v > 0:
            # sqrt(a/b) = sqrt(ab)/b without square factors
            n, out = v.numerator * v.denominator, Fraction(1, v.denominator)
            k = 2
            while k * k <= n and k < 1000:
                while n % (k * k) == 0:
                    n //= k * k
                    out *= k
                k += 1
            return scale(_un("sqrt", num(n)), out) if n != 1 else num(out)
        return _un("sqrt", t)
    r = _lifted(sqrt, t)
    if r is not None:
        return r
    s = _is_square(t)
    if s is not None:
        return absv(s)
    d = pdict(t)
    if len(d) == 1:
        # pull even powers out of a single monomial
        (m, c), = d.items()
        out, keep = ONE, {}
        for a, e in m:
            if e % 2 == 0:
                out = _mul2(out, absv(powi(a, e // 2)) if e > 0 else inv(absv(powi(a, -e // 2))))
            else:
                keep[a] = e
        if out is not ONE:
            rest = mkpoly({tuple(sorted(keep.items(), key=lambda ae: ae[0].id)): c})
            return _mul2(out, sqrt(rest))
        if abs(c) != 1:
            return _mul2(sqrt(num(abs(c))), sqrt(mkpoly({m: Fraction(1 if c > 0 else -1)})))
    elif len(d) <= 30:
        q = poly_sqrt(t)
        if q is not None:
            return absv(q)
    return _un("sqrt", t)


def poly_sqrt(t):
    """q with q*q = t, where a sum S whose root occurs in t counts as root(S)^2"""
    d = pdict(t)
    roots = {a.args[0]: a for m in d for a, _ in m if a.op == "sqrt"}
    for m in d:
        for a, e in m:
            if a.op == "sum" and sign(a) == "nn" and a not in roots:
                roots.setdefault(a, _un("sqrt", a))
    atoms = {}
    P = {}
    for m, c in d.items():
        mm = {}
        for a, e in m:
            if a in roots:
                a, e = roots[a], 2 * e
            if a.op == "abs":
                return None
            mm[a] = mm.get(a, 0) + e
            atoms[a] = True
        k = tuple(sorted(((a, e) for a, e in mm.items() if e), key=lambda x: x[0].id))
        P[k] = P.get(k, 0) + c
    order = sorted(atoms, key=lambda a: a.id)

    def vec(m):
        md = dict(m)
        return tuple(md.get(a, 0) for a in order)
    P = {vec(m): c for m, c in P.items() if c}
    import math

    def csq(c):
        if c <= 0:
            return None
        n, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fraction(n, q) if n * n == c.numerator and q * q == c.denominator else None
    l0 = max(P)
    c0 = csq(P[l0])
    if c0 is None or any(e % 2 for e in l0):
        return None
    low = min(P)
    if any(e % 2 for e in low) or csq(P[low]) is None:
        return None
    q = {tuple(e // 2 for e in l0): c0}
    lead_ = (tuple(e // 2 for e in l0), c0)
    R = dict(P)
    R.pop(l0)
    for _ in range(12):
        if not R:
            out = {}
            for m, c in q.items():
                out[tuple((a, e) for a, e in zip(order, m) if e)] = c
            r = ZERO
            for m, c in out.items():
                tt = num(c)
                for a, e in m:
                    tt = _mul2(tt, powi(a, e) if e > 0 else inv(powi(a, -e)))
                r = add(r, tt)
            return r
        l = max(R)
        nm = tuple(a - b for a, b in zip(l, lead_[0]))
        nc = R[l] / (2 * lead_[1])
        if nm in q or nm >= lead_[0]:
            return None
        for m, c in list(q.items()) + [(nm, None)]:
            if c is None:
                mm, cc = tuple(2 * e for e in nm), nc * nc
            else:
                mm, cc = tuple(a + b for a, b in zip(m, nm)), 2 * c * nc
            v = R.get(mm, 0) - cc
            if v:
                R[mm] = v
            else:
                R.pop(mm, None)
        q[nm] = nc
    return None


def exp(t):
    if t is ZERO:
        return ONE
    return _lifted(exp, t) or _un("exp", t)


def log(t):
    if t is ONE:
        return ZERO
    if t.op == "exp":
        return t.args[0]
    a = log1pexp_arg(t)
    if a is not None and a is not ZERO:
        # log(1 + e^-a) = log(1 + e^a) - a, log(1 + e^|z|) = log(1 + e^z) + max(0, -z)
        d = pdict(a)
        if len(d) == 1:
            (m, c), = d.items()
            if m and all(x.op == "abs" for x, _ in m):
                z = mkpoly({(): abs(c)})
                for x, e in m:
                    z = mul(z, powi(x.args[0], e))
                r = add(log(add(ONE, exp(z))), mx(ZERO, neg(z)))
                return r if c > 0 else add(a, r)
        if d[lead(d)] < 0:
            b = neg(a)
            return add(a, _lifted(log, add(ONE, exp(b))) or _un("log", add(ONE, exp(b))))
    return _lifted(log, t) or _un("log", t)


def log1pexp_arg(t):
    """a when t = 1 + exp(a)"""
    d = pdict(t)
    if len(d) == 2 and d.get(()) == 1:
        (m, c), = [(m, c) for m, c in d.items() if m]
        if c == 1 and all(x.op == "exp" for x, _ in m):
            return add(*[scale(x.args[0], e) for x, e in m])
    return None


def cosv(t):
    return _un("cos", t)


def acosv(t):
    return _un("acos", t)


def powf(t, c):
    if c.op == "num":
        v = c.args[0]
        if v.denominator == 1:
            return powi(t, int(v))
        if v == Fraction(1, 2):
            return sqrt(t)
        if v.denominator == 2:      # t^(k + 1/2) = t^k sqrt(t), t >= 0 (t > 0 for k < 0)
            k = (v.numerator - 1) // 2
            return _mul2(sqrt(t), powi(t, k) if k > 0 else inv(powi(t, -k)))
    return _mk("powf", (t, c), R)


def mx(a, b):
    if a is b:
        return a
    if isnum(a) and isnum(b):
        return a if a.args[0] >= b.args[0] else b
    xs = []
    for t in (a, b):
        if t.op == "max":
            xs += list(t.args)
        else:
            xs.append(t)
    if POSINF in xs:
        return POSINF
    if NEGINF in xs:
        xs = [x for x in xs if x is not NEGINF] or [NEGINF]
    for x in xs:
        c = _lift_cond(x)
        if c is not None:
            f = lambda v: _fold(mx, [assume_cond(y, c, v) if y.op in ("poly", "iv") else y for y in xs])
            return ite(c, f(True), f(False))
    xs = sorted(set(xs), key=lambda t: t.id)
    if len(xs) == 1:
        return xs[0]
    return _mk("max", tuple(xs), R if any(x.sort == R and not is_int(x) for x in xs) else I)


def mn(a, b):
    if a is b:
        return a
    if isnum(a) and isnum(b):
        return a if a.args[0] <= b.args[0] else b
    return neg(mx(neg(a), neg(b)))


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


POSINF = var("POSINF", R)
NEGINF = neg(POSINF)

# hook for deciding integer side conditions: set by the prover
DECIDE = [lambda c: None]


def idiv(a, b):
    if isnum(a) and isnum(b) and b.args[0]:
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return a
    q, r = _split_mult(a, b)
    if q is not None:
        # a = q*b + r ; decide 0<=r<b
        if r is ZERO and DECIDE[0](lt(ZERO, b)):
            return q
        if DECIDE[0](mkand(le(ZERO, r), lt(r, b))):
            return q
    return _mk("idiv", (a, b), I)


def imod(a, b):
    if isnum(a) and isnum(b) and b.args[0]:
        return num(a.args[0] % b.args[0])
    if b is ONE:
        return ZERO
    q, r = _split_mult(a, b)
    if q is not None:
        if r is ZERO and DECIDE[0](lt(ZERO, b)):
            return ZERO
        if DECIDE[0](mkand(le(ZERO, r), lt(r, b))):
            return r
    return _mk("imod", (a, b), I)


def _split_mult(a, b):
    db = pdict(b)
    if len(db) != 1:
        if a is b:
            return ONE, ZERO
        # try a = b + r etc. is left undecided
        return ZERO, a
    (mb, cb), = db.items()
    q, r = {}, {}
    for m, c in pdict(a).items():
        md = dict(m)
        ok = c % cb == 0
        for x, e in mb:
            if md.get(x, 0) < e:
                ok = False
                break
        if ok:
            for x, e in mb:
                md[x] -= e
                if not md[x]:
                    del md[x]
            mm = tuple(sorted(md.items(), key=lambda ae: ae[0].id))
            q[mm] = q.get(mm, 0) + c / cb
        else:
            r[m] = c
    return mkpoly(q), mkpoly(r)


# ---------------------------------------------------------------- booleans
_NOT = {}


def mknot(c):
    r = _NOT.get(c)
    if r is not None:
        return r
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        r = mkor(*[mknot(x) for x in c.args])
    elif c.op == "or":
        r = mkand(*[mknot(x) for x in c.args])
    else:
        r = _mk("not", (c,), B)
    _NOT[c] = r
    return r


def mkand(*cs):
    out = {}
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.args if c.op == "and" else (c,)):
            out[x] = None
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    for x in out:
        if mknot(x) in out:
            return FALSE
    return _mk("and", tuple(sorted(out, key=_tid)), B)


def _tid(t):
    return t.id


def mkor(*cs):
    out = {}
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.args if c.op == "or" else (c,)):
            out[x] = None
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    for x in out:
        if x.op == "not" and x.args[0] in out:
            return TRUE
    return _mk("or", tuple(sorted(out, key=_tid)), B)


def imp(a, b):
    return mkor(mknot(a), b)


def bite(c, a, b):
    if a is b:
        return a
    return mkor(mkand(c, a), mkand(mknot(c), b))


def iff(a, b):
    return mkand(imp(a, b), imp(b, a))


def lt0(p):
    if isnum(p):
        return TRUE if p.args[0] < 0 else FALSE
    c = _lift_cond(p)
    if c is not None:
        return bite(c, lt0(assume_cond(p, c, True)), lt0(assume_cond(p, c, False)))
    d = pdict(p)
    lc = abs(d[lead(d)])
    p = scale(p, 1 / lc)
    if is_int(scale(p, lc)) and lc != 1:
        p = scale(p, lc)          # keep integer coefficients for integer atoms
    # trivially non-negative / positive forms
    s = sign(p)
    if s in ("nn", "pos"):
        return FALSE
    if s == "neg":
        return TRUE
    if sign(neg(p)) == "nn":
        return mknot(eq0(p))
    return _mk("lt0", (p,), B)


def eq0(p):
    if isnum(p):
        return TRUE if p.args[0] == 0 else FALSE
    c = _lift_cond(p)
    if c is not None:
        return bite(c, eq0(assume_cond(p, c, True)), eq0(assume_cond(p, c, False)))
    d = pdict(p)
    lc = d[lead(d)]
    p = scale(p, 1 / lc)
    if is_int(scale(p, lc)) and abs(lc) != 1:
        p = scale(p, abs(lc))
    s = sign(p)
    if s in ("pos", "neg"):
        return FALSE
    r = _eq0_split(p, s)
    if r is not None:
        return r
    return _mk("eq0", (p,), B)


# unary integer functions known to be injective where they are used (an index
# array with distinct entries; outside its range the symbol is unconstrained
# and may be taken to be injective as well)
INJECTIVE = set()


def _eq0_split(p, s):
    """equivalent simpler forms of p = 0 (exact over the reals)"""
    if INJECTIVE and p.op == "poly":
        d = pdict(p)
        if len(d) == 2 and sorted(d.values()) == [-1, 1]:
            x, y = [m[0][0] if len(m) == 1 and m[0][1] == 1 else None for m in d]
            if x is not None and y is not None and x.op == y.op == "app" and len(x.args) == 2 \
                    and x.args[0] == y.args[0] and x.args[0] in INJECTIVE:
                return eq0(sub(x.args[1], y.args[1]))
    if p.op == "abs":
        return eq0(p.args[0])
    if p.op == "sqrt" and sign(p.args[0]) == "nn":
        return eq0(p.args[0])
    if p.op == "sum" and s == "nn":
        v, body = opened(p)
        return mkforall(v, p.args[1], p.args[2], eq0(body))
    if p.op in ("poly",):
        d = pdict(p)
        if len(d) == 1:
            (m, _c), = d.items()
            return mkor(*[eq0(a) for a, e in m if e > 0 and a.op != "inv"])
        if s == "nn":
            return mkand(*[eq0(mkpoly({m: c})) for m, c in d.items()])
    return None


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return mknot(lt0(sub(b, a)))


def eq(a, b):
    if a.sort == B:
        return iff(a, b)
    return eq0(sub(a, b))


def _asign(a, e):
    if e % 2 == 0:
        return "nn"
    if a.op == "exp":
        return "pos"
    if a.op in ("abs", "sqrt", "iv"):
        return "nn"
    if a.op == "sum":
        s = sign(a.args[3])
        return "nn" if s in ("nn", "pos") else None
    if a.op == "max":
        for x in a.args:
            if sign(x) == "pos":
                return "pos"
        for x in a.args:
            if sign(x) == "nn":
                return "nn"
        return None
    if a.op == "inv":
        return sign(a.args[0]) if sign(a.args[0]) in ("pos",) else None
    return None


_signmemo = {}


def sign(t):
    """cheap syntactic sign: pos / nn / neg / None"""
    r = _signmemo.get(t, 0)
    if r != 0:
        return r
    r = _sign(t)
    _signmemo[t] = r
    return r


def _sign(t):
    if isnum(t):
        v = t.args[0]
        return "pos" if v > 0 else "nn" if v == 0 else "neg"
    pos = False
    allneg = True
    negs = False
    for m, c in pdict(t).items():
        s = "pos"
        for a, e in m:
            x = _asign(a, e)
            if x is None:
                return None
            if x == "nn":
                s = "nn"
        if c < 0:
            negs = True
            if s != "pos":
                allneg = False
        else:
            allneg = False
            if s == "pos":
                pos = True
    if negs:
        return "neg" if allneg else None
    return "pos" if pos else "nn"


# ---------------------------------------------------------------- binders
def _binder_var(body_height):
    return var("#%d" % (body_height + 1), I)


def _close(v, *ts):
    """choose the canonical bound variable for binding v in ts"""
    h = max(t.bh for t in ts)
    b = _binder_var(h)
    return b, [subst(t, {v: b}) for t in ts]


# CSC column structure registered by the engine: indptr symbol -> record
CSC = {}


def mksum(v, lo, hi, body):
    """sum over lo <= v < hi of body"""
    if body is ZERO or lo is hi:
        return ZERO
    if isnum(lo) and isnum(hi):
        n = int(hi.args[0] - lo.args[0])
        if n <= 0:
            return ZERO
        if n <= 4:
            return add(*[subst(body, {v: num(lo.args[0] + i)}) for i in range(n)])
    if lo is not ZERO and _csc_range(lo, hi) is None and not _is_prefix_csc(lo, hi):
        # shift to start at zero
        b2 = subst(body, {v: add(v, lo)})
        return mksum(v, ZERO, sub(hi, lo), b2)
    if lo is ZERO and CSC:
        r = _csc_shifted(hi)
        if r is not None:
            plo, phi = r
            w = fresh("cs", I)
            return mksum(w, plo, phi, subst(body, {v: sub(w, plo)}))
    out = []
    for m, c in pdict(body).items():
        out.append(scale(_sum_mono(v, lo, hi, m), c))
    return add(*out)


def _csc_shifted(hi):
    """hi = P(j+1) - P(j) for the column pointer P of a registered matrix"""
    d = pdict(hi)
    if len(d) != 2:
        return None
    a = b = None
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "app" or m[0][0].args[0] not in CSC:
            return None
        if c == 1:
            b = m[0][0]
        elif c == -1:
            a = m[0][0]
    if a is None or b is None or _csc_range(a, b) is None:
        return None
    return a, b


def _csc_range(lo, hi):
    if lo.op == "app" and lo.args[0] in CSC and hi.op == "app" and hi.args[0] == lo.args[0]:
        if sub(hi.args[1], lo.args[1]) is ONE:
            return CSC[lo.args[0]], lo.args[1]
    return None


def _is_prefix_csc(lo, hi):
    return lo.op == "app" and lo.args[0] in CSC


def lin_solve(p, v):
    """p linear in v with coefficient +-1 and rest free of v: value of v making p=0"""
    d = pdict(p)
    key = ((v, 1),)
    c = d.get(key)
    if c not in (1, -1):
        return None
    rest = {m: x for m, x in d.items() if m != key}
    r = mkpoly(rest)
    if v in r.fv:
        return None
    return scale(r, -1 / c)


def _sum_mono(v, lo, hi, m):
    outm, inm = [], []
    for a, e in m:
        (inm if v in a.fv else outm).append((a, e))
    outer = mkpoly({tuple(outm): Fraction(1)}) if outm else ONE
    if not inm:
        return _mul2(outer, sub(hi, lo))
    # delta collapse
    for a, e in inm:
        if a.op == "iv" and a.args[0].op == "eq0":
            t = lin_solve(a.args[0].args[0], v)
            if t is not None:
                rest = mkpoly({tuple(x for x in inm if x[0] is not a): Fraction(1)})
                val = subst(rest, {v: t})
                return _mul2(outer, _mul2(_mul2(_giv(le(lo, t)), _giv(lt(t, hi))), val))
    # CSC column lemma
    cr = _csc_range(lo, hi)
    if cr is not None:
        rec, j = cr
        r = _csc_collapse(rec, j, v, inm)
        if r is not None:
            return _mul2(outer, r)
    # swap with an inner sum that carries a delta on v
    for a, e in inm:
        if a.op == "sum" and e == 1:
            w, wlo, whi, wb = a.args
            if v in wlo.fv or v in whi.fv:
                continue
            if _has_delta(wb, v):
                rest = mkpoly({tuple(x for x in inm if x[0] is not a): Fraction(1)})
                w2 = fresh("sw", I)
                wb2 = subst(wb, {w: w2})
                inner = mksum(v, lo, hi, _mul2(rest, wb2))
                return _mul2(outer, mksum(w2, wlo, whi, inner))
    # indicators of the range itself
    keep = []
    for a, e in inm:
        if a.op == "iv":
            r = _in_range(a.args[0], v, lo, hi)
            if r is False:
                return ZERO
            if r is True:
                continue
        keep.append((a, e))
    if len(keep) != len(inm):
        return _mul2(outer, mksum(v, lo, hi, mkpoly({tuple(keep): Fraction(1)})))
    body = mkpoly({tuple(inm): Fraction(1)})
    b, (bb,) = _close(v, body)
    return _mul2(outer, _mk("sum", (b, lo, hi, bb), R))


def _in_range(c, v, lo, hi):
    """truth of a bound on v for every lo <= v < hi, when it shows at once"""
    pos = True
    if c.op == "not":
        c, pos = c.args[0], False
    if c.op != "lt0":
        return None
    p = c.args[0]
    k = pdict(p).get(((v, 1),))
    t = lin_solve(p, v)
    if t is None:
        return None
    if k == 1:           # v < t
        if isnum(sub(hi, t)) and sub(hi, t).args[0] <= 0:
            return pos
        if isnum(sub(t, lo)) and sub(t, lo).args[0] <= 0:
            return not pos
    else:                # t < v
        if isnum(sub(lo, t)) and sub(lo, t).args[0] > 0:
            return pos
        if isnum(sub(hi, t)) and sub(hi, t).args[0] <= 1:
            return not pos
    return None


def _giv(c):
    """Iverson with the ambient decision procedure"""
    if c in (TRUE, FALSE):
        return iv(c)
    r = DECIDE[0](c)
    if r is True:
        return ONE
    if DECIDE[0](mknot(c)) is True:
        return ZERO
    return iv(c)


def _has_delta(body, v):
    if not pdict(body):
        return False
    for m, _ in pdict(body).items():
        ok = False
        for a, e in m:
            if a.op == "iv" and a.args[0].op == "eq0" and v in a.fv:
                if lin_solve(a.args[0].args[0], v) is not None:
                    ok = True
            if a.op == "sum" and e == 1 and _has_delta(a.args[3], v):
                ok = True
        if not ok:
            return False
    return True


def _csc_collapse(rec, j, v, inm):
    """sum over the stored entries of column j of a product with a factor data(v)"""
    body = mkpoly({tuple(inm): Fraction(1)})
    i = fresh("row", I)

    def f(name, args):
        if args == (v,):
            if name == rec["data"]:
                return app(rec["X"], (i, j), R)
            if name == rec["indices"]:
                return i
        return None
    if not any(a.op == "app" and a.args == (rec["data"], v) and e >= 1 for a, e in inm):
        return None
    b2 = subst_fun(body, f)
    if v in b2.fv:
        return None
    return mksum(i, ZERO, rec["n"], b2)


def mkforall(v, lo, hi, body):
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return mknot(lt(lo, hi))
    if v not in body.fv:
        return mkor(mknot(lt(lo, hi)), body)
    b, (bb,) = _close(v, body)
    return _mk("forall", (b, lo, hi, bb), B)


def mkexists(v, lo, hi, body):
    return mknot(mkforall(v, lo, hi, mknot(body)))


def bigmax(v, lo, hi, body, init):
    """max(init, max over lo<=v<hi of body)"""
    if isnum(lo) and isnum(hi) and hi.args[0] - lo.args[0] <= 3:
        r = init
        for i in range(int(lo.args[0]), int(hi.args[0])):
            r = mx(r, subst(body, {v: num(i)}))
        return r
    if lo is not ZERO:
        return bigmax(v, ZERO, sub(hi, lo), subst(body, {v: add(v, lo)}), init)
    b, (bb,) = _close(v, body)
    return _mk("bigmax", (b, lo, hi, bb, init), R)


def lam(vs, body):
    """array literal: lambda vs. body, canonical bound names"""
    h = body.bh
    m = {}
    bs = []
    for n, v in enumerate(vs):
        b = var("#%d" % (h + 1 + n), I)
        m[v] = b
        bs.append(b)
    bb = subst(body, m)
    # eta: lambda i. A(i) -> A
    if bb.op == "app" and len(bb.args) == 1 + len(bs) and tuple(bb.args[1:]) == tuple(bs):
        return _mk("arrsym", (bb.args[0],), "A")._fix(bb.args[0]) if False else _arrsym(bb.args[0])
    return _mk("lam", (tuple(bs), bb), "A")


def _arrsym(f):
    t = _mk("arrsym", (f,), "A")
    if not t.funs:
        t.funs = frozenset((f,))
    return t


def lam_apply(l, args):
    if l.op == "arrsym":
        return app(l.args[0], args, R)
    return subst(l.args[1], dict(zip(l.args[0], args)))


# ---------------------------------------------------------------- traversal
def rebuild(t, f):
    """rebuild t with children mapped by f (children = terms)"""
    op = t.op
    a = t.args
    if op == "poly":
        out = []
        for m, c in a:
            p = num(c)
            for at, e in m:
                x = f(at)
                p = _mul2(p, powi(x, e) if e > 0 else inv(powi(x, -e)))
            out.append(p)
        return add(*out)
    if op in ("num", "var", "true", "false", "arrsym"):
        return t
    if op == "app":
        return app(a[0], [f(x) for x in a[1:]], t.sort)
    if op == "iv":
        return iv(f(a[0]))
    if op == "lam":
        vs = [fresh("b", I) for _ in a[0]]
        return lam(tuple(vs), f(rename(a[1], dict(zip(a[0], vs)))))
    if op in BINDERS:
        v = fresh("b", I)
        body = f(rename(a[3], {a[0]: v}))
        lo, hi = f(a[1]), f(a[2])
        if op == "sum":
            return mksum(v, lo, hi, body)
        if op == "forall":
            return mkforall(v, lo, hi, body)
        return bigmax(v, lo, hi, body, f(a[4]))
    if op == "not":
        return mknot(f(a[0]))
    if op == "and":
        return mkand(*[f(x) for x in a])
    if op == "or":
        return mkor(*[f(x) for x in a])
    if op == "lt0":
        return lt0(f(a[0]))
    if op == "eq0":
        return eq0(f(a[0]))
    if op == "max":
        return _fold(mx, [f(x) for x in a])
    fn = {"abs": absv, "sqrt": sqrt, "exp": exp, "log": log, "cos": cosv, "acos": acosv, "inv": inv}.get(op)
    if fn:
        return fn(f(a[0]))
    if op == "powf":
        return powf(f(a[0]), f(a[1]))
    if op == "idiv":
        return idiv(f(a[0]), f(a[1]))
    if op == "imod":
        return imod(f(a[0]), f(a[1]))
    raise ValueError("rebuild " + op)


def subst(t, m):
    """substitute variables (dict var->term); binders are opened with fresh names"""
    keys = frozenset(m)
    memo = {}

    def go(x):
        if not (x.fv & keys):
            return x
        r = memo.get(x)
        if r is None:
            r = m[x] if x.op == "var" else rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


rename = subst


def opened(t):
    """(fresh variable, body) of a single-variable binder"""
    v = fresh("o", I)
    return v, subst(t.args[3], {t.args[0]: v})


def subst_fun(t, f, names=None):
    """replace applications: f(name, args) -> term or None (args already rewritten)"""
    memo = {}

    def go(x):
        if names is not None and not (x.funs & names):
            return x
        if not x.funs:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "app":
            args = tuple(go(y) for y in x.args[1:])
            r = f(x.args[0], args)
            if r is None:
                r = app(x.args[0], args, x.sort)
        elif x.op == "arrsym":
            r = f(x.args[0], None)
            if r is None:
                r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def replace_terms(t, m):
    """replace whole subterms (dict term->term)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = m.get(x)
        if r is None:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def children(t):
    if t.op == "poly":
        for m, _ in t.args:
            for a, _e in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, T):
                        yield x


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(children(x))
    return seen


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    op, a = t.op, t.args
    if op == "num":
        return str(a[0])
    if op in ("true", "false"):
        return op
    if op == "var":
        return a[0]
    if op == "arrsym":
        return a[0]
    if op == "poly":
        parts = []
        for m, c in a:
            fs = []
            for at, e in m:
                s = show(at)
                if at.op in ("max",):
                    pass
                fs.append(s if e == 1 else "%s^%d" % (s, e))
            body = "*".join(fs)
            if not body:
                parts.append(str(c))
            elif c == 1:
                parts.append(body)
            elif c == -1:
                parts.append("-" + body)
            else:
                parts.append("%s*%s" % (c, body))
        return "(" + " + ".join(parts) + ")"
    if op == "app":
        return "%s(%s)" % (a[0], ",".join(show(x) for x in a[1:]))
    if op == "iv":
        return "[%s]" % show(a[0])
    if op == "sum":
        return "Sum{%s=%s..%s}(%s)" % (show(a[0]), show(a[1]), show(a[2]), show(a[3]))
    if op == "forall":
        return "All{%s=%s..%s}(%s)" % (show(a[0]), show(a[1]), show(a[2]), show(a[3]))
    if op == "bigmax":
        return "Max{%s=%s..%s}(%s; %s)" % tuple(show(x) for x in a)
    if op == "lam":
        return "lam %s. %s" % (" ".join(show(x) for x in a[0]), show(a[1]))
    if op == "not":
        x = a[0]
        if x.op == "lt0":
            return show(x.args[0]) + ">=0"
        if x.op == "eq0":
            return show(x.args[0]) + "!=0"
        return "!(%s)" % show(x)
    if op == "lt0":
        return show(a[0]) + "<0"
    if op == "eq0":
        return show(a[0]) + "=0"
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(show(x) for x in a) + ")"
    return "%s(%s)" % (op, ",".join(show(x) for x in a))
