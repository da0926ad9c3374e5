"""C02: optimality violation = distance of -gradient to the subdifferential."""
from spec import *

NEGINF_ = tm.NEGINF


def kink(cls, vs):
    """half-width of the subdifferential at zero"""
    return mul(vs[0], vs[1]) if cls in ("L1PlusL2", "BlockL1PlusL2") else vs[0]


def dphi(cls, vs, a):
    """derivative of the documented penalty at size a > 0"""
    if cls in ("L1", "L21"):
        return vs[0]
    if cls in ("L1PlusL2", "BlockL1PlusL2"):
        return mul(vs[0], add(vs[1], mul(sub(ONE, vs[1]), a)))
    al, ga = vs
    return ite(le(a, mul(al, ga)), sub(al, mul(a, inv(ga))), ZERO)


def check(w, r, m, dist):
    r = w.rv(r)
    d, mx_ = w.rv(r.items[0]), r.items[1]
    w.goal("one distance per listed feature", eq(d.dims[0], m))
    k = w.index("k", m)
    w.goal("distance of -gradient to the subdifferential", eq(w.t(d.at(k)), dist(k)))
    v = fresh("v", tm.I)
    if dist(v) is ZERO:
        w.goal("maximum of the distances", eq(w.t(mx_), ZERO))
    else:
        w.goal("maximum of the distances", eq(w.t(mx_), bigmax(v, ZERO, m, dist(v), NEGINF_)))


@cases(SPEN)
def single(w, cls, ps):
    p, m = w.size("p"), w.size("m", 0)
    P, vs = penalty(w, cls, ps)
    W, g, ws = w.arr("w", [p]), w.arr("g", [m]), w.index_array("ws", m, p, distinct=False)

    def dist(k):
        if cls == "L05":
            return ZERO
        x = app("w", (app("ws", (k,), tm.I),), R)
        gk = w.el("g", k)
        sgn = ite(lt(ZERO, x), ONE, num(-1))
        return ite(eq(x, ZERO), mx(ZERO, sub(absv(gk), kink(cls, vs))), absv(add(gk, mul(sgn, dphi(cls, vs, absv(x))))))
    check(w, w.method("subdiff_distance", P, W, g, ws), m, dist)


@cases(BPEN)
def block(w, cls, ps):
    p, m, T = w.size("p"), w.size("m", 0), w.size("T", 1)
    w.lemma(lemmas.cauchy_schwarz)
    P, vs = penalty(w, cls, ps)
    W, g, ws = w.arr("W", [p, T]), w.arr("G", [m, T]), w.index_array("ws", m, p, distinct=False)

    def dist(k):
        x = lambda t: app("W", (app("ws", (k,), tm.I), t), R)
        N = sqrt(S(ZERO, T, lambda t: sq(x(t))))
        gn = sqrt(S(ZERO, T, lambda t: sq(w.el("G", k, t))))
        v = fresh("z", tm.I)
        zero = mkforall(v, ZERO, T, eq(x(v), ZERO))
        coef = mul(dphi(cls, vs, N), inv(N))
        return ite(zero, mx(ZERO, sub(gn, kink(cls, vs))), sqrt(S(ZERO, T, lambda t: sq(add(w.el("G", k, t), mul(coef, x(t)))))))
    check(w, w.method("subdiff_distance", P, W, g, ws), m, dist)
