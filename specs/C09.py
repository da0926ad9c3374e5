"""C09: working sets contain the support and the worst violators."""
from spec import *
import natives


def count_lemma(w, n, cond, m):
    """counting lemma for every permutation P of 0..n that the code produced: if
    cond(P(a)) for all a < m <= n then at least m indices satisfy cond"""
    out = []
    tot = S(ZERO, n, lambda j: iv(cond(j)))
    for pn, d in natives.PERMS.items():
        if d["n"] is not n:
            continue
        for q in m(d["inv"]):
            a = fresh("a", tm.I)
            w.I.assume(mkor(lt(n, q), lt(q, ZERO), mknot(mkforall(a, ZERO, q, cond(app(pn, (a,), tm.I)))), le(q, tot)))
    return tot


@cases([("anderson_cd", False), ("anderson_bcd", True)])
def working_set(w, hint, multi):
    natives.PERMS.clear()
    p, T = w.size("p"), w.size("T")
    kkt = w.arr("kkt", [p])
    W_ = w.arr("W", [p, T]) if multi else w.arr("w", [p])
    i = fresh("i", tm.I)
    K = lambda t: app("kkt", (t,), R)
    w.I.assume(mkforall(i, ZERO, p, mkand(le(ZERO, K(i)), lt(K(i), tm.POSINF))))
    start = var("start", tm.I)
    w.I.assume(le(ONE, start))
    w.I.assume(le(start, p))
    tt = fresh("t", tm.I)
    nz = (lambda j: mkexists(tt, ZERO, T, mknot(eq(app("W", (j, tt), R), ZERO)))) if multi \
        else (lambda j: mknot(eq(app("w", (j,), R), ZERO)))
    cell = w.cell(kkt)
    r = w.rv(w.free("construct_ws_from_kkt", cell, W_, w.U(start), hint=hint))
    ws, size = r.items[0], w.t(r.items[1])
    j = w.index("j", p)
    tot = count_lemma(w, p, nz, lambda inv: [add(app(inv, (j,), tm.I), ONE)])
    w.I.assume(le(tot, p))       # a count of indices below p
    w.I.assume(le(ZERO, tot))
    want = mx(start, mn(scale(tot, 2), p))
    w.goal("size = max(start, min(2 * support, p))", eq(size, want))
    w.goal("length", eq(ws.dims[0], size))
    a, b = w.index("a", size), w.index("b", size)
    at = lambda x: w.t(ws.at(x))
    w.goal("valid features", mkand(le(ZERO, at(a)), lt(at(a), p)))
    w.goal("distinct features", mkor(eq(a, b), mknot(eq(at(a), at(b)))))
    c = fresh("c", tm.I)
    inside = lambda f: mkexists(c, ZERO, size, eq(at(c), f))
    w.goal("every non-zero feature is taken", imp(nz(j), inside(j)))
    w.goal("left out only if no worse than every zero feature taken",
           mkor(inside(j), nz(at(a)), le(K(j), K(at(a)))))
