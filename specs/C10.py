"""C10: acceleration replaces the iterate only by a better affine combination."""
from spec import *
from solverspec import Step


@cases([(k, s) for k in ("single", "multi") for s in ("dense", "sparse")])
def step(w, kind, s):
    st = Step(w, kind, s == "sparse")
    pb = st.pb
    out = st.run()
    K, m, T = st.K, st.m, pb.T
    w1, fit1, last1 = out["w"], out["fit"], out["last"]
    slot = imod(st.epoch, add(K, ONE))
    # the current iterate is recorded in its slot
    b = w.index("b", m)
    k = w.index("k", add(K, ONE))
    t = w.index("t", T)
    col = add(mul(b, T), t) if pb.multi else b
    old = w.t(st.w0.at(st.at(b), t)) if pb.multi else w.t(st.w0.at(st.at(b)))
    w.goal("recorded", eq(w.t(last1.at(k, col)), ite(eq(k, slot), old, w.t(st.last0.at(k, col)))))
    # outcome
    same = st.same(out)
    full = eq(slot, K)
    w.goal("unchanged unless a window is complete", mkor(full, same))
    w.goal("changed only for a better objective", st.better(out))
    w.goal("model fit = X * weights", w.veq(fit1, pb.fit_of(w1)))
    if st.sol is None:
        raise Unsupported("no extrapolation system is solved")
    ok, z = None, None
    for c, e in st.sol.alts:
        if e.name == "Ok":
            ok, z = c, e.args[0]
    w.goal("unchanged when the system is singular", mkor(ok, same))
    tot = S(ZERO, K, lambda i: w.t(z.at(i)))
    c = lambda i: mul(w.t(z.at(i)), inv(tot))
    w.goal("affine", imp(mkand(full, ok), eq(S(ZERO, K, c), ONE)))
    # a feature j outside the working set is zero, or no entry (j2, t2) changed
    j, j2, t2 = w.index("j", pb.p), w.index("j2", pb.p), w.index("t2", T)
    q = fresh("q", tm.I)
    outside = mkforall(q, ZERO, m, mknot(eq(st.at(q), j)))
    entry = lambda a, x, y: w.t(a.at(x, y)) if pb.multi else w.t(a.at(x))
    w.goal("zero outside the working set", imp(outside, mkor(eq(entry(w1, j, t), ZERO), eq(entry(w1, j2, t2), entry(st.w0, j2, t2)))))
    comb = lambda o: S(ZERO, K, lambda i: mul(c(i), w.t(last1.at(add(i, o), col))))
    new_b = w.t(w1.at(st.at(b), t)) if pb.multi else w.t(w1.at(st.at(b)))
    w.goal("affine combination of the stored iterates", mkor(same, eq(new_b, comb(ZERO)), eq(new_b, comb(ONE))))
