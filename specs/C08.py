"""C08: stopping before the budget is spent certifies optimality."""
from spec import *
import loops
import solverspec as sv


@cases([(k, a) for k in ("single", "multi") for a in ("accelerated", "plain")])
def certificate(w, kind, accel):
    pb = sv.Problem(w, kind == "multi", accel=accel == "accelerated")
    r = pb.solve()
    outer = [l for l in w.I.ghost.get("loops", []) if l["n"] is pb.set["max_iterations"].t]
    if len(outer) != 1:
        raise Unsupported("the loop over the outer iterations was not recognised")
    early = outer[0]["break"]
    j = w.index("j", pb.p)
    fit = pb.fit_of(r)
    if pb.multi:
        t = fresh("t", tm.I)
        g = lam((t,), app("G", (sv.seqlam(w, fit), j, t), R))
        row = lam((t,), w.t(r.at(j, t)))
    else:
        g = app("G", (sv.seqlam(w, fit), j), R)
        row = w.t(r.at(j))
    w.goal("violation of feature j at most the tolerance", imp(early, le(app("sd", (row, g), R), pb.set["tolerance"].t)))
