"""C22: a pass over the working set takes exact proximal gradient steps."""
from spec import *
import loops
import solverspec as sv


@cases([(k, a) for k in ("single", "multi") for a in ("accelerated", "plain")])
def passes(w, kind, accel):
    pb = sv.Problem(w, kind == "multi", accel=accel == "accelerated")
    ps = sv.Passes(pb)
    r = pb.solve()
    top = ps.stack[0].passes
    if len(top) != 1 or ps.npasses != 1 or len(ps.loops) != 2 or any(n is POSINF for n in ps.loops):
        raise Unsupported("the passes of the solver were not recognised")
    epochs, outer = ps.loops
    w.goal("at most max_epochs passes in an outer iteration", le(epochs, pb.set["max_epochs"].t))
    w.goal("at most max_iterations outer iterations", le(outer, pb.set["max_iterations"].t))
    w.eqgoal("the solve starts at zero", top[0][0], pb.zeros()[1])
    w.eqgoal("the solve returns the weights of the last pass", r, top[0][1])
