"""C07: solving never increases the objective."""
from spec import *
import loops
import solverspec as sv


@cases([(k, a) for k in ("single", "multi") for a in ("accelerated", "plain")])
def solve(w, kind, accel):
    """coefficients returned by the solver against the zero coefficients"""
    pb = sv.Problem(w, kind == "multi", accel=accel == "accelerated", objective=True)
    r = pb.solve()
    z = pb.zeros()
    w.goal("shape", mkand(*[eq(a, b) for a, b in zip(r.dims, z[1].dims)]))
    w.le("objective of the result <= objective of zero", pb.obj(pb.fit_of(r), r), pb.obj(*z))


@cases([(k, s) for k in ("single", "multi") for s in ("dense", "sparse")])
def acceleration(w, kind, s):
    """one acceleration step on arbitrary stored iterates"""
    st = sv.Step(w, kind, s == "sparse")
    out = st.run()
    w.goal("unchanged or a smaller objective", st.better(out))
