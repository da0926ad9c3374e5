"""C11: the linear-system helper only returns true solutions.

v and u stand for arbitrary vectors (ghost): elimination keeps
   A v = b      if and only if   S v = s     (S the left block of the working array, s its last column)
   A u = 0      if and only if   S u = 0
and makes S upper triangular. When every diagonal entry ends up non-zero, S is diagonal
and the returned x solves S x = s, hence A x = b (v := x). When one is zero, S is upper
triangular with a zero on the diagonal, so S u = 0 for some u != 0, hence A u = 0."""
from spec import *
import loops
import elim

V = lambda j: app("v", (j,), R)
UU = lambda j: app("u", (j,), R)
A0 = lambda i, j: app("A", (i, j), R)


def rows(N, at, vec, rhs):
    i = fresh("i", tm.I)
    return mkforall(i, ZERO, N, eq(S(ZERO, N, lambda j: mul(at(i, j), vec(j))), rhs(i)))


def below(c, N, at):
    """column c is zero below the diagonal"""
    r = fresh("r", tm.I)
    return mkforall(r, add(c, ONE), N, eq(at(r, c), ZERO))


def upper(N, at, upto=None):
    c = fresh("c", tm.I)
    return mkforall(c, ZERO, N if upto is None else upto, below(c, N, at))


class Sys:
    def __init__(self, w):
        self.w = w
        self.N = w.size("N")
        self.A, self.b = w.arr("A", [self.N, self.N]), w.arr("b", [self.N])
        N = self.N
        self.sol = rows(N, A0, V, lambda i: app("b", (i,), R))
        self.ker = rows(N, A0, UU, lambda i: ZERO)

    def working(self, I_, heap0, okeys):
        out = []
        for q in okeys:
            try:
                v = loops.getp(heap0[q[0]], q[1])
            except Exception:
                continue
            if isinstance(v, Seq) and isinstance(v.elem, Num) and len(v.dims) == 2 and v.dims[0] is self.N \
                    and v.dims[1] is add(self.N, ONE):
                out.append(q)
        return out

    def templates(self, I_, heap0, okeys):
        N = self.N
        out = []
        for q in self.working(I_, heap0, okeys):
            at = lambda h: (lambda i, j: self.w.t(loops.getp(h[q[0]], q[1]).at(i, j)))
            sol = lambda h: rows(N, at(h), V, lambda i: at(h)(i, N))
            ker = lambda h: rows(N, at(h), UU, lambda i: ZERO)
            out.append(loops.Inv("solutions kept", step=lambda h0, h1: imp(sol(h0), sol(h1)), elim=True, late=True))
            out.append(loops.Inv("no new solutions", step=lambda h0, h1: imp(sol(h1), sol(h0)), elim=True, late=True))
            out.append(loops.Inv("no new kernel", step=lambda h0, h1: imp(ker(h1), ker(h0)), elim=True, late=True))
            out.append(loops.Inv("upper triangular", pred=lambda h: upper(N, at(h)), elim=True))
            def left(h, k):
                return upper(N, at(h), k)
            out.append(loops.Inv("columns cleared", kpred=left, elim=True))
            def right(h, k):
                c, r = fresh("c", tm.I), fresh("r", tm.I)
                a = at(h)
                return mkforall(c, sub(N, k), N, mkor(eq(a(c, c), ZERO), mkforall(r, ZERO, c, eq(a(r, c), ZERO))))
            out.append(loops.Inv("columns cleared above", kpred=right))
        return out


@case()
def solution(w):
    s = Sys(w)
    N = s.N
    w.I.inv_templates = s.templates
    ca, cb = w.cell(s.A), w.cell(s.b)
    r = w.free("solve_lin_sys", w.rv(ca), w.rv(cb))
    w.eqgoal("the matrix is untouched", w.rv(ca), s.A)
    w.eqgoal("the right-hand side is untouched", w.rv(cb), s.b)
    i, j = fresh("i", tm.I), fresh("j", tm.I)
    names = []
    facts0 = list(w.I.ctx.facts)
    for c, x in payload(w, r, "Ok"):
        x = w.rv(x)
        w.I.ctx.facts = list(facts0)
        w.I.assume(c)
        w.goal("one value per unknown", eq(x.dims[0], N))
        for f in sorted(w.t(x.at(i)).funs):
            if f not in ("A", "b", "v", "u") and f not in names:
                names.append(f)
        isx = mkforall(i, ZERO, N, eq(V(i), w.t(x.at(i))))
        w.I.assume(isx)
        for f in names:
            at = lambda a, b: app(f, (a, b), R)
            off = mkforall(i, ZERO, N, mkforall(j, ZERO, N, mkor(eq(i, j), eq(at(i, j), ZERO))))
            step(w, "off the diagonal", off)
            z = mul(V(j), at(i, j), sub(ONE, iv(eq(i, j))))
            step(w, "the other terms", mkforall(i, ZERO, N, mkforall(j, ZERO, N, eq(z, ZERO))))
            # a sum of zeros
            w.I.assume(mkforall(i, ZERO, N, eq(S(ZERO, N, lambda q: subst(z, {j: q})), ZERO)))
            kept = w.I.ctx.facts
            w.I.ctx.facts = [f for f in kept if plain(f) or f in kept[-2:] or f is isx]
            step(w, "S x = s", rows(N, at, V, lambda q: at(q, N)))
            w.I.ctx.facts = kept + w.I.ctx.facts[-1:]
        w.I.ctx.facts = [f for f in w.I.ctx.facts if elim.has_sum(f)]
        w.I.ctx.facts = elim.units(w.I.ctx.facts) + w.I.ctx.facts
        w.goal("A x = b", s.sol)
    err = is_variant(w, r, "Err")
    w.I.ctx.facts = list(facts0)
    w.I.assume(err)
    for f in names:
        at = lambda a, b: app(f, (a, b), R)
        w.goal("S upper triangular", upper(N, at))
        w.goal("a zero on the diagonal", mknot(mkforall(i, ZERO, N, mknot(eq(at(i, i), ZERO)))))
        w.goal("S u = 0 gives A u = 0", imp(rows(N, at, UU, lambda q: ZERO), s.ker))
    if not names:
        w.goal("the returned values come from the eliminated system", FALSE)


def plain(f):
    return not elim.has_sum(f) and not any(x.op == "forall" and x.args[3].op == "forall" for x in tm.subterms(f))


def step(w, name, g):
    """proved once, then used"""
    w.goal(name, g)
    w.I.assume(g)
