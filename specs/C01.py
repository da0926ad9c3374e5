"""C01: the proximal operators return global minimisers."""
from spec import *


def one(x):
    i = fresh("i", tm.I)
    return Seq([ONE], (i,), Num(x, "f"))


@cases(SPEN)
def single(w, cls, ps):
    P, vs = penalty(w, cls, ps)
    s = w.real("s", 0, strict=True)
    if cls == "MCP":
        w.I.assume(lt(s, vs[1]))
    x, z = var("x", R), var("z", R)
    q = w.t(w.method("prox", P, w.F(x), w.F(s)))
    obj = lambda z: add(scale(sq(sub(z, x)), half), mul(s, w.t(w.method("value", P, one(z)))))
    w.goal("prox(x) minimises (z-x)^2/2 + step*value(z)", le(obj(q), obj(z)))


@cases(BPEN)
def block(w, cls, ps):
    T = w.size("T")
    w.lemma(lemmas.cauchy_schwarz)
    P, vs = penalty(w, cls, ps)
    s = w.real("s", 0, strict=True)
    if cls == "BlockMCP":
        w.I.assume(lt(s, vs[1]))
    x, z = w.arr("x", [T]), w.arr("z", [T])
    q = w.rv(w.method("prox", P, x, w.F(s)))
    w.goal("result has one entry per task", eq(q.dims[0], T))
    row = lambda a: lam2(ONE, T, lambda i, t: w.t(a.at(t)))
    obj = lambda a: add(scale(S(ZERO, T, lambda t: sq(sub(w.t(a.at(t)), w.el("x", t)))), half),
                        mul(s, w.t(w.method("value", P, row(a)))))
    w.goal("prox(x) minimises |z-x|^2/2 + step*value(z)", le(obj(q), obj(z)))
