"""Building symbolic inputs and running functions of the code under contract."""
from fractions import Fraction
import time
from term import *
import term as tm
from values import *
import interp as ip
from interp import Interp, Unsupported, Escape
from prover import Ctx, Prover, STATS, smt
from program import Program


class World:
    """one symbolic execution session: symbolic sizes, arrays and settings"""

    def __init__(self, prog):
        self.prog = prog
        self.I = Interp(prog)
        tm.CSC.clear()
        tm.INJECTIVE.clear()
        self.arrays = {}

    # -- sizes and scalars
    def size(self, name, lo=1):
        v = var(name, tm.I)
        self.I.assume(le(num(lo), v))
        return v

    def real(self, name, lo=None, hi=None, strict=False):
        v = var(name, R)
        if lo is not None:
            self.I.assume(lt(num(lo), v) if strict else le(num(lo), v))
        if hi is not None:
            self.I.assume(le(v, num(hi)))
        return v

    def F(self, t):
        return Num(t, "f")

    def U(self, t):
        return Num(t, "u")

    # -- arrays
    def arr(self, name, dims, kind="f", tag="arr"):
        vs = tuple(fresh("i", tm.I) for _ in dims)
        srt = R if kind == "f" else tm.I
        return Seq(list(dims), vs, Num(app(name, vs, srt), kind), tag)

    def el(self, name, *idx):
        return app(name, idx, R)

    def index_array(self, name, m, p, distinct=True):
        """a list of m distinct feature indices below p"""
        a = self.arr(name, [m], "u")
        i, j = fresh("i", tm.I), fresh("j", tm.I)
        w = lambda t: app(name, (t,), tm.I)
        self.I.assume(mkforall(i, ZERO, m, mkand(le(ZERO, w(i)), lt(w(i), p))))
        if distinct:
            tm.INJECTIVE.add(name)
            self.I.assume(mkforall(i, ZERO, m, mkforall(j, ZERO, m, mkor(eq(i, j), mknot(eq(w(i), w(j)))))))
        return a

    def csc(self, n, p, X="X", tagname=""):
        """a well-formed CSC matrix without duplicate entries in a column; X(i,j)
        names the entry it represents"""
        d, ix, ip_ = "data" + tagname, "indices" + tagname, "indptr" + tagname
        nnz = var("nnz" + tagname, tm.I)
        I_ = self.I
        I_.assume(le(ZERO, nnz))
        P = lambda t: app(ip_, (t,), tm.I)
        IX = lambda t: app(ix, (t,), tm.I)
        tm.CSC[ip_] = {"data": d, "indices": ix, "X": X, "n": n}
        i, j = fresh("i", tm.I), fresh("j", tm.I)
        I_.assume(mkforall(i, ZERO, add(p, ONE), mkand(le(ZERO, P(i)), le(P(i), nnz))))
        I_.assume(mkforall(i, ZERO, p, le(P(i), P(add(i, ONE)))))
        I_.assume(eq(P(ZERO), ZERO))
        I_.assume(eq(P(p), nnz))
        I_.assume(mkforall(i, ZERO, nnz, mkand(le(ZERO, IX(i)), lt(IX(i), n))))
        data = self.arr(d, [nnz])
        indices = self.arr(ix, [nnz], "i")
        indptr = self.arr(ip_, [add(p, ONE)], "i")
        return self.new("CSCArray", data, indices, indptr)

    # -- calls
    def new(self, tname, *args, ctor="new"):
        r = self.I.assoc(tname, ctor, list(args))
        if r is NotImplemented:
            raise Unsupported("no constructor %s::%s" % (tname, ctor))
        return r

    def dataset(self, X, y):
        self.I.design = X
        return self.new("DatasetBase", X, y)

    def cell(self, v):
        c = self.I.alloc(v)
        return Ref(c, ())

    def method(self, name, recv, *args):
        """call a method of the code by name; recv may be a Ref for &mut self"""
        I_ = self.I
        a = [recv] + list(args)
        fn = I_.find_method(name, a)
        if fn is None:
            raise Unsupported("no method " + name)
        sp = fn.ast["ps"][0]
        if not (sp.get("ref") and sp.get("mut")):
            a[0] = I_.rv(a[0])
        return I_.call_fn(fn, a)

    def free(self, name, *args, hint=None):
        fn = self.prog.free(name, hint=hint)
        if fn is None:
            raise Unsupported("no function " + name)
        return self.I.call_fn(fn, list(args))

    def free_assoc(self, tname, fn, *args):
        r = self.I.assoc(tname, fn, list(args))
        if r is NotImplemented:
            raise Unsupported("no function %s::%s" % (tname, fn))
        return r

    def ref_method(self, name, recv, *args):
        """the implementation of a trait method for references, called on &recv"""
        c = []
        for fn in self.prog.methods.get(name, []):
            if fn.impl["self"]["k"] == "ref" and len(fn.ast["ps"]) == len(args) + 1:
                c.append(fn)
        if len(c) != 1:
            raise Unsupported("%d reference implementations of %s" % (len(c), name))
        return self.I.call_fn(c[0], [self.I.rv(recv)] + list(args))

    def rv(self, v):
        return self.I.rv(v)

    def t(self, v):
        return self.I.num(v)

    # -- proving
    def prover(self, timeout=6000):
        P = Prover(self.I.ctx, timeout)
        P.lemmas = list(getattr(self.I, "lemmas", []))
        return P

    def veq(self, a, b):
        return self.I.veq(a, b)
