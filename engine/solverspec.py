"""The solvers under contract: the datafit and the penalty are known only by
their contracts (established by C01-C04, C16), everything else is the real code.

 value(Xw)        f(Xw)                    an arbitrary function of the model fit
 gradient_j(Xw,j) G(Xw, j)                 with f(Xw + d X_j) <= f(Xw) + d G(Xw,j) + L_j d^2 / 2   (C03, C04)
 step_size()      L, L_j >= 0                                                                      (C04)
 value(w)         sum_j pen(w_j)           separable over features / rows                          (C16)
 prox(x, s)       s > 0; a minimiser over z of (z - x)^2 / 2 + s pen(z)                            (C01)
 subdiff_distance (sd(w_j, g_j))_j and an upper bound of them that is attained                     (C02)
"""
from spec import *
import loops
import natives
import term
import prover as pv

term.ROWFUN.update(("pen", "prox", "sd", "proxrow", "f", "G"))


def seqlam(w, s):
    """the array as an argument of a function"""
    vs = tuple(fresh("l", tm.I) for _ in s.dims)
    return lam(vs, w.t(s.at(*vs)))


class Problem:
    def __init__(self, w, multi, sparse=False, strict_init=False, accel=None, objective=False):
        self.w, self.multi = w, multi
        I_ = w.I
        natives.PERMS.clear()
        self.n, self.p, self.T = w.size("n"), w.size("p"), w.size("T")
        n, p, T = self.n, self.p, self.T
        self.X = design(w, n, p, sparse)
        self.y = w.arr("Y", [n, T]) if multi else w.arr("y", [n])
        self.ds = w.dataset(self.X, self.y)
        self.ds_cell = w.cell(self.ds)
        self.flags = {"init": w.cell(Bool(FALSE if strict_init else var("was_initialised", B)))}
        if not strict_init:
            self.setflag(I_, "init", Bool(TRUE))
        self.events = []         # (kind, data, facts) of the non-silent contract calls
        self.on_fit = None       # callback(interp, array) on every model fit handed to the datafit
        L = lambda j: app("L", (j,), R)
        j = fresh("j", tm.I)
        I_.assume(mkforall(j, ZERO, p, le(ZERO, L(j))))
        self.datafit = Abs("datafit", {"initialize": self.m_init, "value": self.m_value, "gradient_j": self.m_grad,
                                       "full_grad": self.m_full, "step_size": self.m_step})
        self.penalty = Abs("penalty", {"value": self.m_pvalue, "prox": self.m_prox, "subdiff_distance": self.m_sd})
        self.df_cell = w.cell(self.datafit)
        self.hint = "anderson_bcd" if multi else "anderson_cd"
        self.set = {}
        self.with_accel = accel
        self.on_grad = self.on_prox = None
        self.objective = objective
        w.lemma(self.lemma_descent, self.lemma_prox, self.lemma_rows)

    # ---------------------------------------------------------------- flags
    def setflag(self, I_, k, v):
        I_.heap[self.flags[k].cell] = v

    def flag(self, k):
        return self.w.rv(self.flags[k]).t

    # ---------------------------------------------------------------- contracts of the datafit
    def the_dataset(self, I_, a):
        I_.oblige("contract:dataset", I_.veq(I_.rv(a), self.ds), "the datafit is used on the dataset of the solve")

    def initialised(self, I_):
        I_.oblige("contract:initialised", self.flag("init"), "the datafit is initialised before it is used")

    def m_init(self, I_, recv, args):
        self.the_dataset(I_, args[0])
        self.setflag(I_, "init", Bool(TRUE))
        return UNIT

    def fit_arg(self, I_, a):
        a = I_.rv(a)
        want = [self.n, self.T] if self.multi else [self.n]
        if not isinstance(a, Seq) or len(a.dims) != len(want):
            raise Unsupported("model fit of an unexpected kind")
        for d, e in zip(a.dims, want):
            I_.oblige("shape", eq(d, e), "shape of the model fit")
        if self.on_fit:
            self.on_fit(I_, a)
        return seqlam(self.w, a)

    def m_value(self, I_, recv, args):
        self.initialised(I_)
        self.the_dataset(I_, args[0])
        return Num(app("f", (self.fit_arg(I_, args[1]),), R), "f")

    def m_grad(self, I_, recv, args):
        self.initialised(I_)
        self.the_dataset(I_, args[0])
        j = I_.num(args[2])
        I_.oblige("bounds", mkand(le(ZERO, j), lt(j, self.p)), "feature index")
        if self.on_grad and not I_.silent:
            self.on_grad(j)
        l = self.fit_arg(I_, args[1])
        if self.multi:
            t = fresh("t", tm.I)
            return Seq([self.T], (t,), Num(app("G", (l, j, t), R), "f"))
        return Num(app("G", (l, j), R), "f")

    def m_full(self, I_, recv, args):
        self.initialised(I_)
        self.the_dataset(I_, args[0])
        l = self.fit_arg(I_, args[1])
        j, t = fresh("j", tm.I), fresh("t", tm.I)
        if self.multi:
            return Seq([self.p, self.T], (j, t), Num(app("G", (l, j, t), R), "f"))
        return Seq([self.p], (j,), Num(app("G", (l, j), R), "f"))

    def m_step(self, I_, recv, args):
        self.initialised(I_)
        j = fresh("j", tm.I)
        return Seq([self.p], (j,), Num(app("L", (j,), R), "f"))

    # ---------------------------------------------------------------- contracts of the penalty
    def pen(self, s, j):
        """penalty of feature j of the weights"""
        if self.multi:
            t = fresh("t", tm.I)
            return app("pen", (lam((t,), self.w.t(s.at(j, t))),), R)
        return app("pen", (self.w.t(s.at(j)),), R)

    def weights(self, I_, a):
        a = I_.rv(a)
        want = [self.p, self.T] if self.multi else [self.p]
        if not isinstance(a, Seq) or len(a.dims) != len(want):
            raise Unsupported("weights of an unexpected kind")
        for d, e in zip(a.dims, want):
            I_.oblige("shape", eq(d, e), "shape of the weights")
        return a

    def m_pvalue(self, I_, recv, args):
        a = self.weights(I_, args[0])
        return Num(S(ZERO, self.p, lambda j: self.pen(a, j)), "f")

    def m_prox(self, I_, recv, args):
        s = I_.num(args[1])
        I_.oblige("contract:step", lt(ZERO, s), "step sizes are positive")
        if self.on_prox and not I_.silent:
            self.on_prox()
        x = I_.rv(args[0])
        if self.multi:
            if not isinstance(x, Seq) or len(x.dims) != 1:
                raise Unsupported("prox of an unexpected kind")
            I_.oblige("shape", eq(x.dims[0], self.T), "one row")
            t = fresh("t", tm.I)
            return Seq([self.T], (t,), Num(app("prox", (seqlam(self.w, x), s, t), R), "f"))
        return Num(app("prox", (I_.num(x), s), R), "f")

    def m_sd(self, I_, recv, args):
        a = self.weights(I_, args[0])
        g, ws = I_.rv(args[1]), I_.rv(args[2])
        m = ws.dims[0]
        I_.oblige("shape", eq(g.dims[0], m), "one gradient per listed feature")
        k = fresh("k", tm.I)
        idx = I_.num(ws.at(k))
        I_.oblige("bounds", mkforall(k, ZERO, m, mkand(le(ZERO, idx), lt(idx, self.p))), "listed features")
        e = self.sd(a, idx, g, k)
        M = app("sdmax", (lam((k,), e), m), R)
        I_.assume(mkforall(k, ZERO, m, mkand(le(ZERO, e), lt(e, tm.POSINF), le(e, M))))
        I_.assume(le(ZERO, M))
        I_.assume(lt(M, tm.POSINF))
        I_.assume(mkor(eq(M, ZERO), mkexists(k, ZERO, m, eq(e, M))))
        return Tup([Seq([m], (k,), Num(e, "f")), Num(M, "f")])

    def sd(self, a, j, g, k):
        if self.multi:
            t = fresh("t", tm.I)
            return app("sd", (lam((t,), self.w.t(a.at(j, t))), lam((t,), self.w.t(g.at(k, t)))), R)
        return app("sd", (self.w.t(a.at(j)), self.w.t(g.at(k))), R)

    # ---------------------------------------------------------------- derived quantities
    def fit_of(self, wts):
        """X w of a weights array, as an array"""
        w = self.w
        X = lambda i, j: app("X", (i, j), R)
        if self.multi:
            return lam2(self.n, self.T, lambda i, t: S(ZERO, self.p, lambda j: mul(X(i, j), w.t(wts.at(j, t)))))
        return lam1(self.n, lambda i: S(ZERO, self.p, lambda j: mul(X(i, j), w.t(wts.at(j)))))

    def obj(self, fit, wts):
        return add(app("f", (seqlam(self.w, fit),), R), S(ZERO, self.p, lambda j: self.pen(wts, j)))

    def zeros(self):
        i, t = fresh("i", tm.I), fresh("t", tm.I)
        z = Num(ZERO, "f")
        if self.multi:
            return Seq([self.n, self.T], (i, t), z), Seq([self.p, self.T], (i, t), z)
        return Seq([self.n], (i,), z), Seq([self.p], (i,), z)

    # ---------------------------------------------------------------- running
    def settings(self):
        w = self.w
        if not self.set:
            for q, k in COMMON:
                if q != "alpha":
                    self.set[q] = sym_setting(w, q, k)
            if self.with_accel is not None:
                self.set["use_acceleration"] = Bool(TRUE if self.with_accel else FALSE)
            w.I.assume(le(ONE, self.set["ws_start_size"].t))
            w.I.assume(le(ONE, self.set["K"].t))
            w.I.assume(le(ZERO, self.set["tolerance"].t))
        return self.set

    def solve(self):
        w = self.w
        s = self.settings()
        w.I.inv_templates = self.templates
        for nm in ("solve_lin_sys",):
            w.I.overrides.setdefault(nm, self.lin_sys)
        w.I.overrides.setdefault("anderson_accel", self.accel)
        name = "block_coordinate_descent" if self.multi else "coordinate_descent"
        r = w.free(name, w.rv(self.ds_cell), self.df_cell, self.penalty, *[s[q] for q in
                   ("ws_start_size", "max_iterations", "max_epochs", "tolerance", "K", "use_acceleration", "verbose")])
        return w.rv(r)

    # ---------------------------------------------------------------- contract of the linear solver (C11)
    def lin_sys(self, I_, fn, args):
        A, b_ = I_.rv(args[0]), I_.rv(args[1])
        I_.oblige("shape", mkand(eq(A.dims[0], A.dims[1]), eq(A.dims[0], b_.dims[0])), "a square system")
        I_.oblige("contract:unknowns", le(ONE, A.dims[0]), "at least one unknown")
        K = A.dims[0]
        la, lb = seqlam(self.w, A), seqlam(self.w, b_)
        if I_.discover:
            ok = app("solvable", (la, lb, K), B)
            z = lambda i: app("solution", (la, lb, K, i), R)
        else:
            # the system named by its integer parameters (loop effects are computed from the full term above)
            tm_, ints = pv.template(app("solution", (la, lb, K), R))
            ok = app("solvable#%d" % tm_.id, tuple(ints), B)
            z = lambda i: app("solution#%d" % tm_.id, tuple(ints) + (i,), R)
        i = fresh("i", tm.I)
        I_.assume(imp(ok, mkforall(i, ZERO, K, eq(S(ZERO, K, lambda j: mul(I_.num(A.at(i, j)), z(j))), I_.num(b_.at(i))))))
        # Gram lemma: A = U U^T, A z = 1  =>  sum z = |U^T z|^2 > 0
        if gram(I_, A) and I_.num(b_.at(i)) is ONE:
            I_.assume(imp(ok, lt(ZERO, S(ZERO, K, z))))
        I_.assumed[fn.qual] = "its contract (decided by C11): Ok(z) only with A z = b"
        return Mux([(ok, Enum("Ok", [lam1(K, z)], "Result")), (mknot(ok), Enum("Err", [Str("singular")], "Result"))])

    # ---------------------------------------------------------------- contract of the acceleration step (C10)
    def roles(self, I_, args):
        """which argument is what, by kind and shape; None when that is not clear"""
        out = {}
        tail = [self.T] if self.multi else []
        K = self.set["K"].t
        for a in args:
            v = I_.rv(a)
            if not isinstance(v, Seq) or not isinstance(v.elem, Num):
                continue
            d = list(v.dims)
            if v.elem.kind == "f" and d == [self.p] + tail:
                r = "w"
            elif v.elem.kind == "f" and d == [self.n] + tail:
                r = "fit"
            elif v.elem.kind == "u" and len(d) == 1:
                r = "ws"
            elif v.elem.kind == "f" and len(d) == 2 and d[0] is add(K, ONE):
                r = "last"
            elif v.elem.kind == "f" and len(d) == 2 and d[0] is K:
                r = "U"
            else:
                return None
            if r in out:
                return None
            out[r] = (a, v)
        if set(out) != {"w", "fit", "ws", "last", "U"} or not all(isinstance(out[r][0], Ref) for r in ("w", "fit", "last", "U")):
            return None
        return out

    def store(self, I_, ref, v):
        cell, path, _ = I_.resolve(ref.cell, ref.path)
        I_.write(cell, path, v)

    def accel(self, I_, fn, args):
        ro = self.roles(I_, args)
        if ro is None:
            return NotImplemented
        self.initialised(I_)
        w = self.w
        wts, fit, ws = ro["w"][1], ro["fit"][1], ro["ws"][1]
        m = ws.dims[0]
        a, b_ = fresh("a", tm.I), fresh("b", tm.I)
        at = lambda x: I_.num(ws.at(x))
        I_.oblige("contract:ws", mkforall(a, ZERO, m, mkand(le(ZERO, at(a)), lt(at(a), self.p))), "the working set holds features")
        I_.oblige("contract:ws", mkforall(a, ZERO, m, mkforall(b_, ZERO, m, mkor(eq(a, b_), mknot(eq(at(a), at(b_)))))),
                  "the working set holds distinct features")
        width = mul(m, self.T) if self.multi else m
        for r in ("last", "U"):
            I_.oblige("shape", eq(ro[r][1].dims[1], width), "shape of the stored iterates")
        if self.on_fit:
            self.on_fit(I_, fit)
        ints = [I_.rv(x) for x in args]
        ints = [x.t for x in ints if isinstance(x, Num)]
        key = tuple(seqlam(w, ro[r][1]) for r in ("w", "fit", "ws", "last", "U")) + tuple(ints)
        I_.oblige("contract:fit", I_.veq(fit, self.fit_of(wts)), "the model fit is X times the weights")
        new = lambda nm, dims: (lambda v: Seq(list(dims), v, Num(app("accel_" + nm, key + v, R), "f")))(
            tuple(fresh("j", tm.I) for _ in dims))
        w1 = new("w", wts.dims)
        fit1 = self.fit_of(w1)
        I_.assume(le(self.obj(fit1, w1), self.obj(fit, wts)))
        for r, v in (("w", w1), ("fit", fit1), ("last", new("last", ro["last"][1].dims)), ("U", new("U", ro["U"][1].dims))):
            self.store(I_, ro[r][0], v)
        if self.on_fit:
            self.on_fit(I_, fit1)
        I_.assumed[fn.qual] = "its contract (decided by C10)"
        return UNIT

    # ---------------------------------------------------------------- invariants
    def templates(self, I_, heap0, okeys):
        out = []
        cur = {}
        nd = 2 if self.multi else 1
        fits, wts = [], []
        keys = list(okeys)
        for q in keys:
            try:
                v = loops.getp(heap0[q[0]], q[1])
            except Exception:
                continue
            if isinstance(v, Seq) and isinstance(v.elem, Num) and v.elem.kind == "f" and len(v.dims) == nd:
                if v.dims[0] is self.n and (nd == 1 or v.dims[1] is self.T):
                    fits.append(q)
                if v.dims[0] is self.p and (nd == 1 or v.dims[1] is self.T):
                    wts.append(q)
        g = lambda h, q: loops.getp(h[q[0]], q[1])
        for a in fits:
            for b_ in wts:
                if a in okeys:
                    out.append(loops.Inv("fit=X*weights", a, (lambda h, b_=b_: self.fit_of(g(h, b_)))))
                if not self.objective:
                    continue
                out.append(loops.Inv("objective", step=(lambda h0, h1, a=a, b_=b_: le(self.obj(g(h1, a), g(h1, b_)),
                                                                                 self.obj(g(h0, a), g(h0, b_))))))
        return out

    # ---------------------------------------------------------------- lemma instances
    def lemma_descent(self, terms, ctx):
        atoms, gs = [], []
        seen = set()
        for t in terms:
            for x in subterms(t, seen):
                if x.op == "app" and x.args[0] == "f" and lemmas.closed(x) and x not in atoms:
                    atoms.append(x)
        atoms.sort(key=lambda x: x.id)
        out = []
        for a in atoms:
            for b_ in atoms:
                if a is not b_:
                    f = self.descent(a, b_)
                    if f is not None:
                        out.append(f)
        return out

    def descent(self, a, b_):
        """f(A) <= f(B) + <d, G(B,J)> + L_J |d|^2 / 2 when A - B = X_J d"""
        vs = tuple(fresh("i", tm.I) for _ in range(2 if self.multi else 1))
        i = vs[0]
        D = sub(lam_apply(a.args[1], vs), lam_apply(b_.args[1], vs))
        if D is ZERO:
            return None
        J, d = None, ZERO
        for m, c in pdict(D).items():
            xs = [(k, x) for k, (x, e) in enumerate(m) if x.op == "app" and x.args[0] == "X" and x.args[1] is i and e == 1]
            if len(xs) != 1:
                return None
            k, x = xs[0]
            if i in x.args[2].fv or (J is not None and x.args[2] is not J):
                return None
            J = x.args[2]
            rest = m[:k] + m[k + 1:]
            d = add(d, mkpoly({rest: c}))
        if i in d.fv:
            return None
        L = app("L", (J,), R)
        guard = mkand(le(ZERO, J), lt(J, self.p))
        if self.multi:
            t = vs[1]
            lin = S(ZERO, self.T, lambda u: mul(subst(d, {t: u}), app("G", (b_.args[1], J, u), R)))
            quad = S(ZERO, self.T, lambda u: sq(subst(d, {t: u})))
        else:
            lin, quad = mul(d, app("G", (b_.args[1], J), R)), sq(d)
        return imp(guard, le(a, add(b_, lin, scale(mul(L, quad), half))))

    def lemma_rows(self, terms, ctx):
        """the penalty of a row depends on its T entries only"""
        if not self.multi:
            return []
        pens = []
        seen = set()
        for t in terms:
            for x in subterms(t, seen):
                if x.op == "app" and x.args[0] == "pen" and lemmas.closed(x) and x not in pens:
                    pens.append(x)
        pens.sort(key=lambda x: x.id)
        out = []
        if len(pens) <= 8:
            for n, a in enumerate(pens):
                for b_ in pens[:n]:
                    t = fresh("t", tm.I)
                    out.append(mkor(mknot(mkforall(t, ZERO, self.T, eq(lam_apply(a.args[1], (t,)), lam_apply(b_.args[1], (t,))))), eq(a, b_)))
        return out

    def lemma_prox(self, terms, ctx):
        """optimality of the proximal point against the penalised points that occur"""
        pro, pens = [], []
        seen = set()
        for t in terms:
            for x in subterms(t, seen):
                if x.op == "app" and x.args[0] == "prox" and (self.multi or lemmas.closed(x)):
                    k = x.args[1:3]
                    if all(lemmas.closed(y) for y in k) and k not in pro:
                        pro.append(k)
                if x.op == "app" and x.args[0] == "pen" and lemmas.closed(x) and x not in pens:
                    pens.append(x)
        pro.sort(key=lambda k: k[0].id)
        pens.sort(key=lambda x: x.id)
        out = []
        for x, s in pro:
            for q in pens:
                v = q.args[1]
                if self.multi:
                    t = fresh("t", tm.I)
                    z = lambda u: app("prox", (x, s, u), R)
                    zp = app("pen", (lam((t,), z(t)),), R)
                    if zp is q:
                        continue
                    dist = S(ZERO, self.T, lambda u: sub(sq(sub(z(u), lam_apply(x, (u,)))), sq(sub(lam_apply(v, (u,)), lam_apply(x, (u,))))))
                else:
                    z = app("prox", (x, s), R)
                    zp = app("pen", (z,), R)
                    if zp is q:
                        continue
                    dist = sub(sq(sub(z, x)), sq(sub(v, x)))
                out.append(imp(lt(ZERO, s), le(add(scale(mul(inv(s), dist), half), zp), q)))
        return out


def gram(I_, A):
    """is the matrix of the form U U^T, for an array U held by the program?"""
    i, j = fresh("i", tm.I), fresh("j", tm.I)
    t = I_.num(A.at(i, j))
    for V in sequences(I_):
        if V.dims[0] is A.dims[0]:
            b = fresh("b", tm.I)
            s = mksum(b, ZERO, V.dims[1], mul(I_.num(V.at(i, b)), I_.num(V.at(j, b))))
            if sub(t, s) is ZERO:
                return True
    return False


def sequences(I_):
    """the two-dimensional arrays of numbers on the heap"""
    out, todo = [], list(I_.heap.values())
    while todo:
        v = todo.pop()
        if isinstance(v, Seq):
            if len(v.dims) == 2 and isinstance(v.elem, Num):
                out.append(v)
        elif isinstance(v, Tup):
            todo += list(v.items)
        elif isinstance(v, Struct):
            todo += list(v.fields.values())
    return out


class Step:
    """one call of the acceleration step on arbitrary stored iterates"""

    def __init__(self, w, kind, sparse):
        self.w = w
        pb = self.pb = Problem(w, kind == "multi", sparse=sparse)
        s = pb.settings()
        self.multi, n, p, T = pb.multi, pb.n, pb.p, pb.T
        self.K = K = s["K"].t
        self.m = m = w.size("m", 0)
        self.ws = w.index_array("ws", m, p)
        self.at = lambda b: app("ws", (b,), tm.I)
        w.I.assume(le(m, p))
        self.width = mul(m, T) if self.multi else m
        self.w0 = w.arr("w", [p, T]) if self.multi else w.arr("w", [p])
        self.last0 = w.arr("last", [add(K, ONE), self.width])
        self.U0 = w.arr("U", [K, self.width])
        self.epoch = var("epoch", tm.I)
        w.I.assume(le(ZERO, self.epoch))
        self.fit0 = pb.fit_of(self.w0)
        w.I.overrides["solve_lin_sys"] = self.lin_sys
        self.sol = None

    def lin_sys(self, I_, fn, args):
        r = self.pb.lin_sys(I_, fn, args)
        if not I_.silent:
            self.sol = r
        return r

    def run(self):
        w, pb = self.w, self.pb
        cells = {k: w.cell(v) for k, v in (("w", self.w0), ("fit", self.fit0), ("last", self.last0), ("U", self.U0))}
        args = self.arguments(cells)
        w.free("anderson_accel", *args, hint=pb.hint)
        return {k: w.rv(c) for k, c in cells.items()}

    def arguments(self, cells):
        """in the order of the declaration, told apart by type and name"""
        w, pb = self.w, self.pb
        fn = w.prog.free("anderson_accel", hint=pb.hint)
        named = {"dataset": w.rv(pb.ds_cell), "datafit": pb.datafit, "penalty": pb.penalty, "ws": self.ws,
                 "epoch": w.U(self.epoch), "k": w.U(self.K), "verbose": pb.set["verbose"], "u": cells["U"],
                 "w": cells["w"], "xw": cells["fit"], "last_k_w": cells["last"]}
        out = []
        for p in fn.ast["ps"]:
            n = (p["pat"].get("n") or "").lower()
            if n not in named:
                raise Unsupported("parameter %s of the acceleration step" % n)
            out.append(named[n])
        return out

    def same(self, out):
        w = self.w
        return mkand(w.veq(out["w"], self.w0), w.veq(out["fit"], self.fit0))

    def better(self, out):
        """goal: nothing changed, or the objective decreased"""
        pb = self.pb
        return mkor(self.same(out), lt(pb.obj(out["fit"], out["w"]), pb.obj(self.fit0, self.w0)))


class Passes:
    """what the solver does to the weights: told about every iteration of every loop.
    The innermost loop that takes proximal steps is a pass; every loop around it must
    run it once per iteration and leave the weights as the pass left them."""

    def __init__(self, pb):
        self.pb, self.w = pb, pb.w
        self.stack = [Visit()]
        self.npasses = 0
        self.loops = []
        pb.on_grad = lambda j: self.stack[-1].grads.append(j)
        pb.on_prox = lambda: self.stack[-1].steps.append(1)
        pb.w.I.watch = self
        self.ws = None
        pb.w.I.overrides["construct_ws_from_kkt"] = self.working_set

    def working_set(self, I_, fn, args):
        """the real function (C09), its result remembered"""
        o = I_.overrides.pop("construct_ws_from_kkt")
        try:
            r = I_.call_fn(fn, args)
        finally:
            I_.overrides["construct_ws_from_kkt"] = o
        v = I_.rv(r)
        us = [x for x in (v.items if isinstance(v, Tup) else [v])]
        us = [x for x in map(I_.rv, us) if isinstance(x, Seq) and len(x.dims) == 1 and isinstance(x.elem, Num) and x.elem.kind == "u"]
        if not I_.silent:
            self.ws = us[0] if len(us) == 1 else None
        return r

    # -------------------------------------------------------- told by the loop rule
    def enter(self):
        self.stack.append(Visit())

    def leave(self, I_, h, r, k, n):
        v = self.stack.pop()
        if v.steps:
            if v.passes:
                raise Unsupported("a pass within a pass")
            if not r.alive or r.breaks or r.returns:
                raise Unsupported("a pass that is cut short")
            return self.step(I_, v, h, r.heap, k, n)
        if v.passes:
            return self.around(I_, v, h, r, n)
        return None

    def after(self, seen, heap0, heap1):
        if seen is not None:
            q = seen
            self.stack[-1].passes.append((loops.getp(heap0[q[0]], q[1]), loops.getp(heap1[q[0]], q[1])))

    # -------------------------------------------------------- arrays
    def arrays(self, h):
        nd = 2 if self.pb.multi else 1
        for c in sorted(h, key=str):
            for path, v in loops.leaf_paths(h[c]):
                if isinstance(v, Seq) and isinstance(v.elem, Num) and v.elem.kind == "f" and len(v.dims) == nd \
                        and v.dims[0] is self.pb.p and (nd == 1 or v.dims[1] is self.pb.T):
                    yield (c, path), v

    def equal(self, a, b_):
        return pv.simplify(self.w.veq(a, b_), self.w.I.ctx) is TRUE

    def lists(self, h, k, n):
        """lists of features as long as the pass"""
        out = []
        for c in sorted(h, key=str):
            for path, x in loops.leaf_paths(h[c]):
                if isinstance(x, Seq) and isinstance(x.elem, Num) and x.elem.kind == "u" and len(x.dims) == 1 \
                        and x.dims[0] is n and x.at(k).t is not k and not any(self.equal(x, y) for y in out):
                    out.append(x)
        return out

    # -------------------------------------------------------- one step of a pass
    def step(self, I_, v, h0, h1, k, n):
        pb, w = self.pb, self.w
        self.npasses += 1
        changed = [q for q, a in self.arrays(h0) if q[0] in h1 and not self.equal(a, loops.getp(h1[q[0]], q[1]))]
        if len(changed) != 1 or len(set(v.grads)) != 1 or n is POSINF:
            raise Unsupported("the step of a pass was not recognised")
        q, j = changed[0], v.grads[0]
        a, b_ = loops.getp(h0[q[0]], q[1]), loops.getp(h1[q[0]], q[1])
        wss = [self.ws] if self.ws is not None else self.lists(h0, k, n)
        at = [(x, x.at(k).t) for x in wss] + [(x, x.at(sub(sub(x.dims[0], ONE), k)).t) for x in wss]
        hit = [(x, t) for x, t in at if t is j] or (at[:1] if len(wss) == 1 else [])
        if not hit:
            raise Unsupported("the working set of a pass was not recognised")
        ws, i = hit[0]
        w.goal("a pass visits every feature of the working set once", eq(n, ws.dims[0]))
        w.goal("a pass visits the features of the working set", eq(j, i))
        fit = seqlam(w, pb.fit_of(a))
        L = app("L", (j,), R)
        new = lam2 if pb.multi else lam1
        if pb.multi:
            t = fresh("t", tm.I)
            x = lam((t,), sub(w.t(a.at(j, t)), mul(inv(L), app("G", (fit, j, t), R))))
            want = lam2(pb.p, pb.T, lambda m, u: ite(mkand(eq(m, j), mknot(eq(L, ZERO))), app("prox", (x, inv(L), u), R), w.t(a.at(m, u))))
        else:
            x = sub(w.t(a.at(j)), mul(inv(L), app("G", (fit, j), R)))
            want = lam1(pb.p, lambda m: ite(mkand(eq(m, j), mknot(eq(L, ZERO))), app("prox", (x, inv(L)), R), w.t(a.at(m))))
        w.eqgoal("the step of a pass is the proximal gradient step", b_, want)
        return q

    # -------------------------------------------------------- a loop around a pass
    def around(self, I_, v, h, r, n):
        w = self.w
        if len(v.passes) != 1:
            raise Unsupported("%d passes in one iteration" % len(v.passes))
        before, behind = v.passes[0]
        ins = [q for q, a in self.arrays(h) if self.equal(a, before)]
        if len(ins) != 1:
            raise Unsupported("the weights at the start of a pass were not recognised")
        q = ins[0]
        self.loops.append(n)
        if self.pb.with_accel:
            return q
        if r.alive:
            w.eqgoal("weights change in a pass only", loops.getp(r.heap[q[0]], q[1]), behind)
        a = loops.getp(h[q[0]], q[1])
        for c, _, hh, fs in r.breaks + r.returns:
            e = loops.getp(hh[q[0]], q[1])
            if not self.equal(e, behind) and not self.equal(e, a):
                w.goal("weights change in a pass only (early end)", imp(mkand(c, *fs), mkor(w.veq(e, behind), w.veq(e, a))))
        return q


class Visit:
    def __init__(self):
        self.grads, self.steps, self.passes = [], [], []
