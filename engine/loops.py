"""Loops: unrolled when the trip count is a small constant, otherwise replaced
by a closed form that is derived from one generic iteration (sum, maximum,
pointwise update, scatter, push, ...), otherwise cut by inductive invariants."""
from term import *
import term as tm
from values import *
from prover import Prover, set_cond, check_deadline
import interp as ip


def Unsup(msg):
    return ip.Unsupported(msg)


# ------------------------------------------------------------------ leaves
def leaf_paths(v, path=()):
    if isinstance(v, Struct):
        for k, x in v.fields.items():
            yield from leaf_paths(x, path + (("f", k),))
    elif isinstance(v, Tup):
        for n, x in enumerate(v.items):
            yield from leaf_paths(x, path + (("f", str(n)),))
    elif isinstance(v, Ref):
        return
    else:
        yield path, v


def getp(v, path):
    for p in path:
        if isinstance(v, Struct):
            v = v.fields[p[1]]
        elif isinstance(v, Tup):
            v = v.items[int(p[1])]
        else:
            raise Unsup("leaf path")
    return v


def setp(v, path, new):
    if not path:
        return new
    p = path[0]
    if isinstance(v, Struct):
        fs = dict(v.fields)
        fs[p[1]] = setp(fs[p[1]], path[1:], new)
        return Struct(v.name, fs)
    if isinstance(v, Tup):
        it = list(v.items)
        it[int(p[1])] = setp(it[int(p[1])], path[1:], new)
        return Tup(it)
    raise Unsup("leaf path")


def changed_leaves(h0, h1):
    out = []
    for c, v in h0.items():
        w = h1.get(c)
        if w is v or (w is not None and same(v, w)):
            continue
        try:
            d0 = dict(leaf_paths(v))
            d1 = dict(leaf_paths(w))
        except Exception:
            d0, d1 = {(): v}, {(): w}
        if set(d0) != set(d1) or not d0:
            out.append((c, ()))
            continue
        for p in d0:
            if d0[p] is not d1[p] and not same(d0[p], d1[p]):
                out.append((c, p))
    return out


class Sym:
    """the havocked version of one leaf"""
    __slots__ = ("key", "init", "val", "kind", "name", "lenvar")


def havoc(I_, key, init, vec=False, sort=None, tag="h"):
    s = Sym()
    s.key, s.init, s.lenvar = key, init, None
    if isinstance(init, Num):
        srt = sort or (R if init.kind == "f" else tm.I if init.kind in ("u", "i") else None)
        if srt is None:
            srt = tm.I if is_int(init.t) else R
        v = fresh(tag, srt)
        s.kind, s.name, s.val = "num", v, Num(v, init.kind)
    elif isinstance(init, Bool):
        v = fresh(tag + "b", B)
        s.kind, s.name, s.val = "bool", v, Bool(v)
    elif isinstance(init, Seq):
        vs = tuple(fresh("i", tm.I) for _ in init.dims)
        nm = fresh(tag + "a", R).args[0]
        s.name = nm
        dims = list(init.dims)
        if vec:
            s.lenvar = fresh("len", tm.I)
            dims[0] = s.lenvar
        el = init.elem
        if isinstance(el, Num) and not (vec and init.dims[0] is ZERO):
            srt = tm.I if el.kind in ("u", "i") else R
            e = Num(app(nm, vs, srt), el.kind)
        elif isinstance(el, Bool):
            e = Bool(app(nm, vs, B))
        elif vec:
            e = Opaque("havoc")
        else:
            raise Unsup("loop over array of %s" % type(el).__name__)
        s.kind, s.val = ("vec" if vec else "seq"), Seq(dims, vs, e, init.tag)
    else:
        s.kind, s.name, s.val = "other", None, Opaque("havoc")
    return s


def mentions(v, syms):
    """keys of the havocked symbols occurring in value or term v"""
    out = set()
    byvar = {}
    byfun = {}
    for s in syms:
        if s.kind in ("num", "bool"):
            byvar[s.name] = s.key
        elif s.kind in ("seq", "vec"):
            byfun[s.name] = s.key
            if s.lenvar is not None:
                byvar[s.lenvar] = s.key

    def f(t):
        for x in t.fv:
            if x in byvar:
                out.add(byvar[x])
        for x in t.funs:
            if x in byfun:
                out.add(byfun[x])
    if isinstance(v, T):
        f(v)
    else:
        walk(v, f)
    return out


def replacer(pairs):
    """pairs: [(Sym, value)] -> term function replacing havocked symbols"""
    vm = {}
    fm = {}
    for s, val in pairs:
        if s.kind in ("num", "bool"):
            vm[s.name] = val.t
        elif s.kind in ("seq", "vec"):
            fm[s.name] = val
            if s.lenvar is not None:
                vm[s.lenvar] = val.dims[0]
    names = frozenset(fm)

    def g(name, args):
        if name in fm:
            q = fm[name]
            if args is None:
                e = q.elem
                return lam(q.vs, e.t)
            x = q.at(*args)
            return x.t
        return None

    def f(t):
        if vm and (t.fv & frozenset(vm)):
            t = subst(t, vm)
        if names and (t.funs & names):
            t = subst_fun(t, g, names)
        return t
    return f


def vreplace(v, pairs):
    f = replacer(pairs)
    return vmap(v, f)


# ------------------------------------------------------------------ one iteration
class Run:
    pass


def run_iter(I_, heap, k, n, body, label, silent, extra=()):
    """execute one generic iteration from heap; returns a Run and leaves the
    facts of the iteration in the context (caller resets)"""
    r = Run()
    I_.heap = dict(heap)
    I_.push_pc(le(ZERO, k))
    if n is not POSINF:
        I_.push_pc(lt(k, n))
    for f in extra:
        I_.assume(f)
    r.mark = len(I_.ctx.facts)
    r.fresh0 = tm._FRESH[0]
    lp = ip.Loop(label, r.mark)
    I_.loops.append(lp)
    if silent:
        I_.silent += 1
    try:
        alive = True
        try:
            body(k)
        except ip.Escape:
            alive = False
        if alive or lp.continues:
            I_.join(r.mark, lp.continues, UNIT, alive)
            alive = True
        if alive:
            for b in lp.breaks + lp.returns:
                I_.push_pc(mknot(b[0]))
        r.alive = alive
        r.heap = I_.heap
        r.breaks, r.returns = lp.breaks, lp.returns
        r.facts = list(I_.ctx.facts[r.mark:])
    finally:
        I_.loops.pop()
        if silent:
            I_.silent -= 1
    return r


def outer_target(I_):
    return I_.loops[-1] if I_.loops else I_.frames[-1]


def bmark_of(x):
    return x.bmark if isinstance(x, ip.Loop) else x.mark


def propagate_returns(I_, recs, pc0):
    """recs: (cond, value, heap, facts) relative to the loop start"""
    for cond, v, h, fs in recs:
        outer_target(I_).returns.append((mkand(pc0, cond), v, h, fs))


def unrolled(I_, n, body, label):
    bmark = len(I_.ctx.facts)
    pc0 = I_.pcs_since(bmark_of(outer_target(I_))) if (I_.loops or I_.frames) else TRUE
    lp = ip.Loop(label, bmark)
    alive = True
    I_.loops.append(lp)
    try:
        for i in range(n):
            lp.mark = len(I_.ctx.facts)
            lp.continues = []
            try:
                body(num(i))
            except ip.Escape:
                alive = False
            if lp.continues:
                I_.join(lp.mark, lp.continues, UNIT, alive)
                alive = True
            if not alive:
                break
    finally:
        I_.loops.pop()
    if lp.returns:
        propagate_returns(I_, lp.returns, pc0)
    if not alive and not lp.breaks:
        I_.reset(bmark)
        raise ip.Escape()
    v = I_.join(bmark, lp.breaks, UNIT, alive)
    for r in lp.returns:
        I_.push_pc(mknot(r[0]))
    return v


# ------------------------------------------------------------------ closed forms
def recognise(I_, s, f, k, n, unsolved):
    """f: value of leaf s after a generic iteration started from havocked s (all
    other leaves already replaced).  returns function k -> value, or None"""
    if s.kind == "num":
        if not isinstance(f, Num):
            return None
        h, t = s.name, f.t
        if h.sort == tm.I and not is_int(t):
            return "resort"
        kind = s.init.kind or f.kind
        d = sub(t, h)
        h0 = s.init.t
        if h not in d.fv:
            i = fresh("k", tm.I)
            db = subst(d, {k: i})
            return lambda kk: Num(add(h0, mksum(i, ZERO, kk, db)), kind)
        if h not in t.fv:
            return lambda kk: Num(ite(lt(ZERO, kk), subst(t, {k: sub(kk, ONE)}), h0), kind)
        for sgn in (1, -1):
            u = t if sgn == 1 else neg(t)
            hh = h if sgn == 1 else neg(h)
            # u = max(hh, g) ?   read g off at hh = -infinity and compare
            g = subst(u, {h: tm.NEGINF if sgn == 1 else tm.POSINF})
            if tm.POSINF in g.fv or mx(hh, g) is not u:
                continue
            i = fresh("k", tm.I)
            gb = subst(g, {k: i})
            if sgn == 1:
                return lambda kk: Num(bigmax(i, ZERO, kk, gb, h0), kind)
            return lambda kk: Num(neg(bigmax(i, ZERO, kk, gb, neg(h0))), kind)
        # max with a guard: h + [c]*(max(h,g)-h)
        for c in tm.top_conds(t):
            if h in c.fv:
                continue
            t1, t0 = assume_cond(t, c, True), assume_cond(t, c, False)
            for a, b_, cc in ((t1, t0, c), (t0, t1, mknot(c))):
                if b_ is h and a.op == "max" and h in a.args:
                    g = tm._fold(mx, [x for x in a.args if x is not h])
                    if h in g.fv:
                        continue
                    i = fresh("k", tm.I)
                    gb = subst(g, {k: i})
                    cb = subst(cc, {k: i})
                    if I_.ctx.decide(le(h0, g)):
                        return lambda kk: Num(bigmax(i, ZERO, kk, ite(cb, gb, h0), h0), kind)
        for sgn in (1, -1):
            base = h0 if sgn == 1 else neg(h0)
            g = maxform(t if sgn == 1 else neg(subst(t, {h: neg(h)})), h, base)
            if g is not None:
                i = fresh("k", tm.I)
                gb = subst(g, {k: i})
                if sgn == 1:
                    return lambda kk: Num(bigmax(i, ZERO, kk, gb, base), kind)
                return lambda kk: Num(neg(bigmax(i, ZERO, kk, gb, base)), kind)
        return None
    if s.kind == "bool":
        if not isinstance(f, Bool):
            return None
        h, t = s.name, f.t
        h0 = s.init.t
        if h not in t.fv:
            return lambda kk: Bool(bite(lt(ZERO, kk), subst(t, {k: sub(kk, ONE)}), h0))
        g1, g0 = subst(t, {h: TRUE}), subst(t, {h: FALSE})
        i = fresh("k", tm.I)
        if g1 is TRUE:
            gb = subst(g0, {k: i})
            return lambda kk: Bool(mkor(h0, mkexists(i, ZERO, kk, gb)))
        if g0 is FALSE:
            gb = subst(g1, {k: i})
            return lambda kk: Bool(mkand(h0, mkforall(i, ZERO, kk, gb)))
        return None
    if s.kind == "seq":
        return recognise_seq(I_, s, f, k, n)
    if s.kind == "vec":
        return recognise_vec(I_, s, f, k, n)
    if s.kind == "other":
        if mentions_opaque(f):
            return None
        init = s.init

        def cl(kk):
            if I_.ctx.decide(lt(ZERO, kk)):
                return vsubst(f, {k: sub(kk, ONE)})
            return I_.vite(lt(ZERO, kk), vsubst(f, {k: sub(kk, ONE)}), init)
        return cl
    return None


PER_ITER = ("h", "q", "p", "ha", "qa", "pa", "hb", "qb", "pb", "len", "brk", "ret", "kx", "perm", "permi")


def unknowns(v, since):
    """does v mention a value that was chosen afresh inside the iteration?"""
    found = []

    def nm(x):
        if "@" in x:
            p, n = x.rsplit("@", 1)
            if p in PER_ITER and n.isdigit() and int(n) > since:
                found.append(x)

    def f(t):
        for x in t.fv:
            nm(x.args[0])
        for x in t.funs:
            nm(x)
    walk(v, f)
    return bool(found)


def mentions_opaque(v):
    if isinstance(v, Opaque):
        return v.what == "havoc"
    if isinstance(v, (Seq, It)):
        return mentions_opaque(v.elem)
    if isinstance(v, Struct):
        return any(mentions_opaque(x) for x in v.fields.values())
    if isinstance(v, Tup):
        return any(mentions_opaque(x) for x in v.items)
    if isinstance(v, Enum):
        return any(mentions_opaque(x) for x in v.args)
    if isinstance(v, Mux):
        return any(mentions_opaque(x) for _, x in v.alts)
    return False


def recognise_seq(I_, s, f, k, n):
    if not isinstance(f, Seq) or len(f.dims) != len(s.init.dims):
        return None
    init = s.init
    for a, b_ in zip(f.dims, init.dims):
        if a is not b_ and not I_.ctx.decide(eq(a, b_)):
            # the whole array is replaced on every iteration
            if not mentions(f, [s]):
                return lambda kk: I_.vite(lt(ZERO, kk), vsubst(f, {k: sub(kk, ONE)}), init)
            return None
    idx = tuple(fresh("i", tm.I) for _ in f.dims)
    e = f.at(*idx)
    if isinstance(e, Bool):
        if not mentions(e, [s]):
            return lambda kk: I_.vite(lt(ZERO, kk), vsubst(f, {k: sub(kk, ONE)}), init)
        return None
    if not isinstance(e, Num):
        return None
    kind = e.kind or (init.elem.kind if isinstance(init.elem, Num) else None)
    srt = tm.I if (isinstance(init.elem, Num) and init.elem.kind in ("u", "i")) else R
    if s.name not in e.t.funs:
        return lambda kk: I_.vite(lt(ZERO, kk), vsubst(f, {k: sub(kk, ONE)}), init)
    h = app(s.name, idx, srt)
    D = sub(e.t, h)
    i = fresh("k", tm.I)
    if s.name not in D.funs:
        Db = subst(D, {k: i})

        def cl(kk):
            return Seq(init.dims, idx, I_.with_vars(
                idx, init.dims, lambda: Num(add(init.at(*idx).t, mksum(i, ZERO, kk, Db)), kind)), init.tag)
        return cl
    # accumulation at a computed position: [i = t] * (h(t) + x - h(i))
    D = guard_subst(D, idx)
    if s.name not in D.funs:
        Dg = subst(D, {k: i})

        def cl1(kk):
            return Seq(init.dims, idx, I_.with_vars(
                idx, init.dims, lambda: Num(add(init.at(*idx).t, mksum(i, ZERO, kk, Dg)), kind)), init.tag)
        return cl1
    # pointwise update: some index component is determined by the iteration
    for c in range(len(idx)):
        for cond in _eq_conds(D, idx[c]):
            t = lin_solve(cond.args[0], idx[c])
            if t is None or any(x in t.fv for x in idx) or k not in t.fv or s.name in t.funs:
                continue
            if set_cond(D, cond, False) is not ZERO:
                continue
            if not injective(I_, t, k, n):
                continue
            D1 = subst(set_cond(D, cond, True), {idx[c]: t})
            ok = True
            for x in subterms(D1):
                if x.op == "arrsym" and x.args[0] == s.name:
                    ok = False
                if x.op == "app" and x.args[0] == s.name:
                    a = x.args[1 + c]
                    if a is not t and not I_.ctx.decide(eq(a, t)) and not untouched(I_, a, t, k, n):
                        ok = False
            if not ok:
                continue
            D2 = subst_fun(D1, lambda nm, args: init.at(*args).t if nm == s.name else None, frozenset([s.name]))
            body = mul(iv(eq(idx[c], subst(t, {k: i}))), subst(D2, {k: i}))

            def cl2(kk):
                return Seq(init.dims, idx, I_.with_vars(
                    idx, init.dims, lambda: Num(add(init.at(*idx).t, mksum(i, ZERO, kk, body)), kind)), init.tag)
            return cl2
    # consecutive windows of equal length: iteration k writes the positions k*T .. k*T + T
    for c in range(len(idx)):
        w = window(D, idx, c, k)
        if w is None:
            continue
        T, D1 = w
        q = idx[c]
        if s.name in T.funs or any(x.op == "arrsym" and x.args[0] == s.name for x in subterms(D1)):
            continue
        kq, rq = fresh("k", tm.I), fresh("r", tm.I)
        D1 = subst(D1, {k: kq, q: add(mul(kq, T), rq)})
        at = add(mul(kq, T), rq)
        if any(x.op == "app" and x.args[0] == s.name and x.args[1 + c] is not at for x in subterms(D1)):
            continue                                       # reads other positions of the array
        D2 = subst_fun(D1, lambda nm, args: init.at(*idx).t if nm == s.name else None, frozenset([s.name]))
        D2 = mul(iv(lt(ZERO, T)), subst(D2, {kq: tm.idiv(q, T), rq: tm.imod(q, T)}))

        def cl3(kk):
            return Seq(init.dims, idx, I_.with_vars(
                idx, init.dims, lambda: Num(add(init.at(*idx).t, mul(iv(lt(tm.idiv(q, T), kk)), D2)), kind)), init.tag)
        return cl3
    # element-wise running maximum: new = max(h, g)
    if e.t.op == "max" and h in e.t.args:
        g = tm._fold(mx, [x for x in e.t.args if x is not h])
        if s.name not in g.funs:
            gb = subst(g, {k: i})
            return lambda kk: Seq(init.dims, idx, Num(bigmax(i, ZERO, kk, gb, init.at(*idx).t), kind), init.tag)
    return None


def maxform(t, h, base, depth=0):
    """t = max(h, g) in every case of the conditions that do not read h: g, with
    base (the value h starts from, never above h) where t leaves h as it is"""
    if t is h:
        return base
    if t.op == "max" and h in t.args:
        g = tm._fold(mx, [x for x in t.args if x is not h])
        return None if h in g.fv else g
    if depth > 8:
        return None
    cs = top_conds(t)
    for c in cs:
        if h not in c.fv:
            a = maxform(assume_cond(t, c, True), h, base, depth + 1)
            b = a if a is None else maxform(assume_cond(t, c, False), h, base, depth + 1)
            return None if b is None else ite(c, a, b)
    if len(cs) == 1:
        a, b = assume_cond(t, cs[0], True), assume_cond(t, cs[0], False)
        u = ite(cs[0], a, b)
        if u is not t and u.op == "max":
            return maxform(u, h, base, depth + 1)
    return None


def window(D, idx, c, k):
    """D vanishes outside k*T <= idx[c] < k*T + T: (T, D inside)"""
    q = idx[c]
    los = []
    for x in subterms(D):
        if x.op == "lt0" and q in x.fv:
            t = lin_solve(x.args[0], q)
            if t is not None and pdict(x.args[0]).get(((q, 1),)) == 1 and not any(y in t.fv for y in idx):
                los.append((x, t))
    los.sort(key=lambda ct: ct[0].id)
    for lo, a in los:
        if k not in a.fv or subst(a, {k: ZERO}) is not ZERO:
            continue
        T = subst(a, {k: ONE})
        if k in T.fv or a is not mul(k, T):
            continue
        for hi, b in los:
            if hi is lo or sub(b, a) is not T:
                continue
            if set_cond(D, lo, True) is not ZERO or set_cond(D, hi, False) is not ZERO:
                continue
            return T, set_cond(set_cond(D, lo, False), hi, True)
    return None


def guard_subst(D, idx):
    """use the equations idx[c] = t that guard the whole of D inside D"""
    for v in idx:
        for cond in _eq_conds(D, v):
            t = lin_solve(cond.args[0], v)
            if t is None or any(x in t.fv for x in idx) or set_cond(D, cond, False) is not ZERO:
                continue
            D = mul(iv(cond), subst(set_cond(D, cond, True), {v: t}))
            break
    return D


def _eq_conds(D, v):
    out = []
    for x in subterms(D):
        if x.op == "iv" and x.args[0].op == "eq0" and v in x.fv and x.args[0] not in out:
            out.append(x.args[0])
    return sorted(out, key=lambda c: c.id)


def untouched(I_, a, t, k, n):
    """position a is not written by any iteration (iteration k' writes t(k'))"""
    if k in a.fv or any(v.args[0].startswith("#") for v in a.fv):
        return False
    k1 = fresh("k", tm.I)
    mark = len(I_.ctx.facts)
    try:
        I_.assume(le(ZERO, k1))
        if n is not POSINF:
            I_.assume(lt(k1, n))
        return bool(I_.ctx.decide(mknot(eq(a, subst(t, {k: k1})))))
    finally:
        I_.reset(mark)


def injective(I_, t, k, n):
    if is_int(t) and lin_solve(sub(t, ZERO), k) is not None:
        return True
    k1, k2 = fresh("k", tm.I), fresh("k", tm.I)
    mark = len(I_.ctx.facts)
    try:
        for x in (k1, k2):
            I_.assume(le(ZERO, x))
            if n is not POSINF:
                I_.assume(lt(x, n))
        I_.assume(eq(subst(t, {k: k1}), subst(t, {k: k2})))
        g = eq(k1, k2)
        if I_.ctx.decide(g):
            return True
        from prover import smt, _relevant
        return smt(_relevant(g, I_.ctx.facts), g, 2000, light=True) is True
    finally:
        I_.reset(mark)


def recognise_vec(I_, s, f, k, n):
    if not isinstance(f, Seq) or len(f.dims) != len(s.init.dims) or s.lenvar is None:
        return None
    init = s.init
    step = sub(f.dims[0], s.lenvar)
    L = s.lenvar
    if step is not ONE:
        return None
    L0 = init.dims[0]
    x = f.at(L) if len(f.dims) == 1 else None
    if x is None:
        return None
    if isinstance(x, Mux):
        alts = [(subst(c, {f.vs[0]: L}), y) for c, y in x.alts]
        ys = [y for c, y in alts if c is TRUE]
        if len(ys) != 1:
            return None
        x = ys[0]
    if mentions(x, [s]) - set() and s.lenvar not in _fvs(x) and s.name in _funs(x):
        return None
    x = vsubst(x, {L: add(L0, k)})
    if s.name in _funs(x):
        return None
    i = fresh("i", tm.I)
    xi = vsubst(x, {k: sub(i, L0)})

    def cl(kk):
        el = xi if L0 is ZERO else I_.vite(lt(i, L0), init.at(i), xi)
        return Seq([add(L0, kk)], (i,), el, init.tag)
    return cl


def _fvs(v):
    out = set()
    walk(v, lambda t: out.update(t.fv))
    return out


def _funs(v):
    out = set()
    walk(v, lambda t: out.update(t.funs))
    return out


# ------------------------------------------------------------------ the loop
def range_loop(I_, n, body, label=None, cond=None):
    """for k in 0..n { body(k) };  n may be POSINF (while loops: then the body
    starts with a break test)"""
    check_deadline()
    if isnum(n):
        m = int(n.args[0])
        if m <= 0:
            return UNIT
        if m <= ip.UNROLL:
            return unrolled(I_, m, body, label)
    mark0 = len(I_.ctx.facts)
    heap0 = dict(I_.heap)
    pc0 = I_.pcs_since(bmark_of(outer_target(I_))) if (I_.loops or I_.frames) else TRUE
    k = fresh("k", tm.I)

    # ---- discovery of the modified leaves
    keys = {}
    flags = {}
    r = None
    for _ in range(12):
        syms = [havoc(I_, key, getp(heap0[key[0]], key[1]), flags.get(key) == "vec",
                      R if flags.get(key) == "real" else None) for key in keys]
        h = dict(heap0)
        for s in syms:
            h[s.key[0]] = setp(h[s.key[0]], s.key[1], s.val)
        extra = [le(ZERO, s.name) for s in syms if s.kind == "num" and s.init.kind == "u"]
        extra += [le(ZERO, s.lenvar) for s in syms if s.lenvar is not None]
        I_.discover += 1
        try:
            r = run_iter(I_, h, k, n, body, label, True, extra)
        finally:
            I_.discover -= 1
            facts_d = list(I_.ctx.facts)
            pcs_d = set(I_.pcidx)
            I_.reset(mark0)
        ch = []
        ends = ([r.heap] if r.alive else []) + [b[2] for b in r.breaks] + [b[2] for b in r.returns]
        for hh in ends:
            for key in changed_leaves(h, hh):
                if key not in ch:
                    ch.append(key)
        new = [key for key in ch if not any(key == q for q in keys)]
        again = False
        for key in new:
            # a coarser key replaces finer ones
            for q in list(keys):
                if q[0] == key[0] and q[1][:len(key[1])] == key[1]:
                    del keys[q]
            keys[key] = True
            again = True
        for s in syms:
            if s.key not in keys or not r.alive:
                continue
            fin = getp(r.heap[s.key[0]], s.key[1])
            if s.kind == "seq" and isinstance(fin, Seq) and len(fin.dims) == len(s.init.dims) == 1 \
                    and sub(fin.dims[0], s.init.dims[0]) is ONE and flags.get(s.key) != "vec":
                flags[s.key] = "vec"
                again = True
            if s.kind == "num" and s.init.kind is None and s.name.sort == tm.I and isinstance(fin, Num) \
                    and (fin.kind == "f" or not is_int(fin.t)) and flags.get(s.key) != "real":
                flags[s.key] = "real"
                again = True
        if not again:
            break
    else:
        raise Unsup("loop effects do not stabilise")

    if not r.alive and not r.breaks and not r.returns:
        # the body never completes (panics); executed at most once
        I_.heap = dict(heap0)
        run_iter(I_, heap0, k, n, body, label, False)
        I_.reset(mark0)
        I_.heap = dict(heap0)
        return UNIT

    # ---- closed forms
    solved = {}
    symof = {s.key: s for s in syms}
    if r.alive:
        save = I_.ctx.facts
        I_.ctx.facts = [f for f in facts_d]
        progress = True
        while progress and len(solved) < len(syms):
            progress = False
            done = [(symof[q], solved[q](k)) for q in solved]
            rest = [s for s in syms if s.key not in solved]
            for s in rest:
                fin = getp(r.heap[s.key[0]], s.key[1])
                fin = vreplace(fin, done) if done else fin
                if unknowns(fin, r.fresh0):
                    continue
                if mentions(fin, [x for x in rest if x is not s]):
                    continue
                if any(x.kind == "other" for x in rest if x is not s) and mentions_opaque(fin) and s.kind != "vec":
                    continue
                cl = recognise(I_, s, fin, k, n, rest)
                if cl is not None and cl != "resort":
                    solved[s.key] = cl
                    progress = True
        I_.ctx.facts = save
        I_.reset(mark0)
    else:
        # at most one iteration happens
        for s in syms:
            solved[s.key] = (lambda init: (lambda kk: init))(s.init)

    unsolved = [s for s in syms if s.key not in solved]
    if unsolved:
        return inv_loop(I_, n, k, body, label, heap0, syms, solved, unsolved, mark0, pc0, cond)

    def closed_heap(kk):
        h = dict(heap0)
        for key, cl in solved.items():
            h[key[0]] = setp(h[key[0]], key[1], cl(kk))
        return h

    # ---- while loops: turn a counter test into a trip count
    if n is POSINF and cond is not None:
        I_.heap = closed_heap(k)
        I_.push_pc(le(ZERO, k))
        I_.silent += 1
        try:
            c = I_.boolean(cond())
        finally:
            I_.silent -= 1
            I_.reset(mark0)
            I_.heap = dict(heap0)
        N = trip(I_, c, k)
        if N is not None:
            return range_loop(I_, N, body, label, None)

    # ---- obligations of a generic iteration, exact state
    r2 = run_iter(I_, closed_heap(k), k, n, body, label, False)
    rel = I_.facts_since(r2.mark)
    I_.reset(mark0)
    exits = [(c, v, h, fs, "break") for c, v, h, fs in r2.breaks] + [(c, v, h, fs, "return") for c, v, h, fs in r2.returns]
    if not exits:
        if n is POSINF:
            # never terminates normally
            I_.heap = dict(heap0)
            raise ip.Escape()
        I_.heap = closed_heap(n)
        return UNIT
    ks = fresh("kx", tm.I)
    anyc = tm.FALSE
    for c, *_ in exits:
        anyc = mkor(anyc, c)
    i = fresh("k", tm.I)
    I_.assume(le(ZERO, ks))
    if n is not POSINF:
        I_.assume(le(ks, n))
    I_.assume(mkforall(i, ZERO, ks, mknot(subst(anyc, {k: i}))))
    ex = TRUE if n is POSINF else lt(ks, n)
    if ex is not TRUE:
        I_.assume(imp(ex, subst(anyc, {k: ks})))
    else:
        I_.assume(subst(anyc, {k: ks}))
    normal_alive = n is not POSINF
    heapN = closed_heap(n) if normal_alive else None
    recs, rets = [], []
    for c, v, h, fs, kind in exits:
        cc = mkand(ex, subst(c, {k: ks}))
        hh = {}
        for cell in heap0:
            w = h.get(cell, heap0[cell])
            hh[cell] = vsubst(w, {k: ks}) if w is not heap0[cell] else w
        fs2 = [imp(cc, subst(f, {k: ks})) for f in fs]
        v2 = vsubst(v, {k: ks}) if v is not None else v
        (recs if kind == "break" else rets).append((cc, v2, hh, fs2))
    val = UNIT
    I_.heap = heapN if heapN is not None else None
    first = True
    if not normal_alive:
        if not recs:
            propagate_returns(I_, rets, pc0)
            I_.heap = dict(heap0)
            raise ip.Escape()
        cc, v2, hh, fs2 = recs.pop()
        I_.heap, val = hh, v2
        for f in fs2:
            I_.assume(f)
    for cc, v2, hh, fs2 in recs:
        I_.heap = I_.merge_heap(cc, hh, I_.heap)
        if v2 is not UNIT and v2 is not None:
            val = I_.vite(cc, v2, val)
        for f in fs2:
            I_.assume(f)
    if rets:
        propagate_returns(I_, rets, pc0)
        for cc, *_ in rets:
            I_.push_pc(mknot(cc))
    if not I_.silent:
        I_.ghost.setdefault("loops", []).append({"n": n, "break": mkand(ex, TRUE) if n is not POSINF else TRUE, "mode": "closed"})
    return val


def trip(I_, c, k):
    """c(k) equivalent to k < N ?"""
    if c.op == "lt0":
        t = lin_solve(c.args[0], k)
        d = pdict(c.args[0]).get(((k, 1),))
        if t is not None and d == 1:
            return t if I_.ctx.decide(le(ZERO, t)) else mx(t, ZERO)
    if c.op == "not" and c.args[0].op == "lt0":
        p = c.args[0].args[0]            # p >= 0
        t = lin_solve(p, k)
        d = pdict(p).get(((k, 1),))
        if t is not None and d == -1:
            t = add(t, ONE)              # k <= t
            return t if I_.ctx.decide(le(ZERO, t)) else mx(t, ZERO)
    if c.op == "not" and c.args[0].op == "eq0":
        t = lin_solve(c.args[0].args[0], k)
        if t is not None and I_.ctx.decide(le(ZERO, t)):
            return t
    if c.op == "and":
        return None
    return None


# ------------------------------------------------------------------ invariants
def inv_loop(I_, n, k, body, label, heap0, syms, solved, unsolved, mark0, pc0, cond):
    if n is POSINF and cond is not None and I_.inv_templates is not None:
        # counter-controlled while loop with other unsolved state
        h = dict(heap0)
        for s in unsolved:
            h[s.key[0]] = setp(h[s.key[0]], s.key[1], s.val)
        for key, cl in solved.items():
            h[key[0]] = setp(h[key[0]], key[1], cl(k))
        I_.heap = h
        I_.push_pc(le(ZERO, k))
        I_.silent += 1
        try:
            c = I_.boolean(cond())
        finally:
            I_.silent -= 1
            I_.reset(mark0)
            I_.heap = dict(heap0)
        ok = not mentions(c, unsolved)
        N = trip(I_, c, k) if ok else None
        if N is not None:
            return range_loop(I_, N, body, label, None)
    if I_.inv_templates is None:
        raise Unsup("no closed form for the loop at line %s (%s)" % (I_.cur_line, ",".join(
            "%s%s" % (s.kind, "/".join(p[1] for p in s.key[1])) for s in unsolved)))
    okeys = [s.key for s in unsolved]
    skeys = [q for q in solved if not mentions_value(solved[q](k), unsolved)]
    okeys += [q for q in solved if q not in skeys]
    tmpl = I_.inv_templates(I_, heap0, okeys)       # list of Inv

    def head(kk, cands, tag):
        """heap at the start of iteration kk and facts about it"""
        h = dict(heap0)
        for q in skeys:
            h[q[0]] = setp(h[q[0]], q[1], solved[q](kk))
        facts = []
        for q in okeys:
            init = getp(heap0[q[0]], q[1])
            old = [s for s in syms if s.key == q][0]
            s = havoc(I_, q, init, old.kind == "vec", None, tag)
            if s.kind == "num" and init.kind == "u":
                facts.append(le(ZERO, s.name))
            if s.kind == "num" and old.name.sort == R and s.name.sort != R:
                s = havoc(I_, q, init, False, R, tag)
            h[q[0]] = setp(h[q[0]], q[1], s.val)
        for c in cands:
            if c.define is not None:
                q = c.target
                h[q[0]] = setp(h[q[0]], q[1], c.define(h))
        for c in cands:
            if c.pred is not None:
                facts.append(c.pred(h))
            if c.step is not None:
                facts.append(c.step(heap0, h))
            if c.kpred is not None:
                facts.append(c.kpred(h, kk))
        return h, facts

    # initially true
    if I_.discover:
        tmpl = []                # only the effects of the loop matter to an enclosing discovery run
    cands = []
    fresh0 = tm._FRESH[0]
    for c in tmpl:
        if c.step is not None or holds(I_, c, heap0, None, ZERO):
            cands.append(c)
    for _ in range(20):
        check_deadline()
        # the same names on every run, so that proofs already found are reused
        tm._FRESH[0] = fresh0
        h, fs = head(k, cands, "q")
        r = run_iter(I_, h, k, n, body, label, True, fs)
        keep = []
        if r.alive:
            # the costly ones once the others hold
            late = [c for c in cands if c.late]
            keep = [c for c in cands if not c.late and holds(I_, c, r.heap, h, add(k, ONE))]
            if len(keep) + len(late) < len(cands):
                keep = [c for c in cands if c.late or c in keep]
            else:
                keep = [c for c in cands if not c.late or holds(I_, c, r.heap, h, add(k, ONE))]
        else:
            keep = list(cands)
        I_.reset(mark0)
        if len(keep) == len(cands):
            break
        cands = keep
    # final, obligations recorded
    nobl = len(I_.obls)
    tm._FRESH[0] = fresh0
    h, fs = head(k, cands, "q")
    watch = I_.watch if not I_.silent else None
    if watch:
        watch.enter()
    r = run_iter(I_, h, k, n, body, label, False, fs)
    seen = watch.leave(I_, h, r, k, n) if watch else None
    kfacts = [le(ZERO, k)] + ([lt(k, n)] if n is not POSINF else []) + fs
    I_.reset(mark0)
    if not I_.silent:
        I_.ghost.setdefault("invs", []).extend((c.name, I_.cur_line) for c in cands)
    # after the loop
    sels = []
    recs, rets = [], []
    for c, v, hh, fs_ in r.breaks:
        s = fresh("brk", B)
        sels.append(s)
        recs.append((s, v, {q: hh[q] for q in heap0}, [imp(s, f) for f in kfacts + [c] + fs_]))
    for c, v, hh, fs_ in r.returns:
        s = fresh("ret", B)
        sels.append(s)
        rets.append((s, v, {q: hh[q] for q in heap0}, [imp(s, f) for f in kfacts + [c] + fs_]))
    for a in range(len(sels)):
        for b_ in range(a):
            I_.assume(mknot(mkand(sels[a], sels[b_])))
    alive = n is not POSINF
    val = UNIT
    if alive:
        hn, fn_ = head(n, cands, "p")
        I_.heap = hn
        nob = conj_not(sels)
        for f in fn_:
            I_.assume(imp(nob, f) if sels else f)
    else:
        if not recs:
            propagate_returns(I_, [(a, b_, c_, d) for a, b_, c_, d in rets], pc0)
            I_.heap = dict(heap0)
            raise ip.Escape()
        s, v, hh, fs_ = recs.pop()
        I_.heap, val = hh, v
        for f in fs_:
            I_.assume(f)
    for s, v, hh, fs_ in recs:
        I_.heap = I_.merge_heap(s, hh, I_.heap)
        if v is not UNIT and v is not None:
            val = I_.vite(s, v, val)
        for f in fs_:
            I_.assume(f)
    if rets:
        for s, v, hh, fs_ in rets:
            for f in fs_:
                I_.assume(f)
        propagate_returns(I_, [(s, v, hh, fs_) for s, v, hh, fs_ in rets], pc0)
        for s, *_ in rets:
            I_.push_pc(mknot(s))
    if watch:
        watch.after(seen, heap0, I_.heap)
    if not I_.silent:
        br = tm.FALSE
        for s in sels:
            br = mkor(br, s)
        I_.ghost.setdefault("loops", []).append({"n": n, "break": br, "mode": "inv", "rets": [s for s, *_ in rets]})
    return val


def conj_not(sels):
    return mkand(*[mknot(s) for s in sels]) if sels else TRUE


def mentions_value(v, syms):
    return bool(mentions(v, syms))


class Inv:
    """candidate invariant: define (value of `target` from the heap), pred (boolean
    term of the heap), or step: a reflexive and transitive relation between two
    heaps that every iteration keeps, hence between loop entry and any later point"""

    def __init__(self, name, target=None, define=None, pred=None, step=None, kpred=None, elim=False, late=False):
        self.name, self.target, self.define, self.pred, self.step = name, target, define, pred, step
        self.late = late
        self.elim = elim             # proved by elimination of sums (elim.py)
        self.kpred = kpred           # like pred, of the heap and the number of iterations done


import os
import elim
LOG = bool(os.environ.get('INVLOG'))
_heldmemo = {}


def holds(I_, c, heap, before=None, at=None):
    P = Prover(I_.ctx, 4000)
    P.lemmas = list(getattr(I_, "lemmas", []))
    if c.elim:
        P = elim.Elim(I_.ctx, 4000, P.lemmas)
    try:
        if c.define is not None:
            a = getp(heap[c.target[0]], c.target[1])
            b_ = c.define(heap)
            g = I_.veq(a, b_)
        elif c.step is not None:
            g = c.step(before, heap)
        elif c.kpred is not None:
            g = c.kpred(heap, at)
        else:
            g = c.pred(heap)
    except ip.Unsupported:
        return False
    key = (tuple(I_.ctx.facts), g)
    ok = _heldmemo.get(key)
    if LOG:
        import time
        t0 = time.time()
        print("   holds?", I_.cur_line, len(I_.loops), "init" if before is None else "", c.name, "memo" if ok is not None else "",
              show(g)[:1500], flush=True)
        if ok is None:
            if os.environ.get("INVDUMP") == c.name and len(I_.loops) == int(os.environ.get("INVDEPTH", "1")):
                print("FULL", show(g))
                for f in I_.ctx.facts:
                    print("  FACT", show(f)[:3000])
            rr = P.prove(g)
            ok = _heldmemo[key] = bool(rr)
            if not ok:
                print("      open:", rr.how, str(rr.model)[:2500])
        print("      ->", ok, round(time.time() - t0, 2), flush=True)
    if ok is None:
        ok = _heldmemo[key] = bool(P.prove(g))
    I_.ghost.setdefault("invlog", []).append((c.name, ok, I_.silent))
    return ok


# ------------------------------------------------------------------ entry points
def each(I_, it, f, label=None):
    """run f(element) for every element of the iterator, in order"""
    dims, vs = it.dims, it.vs

    def level(d, m):
        if d == len(dims):
            el = vsubst(it.elem, m)
            g = subst(it.guard, m)
            if g is TRUE:
                f(el)
            else:
                I_.branch(g, lambda: (f(el), UNIT)[1], lambda: UNIT)
            return UNIT
        n = subst(dims[d], m)

        def body(k):
            return level(d + 1, {**m, vs[d]: k})
        return range_loop(I_, n, body, label if d == 0 else "#inner")
    return level(0, {})


def for_each(I_, it, f):
    each(I_, it, f)
    return UNIT


def fold(I_, it, init, f):
    init = I_.rv(init)
    el = it.elem
    if isinstance(init, Num) and init.kind is None:
        init = Num(init.t, "f")
    acc = I_.alloc(init)
    I_.tmp = getattr(I_, "tmp", 0) + 1

    def body(el):
        cur = I_.heap[acc]
        I_.heap[acc] = I_.rv(f(cur, el))
    each(I_, it, body)
    v = I_.heap[acc]
    return v


def has_exit(e):
    """does the body contain break / continue / return / ? at this level"""
    if isinstance(e, dict):
        if e.get("k") in ("break", "continue"):
            return True
        if e.get("k") in ("closure",):
            return False
        return any(has_exit(v) for v in e.values())
    if isinstance(e, list):
        return any(has_exit(v) for v in e)
    return False


def for_loop(I_, e, env):
    from natives import to_iter, flat1
    v = I_.ev(e["e"], env)
    rvv = I_.rv(v)
    if isinstance(v, Ref) and isinstance(rvv, Seq):
        # for x in &mut v
        vs = tuple(fresh("i", tm.I) for _ in rvv.dims)
        it = It(rvv.dims, vs, Ref(v.cell, v.path + (("ix", vs),)))
    elif isinstance(rvv, Mux):
        raise Unsup("loop over mux")
    else:
        it = to_iter(I_, v)
    if len(it.dims) > 1 and has_exit(e["b"]):
        it = flat1(I_, it)

    def f(el):
        env2 = dict(env)
        I_.bind(e["pat"], el, env2)
        I_.block(e["b"], env2)
    return each(I_, it, f, e.get("label"))


def while_loop(I_, e, env):
    label = e.get("label")
    c = e.get("c")

    def cond():
        return I_.ev(c, env)

    if c is not None and c["k"] == "letcond":
        raise Unsup("while let")

    def body(k):
        if c is not None:
            def brk():
                I_.e_break({"label": None, "e": None}, env)
            t = I_.boolean(I_.ev(c, env))
            I_.branch(t, lambda: UNIT, brk)
        I_.block(e["b"], env)
    return range_loop(I_, POSINF, body, label, cond if c is not None else None)
