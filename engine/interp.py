"""Strongest-postcondition style symbolic execution of the real Rust bodies.

Every expression is evaluated to a canonical symbolic value valid for all
inputs; loops become closed forms (sums, maxima, pointwise updates, ...) or are
cut by inductive invariants; branches are merged.  Side conditions (bounds,
shapes, unwraps, subtraction of unsigned numbers, non-zero denominators) are
recorded as obligations.
"""
from fractions import Fraction
from term import *
import term as tm
from values import *
from prover import Ctx, Prover, smt, simplify, check_deadline
from program import Program, Fn, tyname, pathstr


class Unsupported(Exception):
    pass


class Escape(Exception):
    """no path continues past this point"""


UNROLL = 8


class Obl:
    __slots__ = ("kind", "goal", "facts", "where", "text", "how")

    def __init__(self, kind, goal, facts, where, text):
        self.kind, self.goal, self.facts, self.where, self.text = kind, goal, facts, where, text
        self.how = None

    def __repr__(self):
        return "[%s] %s @%s" % (self.kind, show(self.goal)[:200], self.where)


class Frame:
    def __init__(self, fn, mark):
        self.fn, self.mark = fn, mark
        self.returns = []       # (cond, value, heap)


class Loop:
    def __init__(self, label, mark):
        self.label, self.mark, self.bmark = label, mark, mark
        self.breaks = []        # (cond, value, heap, facts)
        self.continues = []
        self.returns = []


def conj(cs):
    return mkand(*cs) if cs else TRUE


class Interp:
    def __init__(self, prog, ctx=None):
        self.prog = prog
        self.ctx = ctx or Ctx()
        self.heap = {}
        self.ncell = 0
        self.frames = []
        self.loops = []
        self.pcidx = set()
        self.obls = []
        self.silent = 0
        self.discover = 0        # inside a run that only collects the effects of a loop
        self.overrides = {}      # qualified/simple fn name -> callable(interp, fn, args) or None
        self.called = {}         # functions whose bodies were executed: qual -> where
        self.inv_templates = None
        self.watch = None        # told about every iteration of a loop verified by invariants
        self.deadcheck = False       # look for exits that are always taken
        self.deadmemo = {}
        self.obl_kinds = None        # record only these kinds of side obligations
        self.ghost = {}
        self.depth = 0
        self.uint_vars = set()
        self.assumed = {}
        self.loopdepth = 0
        self.cur_line = None
        self.design = None
        tm.DECIDE[0] = self.ctx.decide

    # ------------------------------------------------------------ facts
    def assume(self, f):
        self.ctx.add(f)

    def push_pc(self, c):
        n0 = len(self.ctx.facts)
        self.ctx.add(c)
        for i in range(n0, len(self.ctx.facts)):
            self.pcidx.add(i)

    def reset(self, mark):
        self.ctx.reset(mark)
        self.pcidx = {i for i in self.pcidx if i < mark}

    def pcs_since(self, mark):
        return conj([self.ctx.facts[i] for i in sorted(self.pcidx) if i >= mark])

    def facts_since(self, mark, keep_pc=False):
        """facts added since mark, relativised to the path conditions among them"""
        out = []
        cs = []
        for i in range(mark, len(self.ctx.facts)):
            f = self.ctx.facts[i]
            if i in self.pcidx:
                cs.append(f)
                if keep_pc:
                    out.append(f)
            else:
                out.append(f if keep_pc or not cs else imp(conj(cs), f))
        return out

    def oblige(self, kind, goal, text=""):
        if goal is TRUE or (self.obl_kinds is not None and kind not in self.obl_kinds):
            return
        if self.silent:
            self.ctx.add(goal)
            return
        fn = self.frames[-1].fn if self.frames else None
        where = "%s:%s" % (fn.file if fn else "?", self.cur_line)
        o = Obl(kind, goal, list(self.ctx.facts), where, text)
        if self.ctx.decide(goal):
            o.how = "ctx"
        self.obls.append(o)
        if goal is FALSE:
            return
        if o.how is None:
            self.ctx.add(goal)

    # ------------------------------------------------------------ heap
    def alloc(self, v):
        self.ncell += 1
        c = "c%d" % self.ncell
        self.heap[c] = v
        return c

    def resolve(self, cell, path):
        """follow references stored along the path"""
        for _ in range(20):
            v = self.heap[cell]
            done = True
            for n, p in enumerate(path):
                if isinstance(v, Ref):
                    cell, path = v.cell, tuple(v.path) + tuple(path[n:])
                    done = False
                    break
                v = self.step(v, p)
            if done:
                if isinstance(v, Ref):
                    cell, path = v.cell, tuple(v.path)
                    continue
                return cell, tuple(path), v
        raise Unsupported("reference cycle")

    def read(self, cell, path):
        return self.resolve(cell, path)[2]

    def step(self, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, Struct) and p[1] in v.fields:
                return v.fields[p[1]]
            if isinstance(v, Tup) and p[1].isdigit() and int(p[1]) < len(v.items):
                return v.items[int(p[1])]
            raise Unsupported("field %s of %r" % (p[1], type(v).__name__))
        if k == "ix":
            return self.seq_at(v, p[1])
        if k == "sl":
            return self.slice_view(v, p[1])
        if k == "a":
            if isinstance(v, Enum):
                return v.args[p[1]]
        raise Unsupported("place step %s" % (k,))

    def write(self, cell, path, new):
        cell, path = self.place_target(cell, path)
        self.heap[cell] = self.upd(self.heap[cell], path, new)

    def place_target(self, cell, path):
        """resolve references in the middle of the path, not at its end"""
        for _ in range(20):
            v = self.heap[cell]
            done = True
            for n, p in enumerate(path):
                if isinstance(v, Ref):
                    cell, path = v.cell, tuple(v.path) + tuple(path[n:])
                    done = False
                    break
                v = self.step(v, p)
            if done:
                return cell, tuple(path)
        raise Unsupported("reference cycle")

    def upd(self, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        k = p[0]
        if k == "f":
            if isinstance(v, Struct):
                fs = dict(v.fields)
                fs[p[1]] = self.upd(fs[p[1]], rest, new)
                return Struct(v.name, fs)
            if isinstance(v, Tup):
                it = list(v.items)
                it[int(p[1])] = self.upd(it[int(p[1])], rest, new)
                return Tup(it)
        if k == "a" and isinstance(v, Enum):
            it = list(v.args)
            it[p[1]] = self.upd(it[p[1]], rest, new)
            return Enum(v.name, it, v.ty)
        if k == "ix" and isinstance(v, Seq):
            idx = p[1]
            if len(idx) > len(v.dims):
                raise Unsupported("index rank")
            vs = tuple(fresh("u", I) for _ in v.dims)
            n = len(idx)
            cond = conj([eq(a, b) for a, b in zip(vs[:n], idx)])
            old = v.at(*vs)
            if n == len(v.dims):
                nw = self.upd(v.at(*idx), rest, new)
                return Seq(v.dims, vs, self.vite(cond, nw, old), v.tag)
            sub_ = Seq(v.dims[n:], vs[n:], vsubst(v.elem, dict(zip(v.vs, tuple(idx) + vs[n:]))), v.tag)
            nw = self.upd(sub_, rest, new)
            return Seq(v.dims, vs, self.vite(cond, nw.at(*vs[n:]), old), v.tag)
        if k == "sl" and isinstance(v, Seq):
            view = self.slice_view(v, p[1])
            nw = self.upd(view, rest, new)
            vs = tuple(fresh("u", I) for _ in v.dims)
            conds, sidx = [], []
            for x, s in zip(vs, p[1]):
                if s[0] == "i":
                    conds.append(eq(x, s[1]))
                elif s[0] == "all":
                    sidx.append(x)
                elif s[0] == "new":
                    raise Unsupported("write through inserted axis")
                else:
                    conds += [le(s[1], x), lt(x, s[2])]
                    sidx.append(sub(x, s[1]))
            if isinstance(nw, Seq):
                e = nw.at(*sidx)
            else:
                e = nw
            return Seq(v.dims, vs, self.vite(conj(conds), e, v.at(*vs)), v.tag)
        raise Unsupported("update %s of %s" % (k, type(v).__name__))

    def rv(self, v):
        """value behind references"""
        while isinstance(v, Ref):
            v = self.read(v.cell, v.path)
        return v

    # ------------------------------------------------------------ merging
    def vite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if same(a, b):
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(ite(c, a.t, b.t), a.kind or b.kind)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return Bool(bite(c, a.t, b.t))
        if isinstance(a, (Seq, It)) and type(a) is type(b) and len(a.dims) == len(b.dims):
            vs = tuple(fresh("m", I) for _ in a.dims)
            dims = []
            for x, y in zip(a.dims, b.dims):
                dims.append(x if x is y or self.ctx.decide(eq(x, y)) else ite(c, x, y))
            e = self.vite(c, a.at(*vs), b.at(*vs))
            if isinstance(a, Seq):
                return Seq(dims, vs, e, a.tag)
            g = bite(c, subst(a.guard, dict(zip(a.vs, vs))), subst(b.guard, dict(zip(b.vs, vs))))
            return It(dims, vs, e, g)
        if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
            return Struct(a.name, {k: self.vite(c, a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.vite(c, x, y) for x, y in zip(a.items, b.items)]) if a.items else a
        if isinstance(a, Enum) and isinstance(b, Enum) and a.name == b.name and len(a.args) == len(b.args):
            return Enum(a.name, [self.vite(c, x, y) for x, y in zip(a.args, b.args)], a.ty)
        if isinstance(a, OrdV) and isinstance(b, OrdV):
            return OrdV(self.vite(c, a.a, b.a), self.vite(c, a.b, b.b))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if isinstance(a, RangeV) and isinstance(b, RangeV) and a.lo and b.lo and a.hi and b.hi:
            return RangeV(ite(c, a.lo, b.lo), ite(c, a.hi, b.hi), a.kind or b.kind)
        alts = []
        for g, v in ((c, a), (mknot(c), b)):
            if isinstance(v, Mux):
                alts += [(mkand(g, g2), v2) for g2, v2 in v.alts]
            else:
                alts.append((g, v))
        out = []
        for g, v in alts:
            for n, (g2, v2) in enumerate(out):
                if isinstance(v, Enum) and isinstance(v2, Enum) and v.name == v2.name and len(v.args) == len(v2.args):
                    out[n] = (mkor(g, g2), Enum(v.name, [self.vite(g, x, y) for x, y in zip(v.args, v2.args)], v.ty))
                    break
            else:
                out.append((g, v))
        return Mux(out)

    def merge_heap(self, c, h1, h2):
        out = dict(h2)
        for k, v in h1.items():
            if k in h2:
                if h2[k] is not v and not same(v, h2[k]):
                    out[k] = self.vite(c, v, h2[k])
            else:
                out[k] = v
        return out

    def branch(self, c, fa, fb):
        if c is not TRUE and c is not FALSE:
            k = self.ctx.known(c)
            if k is not None:
                c = TRUE if k else FALSE
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        check_deadline()
        heap0 = self.heap
        mark = len(self.ctx.facts)
        self.heap = dict(heap0)
        self.push_pc(c)
        esc_a = esc_b = False
        va = vb = None
        try:
            va = fa()
        except Escape:
            esc_a = True
        ha = self.heap
        fa_new = [] if esc_a else self.facts_since(mark)
        fa_keep = [(f, i in self.pcidx) for i, f in enumerate(self.ctx.facts[mark:], mark)]
        self.reset(mark)
        self.heap = dict(heap0)
        self.push_pc(mknot(c))
        try:
            vb = fb()
        except Escape:
            esc_b = True
        hb = self.heap
        if esc_a and esc_b:
            self.reset(mark)
            raise Escape()
        if esc_a:
            if self.dead(mark, c):
                self.reset(mark)
                raise Escape()
            return vb         # facts (with not c as a path condition) stay
        if esc_b:
            self.reset(mark)
            for f, ispc in fa_keep:
                (self.push_pc if ispc else self.ctx.add)(f)
            self.heap = ha
            return va
        fb_new = self.facts_since(mark)
        self.reset(mark)
        for f in fa_new + fb_new:
            if f not in self.ctx.facts:
                self.ctx.add(f)
        self.heap = self.merge_heap(c, ha, hb)
        return self.vite(c, va, vb)

    def dead(self, mark, c):
        """does c always hold, so that the code after an exit taken on c is unreachable?"""
        if not self.deadcheck or self.discover:
            return False
        facts = list(self.ctx.facts)
        self.ctx.facts = facts[:mark]
        try:
            from prover import Prover
            P = Prover(self.ctx, 4000)
            P.lemmas = list(getattr(self, "lemmas", []))
            key = (tuple(self.ctx.facts), c)
            if key not in self.deadmemo:
                self.deadmemo[key] = bool(P.prove(c))
            return self.deadmemo[key]
        finally:
            self.ctx.facts = facts

    def split(self, v, f):
        """case split over the alternatives of a Mux"""
        v = self.rv(v)
        if not isinstance(v, Mux):
            return f(v)
        def go(alts):
            if len(alts) == 1:
                return f(alts[0][1])
            return self.branch(alts[0][0], lambda: f(alts[0][1]), lambda: go(alts[1:]))
        return go(v.alts)

    # ------------------------------------------------------------ calling
    def call_fn(self, fn, args, self_args=None):
        for key in (fn.qual, fn.name):
            o = self.overrides.get(key)
            if o is not None:
                r = o(self, fn, args)
                if r is not NotImplemented:
                    return r
        if fn.ast["body"] is None:
            raise Unsupported("no body for %s" % fn.qual)
        if self.depth > 40:
            raise Unsupported("recursion in %s" % fn.name)
        self.called[fn.qual] = fn.where()
        params = fn.ast["ps"]
        if len(params) != len(args):
            raise Unsupported("arity of %s" % fn.qual)
        env = {}
        fr = Frame(fn, len(self.ctx.facts))
        fr.selfty = fn.impl["self"] if fn.impl else None
        oldline = self.cur_line
        self.frames.append(fr)
        saved_loops = self.loops
        self.loops = []
        self.depth += 1
        try:
            for p, a in zip(params, args):
                if p["k"] == "self":
                    env["self"] = self.alloc(a if isinstance(a, Ref) else a)
                else:
                    ty = p.get("ty")
                    if ty and ty.get("k") == "path" and isinstance(a, Ref) and False:
                        a = self.rv(a)
                    if not (ty and ty.get("k") == "ref" and ty.get("mut")) and isinstance(a, Ref) and \
                            not (ty and ty.get("k") == "path" and "ViewMut" in tyname(ty)) and not _generic_ty(ty, fn):
                        a = self.rv(a)
                    self.bind(p["pat"], a, env)
            heap_ok = True
            try:
                v = self.block(fn.ast["body"], env)
            except Escape:
                heap_ok = False
                v = None
            return self.join(fr.mark, fr.returns, v, heap_ok)
        finally:
            self.depth -= 1
            self.frames.pop()
            self.loops = saved_loops
            self.cur_line = oldline

    def join(self, mark, records, v, alive):
        """merge recorded exits with the fall-through state (if alive)"""
        if not records:
            if not alive:
                self.reset(mark)
                raise Escape()
            return v
        facts = self.facts_since(mark) if alive else []
        self.reset(mark)
        for f in facts:
            self.ctx.add(f)
        recs = list(records)
        if alive:
            heap, val = self.heap, v
        else:
            cond, val, heap, fs = recs.pop()
            for f in fs:
                self.ctx.add(f)
        for cond, v2, h2, fs in reversed(recs):
            heap = self.merge_heap(cond, h2, heap)
            val = self.vite(cond, v2, val) if (val is not None and v2 is not None) else (v2 if val is None else val)
            for f in fs:
                if f not in self.ctx.facts:
                    self.ctx.add(f)
        self.heap = heap
        return val

    # ------------------------------------------------------------ patterns
    def bind(self, p, v, env):
        """irrefutable binding"""
        k = p["k"]
        if k == "ident":
            if p.get("sub"):
                raise Unsupported("@ pattern")
            env[p["n"]] = self.alloc(self.bound(p["n"], v, {p["n"]}) if p.get("ref") and p.get("mut") else v)
            return
        if k == "wild":
            return
        if k == "typed":
            return self.bind(p["p"], v, env)
        if k == "ref":
            return self.bind(p["p"], self.rv(v), env)
        c, bs = self.match_pat(p, v)
        if c is not TRUE and not self.ctx.decide(c):
            raise Unsupported("refutable binding")
        names = _refmut(p) or None
        for n, x in bs:
            env[n] = self.alloc(self.bound(n, x, names))

    def scrutinee(self, ps, e, env):
        """the matched value: the place itself when a `ref mut` pattern borrows from it"""
        names = set().union(*[_refmut(p) for p in ps])
        if not names:
            return self.ev(e, env), None
        if e["k"] in ("field", "index") or (e["k"] == "path" and len(e["p"]) == 1 and e["p"][0]["n"] in env) or \
                (e["k"] == "un" and e["op"] == "*"):
            c, path = self.place(e, env)
            v = Ref(c, path)
        else:
            v = self.ev(e, env)
            if not isinstance(v, Ref):
                v = Ref(self.alloc(v))
        if isinstance(self.rv(v), Mux):
            raise Unsupported("ref mut pattern on mux")
        return v, names

    def bound(self, n, x, names):
        if names is None:
            return x
        if n in names:
            return x if isinstance(x, Ref) else Ref(self.alloc(x))
        return self.rv(x)

    def match_pat(self, p, v):
        k = p["k"]
        if k == "wild" or k == "rest":
            return TRUE, []
        if k == "ident":
            n = p["n"]
            if p.get("sub"):
                c, bs = self.match_pat(p["sub"], v)
                return c, bs + [(n, v)]
            if n == "None" or (n in self.prog.enums and n[:1].isupper()):
                return self.match_variant(n, [], v)
            return TRUE, [(n, v)]
        if k == "typed":
            return self.match_pat(p["p"], v)
        if k == "ref":
            return self.match_pat(p["p"], self.rv(v))
        if k == "tuple":
            refd = isinstance(v, Ref)
            w = self.rv(v)
            if isinstance(w, Mux):
                raise Unsupported("tuple pattern on mux")
            if not isinstance(w, Tup):
                raise Unsupported("tuple pattern on %s" % type(w).__name__)
            ps = p["ps"]
            if any(q["k"] == "rest" for q in ps):
                i = [q["k"] for q in ps].index("rest")
                tail = len(ps) - i - 1
                pairs = list(zip(ps[:i], range(i))) + list(zip(ps[i + 1:], range(len(w.items) - tail, len(w.items))))
            else:
                if len(ps) != len(w.items):
                    raise Unsupported("tuple arity")
                pairs = list(zip(ps, range(len(ps))))
            cs, bs = [], []
            for q, i in pairs:
                x = Ref(v.cell, v.path + (("f", str(i)),)) if refd else w.items[i]
                c, b = self.match_pat(q, x)
                cs.append(c)
                bs += b
            return conj(cs), bs
        if k == "tstruct" or k == "path" or k == "struct":
            name = p["p"][-1]["n"]
            w = self.rv(v)
            if isinstance(w, Struct):
                cs, bs = [], []
                if k == "struct":
                    for f in p["fs"]:
                        x = Ref(v.cell, v.path + (("f", f["n"]),)) if isinstance(v, Ref) else w.fields[f["n"]]
                        c, b = self.match_pat(f["p"], x)
                        cs.append(c)
                        bs += b
                elif k == "tstruct":
                    for i, q in enumerate(p["ps"]):
                        if q["k"] == "rest":
                            break
                        x = Ref(v.cell, v.path + (("f", str(i)),)) if isinstance(v, Ref) else w.fields[str(i)]
                        c, b = self.match_pat(q, x)
                        cs.append(c)
                        bs += b
                return conj(cs), bs
            ps = p.get("ps", []) if k == "tstruct" else []
            if k == "struct":
                raise Unsupported("struct variant pattern")
            return self.match_variant(name, ps, v)
        if k == "lit":
            lv = self.ev(p["e"], {})
            w = self.rv(v)
            return self.veq(lv, w), []
        if k == "range":
            w = self.rv(v)
            cs = []
            if p["lo"]:
                cs.append(le(self.ev(p["lo"], {}).t, w.t))
            if p["hi"]:
                h = self.ev(p["hi"], {}).t
                cs.append(le(w.t, h) if p["incl"] else lt(w.t, h))
            return conj(cs), []
        if k == "or":
            c = FALSE
            for q in p["ps"]:
                c1, b1 = self.match_pat(q, v)
                if b1:
                    raise Unsupported("binding or-pattern")
                c = mkor(c, c1)
            return c, []
        raise Unsupported("pattern " + k)

    def match_variant(self, name, ps, v):
        w = self.rv(v)
        if isinstance(w, OrdV):
            x, y = w.a.t, w.b.t
            return {"Less": lt(x, y), "Greater": lt(y, x), "Equal": eq(x, y)}[name], []
        if isinstance(w, Enum):
            if w.name != name:
                return FALSE, []
            cs, bs = [], []
            for i, q in enumerate(ps):
                if q["k"] == "rest":
                    break
                x = Ref(v.cell, v.path + (("a", i),)) if isinstance(v, Ref) else w.args[i]
                c, b = self.match_pat(q, x)
                cs.append(c)
                bs += b
            return conj(cs), bs
        if isinstance(w, Mux):
            raise Unsupported("variant pattern on mux")
        raise Unsupported("variant pattern on %s" % type(w).__name__)

    # ------------------------------------------------------------ blocks
    def block(self, b, env, newscope=True):
        if b["k"] != "block":
            return self.ev(b, env)
        env = dict(env) if newscope else env
        v = UNIT
        n = len(b["ss"])
        for i, s in enumerate(b["ss"]):
            v = self.stmt(s, env, i == n - 1)
        return v

    def stmt(self, s, env, last):
        check_deadline()
        if s.get("line"):
            self.cur_line = s["line"]
        k = s["k"]
        if k == "let":
            if s["init"] is None:
                p = s["pat"]
                while p["k"] == "typed":
                    p = p["p"]
                env[p["n"]] = self.alloc(Opaque("uninit"))
                return UNIT
            v, refs = self.scrutinee([s["pat"]], s["init"], env)
            if s["else"] is not None:
                def arm(w):
                    c, bs = self.match_pat(s["pat"], w)
                    bs = [(n, self.bound(n, x, refs)) for n, x in bs]
                    def els():
                        self.ev(s["else"], env)
                        raise Escape()
                    out = {}
                    def ok():
                        for n, x in bs:
                            out[n] = x
                        return Tup([x for _, x in bs])
                    r = self.branch(c, ok, els)
                    names[:] = [n for n, _ in bs]
                    return r
                names = []
                r = self.split(v, arm)
                for n, x in zip(names, r.items):
                    env[n] = self.alloc(x)
                return UNIT
            p = s["pat"]
            t = None
            while p["k"] == "typed":
                t = p["t"]
                p = p["p"]
            if isinstance(v, Num) and v.kind is None and t is not None:
                v = Num(v.t, _tykind(t))
            self.bind(p, v, env)
            return UNIT
        if k == "expr":
            v = self.ev(s["e"], env)
            return UNIT if s["semi"] else v
        if k == "item":
            it = s["i"]
            if it and it.get("k") == "const":
                env[it["n"]] = self.alloc(self.ev(it["e"], env))
                return UNIT
            if it and it.get("k") == "fn":
                fn = Fn(it["n"], self.frames[-1].fn.file if self.frames else "?", [], it)
                env[it["n"]] = self.alloc(FnV(lambda I_, a, fn=fn: I_.call_fn(fn, a), it["n"]))
                return UNIT
            if it and it.get("k") == "use":
                return UNIT
            raise Unsupported("nested item")
        raise Unsupported("statement " + k)

    # ------------------------------------------------------------ places
    def place(self, e, env, auto=True):
        k = e["k"]
        if k == "path" and len(e["p"]) == 1 and e["p"][0]["n"] in env:
            c = env[e["p"][0]["n"]]
            if auto and isinstance(self.heap[c], Ref):
                r = self.heap[c]
                return r.cell, tuple(r.path)
            return c, ()
        if k == "un" and e["op"] == "*":
            c, p = self.place(e["e"], env)
            return c, p
        if k == "field":
            c, p = self.place(e["e"], env)
            c, p, _ = self.resolve(c, p)
            return c, p + (("f", e["n"]),)
        if k == "index":
            c, p = self.place(e["e"], env)
            c, p, v = self.resolve(c, p)
            idx = self.index_terms(e["i"], env)
            if idx is None:
                sp = self.range_spec(v, self.ev(e["i"], env))
                return c, p + (("sl", sp),)
            self.bounds(v, idx)
            return c, p + (("ix", tuple(idx)),)
        if k == "ref":
            return self.place(e["e"], env)
        if k == "mcall" and e["m"] in ("slice_mut", "row_mut", "column_mut", "index_axis_mut", "view_mut", "slice",
                                       "as_mut_slice", "as_mut", "borrow_mut", "by_ref", "row", "column", "view",
                                       "as_slice_mut", "unwrap", "iter_mut") and \
                self.user_method(e["m"]) is None and e["m"] not in ("slice", "row", "column", "view", "unwrap", "iter_mut"):
            c, p = self.place(e["recv"], env)
            c, p, v = self.resolve(c, p)
            sp = self.mut_view_spec(e, v, env)
            if sp is None:
                return c, p
            return c, p + (("sl", sp),)
        v = self.ev(e, env)
        if isinstance(v, Ref):
            return v.cell, tuple(v.path)
        return self.alloc(v), ()

    def mut_view_spec(self, e, v, env):
        m = e["m"]
        if m in ("view_mut", "as_mut_slice", "as_mut", "borrow_mut", "by_ref", "as_slice_mut"):
            return None
        if m == "slice_mut":
            return self.slice_spec(v, e["args"][0], env)
        a = [self.num(self.ev(x, env)) if n or m != "index_axis_mut" else self.ev(x, env) for n, x in enumerate(e["args"])]
        if m == "row_mut":
            self.oblige("bounds", lt(a[0], v.dims[0]), "row_mut")
            return (("i", a[0]), ("all",))
        if m == "column_mut":
            self.oblige("bounds", lt(a[0], v.dims[1]), "column_mut")
            return (("all",), ("i", a[0]))
        ax = self.axis(a[0])
        self.oblige("bounds", lt(a[1], v.dims[ax]), "index_axis_mut")
        return tuple(("i", a[1]) if d == ax else ("all",) for d in range(len(v.dims)))

    def axis(self, v):
        v = self.rv(v)
        if isinstance(v, Struct) and v.name == "Axis":
            t = v.fields["0"].t
            if isnum(t):
                return int(t.args[0])
        raise Unsupported("axis")

    def index_terms(self, ie, env):
        """index expression -> list of terms, None for a range"""
        if ie["k"] == "range":
            return None
        if ie["k"] in ("arr", "tuple"):
            vs = [self.rv(self.ev(x, env)) for x in ie["es"]]
        else:
            w = self.rv(self.ev(ie, env))
            if isinstance(w, RangeV):
                return None
            if isinstance(w, Tup):
                vs = w.items
            elif isinstance(w, Seq) and len(w.dims) == 1 and isnum(w.dims[0]):
                vs = [w.at(num(i)) for i in range(int(w.dims[0].args[0]))]
            else:
                vs = [w]
        out = []
        for w in vs:
            w = self.rv(w)
            if not isinstance(w, Num):
                raise Unsupported("index by %s" % type(w).__name__)
            out.append(w.t)
        return out

    def bounds(self, v, idx, kind="bounds"):
        if isinstance(v, Seq):
            if len(idx) > len(v.dims):
                raise Unsupported("index rank")
            for t, d in zip(idx, v.dims):
                self.oblige(kind, mkand(le(ZERO, t), lt(t, d)), "index %s < %s" % (show(t)[:80], show(d)[:60]))
        elif isinstance(v, Mux):
            raise Unsupported("index of mux")
        elif not isinstance(v, Abs):
            raise Unsupported("index into %s" % type(v).__name__)

    def seq_at(self, v, idx):
        v = self.rv(v)
        if not isinstance(v, Seq):
            raise Unsupported("indexing %s" % type(v).__name__)
        if len(idx) == len(v.dims):
            return v.at(*idx)
        vs = v.vs[len(idx):]
        return Seq(v.dims[len(idx):], vs, vsubst(v.elem, dict(zip(v.vs[:len(idx)], idx))), v.tag)

    def range_spec(self, v, r):
        r = self.rv(r)
        if not isinstance(r, RangeV):
            raise Unsupported("slice by %s" % type(r).__name__)
        lo = r.lo if r.lo is not None else ZERO
        hi = r.hi if r.hi is not None else v.dims[0]
        self.oblige("bounds", mkand(le(ZERO, lo), le(lo, hi), le(hi, v.dims[0])), "slice range")
        return (("r", lo, hi),) + tuple(("all",) for _ in v.dims[1:])

    def slice_spec(self, v, e, env):
        """s![..] macro argument"""
        if e["k"] != "macro" or e["n"] != "s" or e["args"] is None:
            raise Unsupported("slice argument")
        if len(e["args"]) != len(v.dims):
            raise Unsupported("slice rank")
        out = []
        for a, d in zip(e["args"], v.dims):
            if a["k"] == "range":
                if a["lo"] is None and a["hi"] is None:
                    out.append(("all",))
                    continue
                lo = self.num(self.ev(a["lo"], env)) if a["lo"] else ZERO
                hi = self.num(self.ev(a["hi"], env)) if a["hi"] else d
                if a["incl"]:
                    hi = add(hi, ONE)
                if isnum(lo) and lo.args[0] < 0:
                    lo = add(d, lo)
                if isnum(hi) and hi.args[0] < 0:
                    hi = add(d, hi)
                self.oblige("bounds", mkand(le(ZERO, lo), le(lo, hi), le(hi, d)), "slice range")
                out.append(("r", lo, hi))
            else:
                w = self.rv(self.ev(a, env))
                if isinstance(w, RangeV):
                    lo = w.lo if w.lo is not None else ZERO
                    hi = w.hi if w.hi is not None else d
                    if lo is ZERO and hi is d:
                        out.append(("all",))
                        continue
                    self.oblige("bounds", mkand(le(ZERO, lo), le(lo, hi), le(hi, d)), "slice range")
                    out.append(("r", lo, hi))
                else:
                    t = self.num(w)
                    if isnum(t) and t.args[0] < 0:
                        t = add(d, t)
                    self.oblige("bounds", mkand(le(ZERO, t), lt(t, d)), "slice index")
                    out.append(("i", t))
        return tuple(out)

    def slice_view(self, v, spec):
        if not isinstance(v, Seq):
            raise Unsupported("slice of %s" % type(v).__name__)
        dims, vs, m = [], [], {}
        for s, d, x in zip(spec, v.dims, v.vs):
            if s[0] == "i":
                m[x] = s[1]
            elif s[0] == "all":
                y = fresh("s", I)
                dims.append(d)
                vs.append(y)
                m[x] = y
            else:
                y = fresh("s", I)
                dims.append(sub(s[2], s[1]))
                vs.append(y)
                m[x] = add(y, s[1])
        return Seq(dims, tuple(vs), vsubst(v.elem, m), v.tag)

    def num(self, v):
        v = self.rv(v)
        if isinstance(v, Num):
            return v.t
        if isinstance(v, Mux):
            raise Unsupported("number from mux")
        raise Unsupported("number expected, got %s" % type(v).__name__)

    def boolean(self, v):
        v = self.rv(v)
        if isinstance(v, Bool):
            return v.t
        raise Unsupported("bool expected, got %s" % type(v).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression " + e["k"] + " " + str(e.get("txt", ""))[:60])
        if e.get("line"):
            self.cur_line = e["line"]
        return m(e, env)

    def e_int(self, e, env):
        k = e["suf"]
        return Num(num(int(e["v"].replace("_", ""))), None if not k else k[0])

    def e_float(self, e, env):
        return Num(num(Fraction(e["v"].replace("_", "").rstrip("."))), "f")

    def e_bool(self, e, env):
        return Bool(TRUE if e["v"] else FALSE)

    def e_str(self, e, env):
        return Str(e["v"])

    def e_otherlit(self, e, env):
        return Opaque(e["txt"])

    def e_block(self, e, env):
        return self.block(e, env)

    def e_ref(self, e, env):
        if e["mut"]:
            c, p = self.place(e["e"], env)
            return Ref(c, p)
        v = self.ev(e["e"], env)
        return v

    def e_un(self, e, env):
        op = e["op"]
        if op == "*":
            return self.rv(self.ev(e["e"], env))
        v = self.rv(self.ev(e["e"], env))
        if op == "!":
            if isinstance(v, Bool):
                return Bool(mknot(v.t))
            raise Unsupported("bitwise not")
        if op == "-":
            return self.map_num(v, lambda x: Num(neg(x.t), x.kind))
        raise Unsupported("unary " + op)

    def map_num(self, v, f):
        v = self.rv(v)
        if isinstance(v, Num):
            return f(v)
        if isinstance(v, Seq):
            return Seq(v.dims, v.vs, self.map_num(v.elem, f), v.tag, None)
        raise Unsupported("arithmetic on %s" % type(v).__name__)

    ASSIGN_OPS = {"+=", "-=", "*=", "/=", "%="}

    def e_bin(self, e, env):
        op = e["op"].replace(" ", "")
        if op in self.ASSIGN_OPS:
            r = self.ev(e["r"], env)
            c, p = self.place(e["l"], env)
            c, p, old = self.resolve(c, p)
            self.write(c, p, self.arith(op[0], old, r))
            return UNIT
        if op in ("&&", "||"):
            a = self.boolean(self.ev(e["l"], env))
            if op == "&&":
                return self.branch(a, lambda: Bool(self.boolean(self.ev(e["r"], env))), lambda: Bool(FALSE))
            return self.branch(a, lambda: Bool(TRUE), lambda: Bool(self.boolean(self.ev(e["r"], env))))
        a = self.rv(self.ev(e["l"], env))
        b = self.rv(self.ev(e["r"], env))
        if op in ("==", "!="):
            c = self.veq(a, b)
            return Bool(c if op == "==" else mknot(c))
        if op in ("<", "<=", ">", ">="):
            return Bool(self.compare(op, a, b))
        if op in ("&", "|", "^"):
            x, y = self.boolean(a), self.boolean(b)
            return Bool({"&": mkand(x, y), "|": mkor(x, y), "^": mknot(iff(x, y))}[op])
        return self.arith(op, a, b)

    def compare(self, op, a, b):
        if not (isinstance(a, Num) and isinstance(b, Num)):
            raise Unsupported("comparison of %s" % type(a).__name__)
        x, y = a.t, b.t
        return {"<": lt(x, y), "<=": le(x, y), ">": lt(y, x), ">=": le(y, x)}[op]

    def veq(self, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, Num) and isinstance(b, Num):
            return eq(a.t, b.t)
        if isinstance(a, Bool) and isinstance(b, Bool):
            return iff(a.t, b.t)
        if isinstance(a, Enum) and isinstance(b, Enum):
            if a.name != b.name:
                return FALSE
            return conj([self.veq(x, y) for x, y in zip(a.args, b.args)])
        if isinstance(a, OrdV) and isinstance(b, Enum):
            return self.match_variant(b.name, [], a)[0]
        if isinstance(a, Str) and isinstance(b, Str):
            return TRUE if a.s == b.s else FALSE
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return conj([self.veq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name:
            return conj([self.veq(a.fields[k], b.fields[k]) for k in a.fields])
        if isinstance(a, Mux):
            return conj([imp(c, self.veq(v, b)) for c, v in a.alts])
        if isinstance(b, Mux):
            return self.veq(b, a)
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.dims) == len(b.dims):
            vs = [fresh("q", I) for _ in a.dims]
            c = self.veq(a.at(*vs), b.at(*vs))
            for v, d in reversed(list(zip(vs, a.dims))):
                c = mkforall(v, ZERO, d, c)
            return mkand(c, *[eq(x, y) for x, y in zip(a.dims, b.dims)])
        raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))

    def arith(self, op, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, Num) and isinstance(b, Num):
            return self.arith_num(op, a, b)
        if isinstance(a, Seq) and isinstance(b, Num):
            if op in "/%":
                return Seq(a.dims, a.vs, self.with_vars(a.vs, a.dims, lambda: self.arith(op, a.elem, b)), "arr")
            return Seq(a.dims, a.vs, self.arith(op, a.elem, b), "arr")
        if isinstance(a, Num) and isinstance(b, Seq):
            return Seq(b.dims, b.vs, self.with_vars(b.vs, b.dims, lambda: self.arith(op, a, b.elem)), "arr")
        if isinstance(a, Seq) and isinstance(b, Seq):
            if len(a.dims) < len(b.dims):
                raise Unsupported("broadcast of the left operand")
            k = len(a.dims) - len(b.dims)
            vs = tuple(fresh("e", I) for _ in a.dims)
            dims = list(a.dims)
            bi = []
            for n, (x, y) in enumerate(zip(a.dims[k:], b.dims)):
                if x is y or self.ctx.decide(eq(x, y)):
                    bi.append(vs[k + n])
                elif y is ONE:
                    bi.append(ZERO)
                elif x is ONE:
                    raise Unsupported("broadcast")
                else:
                    self.oblige("shape", eq(x, y), "elementwise operation")
                    bi.append(vs[k + n])
            return Seq(dims, vs, self.with_vars(vs, dims, lambda: self.arith(op, a.at(*vs), b.at(*bi))), "arr")
        if isinstance(a, Mux):
            return self.split(a, lambda x: self.arith(op, x, b))
        if isinstance(b, Mux):
            return self.split(b, lambda x: self.arith(op, a, x))
        raise Unsupported("arithmetic on %s and %s" % (type(a).__name__, type(b).__name__))

    def with_vars(self, vs, dims, f):
        """evaluate f for generic index values; facts added inside are dropped"""
        mark = len(self.ctx.facts)
        for v, d in zip(vs, dims):
            self.push_pc(le(ZERO, v))
            self.push_pc(lt(v, d))
        h0 = self.heap
        self.heap = dict(h0)
        try:
            r = f()
            self.check_pure(h0)
            return r
        finally:
            self.heap = {**h0, **{k: v for k, v in self.heap.items() if k not in h0}}
            self.reset(mark)

    def check_pure(self, h0):
        for k, v in h0.items():
            w = self.heap.get(k)
            if w is not v and not same(v, w):
                raise Unsupported("side effect in a pure context")

    def arith_num(self, op, a, b):
        k = a.kind or b.kind
        if op == "+":
            return Num(add(a.t, b.t), k)
        if op == "-":
            if k == "u" or (k is None and False):
                self.oblige("underflow", le(b.t, a.t), "%s - %s" % (show(a.t)[:60], show(b.t)[:60]))
            return Num(sub(a.t, b.t), k)
        if op == "*":
            return Num(mul(a.t, b.t), k)
        if op == "/":
            if k in ("u", "i") or (k is None):
                self.oblige("divzero", mknot(eq(b.t, ZERO)), "integer division")
                return Num(idiv(a.t, b.t), k)
            self.oblige("defined", mknot(eq(b.t, ZERO)), "denominator")
            return Num(div(a.t, b.t), k)
        if op == "%":
            if k in ("u", "i") or k is None:
                self.oblige("divzero", mknot(eq(b.t, ZERO)), "remainder")
                return Num(imod(a.t, b.t), k)
        raise Unsupported("operator " + op)

    def e_assign(self, e, env):
        v = self.ev(e["r"], env)
        if e["l"]["k"] == "path" and len(e["l"]["p"]) == 1 and e["l"]["p"][0]["n"] == "_":
            return UNIT
        if e["l"]["k"] == "other" and e["l"].get("txt") == "_":
            return UNIT
        if e["l"]["k"] == "tuple":
            w = self.rv(v)
            if not isinstance(w, Tup):
                raise Unsupported("tuple assignment")
            for x, y in zip(e["l"]["es"], w.items):
                c, p = self.place(x, env, auto=x["k"] != "path")
                self.write(c, p, y)
            return UNIT
        c, p = self.place(e["l"], env, auto=e["l"]["k"] != "path")
        if isinstance(v, Ref) and e["l"]["k"] != "path":
            v = self.rv(v)
        if isinstance(v, Num) and v.kind is None:
            try:
                old = self.read(c, p)
                if isinstance(old, Num):
                    v = Num(v.t, old.kind)
            except Unsupported:
                pass
        self.write(c, p, v)
        return UNIT

    def e_field(self, e, env):
        c, p = self.place(e["e"], env)
        c, p, v = self.resolve(c, p)
        if isinstance(v, Mux):
            return self.split(v, lambda w: self.step(w, ("f", e["n"])))
        if isinstance(v, Abs):
            d = v.data or {}
            if e["n"] in d:
                return d[e["n"]]
            raise Unsupported("field of abstract " + v.name)
        w = self.step(v, ("f", e["n"]))
        return w

    def e_index(self, e, env):
        base = self.rv(self.ev(e["e"], env))
        idx = self.index_terms(e["i"], env)
        if isinstance(base, Mux):
            return self.split(base, lambda b: self.index_value(b, idx, e, env))
        return self.index_value(base, idx, e, env)

    def index_value(self, base, idx, e, env):
        if not isinstance(base, Seq):
            raise Unsupported("index into %s" % type(base).__name__)
        if idx is None:
            return self.slice_view(base, self.range_spec(base, self.ev(e["i"], env)))
        self.bounds(base, idx)
        return self.seq_at(base, idx)

    def e_tuple(self, e, env):
        return Tup([self.ev(x, env) for x in e["es"]]) if e["es"] else UNIT

    def e_arr(self, e, env):
        return self.literal([self.ev(x, env) for x in e["es"]])

    def literal(self, vs):
        v = fresh("l", I)
        if not vs:
            return Seq([ZERO], (v,), Num(ZERO, None), "vec")
        r = vs[-1]
        for i in range(len(vs) - 2, -1, -1):
            r = self.vite(eq(v, num(i)), vs[i], r)
        return Seq([num(len(vs))], (v,), r, "vec")

    def e_arrrep(self, e, env):
        return Seq([self.num(self.ev(e["n"], env))], (fresh("l", I),), self.ev(e["e"], env), "vec")

    def e_range(self, e, env):
        lo = self.rv(self.ev(e["lo"], env)) if e["lo"] else None
        hi = self.rv(self.ev(e["hi"], env)) if e["hi"] else None
        k = (lo.kind if lo else None) or (hi.kind if hi else None)
        h = hi.t if hi else None
        if e["incl"] and h is not None:
            h = add(h, ONE)
        return RangeV(lo.t if lo else None, h, k)

    def e_cast(self, e, env):
        v = self.rv(self.ev(e["e"], env))
        k = _tykind(e["t"])
        if isinstance(v, Num):
            if k == "u" and v.kind in ("i", None):
                self.oblige("cast", le(ZERO, v.t), "negative value cast to an unsigned type")
                return Num(v.t, "u")
            if k in ("u", "i") and v.kind == "f":
                raise Unsupported("float to int cast")
            return Num(v.t, k or v.kind)
        if isinstance(v, Bool):
            return Num(iv(v.t), k)
        raise Unsupported("cast")

    def e_struct(self, e, env):
        name = e["p"][-1]["n"]
        if name == "Self":
            name = self.self_name()
        fs = {}
        if e["rest"]:
            base = self.rv(self.ev(e["rest"], env))
            fs.update(base.fields)
        for f in e["fs"]:
            v = self.ev(f["e"], env)
            fs[f["n"]] = self.fix_kind(v, name, f["n"])
        if name in self.prog.enums and name not in self.prog.structs:
            raise Unsupported("struct variant")
        return Struct(name, fs)

    def fix_kind(self, v, sname, fname):
        if isinstance(v, Num) and v.kind is None and sname in self.prog.structs:
            for f in self.prog.structs[sname]["fs"]:
                if f["n"] == fname:
                    return Num(v.t, _tykind(f["t"]) or "f")
        return v

    def self_name(self):
        for fr in reversed(self.frames):
            t = getattr(fr, "selfty", None)
            if t is not None:
                return tyname_last(t)
        raise Unsupported("Self")

    def e_closure(self, e, env):
        return Clo(e["ps"], e["b"], dict(env), self.frames[-1] if self.frames else None)

    def call_value(self, f, args):
        f = self.rv(f)
        if isinstance(f, FnV):
            return f.f(self, args)
        if isinstance(f, Clo):
            env = dict(f.env)
            if len(f.params) != len(args):
                raise Unsupported("closure arity")
            fr = Frame(self.frames[-1].fn if self.frames else None, len(self.ctx.facts))
            fr.selfty = getattr(f.frame, "selfty", None) if f.frame else None
            self.frames.append(fr)
            sl, self.loops = self.loops, []
            line = self.cur_line
            try:
                for p, a in zip(f.params, args):
                    self.bind_multi(p, a, env)
                alive = True
                v = None
                try:
                    v = self.ev(f.body, env)
                except Escape:
                    alive = False
                return self.join(fr.mark, fr.returns, v, alive)
            finally:
                self.frames.pop()
                self.loops = sl
                self.cur_line = line
        raise Unsupported("call of %s" % type(f).__name__)

    def bind_multi(self, p, a, env):
        self.bind(p, a, env)

    def e_if(self, e, env):
        c = e["c"]
        els = (lambda env2=env: self.ev(e["e"], env2)) if e["e"] else (lambda: UNIT)
        return self.cond_branch(c, env, lambda env2: self.block(e["t"], env2), els)

    def cond_branch(self, c, env, then, els):
        if c["k"] == "letcond":
            v, refs = self.scrutinee([c["p"]], c["e"], env)

            def arm(w):
                cc, bs = self.match_pat(c["p"], w)
                bs = [(n, self.bound(n, x, refs)) for n, x in bs]

                def th():
                    env2 = dict(env)
                    for n, x in bs:
                        env2[n] = self.alloc(x)
                    return then(env2)
                return self.branch(cc, th, els)
            if isinstance(v, Ref) and not isinstance(self.rv(v), Mux):
                return arm(v)
            return self.split(v, arm)
        if c["k"] == "bin" and c["op"].replace(" ", "") == "&&" and _has_letcond(c):
            return self.cond_branch(c["l"], env, lambda env2: self.cond_branch(c["r"], env2, then, els), els)
        t = self.boolean(self.ev(c, env))
        return self.branch(t, lambda: then(env), els)

    def e_match(self, e, env):
        v, refs = self.scrutinee([a["p"] for a in e["arms"]], e["e"], env)

        def on(w):
            arms = e["arms"]

            def go(i):
                if i == len(arms):
                    self.oblige("panic", FALSE, "non-exhaustive match")
                    raise Escape()
                a = arms[i]
                c, bs = self.match_pat(a["p"], w)
                if c is FALSE:
                    return go(i + 1)
                bs = [(n, self.bound(n, x, refs)) for n, x in bs]

                def body():
                    env2 = dict(env)
                    for n, x in bs:
                        env2[n] = self.alloc(x)
                    if a["g"]:
                        g = self.boolean(self.ev(a["g"], env2))
                        return self.branch(g, lambda: self.ev(a["b"], env2), lambda: go(i + 1))
                    return self.ev(a["b"], env2)
                if i == len(arms) - 1 and not a["g"]:
                    return body()        # exhaustive by typing
                return self.branch(c, body, lambda: go(i + 1))
            return go(0)
        if isinstance(v, Ref) and not isinstance(self.rv(v), Mux):
            return on(v)
        if isinstance(v, Tup) and any(isinstance(self.rv(x), Mux) for x in v.items):
            def go(i, items):
                if i == len(items):
                    return on(Tup(items))
                return self.split(items[i], lambda w: go(i + 1, items[:i] + [w] + items[i + 1:]))
            return go(0, list(v.items))
        return self.split(v, on)

    def e_matches(self, e, env):
        v = self.ev(e["e"], env)

        def on(w):
            c, bs = self.match_pat(e["p"], w)
            if e["g"]:
                env2 = dict(env)
                for n, x in bs:
                    env2[n] = self.alloc(x)
                return self.branch(c, lambda: Bool(self.boolean(self.ev(e["g"], env2))), lambda: Bool(FALSE))
            return Bool(c)
        return self.split(v, on)

    def e_return(self, e, env):
        v = self.ev(e["e"], env) if e["e"] else UNIT
        fr = self.frames[-1]
        if self.loopdepth_in(fr):
            lp = self.loops[-1]
            lp.returns.append((self.pcs_since(lp.bmark), v, dict(self.heap), self.facts_since(lp.bmark)))
            raise Escape()
        fr.returns.append((self.pcs_since(fr.mark), v, dict(self.heap), self.facts_since(fr.mark)))
        raise Escape()

    def loopdepth_in(self, fr):
        return bool(self.loops)

    def e_break(self, e, env):
        lp = self.find_loop(e["label"])
        v = self.ev(e["e"], env) if e["e"] else UNIT
        lp.breaks.append((self.pcs_since(lp.bmark), v, dict(self.heap), self.facts_since(lp.bmark)))
        raise Escape()

    def e_continue(self, e, env):
        lp = self.find_loop(e["label"])
        lp.continues.append((self.pcs_since(lp.mark), UNIT, dict(self.heap), self.facts_since(lp.mark)))
        raise Escape()

    def find_loop(self, label):
        if not self.loops:
            raise Unsupported("break outside loop")
        if label is not None and self.loops[-1].label != label:
            raise Unsupported("labelled break")
        return self.loops[-1]

    def e_try(self, e, env):
        v = self.ev(e["e"], env)

        def on(w):
            if isinstance(w, Enum) and w.name in ("Ok", "Some"):
                return w.args[0]
            if isinstance(w, Enum) and w.name in ("Err", "None"):
                fr = self.frames[-1]
                if self.loops:
                    lp = self.loops[-1]
                    lp.returns.append((self.pcs_since(lp.bmark), w, dict(self.heap), self.facts_since(lp.bmark)))
                    raise Escape()
                fr.returns.append((self.pcs_since(fr.mark), w, dict(self.heap), self.facts_since(fr.mark)))
                raise Escape()
            raise Unsupported("? on %s" % type(w).__name__)
        return self.split(v, on)

    def e_macro(self, e, env):
        n = e["n"]
        if n in ("println", "print", "eprintln", "eprint", "dbg", "write", "writeln", "debug", "info", "trace"):
            return UNIT
        if n in ("panic", "unreachable", "todo", "unimplemented"):
            self.oblige("panic", FALSE, n + "!")
            raise Escape()
        if n in ("assert", "debug_assert"):
            c = self.boolean(self.ev(e["args"][0], env))
            self.oblige("panic", c, n)
            self.push_pc(c)
            return UNIT
        if n in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
            c = self.veq(self.ev(e["args"][0], env), self.ev(e["args"][1], env))
            c = mknot(c) if n.endswith("ne") else c
            self.oblige("panic", c, n)
            self.push_pc(c)
            return UNIT
        if n == "vec" or n == "array":
            return self.literal([self.ev(x, env) for x in e["args"]])
        if n == "vec_rep":
            v = self.ev(e["args"][0], env)
            d = self.num(self.ev(e["args"][1], env))
            return Seq([d], (fresh("l", I),), v, "vec")
        if n == "format":
            return Str("fmt")
        if n == "matches":
            raise Unsupported("matches")
        raise Unsupported("macro " + n)

    # ------------------------------------------------------------ paths and calls
    FLOATISH = ("F", "f64", "f32", "T", "Float", "Signed", "NumCast")

    def e_path(self, e, env):
        p = e["p"]
        n = p[-1]["n"]
        if len(p) == 1:
            if n in env:
                return self.heap[env[n]]
            if n == "None":
                return Enum("None")
            if n == "PhantomData":
                return Opaque(n)
        v = self.const_path(p)
        if v is not None:
            return v
        return FnV(lambda I_, args: I_.call_path(e, args, {}), pathstr(p))

    def const_path(self, p):
        n = p[-1]["n"]
        if len(p) >= 2 and n in self.prog.enums and p[-2]["n"] in self.prog.enums[n]:
            d = self.prog.enumdefs[p[-2]["n"]]
            for v in d["vs"]:
                if v["n"] == n and not v["fs"]:
                    return Enum(n, [], p[-2]["n"])
        if n in ("Less", "Greater", "Equal") and len(p) >= 2:
            return Enum(n, [], "Ordering")
        if n == "E" and (len(p) == 1 or p[-2]["n"] == "consts"):
            return Num(tm._mk("exp", (ONE,), R), "f")
        if n in ("INFINITY",):
            return Num(POSINF, "f")
        if n in ("NEG_INFINITY",):
            return Num(NEGINF, "f")
        c = self.prog.consts.get(n)
        if c:
            here = self.frames[-1].fn.file if self.frames and self.frames[-1].fn else None
            for f, ex in c:
                if f == here or len(c) == 1:
                    v = self.ev(ex, {})
                    return v
        return None

    def e_call(self, e, env):
        f = e["f"]
        if f["k"] == "path":
            n = f["p"][-1]["n"]
            if len(f["p"]) == 1 and n in env:
                args = [self.ev(a, env) for a in e["args"]]
                return self.call_value(self.heap[env[n]], args)
            args = [self.ev(a, env) for a in e["args"]]
            return self.call_path(f, args, env)
        fv = self.ev(f, env)
        return self.call_value(fv, [self.ev(a, env) for a in e["args"]])

    def call_path(self, f, args, env):
        p = f["p"]
        n = p[-1]["n"]
        if n in ("Ok", "Err", "Some") and len(args) == 1:
            a = args[0]
            return Enum(n, [a])
        if n in self.prog.enums and len(p) >= 2 and p[-2]["n"] in self.prog.enums[n]:
            return Enum(n, args, p[-2]["n"])
        if len(p) == 1:
            fn = self.prog.free(n, near=self.frames[-1].fn.file if self.frames and self.frames[-1].fn else None)
            if fn is not None:
                return self.call_fn(fn, args)
            if n == "Self" or (n in self.prog.structs and self.prog.structs[n].get("tuple")):
                name = self.self_name() if n == "Self" else n
                return Struct(name, {str(i): a for i, a in enumerate(args)})
            if n == "Axis":
                return Struct("Axis", {"0": args[0]})
            if n in ("max", "min"):
                return self.float_fn(n, args)
            if n == "drop":
                return UNIT
            raise Unsupported("function " + n)
        q = p[-2]["n"]
        qual = q
        if f.get("q") is not None and len(p) >= 1:
            qual = tyname_last(f["q"])
        if q == "Self":
            qual = self.self_name()
        if q == "Default" and n == "default" and not args and self.frames and self.frames[-1].fn is not None:
            a = self.frames[-1].fn.ast
            ss = (a["body"] or {}).get("ss") or []
            if ss and ss[-1].get("e", {}).get("f") is f and a["ret"] is not None:
                ty = tyname_last(a["ret"])
                return self.assoc(self.self_name() if ty == "Self" else ty, n, args)
        # associated functions of user types
        if qual in self.prog.structs or qual in self.prog.types or qual in self.prog.enumdefs:
            name = qual
            if qual in self.prog.types:
                name = tyname_last(self.prog.types[qual]["t"])
            r = self.assoc(name, n, args)
            if r is not NotImplemented:
                return r
        # trait-qualified call Trait::method(x, ...)
        if qual in self.prog.traits or (qual[:1].isupper() and args and qual not in self.FLOATISH):
            fn = self.find_method(n, args)
            if fn is not None:
                return self.call_fn(fn, args)
        r = self.native_path(qual, n, args, p)
        if r is not NotImplemented:
            return r
        fn = None
        cands = [x for x in self.prog.fns.get(n, []) if q in x.mods or q in x.file]
        if len(cands) == 1:
            fn = cands[0]
        elif not cands and len(self.prog.fns.get(n, [])) == 1:
            fn = self.prog.fns[n][0]
        if fn is not None:
            return self.call_fn(fn, args)
        raise Unsupported("path call %s" % pathstr(p))

    def assoc(self, tname, n, args):
        cands = []
        for fn in self.prog.methods.get(n, []):
            if tyname_last(fn.impl["self"]) == tname and len(fn.ast["ps"]) == len(args):
                s = self.match_args(fn, args)
                if s is not None:
                    cands.append((s, fn))
        if not cands:
            if n == "default":
                return self.derive_default(tname)
            return NotImplemented
        cands.sort(key=lambda x: -x[0])
        if len(cands) > 1 and cands[0][0] == cands[1][0]:
            raise Unsupported("ambiguous associated function %s::%s" % (tname, n))
        return self.call_fn(cands[0][1], args)

    def derive_default(self, tname):
        raise Unsupported("default of " + tname)

    def user_method(self, name):
        return True if (name in self.prog.methods or name in self.prog.provided) else None

    def find_method(self, name, args):
        cands = []
        for fn in self.prog.methods.get(name, []):
            if not fn.ast["ps"] or fn.ast["ps"][0]["k"] != "self" or len(fn.ast["ps"]) != len(args):
                continue
            s = self.match_args(fn, args)
            if s is not None:
                cands.append((s, fn))
        if cands:
            cands.sort(key=lambda x: -x[0])
            if len(cands) > 1 and cands[0][0] == cands[1][0]:
                cands = self.tie_break([c for c in cands if c[0] == cands[0][0]])
            if len(cands) > 1 and cands[0][0] == cands[1][0]:
                raise Unsupported("ambiguous method %s: %s" % (name, [c[1].qual for c in cands[:3]]))
            return cands[0][1]
        for fn in self.prog.provided.get(name, []):
            if len(fn.ast["ps"]) == len(args) and self.implements(self.rv(args[0]), fn.trait):
                return fn
        return None

    def tie_break(self, cands):
        """impls of one generic trait that differ only in the trait arguments:
        the enclosing impl, otherwise the design matrix type in use"""
        if self.frames and self.frames[-1].fn is not None:
            cur = self.frames[-1].fn.impl
            same_ = [c for c in cands if c[1].impl is cur]
            if same_:
                return same_
        if self.design is not None:
            out = []
            for c in cands:
                tr = c[1].impl["trait"]
                gen = c[1].impl["gen"]
                if tr and any(isinstance(g, dict) and self.tymatch(g, self.design, gen) for g in tr[-1]["g"]):
                    out.append(c)
            if out:
                return out
        return cands

    def implements(self, v, trait):
        for fns in self.prog.asts.values():
            for it in _impls(fns.get("items", [])):
                if it["trait"] and it["trait"][-1]["n"] == trait:
                    s = self.tymatch(it["self"], v, it["gen"])
                    if s is not None and it["self"]["k"] != "ref":
                        return True
        return False

    def match_args(self, fn, args):
        gen = list(fn.ast["gen"]["ps"]) + (list(fn.impl["gen"]["ps"]) if fn.impl else [])
        gen = {"ps": gen, "where": (fn.impl["gen"]["where"] if fn.impl else []) + fn.ast["gen"]["where"]}
        tot = 0
        for p, a in zip(fn.ast["ps"], args):
            if p["k"] == "self":
                ty = fn.impl["self"]
                if ty["k"] == "ref":
                    return None
            else:
                ty = p["ty"]
            s = self.tymatch(ty, a, gen, fn)
            if s is None:
                return None
            tot += s * (10 if p["k"] == "self" else 1)
        return tot

    def tymatch(self, ty, v, gen, fn=None):
        """None = no match, otherwise specificity"""
        v = self.rv(v)
        k = ty["k"]
        if k == "ref":
            return self.tymatch(ty["t"], v, gen, fn)
        if k == "tuple":
            if not isinstance(v, Tup) or len(v.items) != len(ty["ts"]):
                return None
            tot = 0
            for t, x in zip(ty["ts"], v.items):
                s = self.tymatch(t, x, gen, fn)
                if s is None:
                    return None
                tot += s
            return tot
        if k != "path":
            return 0
        n = ty["p"][-1]["n"]
        if len(ty["p"]) == 1 and any(g["n"] == n for g in gen["ps"]):
            # a generic parameter: check trait bounds we know about
            for g in gen["ps"] + gen["where"]:
                if g["n"] == n and "ParamGuard" in g["b"]:
                    return 0 if self.implements(v, "ParamGuard") else None
            return 0
        if n == "Self" and fn is not None and fn.impl:
            return self.tymatch(fn.impl["self"], v, gen, fn)
        if n in self.prog.structs:
            if isinstance(v, Abs):
                return 1 if v.name == n else None
            if not isinstance(v, Struct) or v.name != n:
                return None
            tot = 1
            sd = self.prog.structs[n]
            gp = [g["n"] for g in sd.get("gen", {}).get("ps", [])]
            gargs = [g for g in ty["p"][-1]["g"] if isinstance(g, dict)]
            sub_ = dict(zip(gp, gargs))
            for f in sd["fs"]:
                if f["t"]["k"] == "path" and len(f["t"]["p"]) == 1 and f["t"]["p"][0]["n"] in sub_:
                    s = self.tymatch(sub_[f["t"]["p"][0]["n"]], v.fields[f["n"]], gen, fn)
                    if s is None:
                        return None
                    tot += s
            return tot
        if n in self.prog.types:
            td = self.prog.types[n]
            gp = [g["n"] for g in td.get("gen", {}).get("ps", [])]
            gargs = [g for g in ty["p"][-1]["g"] if isinstance(g, dict)]
            return self.tymatch(_tysubst(td["t"], dict(zip(gp, gargs))), v, gen, fn)
        nd = _ndims(ty)
        if nd is not None:
            if isinstance(v, Seq):
                if nd == 0:
                    return 1
                return 2 if len(v.dims) == nd else None
            return None
        if n in self.prog.enumdefs:
            return 1 if isinstance(v, Enum) and v.ty == n else None
        if n in ("usize", "f64", "f32", "i32", "u32", "i64"):
            return 1 if isinstance(v, Num) else None
        if n == "bool":
            return 1 if isinstance(v, Bool) else None
        if isinstance(v, (Struct,)) and v.name in self.prog.structs:
            return None if n not in ("Box", "Rc", "Arc", "Cow") else 0
        return 0

    def e_mcall(self, e, env):
        from natives import method
        m = e["m"]
        recv_e = e["recv"]
        if m == "clone" or m == "to_owned" and not self.prog.methods.get("to_owned"):
            return self.rv(self.ev(recv_e, env))
        if self.user_method(m):
            # evaluate receiver; mutable methods need the place
            needs_place = any(f.ast["ps"] and f.ast["ps"][0].get("ref") and f.ast["ps"][0].get("mut")
                              for f in self.prog.methods.get(m, []))
            needs_place = needs_place or any(f.ast["ps"] and f.ast["ps"][0]["k"] == "self" and
                                             f.ast["ps"][0].get("mut") and f.ast["ps"][0].get("ref")
                                             for f in self.prog.provided.get(m, []))
            if needs_place:
                c, p = self.place(recv_e, env)
                c, p, rvv = self.resolve(c, p)
                recv = Ref(c, p)
            else:
                recv = self.ev(recv_e, env)
                rvv = self.rv(recv)
            fr = self.frames[-1] if self.frames else None
            if fr is not None and fr.fn is not None and fr.fn.impl is not None and fr.fn.impl["self"]["k"] == "ref" \
                    and m == fr.fn.name and recv_e["k"] == "path" and [x["n"] for x in recv_e["p"]] == ["self"]:
                self.oblige("terminates", FALSE, "the implementation for references calls itself")
                raise Escape()
            if isinstance(rvv, Abs):
                return self.abs_call(recv, rvv, m, [self.ev(a, env) for a in e["args"]])
            if not isinstance(rvv, Mux):
                args = [recv] + [self.ev(a, env) for a in e["args"]]
                fn = self.find_method(m, args)
                if fn is not None:
                    sp = fn.ast["ps"][0]
                    if not (sp.get("ref") and sp.get("mut")):
                        args[0] = self.rv(args[0])
                    return self.call_fn(fn, args)
        return method(self, e, env)

    def abs_call(self, recv, a, m, args):
        f = a.methods.get(m)
        if f is None:
            raise Unsupported("method %s of abstract %s" % (m, a.name))
        return f(self, recv, args)

    def float_fn(self, n, args):
        from natives import num_method
        return num_method(self, n, self.rv(args[0]), args[1:])

    def native_path(self, q, n, args, p):
        from natives import path_call
        return path_call(self, q, n, args, p)

    # ------------------------------------------------------------ loops (see loops.py)
    def e_for(self, e, env):
        from loops import for_loop
        return for_loop(self, e, env)

    def e_while(self, e, env):
        from loops import while_loop
        return while_loop(self, e, env)

    def e_loop(self, e, env):
        from loops import while_loop
        return while_loop(self, dict(e, c=None), env)


def _generic_ty(ty, fn):
    if ty is None or ty.get("k") != "path" or len(ty["p"]) != 1:
        return False
    n = ty["p"][0]["n"]
    gens = list(fn.ast["gen"]["ps"]) + (list(fn.impl["gen"]["ps"]) if fn.impl else [])
    return any(g["n"] == n for g in gens)


def _refmut(p):
    """names bound by `ref mut` in a pattern"""
    if not isinstance(p, dict):
        return set()
    if p.get("k") == "ident":
        r = {p["n"]} if p.get("ref") and p.get("mut") else set()
        return r | _refmut(p.get("sub"))
    if p.get("k") in ("lit", "range", "path", "wild", "rest"):
        return set()
    r = set()
    for q in p.get("ps") or []:
        r |= _refmut(q)
    for f in p.get("fs") or []:
        r |= _refmut(f["p"])
    q = p.get("p")
    return r | (_refmut(q) if isinstance(q, dict) else set())


def _has_letcond(e):
    if e["k"] == "letcond":
        return True
    if e["k"] == "bin":
        return _has_letcond(e["l"]) or _has_letcond(e["r"])
    return False


def _impls(items):
    for it in items:
        if it["k"] == "impl":
            yield it
        elif it["k"] == "mod":
            for x in _impls(it["items"]):
                yield x


def tyname_last(t):
    while t["k"] == "ref":
        t = t["t"]
    if t["k"] == "path":
        return t["p"][-1]["n"]
    return t["k"]


def _tysubst(t, m):
    if isinstance(t, dict):
        if t.get("k") == "path" and len(t.get("p", [])) == 1 and t["p"][0]["n"] in m and not t["p"][0]["g"]:
            return m[t["p"][0]["n"]]
        return {k: _tysubst(v, m) for k, v in t.items()}
    if isinstance(t, list):
        return [_tysubst(x, m) for x in t]
    return t


def _tykind(t):
    while t and t["k"] == "ref":
        t = t["t"]
    if t and t["k"] == "path":
        n = t["p"][-1]["n"]
        if n in ("usize", "u32", "u64", "u8", "u16"):
            return "u"
        if n in ("i32", "i64", "isize", "i8", "i16"):
            return "i"
        if n in ("f64", "f32", "F"):
            return "f"
    return None


def _ndims(ty):
    """number of dimensions of an ndarray/Vec type; 0 = any; None = not an array type"""
    n = ty["p"][-1]["n"]
    if n == "ArrayBase":
        g = ty["p"][-1]["g"]
        if len(g) == 2 and g[1]["k"] == "path":
            d = g[1]["p"][-1]["n"]
            return {"Ix1": 1, "Ix2": 2, "Ix3": 3}.get(d, 0)
        return 0
    for pre in ("Array", "ArrayView", "ArrayViewMut", "PyArray"):
        if n.startswith(pre) and n[len(pre):] in ("1", "2", "3"):
            return int(n[len(pre):])
    if n == "Vec":
        return 1
    if n in ("ArrayView", "Array", "ArrayViewMut"):
        return 0
    return None
