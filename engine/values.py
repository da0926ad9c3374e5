"""Values of the symbolic interpreter."""
from term import *


class V:
    pass


class Num(V):
    __slots__ = ("t", "kind")

    def __init__(self, t, kind=None):
        self.t, self.kind = t, kind

    def __repr__(self):
        return "%s:%s" % (self.t, self.kind)


class Bool(V):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "B(%s)" % self.t


class Seq(V):
    """array / vector: dims, generic index variables, element template"""
    __slots__ = ("dims", "vs", "elem", "tag", "unflat")

    def __init__(self, dims, vs, elem, tag="arr", unflat=None):
        self.dims, self.vs, self.elem, self.tag, self.unflat = list(dims), tuple(vs), elem, tag, unflat

    def at(self, *idx):
        return vsubst(self.elem, dict(zip(self.vs, idx)))

    def __repr__(self):
        return "Seq%s<%s -> %s>" % (self.dims, self.vs, self.elem)


class It(V):
    """iterator: nested shape (row major), element template, optional guard"""
    __slots__ = ("dims", "vs", "elem", "guard")

    def __init__(self, dims, vs, elem, guard=TRUE):
        self.dims, self.vs, self.elem, self.guard = list(dims), tuple(vs), elem, guard

    def at(self, *idx):
        return vsubst(self.elem, dict(zip(self.vs, idx)))


class Struct(V):
    __slots__ = ("name", "fields")

    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def __repr__(self):
        return "%s%s" % (self.name, self.fields)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tup%s" % self.items


UNIT = Tup([])


class Enum(V):
    __slots__ = ("name", "args", "ty")

    def __init__(self, name, args=(), ty=None):
        self.name, self.args, self.ty = name, list(args), ty

    def __repr__(self):
        return "%s(%s)" % (self.name, self.args)


class Mux(V):
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Mux%s" % self.alts


class Clo(V):
    __slots__ = ("params", "body", "env", "frame")

    def __init__(self, params, body, env, frame):
        self.params, self.body, self.env, self.frame = params, body, env, frame


class FnV(V):
    """a function item used as a value: python callable(interp, args)"""
    __slots__ = ("f", "name")

    def __init__(self, f, name=""):
        self.f, self.name = f, name


class Ref(V):
    """mutable reference"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return "&mut %s%s" % (self.cell, self.path)


class Str(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class RangeV(V):
    __slots__ = ("lo", "hi", "kind")

    def __init__(self, lo, hi, kind=None):
        self.lo, self.hi, self.kind = lo, hi, kind


class OrdV(V):
    """result of a comparison of a with b"""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class Abs(V):
    """abstract object known by contract only"""
    __slots__ = ("name", "methods", "data")

    def __init__(self, name, methods, data=None):
        self.name, self.methods, self.data = name, methods, data

    def __repr__(self):
        return "Abs(%s)" % self.name


class Opaque(V):
    """a value that is never inspected"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what


def vmap(v, f):
    """apply f to every term inside a value"""
    if isinstance(v, Num):
        t = f(v.t)
        return v if t is v.t else Num(t, v.kind)
    if isinstance(v, Bool):
        t = f(v.t)
        return v if t is v.t else Bool(t)
    if isinstance(v, (Seq, It)):
        vs = [fresh("i", I) for _ in v.vs]
        ren = dict(zip(v.vs, vs))
        elem = vmap(vsubst(v.elem, ren), f)
        dims = [f(d) for d in v.dims]
        if isinstance(v, Seq):
            return Seq(dims, vs, elem, v.tag, None)
        return It(dims, vs, elem, f(subst(v.guard, ren)))
    if isinstance(v, Struct):
        return Struct(v.name, {k: vmap(x, f) for k, x in v.fields.items()})
    if isinstance(v, Tup):
        return Tup([vmap(x, f) for x in v.items]) if v.items else v
    if isinstance(v, Enum):
        return Enum(v.name, [vmap(x, f) for x in v.args], v.ty)
    if isinstance(v, Mux):
        return Mux([(f(c), vmap(x, f)) for c, x in v.alts])
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(_pmap(p, f) for p in v.path))
    if isinstance(v, RangeV):
        return RangeV(v.lo and f(v.lo), v.hi and f(v.hi), v.kind)
    if isinstance(v, OrdV):
        return OrdV(vmap(v.a, f), vmap(v.b, f))
    return v


def _pmap(p, f):
    if p[0] == "ix":
        return ("ix", tuple(f(x) for x in p[1]))
    if p[0] == "sl":
        return ("sl", tuple((s[0],) + tuple(f(x) if isinstance(x, T) else x for x in s[1:]) for s in p[1]))
    return p


def _vfv(v, keys):
    """does v mention one of the variables?"""
    if isinstance(v, (Num, Bool)):
        return bool(v.t.fv & keys)
    return True


def vsubst(v, m):
    keys = frozenset(m)
    if isinstance(v, (Num, Bool)):
        if not (v.t.fv & keys):
            return v
        return vmap(v, lambda t: subst(t, m))
    if isinstance(v, (Seq, It)):
        if not vmentions(v, keys):
            return v
        if not (frozenset(v.vs) & (keys | frozenset().union(*[x.fv for x in m.values()]) if m else keys)):
            f = lambda t: subst(t, m) if t.fv & keys else t
            dims = [f(d) for d in v.dims]
            if isinstance(v, Seq):
                u = None
                return Seq(dims, v.vs, vsubst(v.elem, m), v.tag, u)
            return It(dims, v.vs, vsubst(v.elem, m), f(v.guard))
    return vmap(v, lambda t: subst(t, m) if t.fv & keys else t)


def vmentions(v, keys):
    found = [False]

    def f(t):
        if t.fv & keys:
            found[0] = True
        return t
    walk(v, f)
    return found[0]


def walk(v, f):
    """visit every term of a value"""
    if isinstance(v, (Num, Bool)):
        f(v.t)
    elif isinstance(v, (Seq, It)):
        for d in v.dims:
            f(d)
        walk(v.elem, f)
        if isinstance(v, It):
            f(v.guard)
        if isinstance(v, Seq) and v.unflat:
            walk(v.unflat, f)
    elif isinstance(v, Struct):
        for x in v.fields.values():
            walk(x, f)
    elif isinstance(v, (Tup,)):
        for x in v.items:
            walk(x, f)
    elif isinstance(v, Enum):
        for x in v.args:
            walk(x, f)
    elif isinstance(v, Mux):
        for c, x in v.alts:
            f(c)
            walk(x, f)
    elif isinstance(v, OrdV):
        walk(v.a, f)
        walk(v.b, f)
    elif isinstance(v, RangeV):
        for x in (v.lo, v.hi):
            if x is not None:
                f(x)
    elif isinstance(v, Ref):
        for p in v.path:
            _pmap(p, lambda t: (f(t), t)[1])


def same(a, b):
    """identical values?"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Num, Bool)):
        return a.t is b.t
    if isinstance(a, (Seq, It)):
        if len(a.dims) != len(b.dims) or any(x is not y for x, y in zip(a.dims, b.dims)):
            return False
        if isinstance(a, It) and subst(b.guard, dict(zip(b.vs, a.vs))) is not a.guard:
            return False
        return same(a.elem, vsubst(b.elem, dict(zip(b.vs, a.vs))))
    if isinstance(a, Struct):
        return a.name == b.name and a.fields.keys() == b.fields.keys() and all(same(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Enum):
        return a.name == b.name and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, Str):
        return a.s == b.s
    if isinstance(a, RangeV):
        return a.lo is b.lo and a.hi is b.hi
    return False
