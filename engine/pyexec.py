"""Symbolic execution of Python functions, parsed from the current source with ast.

Values: Const (a Python constant), Arg (an arbitrary argument: its type is unknown,
isinstance gives a condition, its numeric value is a real), Num (a term), Cond (a
condition), Tree (the result of an operation outside the code, as a function of its
operands), Obj (an instance of a class of the module), Fun, Cls, Mod, Dict, Tup.
Every path is run separately: a list of decisions is replayed and extended."""
import ast
import os
from term import *
import term as tm
from interp import Unsupported


class Raised(Exception):
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Dead(Exception):
    """an infeasible path"""


class P:
    pass


class Const(P):
    def __init__(self, v):
        self.v = v


class Arg(P):
    def __init__(self, name):
        self.name = name

    def isa(self, t):
        return var("%s is %s" % (self.name, t), B)

    @property
    def val(self):
        return var(self.name, R)


class Num(P):
    def __init__(self, t):
        self.t = t


class Cond(P):
    def __init__(self, t):
        self.t = t


class Tree(P):
    """op applied to operands; array: a truth value may be refused"""

    def __init__(self, op, args=(), array=True):
        self.op, self.args, self.array = op, tuple(args), array

    def key(self):
        return (self.op,) + tuple(key(a) for a in self.args)


class Obj(P):
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}


class Cls(P):
    def __init__(self, name, node, mod, bases):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def external(self):
        return [b for c in self.mro() for b in c.bases if not isinstance(b, Cls)]


class Fun(P):
    def __init__(self, node, env, mod, cls=None, bound=None):
        self.node, self.env, self.mod, self.cls, self.bound = node, env, mod, cls, bound


class Ext(P):
    """a name of another package"""

    def __init__(self, path):
        self.path = path


class Tup(P):
    def __init__(self, xs, kind="tuple"):
        self.xs, self.kind = list(xs), kind


class Dct(P):
    def __init__(self, d):
        self.d = d


class Super(P):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Method(P):
    """attribute of a value outside the code, about to be called"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


def key(v):
    if isinstance(v, Tree):
        return v.key()
    if isinstance(v, Const):
        return ("const", repr(v.v))
    if isinstance(v, Arg):
        return ("arg", v.name)
    if isinstance(v, Num):
        return ("num", v.t.id)
    if isinstance(v, Cond):
        return ("cond", v.t.id)
    if isinstance(v, Tup):
        return (v.kind,) + tuple(key(x) for x in v.xs)
    if isinstance(v, Ext):
        return ("ext", v.path)
    if isinstance(v, Dct):
        return ("dict",) + tuple(sorted((k, key(x)) for k, x in v.d.items()))
    return ("id", id(v))


def same(a, b):
    return key(a) == key(b)


BUILTIN_EXC = {"ValueError", "TypeError", "Exception", "RuntimeError", "AttributeError", "NotImplementedError", "KeyError", "AssertionError",
               "NotFittedError", "ImportError", "ArithmeticError", "OverflowError", "ZeroDivisionError"}
SUBEXC = {"NotFittedError": "ValueError"}
BUILTIN_TYPES = {"float", "int", "bool", "str", "complex", "list", "dict", "tuple", "object", "type"}
# calls that return their argument's values in another container
IDENTITY = {"numpy.asfortranarray", "numpy.ascontiguousarray", "numpy.asarray", "numpy.array", "numpy.require",
            "sklearn.utils.check_array", "sklearn.utils.validation.check_array", "numpy.copy"}


class Module:
    def __init__(self, root, file):
        self.file = file
        self.tree = ast.parse(open(os.path.join(root, file)).read())
        self.env = {}
        self.called = {}
        for n in self.tree.body:
            self.top(n)

    def top(self, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                self.env[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.env[a.asname or a.name] = Ext(("." * n.level + (n.module or "") + "." + a.name).replace("..", ".") if not n.level
                                                    else "." + ((n.module + ".") if n.module else "") + a.name)
        elif isinstance(n, ast.FunctionDef):
            self.env[n.name] = Fun(n, {}, self)
        elif isinstance(n, ast.ClassDef):
            bases = []
            for b in n.bases:
                if isinstance(b, ast.Name) and b.id in self.env:
                    bases.append(self.env[b.id])
                else:
                    bases.append(Ext(ast.unparse(b)))
            self.env[n.name] = Cls(n.name, n, self, bases)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.env[n.targets[0].id] = ("lazy", n.value)
        elif isinstance(n, (ast.Expr, ast.Pass)):
            pass
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body:
                self.top(x)

    def cls(self, name):
        c = self.env.get(name)
        if not isinstance(c, Cls):
            raise Unsupported("no class " + name)
        return c


class Exec:
    """one run along a list of decisions"""

    def __init__(self, mod, ctx, script, hooks):
        self.mod, self.ctx, self.script, self.hooks = mod, ctx, list(script), hooks
        self.taken = []
        self.pc = []
        self.calls = []
        self.steps = 0
        self.depth = 0

    # ---------------------------------------------------------- decisions
    def decide(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        k = self.ctx.known(t)
        if k is not None:
            return k
        n = len(self.taken)
        v = self.script[n] if n < len(self.script) else True
        self.taken.append(v)
        c = t if v else mknot(t)
        self.pc.append(c)
        self.ctx.add(c)
        return v

    def truth(self, v):
        if isinstance(v, Const):
            return TRUE if v.v else FALSE
        if isinstance(v, Cond):
            return v.t
        if isinstance(v, Num):
            return mknot(eq(v.t, ZERO))
        if isinstance(v, Tup):
            return TRUE if v.xs else FALSE
        if isinstance(v, Dct):
            return TRUE if v.d else FALSE
        if isinstance(v, (Obj, Cls, Fun, Ext)):
            return TRUE
        if isinstance(v, Arg):
            # None, zero, or an empty container are false
            return var("bool(%s)" % v.name, B)
        if isinstance(v, Tree):
            if v.array:
                # the truth value of an array of several elements is an error
                if self.decide(self.opaque_bool("one element: ", v)):
                    return self.opaque_bool("bool ", v)
                raise Raised("ValueError")
            return self.opaque_bool("bool ", v)
        raise Unsupported("truth of " + type(v).__name__)

    def opaque_bool(self, p, *vs):
        return var(p + " ".join(repr(key(v)) for v in vs), B)

    # ---------------------------------------------------------- comparison
    def number(self, v):
        if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            if v.v != v.v or v.v in (float("inf"), float("-inf")):
                return None
            return num(Fraction(v.v))
        if isinstance(v, Const) and isinstance(v.v, bool):
            return num(int(v.v))
        if isinstance(v, Num):
            return v.t
        if isinstance(v, Arg):
            return v.val
        if isinstance(v, Tree) and not v.array:
            return var(repr(v.key()), R)
        return None

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return Cond(mknot(r) if isinstance(op, ast.IsNot) else r)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Tup):
                r = mkor(*[self.compare(ast.Eq(), a, x).t for x in b.xs])
                return Cond(mknot(r) if isinstance(op, ast.NotIn) else r)
            raise Unsupported("membership")
        if isinstance(a, (Const, Arg)) and isinstance(b, (Const, Arg)) and isinstance(op, (ast.Eq, ast.NotEq)) and \
                (isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None):
            r = self.identical(a, b)
            return Cond(mknot(r) if isinstance(op, ast.NotEq) else r)
        x, y = self.number(a), self.number(b)
        inf = None
        for q, other, left in ((a, b, True), (b, a, False)):
            if isinstance(q, Const) and isinstance(q.v, float) and q.v in (float("inf"), float("-inf")):
                inf = (q.v > 0, left)
            if isinstance(q, Ext) and q.path in ("numpy.inf", "math.inf"):
                inf = (True, left)
        for q in (a, b):
            if isinstance(q, Arg) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                # not every value can be ordered
                if not self.decide(mkor(q.isa("float"), q.isa("int"), var("ordered(%s)" % q.name, B))):
                    raise Raised("TypeError")
        if inf is not None:
            pos, left = inf
            t = {"Lt": not left if pos else left, "LtE": not left if pos else left, "Gt": left if pos else not left,
                 "GtE": left if pos else not left, "Eq": False, "NotEq": True}.get(type(op).__name__)
            if t is None or type(op).__name__ in ("LtE", "GtE", "Eq", "NotEq"):
                raise Unsupported("comparison with infinity")
            if type(op).__name__ in ("Lt", "Gt"):
                q = b if left else a
                fin = var("finite(%s)" % repr(key(q)), B)
                return Cond(fin if t else FALSE)
            return Cond(TRUE if t else FALSE)
        if x is None or y is None:
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(op, (ast.Eq, ast.NotEq)):
                r = a.v == b.v
                return Cond(TRUE if r == isinstance(op, ast.Eq) else FALSE)
            if same(a, b) and isinstance(op, (ast.Eq, ast.NotEq)):
                return Cond(TRUE if isinstance(op, ast.Eq) else FALSE)
            return Cond(self.opaque_bool(type(op).__name__ + " ", a, b)) if not (isinstance(a, Tree) and a.array) else \
                Tree(type(op).__name__, [a, b])
        n = type(op).__name__
        t = {"Lt": lambda: lt(x, y), "LtE": lambda: le(x, y), "Gt": lambda: lt(y, x), "GtE": lambda: le(y, x),
             "Eq": lambda: eq(x, y), "NotEq": lambda: mknot(eq(x, y))}.get(n)
        if t is None:
            raise Unsupported("comparison " + n)
        if n in ("Eq", "NotEq"):
            for q in (a, b):
                if isinstance(q, Arg):
                    numeric = mkor(q.isa("float"), q.isa("int"))
                    r = mkand(numeric, eq(x, y))
                    r = mkor(r, mkand(mknot(numeric), var("eq %r" % ((key(a), key(b)),), B)))
                    return Cond(r if n == "Eq" else mknot(r))
        return Cond(t())

    def identical(self, a, b):
        if isinstance(b, Const) and not isinstance(a, Const):
            a, b = b, a
        if isinstance(a, Const) and isinstance(b, Const):
            return TRUE if a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v) else FALSE
        if isinstance(b, Arg):
            if isinstance(a, Const) and a.v is None:
                return b.isa("None")
            if isinstance(a, Const) and isinstance(a.v, bool):
                return var("%s is %r" % (b.name, a.v), B)
            if isinstance(a, Arg) and a.name == b.name:
                return TRUE
        if isinstance(a, Const) and isinstance(b, (Tree, Obj, Tup, Dct, Cls, Fun, Num, Cond, Ext)):
            return FALSE
        if isinstance(a, Ext) and isinstance(b, Ext):
            return TRUE if a.path == b.path else FALSE
        return TRUE if same(a, b) else self.opaque_bool("is ", a, b)

    # ---------------------------------------------------------- calls
    def isinstance_(self, v, t):
        if isinstance(t, Tup):
            return mkor(*[self.isinstance_(v, x) for x in t.xs])
        if isinstance(t, Ext):
            n = t.path
        elif isinstance(t, Cls):
            if isinstance(v, Obj):
                return TRUE if t in v.cls.mro() else FALSE
            n = t.name
        else:
            raise Unsupported("isinstance")
        if isinstance(v, Arg):
            if n in ("numbers.Real", "numbers.Number"):
                return mkor(v.isa("float"), v.isa("int"), v.isa(n))
            if n in ("numbers.Integral",):
                return mkor(v.isa("int"), v.isa(n))
            return v.isa(n)
        if isinstance(v, Const):
            ty = {"float": float, "int": int, "bool": bool, "str": str}.get(n)
            if ty is not None:
                return TRUE if isinstance(v.v, ty) else FALSE
            return FALSE
        if isinstance(v, Tree) and n in BUILTIN_TYPES:
            return FALSE
        return self.opaque_bool("isinstance %s " % n, v)

    def call_fun(self, f, args, kw):
        node = f.node
        self.depth += 1
        if self.depth > 30:
            raise Unsupported("recursion")
        self.mod.called["%s%s" % (f.cls.name + "." if f.cls else "", node.name if hasattr(node, "name") else "<lambda>")] = \
            "%s:%d" % (self.mod.file, node.lineno)
        a = node.args
        if f.bound is not None:
            args = [f.bound] + list(args)
        env = dict(f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            if a.vararg is None:
                raise Raised("TypeError")
            env[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            env[n] = v
        kw = dict(kw)
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k in names or k in kwonly:
                if k in names[:len(args)]:
                    raise Raised("TypeError")
                env[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                raise Raised("TypeError")
            env[a.kwarg.arg] = Dct(kw)
        elif a.kwarg is not None:
            env[a.kwarg.arg] = Dct({})
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env or n in f.env and n not in names[:len(args)]:
                env[n] = self.ev(d, f.env)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.ev(d, f.env)
        for n in names + kwonly:
            if n not in env:
                raise Raised("TypeError")
        env["__class__"] = f.cls
        env["__self__"] = env[names[0]] if names and f.cls is not None else None
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            self.block(node.body, env)
            return Const(None)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    def lookup(self, cls, name, after=None):
        mro = cls.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return Fun(n, {}, self.mod, c), [ast.unparse(d) for d in n.decorator_list]
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return self.ev(n.value, {}), None
        return None, None

    def attribute(self, v, name):
        if isinstance(v, Obj):
            f, deco = self.lookup(v.cls, name)
            if isinstance(f, Fun) and deco and "property" in deco:
                f.bound = v
                return self.call_fun(f, [], {})
            if name in v.attrs:
                return v.attrs[name]
            if isinstance(f, Fun):
                if deco == ["staticmethod"]:
                    return f
                if deco == ["classmethod"]:
                    f.bound = v.cls
                elif deco:
                    raise Unsupported("decorator %s" % deco)
                else:
                    f.bound = v
                return f
            if f is not None:
                return f
            if name == "__class__":
                return v.cls
            return self.hooks("attr", self, v, name)
        if isinstance(v, Super):
            f, deco = self.lookup(v.obj.cls, name, v.cls)
            if isinstance(f, Fun) and not deco:
                f.bound = v.obj
                return f
            return self.hooks("attr", self, v, name)
        if isinstance(v, Cls):
            if name == "__name__":
                return Const(v.name)
            f, deco = self.lookup(v, name)
            if f is not None:
                return f
        if isinstance(v, Ext):
            return Ext(v.path + "." + name)
        if isinstance(v, Tree):
            if name == "T":
                return v.args[0] if v.op == "T" else Tree("T", [v])
            if name == "ndim":
                return Num(var("ndim %r" % (v.key(),), tm.I))
            if name == "shape":
                return Tree("shape", [v])
            if name == "dtype":
                return Tree("dtype", [v], False)
            return Method(v, name)
        if isinstance(v, (Const, Tup, Dct, Arg, Num, Cond, Method)):
            if isinstance(v, Method):
                v = self.data(v)
                return self.attribute(v, name) if isinstance(v, Tree) else Method(v, name)
            return Method(v, name)
        raise Unsupported("attribute %s of %s" % (name, type(v).__name__))

    def data(self, m):
        """an attribute of a foreign value, not called"""
        if isinstance(m, Method):
            if isinstance(m.recv, Tree):
                return Tree("." + m.name, [m.recv])
            if isinstance(m.recv, Const) or isinstance(m.recv, Arg):
                raise Unsupported("attribute %s" % m.name)
            raise Unsupported("attribute %s" % m.name)
        return m

    def call(self, f, args, kw):
        self.steps += 1
        if self.steps > 4000:
            raise Unsupported("too many steps")
        if isinstance(f, Fun):
            return self.call_fun(f, args, kw)
        if isinstance(f, Cls):
            o = Obj(f)
            init, _ = self.lookup(f, "__init__")
            if init is not None:
                init.bound = o
                self.call_fun(init, args, kw)
            elif args or kw:
                raise Unsupported("constructor of " + f.name)
            return o
        if isinstance(f, Method):
            return self.foreign(f, args, kw)
        if isinstance(f, Ext):
            n = f.path
            if n == "isinstance" and len(args) == 2:
                return Cond(self.isinstance_(args[0], args[1]))
            if n == "type" and len(args) == 1:
                return Tree("type", args, False)
            if n == "dict" and not args:
                return Dct(dict(kw))
            if n in ("str", "repr", "format", "print", "warnings.warn", "int.__format__"):
                return Const("<text>")
            if n in ("tuple", "list") and len(args) == 1 and isinstance(args[0], Tup):
                return Tup(args[0].xs, n)
            if n == "len" and len(args) == 1:
                if isinstance(args[0], Tup):
                    return Const(len(args[0].xs))
                return Num(var("len %r" % (key(args[0]),), tm.I))
            if n == "getattr" and len(args) in (2, 3) and isinstance(args[1], Const):
                try:
                    return self.val(self.attribute(args[0], args[1].v))
                except Raised as r:
                    if r.kind == "AttributeError" and len(args) == 3:
                        return args[2]
                    raise
            if n == "hasattr" and len(args) == 2 and isinstance(args[1], Const) and isinstance(args[0], Obj):
                return Const(args[1].v in args[0].attrs or self.lookup(args[0].cls, args[1].v)[0] is not None)
            if n == "setattr" and len(args) == 3 and isinstance(args[1], Const) and isinstance(args[0], Obj):
                args[0].attrs[args[1].v] = args[2]
                return Const(None)
            if n in ("float", "int", "bool") and len(args) == 1:
                if isinstance(args[0], Const):
                    return Const({"float": float, "int": int, "bool": bool}[n](args[0].v))
                if n == "bool":
                    return Cond(self.truth(args[0]))
                if isinstance(args[0], Arg) and self.ctx.known(args[0].isa(n)) is True:
                    return args[0]
                raise Unsupported("conversion " + n)
            if n.split(".")[-1] in BUILTIN_EXC:
                return Tree("exception " + n.split(".")[-1], [], False)
            return self.hooks("call", self, f, args, kw)
        raise Unsupported("call of " + type(f).__name__)

    def foreign(self, m, args, kw):
        v, n = m.recv, m.name
        if isinstance(v, Const) and isinstance(v.v, str) and n in ("format", "join", "strip", "lower", "upper", "replace"):
            return Const("<text>")
        if isinstance(v, Dct):
            if n == "items" and not args:
                return Tup([Tup([Const(k), x]) for k, x in v.d.items()], "list")
            if n == "keys":
                return Tup([Const(k) for k in v.d], "list")
            if n == "values":
                return Tup(list(v.d.values()), "list")
            if n == "get" and isinstance(args[0], Const):
                return v.d.get(args[0].v, args[1] if len(args) > 1 else Const(None))
            if n == "update":
                for a in args:
                    if not isinstance(a, Dct):
                        raise Unsupported("update")
                    v.d.update(a.d)
                v.d.update(kw)
                return Const(None)
            if n == "copy":
                return Dct(dict(v.d))
        if isinstance(v, Tup) and n == "append" and v.kind == "list":
            v.xs.append(args[0])
            return Const(None)
        if isinstance(v, Tree):
            if n in ("astype", "copy", "view") and n != "view":
                return v
            if n in ("transpose",) and not args:
                return self.attribute(v, "T")
            if n in ("dot", "__matmul__") and len(args) == 1:
                return Tree("@", [v, args[0]])
            r = self.hooks("method", self, m, args, kw)
            if r is not None:
                return r
        raise Unsupported("method %s of %s" % (n, type(v).__name__))

    def val(self, v):
        return self.data(v) if isinstance(v, Method) else v

    # ---------------------------------------------------------- expressions
    def name(self, n, env):
        if n in env:
            return env[n]
        v = self.mod.env.get(n)
        if isinstance(v, tuple):
            return self.ev(v[1], {})
        if v is not None:
            return v
        if n in BUILTIN_EXC or n in BUILTIN_TYPES or n in ("isinstance", "dict", "len", "getattr", "setattr", "hasattr", "super", "str",
                                                             "repr", "print", "tuple", "list", "float", "int", "bool", "abs", "min", "max",
                                                             "all", "any", "zip", "enumerate", "range", "vars", "locals", "callable"):
            return Ext(n)
        raise Raised("NameError")

    def ev(self, e, env):
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported("too many steps")
        k = type(e).__name__
        h = getattr(self, "e_" + k, None)
        if h is None:
            raise Unsupported("expression %s (line %s)" % (k, getattr(e, "lineno", "?")))
        return self.val(h(e, env))

    def e_Constant(self, e, env):
        return Const(e.value)

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_JoinedStr(self, e, env):
        return Const("<text>")

    def e_Attribute(self, e, env):
        return self.attribute(self.ev(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return Tup(self.elements(e.elts, env))

    def e_List(self, e, env):
        return Tup(self.elements(e.elts, env), "list")

    def elements(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if not isinstance(v, Tup):
                    raise Unsupported("starred")
                out += v.xs
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if not isinstance(x, Dct):
                    raise Unsupported("dictionary")
                d.update(x.d)
                continue
            kk = self.ev(k, env)
            if not isinstance(kk, Const):
                raise Unsupported("dictionary key")
            d[kk.v] = self.ev(v, env)
        return Dct(d)

    def e_DictComp(self, e, env):
        d = {}
        def done(env2):
            kk = self.ev(e.key, env2)
            if not isinstance(kk, Const):
                raise Unsupported("dictionary key")
            d[kk.v] = self.ev(e.value, env2)
        self.comp(e.generators, env, done)
        return Dct(d)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda env2: out.append(self.ev(e.elt, env2)))
        return Tup(out, "list")

    e_GeneratorExp = e_ListComp

    def comp(self, gens, env, done):
        if not gens:
            return done(env)
        g = gens[0]
        for x in self.iterate(self.ev(g.iter, env)):
            env2 = dict(env)
            self.bind(g.target, x, env2)
            if all(self.decide(self.truth(self.ev(c, env2))) for c in g.ifs):
                self.comp(gens[1:], env2, done)

    def iterate(self, v):
        if isinstance(v, Tup):
            return list(v.xs)
        if isinstance(v, Dct):
            return [Const(k) for k in v.d]
        if isinstance(v, Const) and isinstance(v.v, (tuple, list, str)):
            return [Const(x) for x in v.v]
        raise Unsupported("iteration over " + type(v).__name__)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return Cond(mknot(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Const):
                return Const(-v.v)
            x = self.number(v)
            if x is not None:
                return Num(neg(x))
        raise Unsupported("unary operator")

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for n, x in enumerate(e.values):
            v = self.ev(x, env)
            if n == len(e.values) - 1:
                return v
            t = self.decide(self.truth(v))
            if t != isand:
                return v
        return v

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.decide(self.truth(self.ev(e.test, env))) else e.orelse, env)

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        r = None
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            # the type of a value
            if isinstance(a, Tree) and a.op == "type" and isinstance(a.args[0], Arg) and isinstance(b, Ext) and \
                    isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                exact = a.args[0].isa("exactly " + b.path)
                self.ctx.add(imp(exact, a.args[0].isa(b.path)))
                r = Cond(mknot(exact) if isinstance(op, (ast.IsNot, ast.NotEq)) else exact)
            else:
                r = self.compare(op, a, b)
            if x is not e.comparators[-1]:
                if not self.decide(self.truth(r)):
                    return Const(False)
            a = b
        return r

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(e.op, ast.MatMult):
            return Tree("@", [a, b])
        if isinstance(e.op, ast.Mod) and isinstance(a, Const) and isinstance(a.v, str):
            return Const("<text>")
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
            return Const("<text>")
        if isinstance(a, (Arg, Const, Num)) and isinstance(b, (Arg, Const, Num)):
            for q in (a, b):
                if isinstance(q, Arg) and not self.decide(mkor(q.isa("float"), q.isa("int"))):
                    raise Unsupported("arithmetic on an unknown type")
            x, y = self.number(a), self.number(b)
            if x is not None and y is not None:
                if isinstance(e.op, ast.Add):
                    return Num(add(x, y))
                if isinstance(e.op, ast.Sub):
                    return Num(sub(x, y))
                if isinstance(e.op, ast.Mult):
                    return Num(mul(x, y))
        if isinstance(a, Tree) or isinstance(b, Tree):
            return Tree(type(e.op).__name__, [a, b])
        raise Unsupported("operator " + type(e.op).__name__)

    def e_Subscript(self, e, env):
        v, i = self.ev(e.value, env), self.ev(e.slice, env)
        if isinstance(v, Tup) and isinstance(i, Const) and isinstance(i.v, int):
            return v.xs[i.v]
        if isinstance(v, Dct) and isinstance(i, Const):
            if i.v not in v.d:
                raise Raised("KeyError")
            return v.d[i.v]
        if isinstance(v, Tree) and v.op == "shape" and isinstance(i, Const):
            return Num(var("shape[%r] %r" % (i.v, v.args[0].key()), tm.I))
        if isinstance(v, Tree):
            return Tree("[]", [v, i])
        raise Unsupported("subscript")

    def e_Slice(self, e, env):
        return Tree("slice", [self.ev(x, env) if x is not None else Const(None) for x in (e.lower, e.upper, e.step)], False)

    def e_Lambda(self, e, env):
        return Fun(e, env, self.mod)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                c = self.ev(e.args[0], env)
                return Super(c, self.ev(e.args[1], env))
            return Super(env["__class__"], env["__self__"])
        f = self.callee(e.func, env)
        args = self.elements(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if not isinstance(v, Dct):
                    raise Unsupported("keyword expansion")
                kw.update(v.d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def callee(self, e, env):
        if isinstance(e, ast.Attribute):
            return self.attribute(self.ev(e.value, env), e.attr)
        return self.ev(e, env)

    # ---------------------------------------------------------- statements
    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        k = type(s).__name__
        if k == "Expr":
            self.ev(s.value, env)
        elif k == "Assign":
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif k == "AnnAssign":
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif k == "AugAssign":
            if isinstance(s.target, ast.Name):
                b = ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)
                self.bind(s.target, self.ev(b, env), env)
            else:
                raise Unsupported("augmented assignment")
        elif k == "If":
            self.block(s.body if self.decide(self.truth(self.ev(s.test, env))) else s.orelse, env)
        elif k == "Raise":
            if s.exc is None:
                raise Unsupported("re-raise")
            v = self.ev(s.exc, env)
            n = v.op.split(" ")[1] if isinstance(v, Tree) and v.op.startswith("exception ") else \
                v.path.split(".")[-1] if isinstance(v, Ext) else None
            if n is None:
                raise Unsupported("raise")
            raise Raised(SUBEXC.get(n, n))
        elif k == "Return":
            raise Ret(self.ev(s.value, env) if s.value is not None else Const(None))
        elif k == "Pass":
            pass
        elif k == "FunctionDef":
            env[s.name] = Fun(s, env, self.mod)
        elif k == "For":
            for x in self.iterate(self.ev(s.iter, env)):
                self.bind(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Cont:
                    continue
                except Brk:
                    break
            else:
                self.block(s.orelse, env)
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k == "Assert":
            if not self.decide(self.truth(self.ev(s.test, env))):
                raise Raised("AssertionError")
        elif k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Attribute):
                    o = self.ev(t.value, env)
                    o.attrs.pop(t.attr, None)
        elif k == "Try":
            try:
                self.block(s.body, env)
            except Raised as r:
                for h in s.handlers:
                    names = []
                    if h.type is not None:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        names = [ast.unparse(t).split(".")[-1] for t in ts]
                    if h.type is None or r.kind in names or "Exception" in names or "BaseException" in names:
                        if h.name:
                            env[h.name] = Const("<text>")
                        self.block(h.body, env)
                        break
                else:
                    self.block(s.finalbody, env)
                    raise
            else:
                self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif k in ("Import", "ImportFrom"):
            m = Module.__new__(Module)
            m.env = {}
            m.top(s)
            env.update(m.env)
        elif k == "With":
            for it in s.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, env)
            self.block(s.body, env)
        else:
            raise Unsupported("statement %s (line %s)" % (k, s.lineno))

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                raise Unsupported("attribute assignment")
            o.attrs[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tree) and v.op == "shape":
                vs = [Num(var("shape[%r] %r" % (i, v.args[0].key()), tm.I)) for i in range(len(t.elts))]
            elif isinstance(v, Tup) and len(v.xs) == len(t.elts):
                vs = v.xs
            else:
                raise Unsupported("unpacking")
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, Dct) and isinstance(i, Const):
                o.d[i.v] = v
            else:
                raise Unsupported("item assignment")
        else:
            raise Unsupported("assignment")


def paths(mod, ctx, run, hooks, limit=3000):
    """run(exec) on every path: yields (exec, outcome, value); outcome is
    'return' or the kind of exception raised"""
    script = []
    n = 0
    out = []
    while True:
        mark = ctx.mark()
        x = Exec(mod, ctx, script, hooks)
        try:
            v = run(x)
            out.append((x, "return", v, mkand(*x.pc)))
        except Raised as r:
            out.append((x, r.kind, None, mkand(*x.pc)))
        except Dead:
            pass
        finally:
            ctx.reset(mark)
        n += 1
        if n > limit:
            raise Unsupported("too many paths")
        # next script
        t = x.taken
        while t and not t[-1]:
            t = t[:-1]
        if not t:
            return out
        script = t[:-1] + [False]
