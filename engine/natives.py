"""Contracts of the library operations (std, ndarray, num-traits) the code uses."""
from term import *
import term as tm
from values import *
from interp import Unsupported, Escape, conj, tyname_last
import loops

NI = NotImplemented


def fnum(t):
    return Num(t, "f")


def unum(t):
    return Num(t, "u")


def seq_copy(v, tag="arr"):
    vs = tuple(fresh("i", I) for _ in v.dims)
    r = Seq(v.dims, vs, v.at(*vs), tag)
    if v.unflat is not None:
        r.unflat = v.unflat
    return r


def to_iter(I_, v):
    v = I_.rv(v)
    if isinstance(v, It):
        return v
    if isinstance(v, Seq):
        vs = tuple(fresh("i", I) for _ in v.dims)
        return It(v.dims, vs, v.at(*vs))
    if isinstance(v, RangeV):
        if v.lo is None or v.hi is None:
            if v.lo is not None:
                i = fresh("i", I)
                return It([POSINF], (i,), Num(add(i, v.lo), v.kind))
            raise Unsupported("open range iteration")
        i = fresh("i", I)
        d = sub(v.hi, v.lo)
        if I_.ctx.decide(le(v.lo, v.hi)):
            n = d
        elif I_.ctx.decide(le(v.hi, v.lo)):
            n = ZERO
        else:
            n = mx(d, ZERO)
        return It([n], (i,), Num(add(i, v.lo), v.kind))
    if isinstance(v, Enum) and v.name == "Some":
        i = fresh("i", I)
        return It([ONE], (i,), v.args[0])
    if isinstance(v, Enum) and v.name == "None":
        i = fresh("i", I)
        return It([ZERO], (i,), Num(ZERO))
    raise Unsupported("iteration over %s" % type(v).__name__)


def flat1(I_, it):
    """one-dimensional iterator"""
    if len(it.dims) == 1:
        return it
    f = fresh("i", I)
    n = ONE
    for d in it.dims:
        if any(d.fv & frozenset(it.vs) for d in it.dims):
            raise Unsupported("flattening ragged iterator")
        n = mul(n, d)
    m = {}
    rest = f
    for k in range(len(it.dims) - 1, 0, -1):
        m[it.vs[k]] = imod(rest, it.dims[k])
        rest = idiv(rest, it.dims[k])
    m[it.vs[0]] = rest
    return It([n], (f,), vsubst(it.elem, m), subst(it.guard, m))


def sum_over(I_, vs, dims, body):
    for v, d in reversed(list(zip(vs, dims))):
        body = mksum(v, ZERO, d, body)
    return body


def vsum(I_, it):
    """sum of the elements of an iterator/array"""
    e = I_.rv(it.elem) if not isinstance(it.elem, Ref) else read_ref(I_, it)
    g = it.guard if isinstance(it, It) else TRUE
    if isinstance(e, Num):
        return Num(sum_over(I_, it.vs, it.dims, mul(iv(g), e.t)), e.kind)
    if isinstance(e, Seq):
        if any(d.fv & frozenset(it.vs) for d in e.dims):
            raise Unsupported("sum of arrays of varying size")
        vs = tuple(fresh("i", I) for _ in e.dims)
        x = e.at(*vs)
        if isinstance(x, Num):
            return Seq(e.dims, vs, Num(sum_over(I_, it.vs, it.dims, mul(iv(g), x.t)), x.kind))
    raise Unsupported("sum of %s" % type(e).__name__)


def read_ref(I_, it):
    r = it.elem
    return I_.with_vars(it.vs, it.dims, lambda: I_.rv(r))


def elem_value(I_, it):
    return read_ref(I_, it) if isinstance(it.elem, Ref) else it.elem


def pure_map(I_, it, f):
    """map a pure function over the generic element"""
    vs = tuple(fresh("i", I) for _ in it.vs)
    ren = dict(zip(it.vs, vs))
    el = vsubst(it.elem, ren)
    g = subst(it.guard, ren) if isinstance(it, It) else TRUE
    dims = [subst(d, ren) for d in it.dims]

    def go():
        if g is not TRUE:
            I_.push_pc(g)
        return f(el)
    r = I_.with_vars(vs, dims, go)
    return vs, dims, g, r


def it_map(I_, it, f):
    vs, dims, g, r = pure_map(I_, it, f)
    return It(dims, vs, r, g)


def merged_elem(I_, v):
    """normalise an element that a with_vars evaluation produced"""
    return v


def collect(I_, v, tag="vec"):
    it = to_iter(I_, v)
    it = It(it.dims, it.vs, elem_value(I_, it), it.guard)
    if it.guard is not TRUE:
        raise Unsupported("collect of a filtered iterator")
    if len(it.dims) == 1:
        return Seq(it.dims, it.vs, it.elem, tag)
    vs = tuple(fresh("i", I) for _ in it.dims)
    nested = Seq(it.dims, vs, it.at(*vs), "arr")
    f = flat1(I_, it)
    s = Seq(f.dims, f.vs, f.elem, tag)
    s.unflat = nested
    return s


def flatten(I_, it):
    """iterator of iterables -> longer iterator"""
    e = I_.rv(it.elem) if not isinstance(it.elem, Ref) else read_ref(I_, it)
    e = I_.with_vars(it.vs, it.dims, lambda: to_iter(I_, e))
    vs = tuple(fresh("i", I) for _ in e.vs)
    ren = dict(zip(e.vs, vs))
    return It(list(it.dims) + [subst(d, ren) for d in e.dims], it.vs + vs, vsubst(e.elem, ren),
              mkand(it.guard, subst(e.guard, ren)))


def zip2(I_, a, b):
    if a.guard is not TRUE or b.guard is not TRUE:
        raise Unsupported("zip of filtered iterators")
    if len(a.dims) != len(b.dims):
        a, b = flat1(I_, a), flat1(I_, b)
    vs = tuple(fresh("z", I) for _ in a.dims)
    ra, rb = dict(zip(a.vs, vs)), dict(zip(b.vs, vs))
    dims = []
    for n, (x, y) in enumerate(zip(a.dims, b.dims)):
        x, y = subst(x, ra), subst(y, rb)
        if x is y or I_.ctx.decide(eq(x, y)):
            dims.append(x)
        elif y is POSINF:
            dims.append(x)
        elif x is POSINF:
            dims.append(y)
        elif len(vs) > 1 and n > 0:
            raise Unsupported("zip of different shapes")
        elif I_.ctx.decide(le(x, y)):
            dims.append(x)
        elif I_.ctx.decide(le(y, x)):
            dims.append(y)
        else:
            dims.append(mn(x, y))
    return It(dims, vs, Tup([vsubst(a.elem, ra), vsubst(b.elem, rb)]))


# ---------------------------------------------------------------- numbers
def lift1(f):
    return lambda I_, x, a: Num(f(x.t), "f")


def cmp_val(I_, a, b):
    a, b = I_.rv(a), I_.rv(b)
    if isinstance(a, Num) and isinstance(b, Num):
        return OrdV(a, b)
    raise Unsupported("comparison of %s" % type(a).__name__)


def num_method(I_, m, x, args):
    A = lambda i: I_.num(args[i])
    t, k = x.t, x.kind
    if m == "abs":
        return Num(absv(t), k)
    if m == "sqrt":
        if sign(t) not in ("nn", "pos"):
            I_.oblige("defined", le(ZERO, t), "sqrt argument")
        return fnum(sqrt(t))
    if m == "powi" or m == "pow":
        n = A(0)
        if isnum(n):
            if n.args[0] < 0:
                I_.oblige("defined", mknot(eq(t, ZERO)), "negative power")
            return Num(powi(t, int(n.args[0])), k)
        raise Unsupported("symbolic power")
    if m == "powf":
        n = A(0)
        if isnum(n) and n.args[0].denominator == 1:
            if n.args[0] < 0:
                I_.oblige("defined", mknot(eq(t, ZERO)), "negative power")
            return fnum(powi(t, int(n.args[0])))
        if sign(t) not in ("nn", "pos"):
            I_.oblige("defined", le(ZERO, t), "powf base")
        if isnum(n) and n.args[0] < 0:
            I_.oblige("defined", mknot(eq(t, ZERO)), "negative power")
        return fnum(powf(t, n))
    if m in ("exp", "exp2", "exp_m1"):
        if m == "exp":
            return fnum(exp(t))
        if m == "exp_m1":
            return fnum(sub(exp(t), ONE))
    if m in ("ln", "ln_1p"):
        if m == "ln_1p":
            t = add(t, ONE)
        I_.oblige("defined", lt(ZERO, t), "logarithm argument")
        return fnum(log(t))
    if m == "log":
        b = A(0)
        if b.op == "exp" and b.args[0] is ONE:
            I_.oblige("defined", lt(ZERO, t), "logarithm argument")
            return fnum(log(t))
        raise Unsupported("log base")
    if m == "cos":
        return fnum(cosv(t))
    if m == "acos":
        I_.oblige("defined", mkand(le(num(-1), t), le(t, ONE)), "acos argument")
        return fnum(acosv(t))
    if m == "signum":
        return fnum(ite(lt(t, ZERO), num(-1), ONE))
    if m == "is_sign_negative" or m == "is_negative":
        return Bool(lt(t, ZERO))
    if m == "is_sign_positive":
        return Bool(le(ZERO, t))
    if m == "is_positive":
        return Bool(lt(ZERO, t) if k != "f" else le(ZERO, t))
    if m in ("max", "fmax"):
        return Num(mx(t, A(0)), k or I_.rv(args[0]).kind)
    if m in ("min", "fmin"):
        return Num(mn(t, A(0)), k or I_.rv(args[0]).kind)
    if m == "clamp":
        return Num(mn(mx(t, A(0)), A(1)), k)
    if m == "is_zero":
        return Bool(eq(t, ZERO))
    if m == "is_one":
        return Bool(eq(t, ONE))
    if m in ("is_nan", "is_infinite", "is_subnormal"):
        return Bool(eq(t, POSINF) if m == "is_infinite" and t in (POSINF, NEGINF) else FALSE)
    if m in ("is_finite", "is_normal"):
        return Bool(TRUE)
    if m == "recip":
        I_.oblige("defined", mknot(eq(t, ZERO)), "reciprocal")
        return fnum(inv(t))
    if m == "mul_add":
        return fnum(add(mul(t, A(0)), A(1)))
    if m in ("to_f64", "to_f32", "to_usize", "to_i32"):
        return Enum("Some", [Num(t, "f" if "f" in m[3:4] else "u")])
    if m in ("add", "sub", "mul", "div", "rem", "neg"):
        if m == "neg":
            return Num(neg(t), k)
        return I_.arith({"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%"}[m], x, args[0])
    if m in ("saturating_sub",):
        return Num(mx(sub(t, A(0)), ZERO), k)
    if m in ("wrapping_add", "saturating_add"):
        return Num(add(t, A(0)), k)
    if m == "abs_diff":
        return Num(absv(sub(t, A(0))), k)
    if m == "checked_sub":
        b = A(0)
        return I_.vite(le(b, t), Enum("Some", [Num(sub(t, b), k)]), Enum("None"))
    if m == "checked_div":
        b = A(0)
        return I_.vite(eq(b, ZERO), Enum("None"), Enum("Some", [I_.arith_num("/", x, Num(b, k))]))
    if m == "partial_cmp":
        return Enum("Some", [cmp_val(I_, x, args[0])])
    if m in ("total_cmp", "cmp"):
        return cmp_val(I_, x, args[0])
    if m in ("eq", "ne", "lt", "le", "gt", "ge"):
        b = A(0)
        return Bool({"eq": eq(t, b), "ne": mknot(eq(t, b)), "lt": lt(t, b), "le": le(t, b), "gt": lt(b, t), "ge": le(b, t)}[m])
    if m in ("to_owned", "clone", "borrow", "into", "copied", "cloned", "deref", "as_ref", "try_into", "abs_value"):
        return x
    if m == "is_multiple_of":
        return Bool(eq(imod(t, A(0)), ZERO))
    raise Unsupported("numeric method " + m)


# ---------------------------------------------------------------- paths
FL = ("F", "f64", "f32", "T", "Float", "FloatTrait", "Signed", "NumCast", "usize", "u32", "i32", "i64", "u64", "isize",
      "Zero", "One", "cmp", "Ord", "A", "Elem", "num_traits", "ops")
NUMK = {"usize": "u", "u32": "u", "u64": "u", "i32": "i", "i64": "i", "isize": "i"}


def shape_arg(I_, v):
    v = I_.rv(v)
    if isinstance(v, Num):
        return [v.t]
    if isinstance(v, Tup):
        return [I_.num(x) for x in v.items]
    if isinstance(v, Seq) and len(v.dims) == 1 and isnum(v.dims[0]):
        return [I_.num(v.at(num(i))) for i in range(int(v.dims[0].args[0]))]
    if isinstance(v, Struct) and v.name in ("Dim", "Ix1", "Ix2"):
        return shape_arg(I_, v.fields["0"])
    raise Unsupported("shape argument")


def reshape(I_, v, dims, tag="arr"):
    """Some(new Seq) with an obligation that sizes agree"""
    want = ONE
    for d in dims:
        want = mul(want, d)
    have = ONE
    for d in v.dims:
        have = mul(have, d)
    ok = eq(want, have)
    if v.unflat is not None:
        u = v.unflat
        if len(u.dims) == len(dims):
            same_ = conj([eq(a, b) for a, b in zip(u.dims, dims)])
            if same_ is TRUE or I_.ctx.decide(same_):
                vs = tuple(fresh("i", I) for _ in dims)
                return TRUE, Seq(dims, vs, u.at(*vs), tag)
    if len(v.dims) == len(dims):
        same_ = conj([eq(a, b) for a, b in zip(v.dims, dims)])
        if same_ is TRUE or len(dims) == 1 or I_.ctx.decide(same_):
            vs = tuple(fresh("i", I) for _ in dims)
            return ok, Seq(dims, vs, v.at(*vs), tag)
    # drop / insert unit axes
    a = [n for n, d in enumerate(v.dims) if d is not ONE]
    b = [n for n, d in enumerate(dims) if d is not ONE]
    vs = tuple(fresh("i", I) for _ in dims)
    if len(a) == len(b) and all(v.dims[x] is dims[y] or I_.ctx.decide(eq(v.dims[x], dims[y])) for x, y in zip(a, b)):
        idx = [ZERO] * len(v.dims)
        for x, y in zip(a, b):
            idx[x] = vs[y]
        return TRUE, Seq(dims, vs, v.at(*idx), tag)
    # general row-major
    off = ZERO
    for n, d in enumerate(dims):
        off = add(mul(off, d), vs[n])
    idx = []
    rest = off
    for d in reversed(v.dims[1:]):
        idx.append(imod(rest, d))
        rest = idiv(rest, d)
    idx.append(rest)
    return ok, Seq(dims, vs, v.at(*reversed(idx)), tag)


def result_of(I_, c, v, err="shape error"):
    if c is TRUE or I_.ctx.decide(c):
        return Enum("Ok", [v])
    return Mux([(c, Enum("Ok", [v])), (mknot(c), Enum("Err", [Str(err)]))])


def path_call(I_, q, n, args, p):
    rv = I_.rv
    full = [x["n"] for x in p]
    if n == "from" and len(args) == 1 and isinstance(rv(args[0]), (Enum, Mux)) and q not in FL:
        return args[0]                      # the blanket `impl From<T> for T`
    if n == "max" and len(args) == 2 and q in FL:
        return num_method(I_, "max", rv(args[0]), args[1:])
    if n == "min" and len(args) == 2 and q in FL:
        return num_method(I_, "min", rv(args[0]), args[1:])
    if q in FL or (q and q[:1].isupper() and len(q) <= 2):
        if n in ("cast", "from", "from_f64", "from_f32", "from_usize", "from_i32", "from_u32", "try_from"):
            v = rv(args[0])
            if isinstance(v, Bool):
                v = Num(iv(v.t))
            if not isinstance(v, Num):
                raise Unsupported("cast of %s" % type(v).__name__)
            k = NUMK.get(q, "f")
            if k == "u" and v.kind == "i":
                I_.oblige("cast", le(ZERO, v.t), "cast")
            r = Num(v.t, k)
            if n == "from" and len(p) >= 2 and q in ("F", "T", "A", "NumCast"):
                return Enum("Some", [r])
            if n in ("from_f64", "from_f32", "from_usize", "from_i32", "from_u32", "try_from"):
                return Enum("Ok" if n == "try_from" else "Some", [r])
            return r
        if not args:
            k = NUMK.get(q, "f")
            c = {"zero": ZERO, "one": ONE, "infinity": POSINF, "neg_infinity": NEGINF, "default": ZERO,
                 "INFINITY": POSINF, "NEG_INFINITY": NEGINF, "max_value": POSINF, "min_value": NEGINF}.get(n)
            if c is not None:
                if n in ("max_value", "min_value") and k != "f":
                    raise Unsupported("integer limits")
                return Num(c, k)
            if n == "epsilon":
                return fnum(num(tm.Fraction(1, 2 ** 52)))
            if n == "E":
                return fnum(tm._mk("exp", (ONE,), R))
        if args and isinstance(rv(args[0]), Num):
            return num_method(I_, n, rv(args[0]), args[1:])
    if n in ("add", "sub", "mul", "div") and len(args) == 2:
        return I_.arith({"add": "+", "sub": "-", "mul": "*", "div": "/"}[n], args[0], args[1])
    if n == "neg" and len(args) == 1:
        return I_.map_num(args[0], lambda x: Num(neg(x.t), x.kind))
    nd = None
    for pre in ("Array", "ArrayView", "Vec", "ArrayBase", "ArrayViewMut", "CowArray"):
        if q == pre or (q.startswith(pre) and q[len(pre):] in ("1", "2", "3")):
            nd = q[len(pre):] or "0"
    if nd is not None:
        if n in ("zeros", "ones", "default", "from_elem", "uninit"):
            if n == "default" and not args:
                return Seq([ZERO] * (int(nd) or 1), tuple(fresh("i", I) for _ in range(int(nd) or 1)), fnum(ZERO))
            dims = shape_arg(I_, args[0])
            vs = tuple(fresh("i", I) for _ in dims)
            el = fnum(ZERO) if n in ("zeros", "default", "uninit") else fnum(ONE) if n == "ones" else args[1]
            if n in ("zeros", "ones", "default"):
                g = [x for x in p[-2]["g"] if isinstance(x, dict)]
                from interp import _tykind
                if g:
                    el = Num(el.t, _tykind(g[0]) or "f")
                else:
                    el = Num(el.t, None)
                    el = Num(el.t, "f") if not g and nd != "0" else Num(el.t, "f")
            return Seq(dims, vs, el)
        if n == "eye":
            d = I_.num(args[0])
            vs = (fresh("i", I), fresh("i", I))
            return Seq([d, d], vs, fnum(iv(eq(vs[0], vs[1]))))
        if n == "from_diag":
            s = rv(args[0])
            vs = (fresh("i", I), fresh("i", I))
            return Seq([s.dims[0], s.dims[0]], vs, fnum(mul(iv(eq(vs[0], vs[1])), s.at(vs[0]).t)))
        if n == "from_shape_vec" or n == "from_shape":
            dims = shape_arg(I_, args[0])
            s = rv(args[1])
            if not isinstance(s, Seq):
                raise Unsupported("from_shape_vec of %s" % type(s).__name__)
            c, v = reshape(I_, s, dims)
            return result_of(I_, c, v)
        if n in ("from_vec", "from_iter", "from"):
            v = collect(I_, args[0], "arr" if q != "Vec" else "vec")
            return v
        if n == "from_shape_fn":
            dims = shape_arg(I_, args[0])
            vs = tuple(fresh("i", I) for _ in dims)
            a = Num(vs[0], "u") if len(dims) == 1 else Tup([Num(v, "u") for v in vs])
            el = I_.with_vars(vs, dims, lambda: I_.call_value(args[1], [a]))
            return Seq(dims, vs, el)
        if n in ("new", "with_capacity") and nd == "0":
            return Seq([ZERO], (fresh("i", I),), fnum(ZERO), "vec")
    if q in ("PyArray", "PyArray1", "PyArray2") and n in ("from_array", "from_owned_array") and len(args) == 2:
        v = rv(args[1])      # a numpy copy of the same values in the same shape
        if isinstance(v, Seq):
            return v
    if q == "Array" and n == "from_iter":
        return collect(I_, args[0], "arr")
    if n == "stack" or n == "concatenate":
        raise Unsupported("stack")
    if q in ("mem",) and n in ("swap", "replace", "take"):
        a = args[0]
        if n == "swap":
            b = args[1]
            x, y = I_.rv(a), I_.rv(b)
            I_.write(a.cell, a.path, y)
            I_.write(b.cell, b.path, x)
            return UNIT
        if n == "replace":
            x = I_.rv(a)
            I_.write(a.cell, a.path, I_.rv(args[1]))
            return x
    if n == "identity" and len(args) == 1:
        return args[0]
    if n == "black_box" and len(args) == 1:
        return args[0]
    if n in ("drop", "forget"):
        return UNIT
    if q == "iter" and n == "repeat":
        return It([POSINF], (fresh("i", I),), args[0])
    if q == "iter" and n == "once":
        return It([ONE], (fresh("i", I),), args[0])
    if q == "iter" and n == "empty":
        return It([ZERO], (fresh("i", I),), fnum(ZERO))
    if q in ("Reverse", "Some", "Box", "Rc", "Arc", "Cow", "Owned", "Borrowed") and len(args) == 1:
        return args[0]
    if n in ("new", "from") and q in ("Box", "String", "Rc", "Cow") and len(args) == 1:
        return args[0]
    if n == "from" and args and isinstance(rv(args[0]), (Struct, Str)):
        return NI
    if n in ("default",) and q == "Default":
        raise Unsupported("Default::default")
    # UFCS on natives
    if args and n in METHODS_UFCS:
        return method_value(I_, n, args[0], args[1:])
    return NI


METHODS_UFCS = {"iter", "len", "abs", "sqrt", "dot", "view", "sum", "map", "clone", "unwrap", "is_some", "is_none", "to_owned",
                "into_iter", "collect", "fold", "zip", "partial_cmp", "cmp", "total_cmp", "max", "min", "signum", "t", "nrows", "ncols"}

MUTATING = {"push", "fill", "assign", "scaled_add", "sort", "sort_by", "sort_unstable", "sort_unstable_by", "sort_by_key",
            "sort_unstable_by_key", "truncate", "reverse", "extend", "swap", "mapv_inplace", "map_inplace", "clear",
            "zip_mut_with", "iter_mut", "pop", "insert", "resize", "extend_from_slice", "copy_from_slice", "retain", "sort_by_cached_key",
            "outer_iter_mut", "rows_mut", "axis_iter_mut", "columns_mut", "swap_axes", "append", "remove", "drain", "indexed_iter_mut",
            "get_mut", "clone_from", "assign_to", "genrows_mut", "par_map_inplace", "swap_remove", "move_into", "slice_collapse", "next",
            "add_assign", "sub_assign", "mul_assign", "div_assign", "push_column", "push_row"}
MUTVIEW = {"slice_mut", "row_mut", "column_mut", "index_axis_mut", "view_mut", "as_mut_slice", "as_mut", "borrow_mut",
           "as_slice_mut", "by_ref"}


def method(I_, e, env):
    m = e["m"]
    if m in MUTVIEW:
        c, p = I_.place(e, env)
        return Ref(c, p)
    if m in MUTATING:
        if m == "next" or m == "swap_axes":
            raise Unsupported(m)
        c, p = I_.place(e["recv"], env)
        c, p, v = I_.resolve(c, p)
        args = [I_.ev(a, env) for a in e["args"]]
        c, p, v = I_.resolve(c, p)
        return mutate(I_, m, c, p, v, args)
    if m == "slice" or m == "slice_move" or m == "slice_axis":
        v = I_.rv(I_.ev(e["recv"], env))
        if m == "slice_axis":
            raise Unsupported(m)
        return I_.split(v, lambda w: I_.slice_view(w, I_.slice_spec(w, e["args"][0], env)))
    if m == "collect" or m == "sum" or m == "product":
        recv = I_.ev(e["recv"], env)
        return method_value(I_, m, recv, [])
    recv = I_.ev(e["recv"], env)
    args = [I_.ev(a, env) for a in e["args"]]
    if m in ("into", "try_into") and isinstance(I_.rv(recv), (Struct, Tup)):
        for fn in I_.prog.methods.get("from", []):
            if fn.impl and fn.impl["trait"] and I_.match_args(fn, [recv]) is not None:
                return I_.call_fn(fn, [recv])
    return method_value(I_, m, recv, args)


def mutate(I_, m, c, p, v, args):
    W = lambda x: (I_.write(c, p, x), UNIT)[1]
    if isinstance(v, Mux):
        raise Unsupported("mutation of mux")
    if isinstance(v, Abs):
        return I_.abs_call(Ref(c, p), v, m, args)
    if m in ("iter_mut", "indexed_iter_mut"):
        if not isinstance(v, Seq):
            raise Unsupported("iter_mut")
        vs = tuple(fresh("i", I) for _ in v.dims)
        r = Ref(c, p + (("ix", vs),))
        if m == "indexed_iter_mut":
            ix = unum(vs[0]) if len(vs) == 1 else Tup([unum(x) for x in vs])
            return It(v.dims, vs, Tup([ix, r]))
        return It(v.dims, vs, r)
    if m in ("outer_iter_mut", "rows_mut", "axis_iter_mut", "columns_mut", "genrows_mut"):
        ax = 0
        if m == "axis_iter_mut":
            ax = I_.axis(args[0])
        elif m in ("rows_mut", "genrows_mut"):
            ax = 0
        elif m == "columns_mut":
            ax = 1
        i = fresh("i", I)
        if len(v.dims) == 1:
            return It([v.dims[0]], (i,), Ref(c, p + (("ix", (i,)),)))
        spec = tuple(("i", i) if d == ax else ("all",) for d in range(len(v.dims)))
        return It([v.dims[ax]], (i,), Ref(c, p + (("sl", spec),)))
    if not isinstance(v, Seq):
        if isinstance(v, Num) and m.endswith("_assign"):
            return W(I_.arith({"add": "+", "sub": "-", "mul": "*", "div": "/"}[m[:3]], v, args[0]))
        if isinstance(v, Num) and m == "clone_from":
            return W(I_.rv(args[0]))
        raise Unsupported("%s on %s" % (m, type(v).__name__))
    a0 = I_.rv(args[0]) if args else None
    if m == "push":
        n = v.dims[0]
        i = fresh("i", I)
        old = v.at(i)
        if n is ZERO:
            nv = a0
        else:
            nv = I_.vite(eq(i, n), a0, old)
        return W(Seq([add(n, ONE)], (i,), nv, v.tag))
    if m in ("extend", "extend_from_slice", "append"):
        it = flat1(I_, to_iter(I_, a0))
        if it.guard is not TRUE:
            raise Unsupported("extend by filtered")
        el = elem_value(I_, it)
        n = v.dims[0]
        i = fresh("i", I)
        new = vsubst(el, {it.vs[0]: sub(i, n)})
        W(Seq([add(n, it.dims[0])], (i,), new if n is ZERO else I_.vite(lt(i, n), v.at(i), new), v.tag))
        if m == "append":
            raise Unsupported("append")
        return UNIT
    if m == "fill":
        vs = tuple(fresh("i", I) for _ in v.dims)
        return W(Seq(v.dims, vs, a0, v.tag))
    if m in ("assign", "copy_from_slice", "clone_from"):
        vs = tuple(fresh("i", I) for _ in v.dims)
        if isinstance(a0, Seq):
            if m == "clone_from":
                return W(seq_copy(a0))
            if len(a0.dims) > len(v.dims):
                raise Unsupported("assign rank")
            k = len(v.dims) - len(a0.dims)
            idx = []
            for x, y, iv_ in zip(v.dims[k:], a0.dims, vs[k:]):
                if y is ONE and x is not ONE:
                    idx.append(ZERO)
                    continue
                I_.oblige("shape", eq(x, y), m)
                idx.append(iv_)
            return W(Seq(v.dims, vs, a0.at(*idx), v.tag))
        raise Unsupported("assign of %s" % type(a0).__name__)
    if m in ("add_assign", "sub_assign", "mul_assign", "div_assign"):
        return W(I_.arith({"add": "+", "sub": "-", "mul": "*", "div": "/"}[m[:3]], v, args[0]))
    if m == "scaled_add":
        rhs = I_.rv(args[1])
        if not isinstance(rhs, Seq):
            raise Unsupported("scaled_add")
        return W(I_.arith("+", v, I_.arith("*", rhs, a0)))
    if m in ("mapv_inplace", "map_inplace", "par_map_inplace"):
        vs = tuple(fresh("i", I) for _ in v.dims)
        if m == "mapv_inplace":
            el = I_.with_vars(vs, v.dims, lambda: I_.call_value(args[0], [v.at(*vs)]))
            return W(Seq(v.dims, vs, el, v.tag))
        it = It(v.dims, vs, Ref(c, p + (("ix", vs),)))
        return loops.for_each(I_, it, lambda el: I_.call_value(args[0], [el]))
    if m == "zip_mut_with":
        rhs = a0
        if not isinstance(rhs, Seq) or len(rhs.dims) != len(v.dims):
            raise Unsupported("zip_mut_with")
        for x, y in zip(v.dims, rhs.dims):
            I_.oblige("shape", eq(x, y), m)
        vs = tuple(fresh("i", I) for _ in v.dims)
        it = It(v.dims, vs, Tup([Ref(c, p + (("ix", vs),)), rhs.at(*vs)]))
        return loops.for_each(I_, it, lambda el: I_.call_value(args[1], el.items))
    if m == "truncate":
        n = v.dims[0]
        k = I_.num(a0)
        if I_.ctx.decide(le(k, n)):
            d = k
        elif I_.ctx.decide(le(n, k)):
            d = n
        else:
            d = mn(k, n)
        return W(Seq([d], v.vs, v.elem, v.tag))
    if m == "clear":
        return W(Seq([ZERO], v.vs, v.elem, v.tag))
    if m == "resize":
        raise Unsupported("resize")
    if m == "reverse":
        i = fresh("i", I)
        return W(Seq(v.dims, (i,), v.at(sub(sub(v.dims[0], ONE), i)), v.tag))
    if m == "swap":
        if isinstance(a0, Num):
            i1, i2 = [a0.t], [I_.num(args[1])]
        else:
            i1, i2 = shape_arg(I_, args[0]), shape_arg(I_, args[1])
        I_.bounds(v, i1)
        I_.bounds(v, i2)
        vs = tuple(fresh("i", I) for _ in v.dims)
        c1 = conj([eq(x, y) for x, y in zip(vs, i1)])
        c2 = conj([eq(x, y) for x, y in zip(vs, i2)])
        return W(Seq(v.dims, vs, I_.vite(c1, v.at(*i2), I_.vite(c2, v.at(*i1), v.at(*vs))), v.tag))
    if m.startswith("sort"):
        return W(sort_seq(I_, v, m, args))
    if m == "pop":
        n = v.dims[0]
        if not I_.ctx.decide(lt(ZERO, n)):
            raise Unsupported("pop")
        last = v.at(sub(n, ONE))
        W(Seq([sub(n, ONE)], v.vs, v.elem, v.tag))
        return Enum("Some", [last])
    if m == "get_mut":
        idx = shape_arg(I_, args[0])
        cnd = conj([mkand(le(ZERO, t), lt(t, d)) for t, d in zip(idx, v.dims)])
        s = Enum("Some", [Ref(c, p + (("ix", tuple(idx)),))])
        return s if I_.ctx.decide(cnd) else Mux([(cnd, s), (mknot(cnd), Enum("None"))])
    raise Unsupported("mutating method " + m)


def sort_seq(I_, v, m, args):
    """contract of sorting: the result is a permutation ordered by the comparator"""
    n = v.dims[0]
    tag = tm.fresh("perm", tm.I).args[0]
    pn, qn = tag, tag + "~inv"
    P = lambda t: app(pn, (t,), I)
    Q = lambda t: app(qn, (t,), I)
    i, j = fresh("p", I), fresh("p", I)
    I_.assume(mkforall(i, ZERO, n, mkand(le(ZERO, P(i)), lt(P(i), n), eq(Q(P(i)), i))))
    I_.assume(mkforall(i, ZERO, n, mkand(le(ZERO, Q(i)), lt(Q(i), n), eq(P(Q(i)), i))))
    PERMS[pn] = {"inv": qn, "n": n}
    x, y = v.at(P(i)), v.at(P(j))

    def cmp_():
        # facts about the permutation are needed for bounds inside the comparator
        I_.push_pc(mkand(le(ZERO, P(i)), lt(P(i), n), le(ZERO, P(j)), lt(P(j), n)))
        if "by_key" in m or "cached_key" in m:
            a = I_.call_value(args[0], [x])
            b = I_.call_value(args[0], [y])
            return cmp_val(I_, a, b)
        if m.endswith("_by"):
            return I_.rv(I_.call_value(args[0], [x, y]))
        return cmp_val(I_, x, y)
    o = I_.with_vars((i, j), (n, n), cmp_)
    if not isinstance(o, OrdV):
        raise Unsupported("comparator")
    a, b = I_.num(o.a), I_.num(o.b)
    I_.assume(mkforall(i, ZERO, n, mkforall(j, ZERO, n, mkor(le(j, i), le(a, b)))))
    return Seq(v.dims, (i,), x, v.tag)


PERMS = {}


# ---------------------------------------------------------------- reading methods
def method_value(I_, m, recv, args):
    v = I_.rv(recv)
    if isinstance(v, Mux):
        if m in ("is_some", "is_none", "is_ok", "is_err"):
            return I_.split(v, lambda w: opt_method(I_, m, w, args))
        return I_.split(v, lambda w: method_value(I_, m, w, args))
    if isinstance(v, Num):
        return num_method(I_, m, v, args)
    if isinstance(v, Bool):
        if m in ("then", "then_some"):
            x = I_.call_value(args[0], []) if m == "then" else args[0]
            return I_.vite(v.t, Enum("Some", [x]), Enum("None"))
        if m in ("clone", "to_owned", "not"):
            return Bool(mknot(v.t)) if m == "not" else v
    if isinstance(v, Enum):
        return opt_method(I_, m, v, args)
    if isinstance(v, OrdV):
        if m == "reverse":
            return OrdV(v.b, v.a)
        if m in ("unwrap", "expect"):
            return v
        if m in ("is_lt", "is_gt", "is_le", "is_ge", "is_eq", "is_ne"):
            a, b = v.a.t, v.b.t
            return Bool({"lt": lt(a, b), "gt": lt(b, a), "le": le(a, b), "ge": le(b, a), "eq": eq(a, b), "ne": mknot(eq(a, b))}[m[3:]])
    if isinstance(v, Abs):
        return I_.abs_call(recv, v, m, args)
    if isinstance(v, Seq):
        r = seq_method(I_, m, v, args)
        if r is not NI:
            return r
        # slice/array methods shared with iterators
        return it_method(I_, m, to_iter(I_, v), args)
    if isinstance(v, (It, RangeV)):
        if isinstance(v, RangeV):
            if m == "contains":
                x = I_.num(args[0])
                return Bool(mkand(le(v.lo, x) if v.lo is not None else TRUE, lt(x, v.hi) if v.hi is not None else TRUE))
            if m == "len":
                return unum(to_iter(I_, v).dims[0])
            if m == "is_empty":
                return Bool(le(v.hi, v.lo))
        return it_method(I_, m, to_iter(I_, v), args)
    if isinstance(v, Tup):
        if m == "into_dimension":
            return v
    if isinstance(v, Str):
        if m in ("to_string", "into", "to_owned", "as_str", "clone"):
            return v
    if m in ("clone", "to_owned", "as_ref", "borrow", "into", "deref", "into_inner", "as_deref"):
        return v
    raise Unsupported("method %s on %s" % (m, type(v).__name__ + (":" + v.name if isinstance(v, Struct) else "")))


def opt_method(I_, m, v, args):
    some = v.name in ("Some", "Ok")
    isopt = v.name in ("Some", "None")
    x = v.args[0] if v.args else None
    if v.name not in ("Some", "None", "Ok", "Err"):
        if v.name in ("Less", "Greater", "Equal") and m == "reverse":
            return Enum({"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[v.name], [], v.ty)
        if m in ("clone", "to_owned", "to_string", "into"):
            return v
        raise Unsupported("method %s on %s" % (m, v.name))
    if m in ("unwrap", "expect"):
        if some:
            return x
        I_.oblige("unwrap", FALSE, "%s on %s" % (m, v.name))
        raise Escape()
    if m in ("unwrap_err", "expect_err"):
        if not some:
            return x
        I_.oblige("unwrap", FALSE, m)
        raise Escape()
    if m in ("is_some", "is_ok"):
        return Bool(TRUE if some else FALSE)
    if m in ("is_none", "is_err"):
        return Bool(FALSE if some else TRUE)
    if m == "unwrap_or":
        return x if some else args[0]
    if m == "unwrap_or_else":
        return x if some else I_.call_value(args[0], [x] if x is not None else [])
    if m == "unwrap_or_default":
        if some:
            return x
        raise Unsupported(m)
    if m == "map":
        return Enum(v.name, [I_.call_value(args[0], [x])], v.ty) if some else v
    if m == "map_err":
        return v if some else Enum("Err", [I_.call_value(args[0], [x])])
    if m == "and_then":
        return I_.call_value(args[0], [x]) if some else v
    if m == "or_else":
        return v if some else I_.call_value(args[0], [x] if x is not None else [])
    if m == "or":
        return v if some else args[0]
    if m == "and":
        return args[0] if some else v
    if m == "ok":
        return Enum("Some", [x]) if some else Enum("None")
    if m == "err":
        return Enum("None") if some else Enum("Some", [x])
    if m == "ok_or":
        return Enum("Ok", [x]) if some else Enum("Err", [args[0]])
    if m == "ok_or_else":
        return Enum("Ok", [x]) if some else Enum("Err", [I_.call_value(args[0], [])])
    if m == "map_or":
        return I_.call_value(args[1], [x]) if some else args[0]
    if m == "map_or_else":
        return I_.call_value(args[1], [x]) if some else I_.call_value(args[0], [x] if x is not None else [])
    if m == "filter" and some:
        b = I_.boolean(I_.call_value(args[0], [x]))
        return I_.vite(b, v, Enum("None"))
    if m == "filter":
        return v
    if m in ("as_ref", "as_mut", "cloned", "copied", "clone", "as_deref", "to_owned", "into"):
        return v
    if m == "is_some_and":
        return I_.call_value(args[0], [x]) if some else Bool(FALSE)
    if m in ("iter", "into_iter"):
        return to_iter(I_, v)
    raise Unsupported("option method " + m)


def matvec(I_, a, b):
    ra, rb = len(a.dims), len(b.dims)
    I_.oblige("shape", eq(a.dims[-1], b.dims[0]), "dot")
    s = fresh("d", I)
    va = tuple(fresh("i", I) for _ in a.dims[:-1])
    vb = tuple(fresh("i", I) for _ in b.dims[1:])
    x, y = a.at(*(va + (s,))), b.at(*((s,) + vb))
    if not isinstance(x, Num) or not isinstance(y, Num):
        raise Unsupported("dot")
    body = mksum(s, ZERO, a.dims[-1], mul(x.t, y.t))
    dims = list(a.dims[:-1]) + list(b.dims[1:])
    if not dims:
        return fnum(body)
    return Seq(dims, va + vb, fnum(body))


def seq_method(I_, m, v, args):
    nd = len(v.dims)
    if m in ("readonly", "readwrite") or m in ("to_pyarray", "into_pyarray") and len(args) == 1:
        return v
    if m in ("view", "to_owned", "into_owned", "clone", "to_vec", "into_raw_vec", "as_slice", "as_ref", "into_boxed_slice",
             "reborrow", "into_vec", "borrow", "as_view", "as_array", "deref", "into_dyn", "as_standard_layout", "into_raw_vec_and_offset"):
        if m == "as_slice" and v.tag == "arr":
            return Enum("Some", [v])
        if m in ("to_vec", "into_raw_vec", "into_vec"):
            if nd != 1:
                return collect(I_, v)
            return Seq(v.dims, v.vs, v.elem, "vec")
        return v
    if m == "len":
        n = ONE
        for d in v.dims:
            n = mul(n, d)
        return unum(n)
    if m == "is_empty":
        n = ONE
        for d in v.dims:
            n = mul(n, d)
        return Bool(eq(n, ZERO))
    if m in ("shape", "raw_dim", "dim"):
        if m == "dim":
            return unum(v.dims[0]) if nd == 1 else Tup([unum(d) for d in v.dims])
        return I_.literal([unum(d) for d in v.dims])
    if m == "ndim":
        return unum(num(nd))
    if m == "nrows" or (m == "len_of" and I_.axis(args[0]) == 0):
        return unum(v.dims[0])
    if m == "ncols" or (m == "len_of" and I_.axis(args[0]) == 1):
        return unum(v.dims[1])
    if m in ("t", "reversed_axes"):
        if nd == 1:
            return v
        vs = tuple(fresh("i", I) for _ in v.dims)
        return Seq(list(reversed(v.dims)), vs, v.at(*reversed(vs)), v.tag)
    if m == "dot":
        b = I_.rv(args[0])
        if isinstance(b, Seq):
            return matvec(I_, v, b)
        raise Unsupported("dot with %s" % type(b).__name__)
    if m in ("map", "mapv", "mapv_into", "mapv_into_any") and v.tag == "arr":
        vs, dims, g, r = pure_map(I_, v, lambda el: I_.call_value(args[0], [el]))
        return Seq(dims, vs, r)
    if m == "map" and v.tag == "vec":
        vs, dims, g, r = pure_map(I_, v, lambda el: I_.call_value(args[0], [el]))
        return Seq(dims, vs, r, "vec")
    if m in ("map_axis", "fold_axis"):
        ax = I_.axis(args[0])
        if m == "fold_axis":
            raise Unsupported(m)
        vs = tuple(fresh("i", I) for _ in range(nd - 1))
        w = fresh("i", I)
        idx = list(vs)
        idx.insert(ax, w)
        lane = Seq([v.dims[ax]], (w,), v.at(*idx))
        dims = [d for n, d in enumerate(v.dims) if n != ax]
        el = I_.with_vars(vs, dims, lambda: I_.call_value(args[1], [lane]))
        return Seq(dims, vs, el)
    if m == "sum" and v.tag == "arr":
        return vsum(I_, v)
    if m == "sum_axis" or m == "mean_axis":
        ax = I_.axis(args[0])
        vs = tuple(fresh("i", I) for _ in range(nd - 1))
        w = fresh("i", I)
        idx = list(vs)
        idx.insert(ax, w)
        e = I_.num(v.at(*idx))
        t = mksum(w, ZERO, v.dims[ax], e)
        dims = [d for n, d in enumerate(v.dims) if n != ax]
        if m == "mean_axis":
            I_.oblige("defined", lt(ZERO, v.dims[ax]), "mean of an empty axis")
            return Enum("Some", [Seq(dims, vs, fnum(div(t, v.dims[ax])))])
        return Seq(dims, vs, fnum(t)) if dims else fnum(t)
    if m == "mean":
        n = ONE
        for d in v.dims:
            n = mul(n, d)
        s = vsum(I_, v)
        if not I_.ctx.decide(lt(ZERO, n)):
            return Mux([(lt(ZERO, n), Enum("Some", [fnum(div(s.t, n))])), (le(n, ZERO), Enum("None"))])
        return Enum("Some", [fnum(div(s.t, n))])
    if m == "fold" and v.tag == "arr":
        return it_method(I_, "fold", to_iter(I_, v), args)
    if m in ("iter", "into_iter", "iter_owned"):
        if m == "into_iter" and nd > 1:
            return to_iter(I_, v)
        return to_iter(I_, v)
    if m == "indexed_iter":
        vs = tuple(fresh("i", I) for _ in v.dims)
        ix = unum(vs[0]) if nd == 1 else Tup([unum(x) for x in vs])
        return It(v.dims, vs, Tup([ix, v.at(*vs)]))
    if m in ("rows", "outer_iter", "genrows", "axis_iter", "columns", "gencolumns", "lanes"):
        ax = {"rows": 0, "outer_iter": 0, "genrows": 0, "columns": 1, "gencolumns": 1}.get(m)
        if m == "axis_iter":
            ax = I_.axis(args[0])
        if m == "lanes":
            ax = 1 - I_.axis(args[0])
        i = fresh("i", I)
        if nd == 1:
            if m in ("axis_iter", "outer_iter"):
                return It(v.dims, (i,), v.at(i))
            if m in ("rows", "lanes", "genrows"):
                return It([ONE], (i,), v)
            raise Unsupported(m + " of a vector")
        if nd != 2:
            raise Unsupported("rank 3")
        w = fresh("i", I)
        idx = (i, w) if ax == 0 else (w, i)
        return It([v.dims[ax]], (i,), Seq([v.dims[1 - ax]], (w,), v.at(*idx)))
    if m in ("row", "column"):
        t = I_.num(args[0])
        ax = 0 if m == "row" else 1
        if nd != 2:
            raise Unsupported(m)
        I_.oblige("bounds", mkand(le(ZERO, t), lt(t, v.dims[ax])), m)
        return I_.slice_view(v, (("i", t), ("all",)) if ax == 0 else (("all",), ("i", t)))
    if m in ("index_axis", "index_axis_move"):
        ax = I_.axis(args[0])
        t = I_.num(args[1])
        I_.oblige("bounds", mkand(le(ZERO, t), lt(t, v.dims[ax])), m)
        return I_.slice_view(v, tuple(("i", t) if d == ax else ("all",) for d in range(nd)))
    if m in ("insert_axis",):
        ax = I_.axis(args[0])
        vs = tuple(fresh("i", I) for _ in range(nd + 1))
        dims = list(v.dims)
        dims.insert(ax, ONE)
        return Seq(dims, vs, v.at(*[x for n, x in enumerate(vs) if n != ax]), v.tag)
    if m == "remove_axis":
        ax = I_.axis(args[0])
        I_.oblige("bounds", lt(ZERO, v.dims[ax]), m)
        return I_.slice_view(v, tuple(("i", ZERO) if d == ax else ("all",) for d in range(nd)))
    if m in ("into_shape", "into_shape_with_order", "to_shape"):
        dims = shape_arg(I_, args[0])
        c, r = reshape(I_, v, dims)
        return result_of(I_, c, r)
    if m == "broadcast":
        dims = shape_arg(I_, args[0])
        vs = tuple(fresh("i", I) for _ in dims)
        k = len(dims) - nd
        for n, d in enumerate(v.dims):
            I_.oblige("shape", eq(d, dims[k + n]), m)
        return Enum("Some", [Seq(dims, vs, v.at(*vs[k:]))])
    if m == "diag":
        i = fresh("i", I)
        return Seq([v.dims[0]], (i,), v.at(i, i))
    if m in ("get",):
        a0 = I_.rv(args[0])
        if isinstance(a0, RangeV):
            raise Unsupported("get range")
        idx = shape_arg(I_, args[0])
        c = conj([mkand(le(ZERO, t), lt(t, d)) for t, d in zip(idx, v.dims)])
        s = Enum("Some", [I_.seq_at(v, idx)])
        return s if c is TRUE or I_.ctx.decide(c) else Mux([(c, s), (mknot(c), Enum("None"))])
    if m in ("first", "last"):
        c = lt(ZERO, v.dims[0])
        s = Enum("Some", [v.at(ZERO if m == "first" else sub(v.dims[0], ONE))])
        return s if I_.ctx.decide(c) else Mux([(c, s), (mknot(c), Enum("None"))])
    if m == "contains":
        i = fresh("i", I)
        return Bool(mkexists(i, ZERO, v.dims[0], I_.veq(v.at(i), args[0])))
    if m in ("windows", "split_at", "chunks", "concat"):
        if m == "windows":
            k = I_.rv(args[0])
            if isinstance(k, Num) and nd == 1:
                i, w = fresh("i", I), fresh("i", I)
                n = sub(add(v.dims[0], ONE), k.t)
                if not I_.ctx.decide(le(ZERO, n)):
                    n = mx(n, ZERO)
                return It([n], (i,), Seq([k.t], (w,), v.at(add(i, w))))
        raise Unsupported(m)
    if m in ("add", "sub", "mul", "div"):
        return I_.arith({"add": "+", "sub": "-", "mul": "*", "div": "/"}[m], v, args[0])
    if m == "neg":
        return I_.map_num(v, lambda x: Num(neg(x.t), x.kind))
    if m == "product":
        raise Unsupported("product")
    if m == "for_each":
        it = to_iter(I_, v)
        return loops.for_each(I_, it, lambda el: I_.call_value(args[0], [el]))
    if m in ("into", "try_into"):
        return v
    if m in ("strides", "is_standard_layout", "as_ptr", "into_pyarray", "to_pyarray"):
        if m == "is_standard_layout":
            return Bool(TRUE)
        raise Unsupported(m)
    if m == "eq" or m == "ne":
        c = I_.veq(v, args[0])
        return Bool(c if m == "eq" else mknot(c))
    if m in ("abs_diff_eq", "all_close"):
        raise Unsupported(m)
    return NI


def it_method(I_, m, it, args):
    rv = I_.rv
    if m in ("iter", "into_iter", "cloned", "copied", "by_ref", "fuse", "peekable", "into_par_iter", "inspect"):
        if m in ("cloned", "copied"):
            return It(it.dims, it.vs, elem_value(I_, it), it.guard)
        return it
    if m == "len" or m == "count":
        n = sum_over(I_, it.vs, it.dims, iv(it.guard))
        return unum(n)
    if m == "map":
        return it_map(I_, it, lambda el: I_.call_value(args[0], [el]))
    if m == "enumerate":
        if it.guard is not TRUE:
            raise Unsupported("enumerate of filtered")
        off = ZERO
        for v, d in zip(it.vs, it.dims):
            off = add(mul(off, d), v)
        return It(it.dims, it.vs, Tup([unum(off), it.elem]))
    if m == "zip":
        return zip2(I_, it, to_iter(I_, args[0]))
    if m == "take":
        it = flat1(I_, it) if len(it.dims) > 1 else it
        if it.guard is not TRUE:
            raise Unsupported("take of filtered")
        k, n = I_.num(args[0]), it.dims[0]
        d = k if n is POSINF or I_.ctx.decide(le(k, n)) else n if I_.ctx.decide(le(n, k)) else mn(k, n)
        return It([d], it.vs, it.elem)
    if m == "skip":
        it = flat1(I_, it) if len(it.dims) > 1 else it
        if it.guard is not TRUE:
            raise Unsupported("skip of filtered")
        k, n = I_.num(args[0]), it.dims[0]
        d = sub(n, k)
        if not I_.ctx.decide(le(k, n)):
            d = mx(d, ZERO)
        v = fresh("i", I)
        return It([d], (v,), vsubst(it.elem, {it.vs[0]: add(v, k)}))
    if m == "rev":
        if it.guard is not TRUE and len(it.dims) > 1:
            raise Unsupported("rev")
        vs = tuple(fresh("i", I) for _ in it.vs)
        if any(d.fv & frozenset(it.vs) for d in it.dims):
            raise Unsupported("rev of ragged")
        mp = {v: sub(sub(d, ONE), w) for v, d, w in zip(it.vs, it.dims, vs)}
        return It(it.dims, vs, vsubst(it.elem, mp), subst(it.guard, mp))
    if m == "chain":
        a, b = flat1(I_, it), flat1(I_, to_iter(I_, args[0]))
        v = fresh("i", I)
        n = a.dims[0]
        return It([add(n, b.dims[0])], (v,), I_.vite(lt(v, n), vsubst(a.elem, {a.vs[0]: v}), vsubst(b.elem, {b.vs[0]: sub(v, n)})),
                  bite(lt(v, n), subst(a.guard, {a.vs[0]: v}), subst(b.guard, {b.vs[0]: sub(v, n)})))
    if m == "step_by":
        k, n = I_.num(args[0]), it.dims[0]
        if isnum(k) and k.args[0] > 0 and len(it.dims) == 1:
            v = fresh("i", I)
            d = idiv(add(n, sub(k, ONE)), k)
            return It([d], (v,), vsubst(it.elem, {it.vs[0]: mul(v, k)}), subst(it.guard, {it.vs[0]: mul(v, k)}))
        raise Unsupported("step_by")
    if m == "filter":
        vs, dims, g, r = pure_map(I_, it, lambda el: Bool(I_.boolean(I_.call_value(args[0], [el]))))
        return It(dims, vs, vsubst(it.elem, dict(zip(it.vs, vs))), mkand(g, r.t))
    if m == "filter_map":
        vs, dims, g, r = pure_map(I_, it, lambda el: I_.call_value(args[0], [el]))
        if isinstance(r, Enum) and r.name == "Some":
            return It(dims, vs, r.args[0], g)
        if isinstance(r, Mux) and len(r.alts) == 2:
            som = [(c, x) for c, x in r.alts if isinstance(x, Enum) and x.name == "Some"]
            if len(som) == 1:
                return It(dims, vs, som[0][1].args[0], mkand(g, som[0][0]))
        raise Unsupported("filter_map")
    if m == "flatten":
        return flatten(I_, it)
    if m == "flat_map":
        return flatten(I_, it_map(I_, it, lambda el: I_.call_value(args[0], [el])))
    if m == "collect" or m == "collect_vec":
        return collect(I_, it)
    if m == "sum":
        return vsum(I_, it)
    if m in ("all", "any"):
        vs, dims, g, r = pure_map(I_, it, lambda el: Bool(I_.boolean(I_.call_value(args[0], [el]))))
        c = mkor(mknot(g), r.t) if m == "all" else mkand(g, r.t)
        for v, d in reversed(list(zip(vs, dims))):
            c = mkforall(v, ZERO, d, c) if m == "all" else mkexists(v, ZERO, d, c)
        return Bool(c)
    if m in ("fold", "try_fold"):
        if m == "try_fold":
            raise Unsupported(m)
        return loops.fold(I_, it, args[0], lambda acc, el: I_.call_value(args[1], [acc, el]))
    if m == "reduce":
        raise Unsupported("reduce")
    if m == "for_each":
        return loops.for_each(I_, it, lambda el: I_.call_value(args[0], [el]))
    if m in ("max", "min") or m in ("max_by", "min_by") and False:
        e = I_.rv(elem_value(I_, it))
        if not isinstance(e, Num) or len(it.dims) != 1 or it.guard is not TRUE:
            raise Unsupported(m)
        n = it.dims[0]
        t = e.t if m == "max" else neg(e.t)
        r = bigmax(it.vs[0], ZERO, n, t, subst(t, {it.vs[0]: ZERO}))
        val = Enum("Some", [Num(r if m == "max" else neg(r), e.kind)])
        c = lt(ZERO, n)
        return val if I_.ctx.decide(c) else Mux([(c, val), (mknot(c), Enum("None"))])
    if m == "position" or m == "find" or m == "find_map":
        if len(it.dims) != 1 or it.guard is not TRUE or m == "find_map":
            raise Unsupported(m)
        n = it.dims[0]
        vs, dims, g, r = pure_map(I_, it, lambda el: Bool(I_.boolean(I_.call_value(args[0], [el]))))
        v, c = vs[0], r.t
        ks = fresh("kpos", I)
        # the first index that satisfies c, n when there is none (as for a loop that breaks)
        found = lt(ks, n)
        I_.assume(le(ZERO, ks))
        I_.assume(le(ks, n))
        I_.assume(mkforall(v, ZERO, ks, mknot(c)))
        I_.assume(imp(found, subst(c, {v: ks})))
        x = unum(ks) if m == "position" else vsubst(it.elem, {it.vs[0]: ks})
        return Mux([(found, Enum("Some", [x])), (mknot(found), Enum("None"))])
    if m == "last" or m == "nth":
        if len(it.dims) != 1 or it.guard is not TRUE:
            raise Unsupported(m)
        n = it.dims[0]
        t = sub(n, ONE) if m == "last" else I_.num(args[0])
        c = mkand(le(ZERO, t), lt(t, n))
        val = Enum("Some", [vsubst(it.elem, {it.vs[0]: t})])
        return val if I_.ctx.decide(c) else Mux([(c, val), (mknot(c), Enum("None"))])
    if m == "unzip":
        e = it.elem
        if isinstance(e, Tup) and len(e.items) == 2:
            return Tup([collect(I_, It(it.dims, it.vs, x, it.guard)) for x in e.items])
    if m in ("sorted", "sorted_by"):
        raise Unsupported(m)
    raise Unsupported("iterator method " + m)
