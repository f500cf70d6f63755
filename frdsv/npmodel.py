"""Contracts of the numpy functions the code calls (trusted: numpy itself is not verified)."""
from __future__ import annotations
from fractions import Fraction as F
import types
from . import terms as T
from .terms import Poly, Bool, as_poly, const, ZERO, ONE, TRUE, FALSE
from . import core, values as V, indexing as IX
from .core import FACTS, JOURNAL, RT, Unsupported, ite, under, decide
from .values import Arr, FArr, Storage, Num, SBool, is_num, poly, dim, tonum, wrap, as_arr, F8, I8, B1, DType, dtype_of, to_bool, same_dim, INF, NINF, NAN, SList, Rep

METHODS = {}
PROPERTIES = set()


def method(*names, prop=False):
    def deco(f):
        for n in names:
            METHODS[n] = f
            if prop:
                PROPERTIES.add(n)
        return f
    return deco


# ------------------------------------------------------------------------------------- broadcasting
def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if isinstance(n, int) and n == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = n
                continue
            sd = same_dim(cur, n)
            if sd is True:
                continue
            RT.oblige(T.eq(as_poly(cur) - as_poly(n)), "shape", "operands have matching sizes")
            if sd is False:
                raise Unsupported("operands do not match in size")
        out.append(cur)
    return tuple(out)


def reader(a, nd):
    """Element of `a` for an index of a broadcast result with nd dims."""
    off = nd - a.ndim
    one = [isinstance(s, int) and s == 1 for s in a._shape]
    s = a.snapshot()
    return lambda idx: s.at(tuple(ZERO if one[d] else idx[off + d] for d in range(a.ndim)))


def elementwise(f, *args, dtype=F8):
    """Apply f (on terms) elementwise with broadcasting; scalars give scalars."""
    args = [a.arr() if isinstance(a, Comp) else a for a in args]
    if not any(isinstance(a, (Arr, list, tuple)) for a in args):
        return wrap(f(*[poly(a) if not isinstance(a, (bool, SBool)) else to_bool(a) for a in args]), dtype)
    fm = [a for a in args if isinstance(a, V.FMat)]
    if fm:
        return filtered_matrix(f, args, fm[0], dtype)
    fa = [a for a in args if isinstance(a, FArr)]
    if fa:
        return filtered_elementwise(f, args, dtype)
    arrs = [as_arr(a) for a in args]
    shape = bshape(*[a._shape for a in arrs])
    rd = [reader(a, len(shape)) for a in arrs]
    r = Arr.new(shape, lambda idx: f(*[g(idx) for g in rd]), dtype)
    if not shape:
        return r.get()
    return r


def filtered_matrix(f, args, base, dtype):
    gs = []
    for a in args:
        if isinstance(a, V.FMat):
            if a is not base and not base.same_filter(a):
                raise Unsupported("differently filtered matrices")
            gs.append(a.val)
        elif is_num(a):
            gs.append(lambda i, p=poly(a): p)
        else:
            raise Unsupported("filtered matrix and plain array combined")
    return V.FMat(base.mask, lambda i: f(*[g(i) for g in gs]), dtype)


def filtered_elementwise(f, args, dtype):
    base = [a for a in args if isinstance(a, FArr)][0]
    gs = []
    for a in args:
        if isinstance(a, FArr):
            if a is not base and not base.same_filter(a):
                raise Unsupported("differently filtered arrays")
            gs.append(a.val)
        elif is_num(a):
            gs.append(lambda k, p=poly(a): p)
        else:
            raise Unsupported("filtered and plain array combined")
    return FArr(base.n, base.cond, lambda k: f(*[g(k) for g in gs]), dtype, base._extra)


def nf(v):
    """numeric view of an element"""
    return as_poly(v)


OPS = {
    "+": lambda a, b: nf(a) + nf(b),
    "-": lambda a, b: nf(a) - nf(b),
    "*": lambda a, b: nf(a) * nf(b),
    "/": lambda a, b: V.div(nf(a), nf(b)),
    "//": lambda a, b: V.floordiv(nf(a), nf(b)),
    "%": lambda a, b: nf(a) - nf(b) * V.floordiv(nf(a), nf(b)),
    "**": lambda a, b: V.spow(nf(a), nf(b)),
}


def binop(a, b, name):
    if isinstance(a, (list, tuple, Comp)):
        a = as_arr(a)
    if isinstance(b, (list, tuple, Comp)):
        b = as_arr(b)
    da = a._dtype if isinstance(a, Arr) else (B1 if isinstance(a, (bool, SBool)) else (I8 if tonum(a).t == "int" else F8))
    db = b._dtype if isinstance(b, Arr) else (B1 if isinstance(b, (bool, SBool)) else (I8 if tonum(b).t == "int" else F8))
    for x in (a, b):
        if is_num(x) and tonum(x).special:
            return special_binop(a, b, name)
    if name in OPS:
        if name in ("&", "|"):
            pass
        dt = F8 if name == "/" else V.join_dtype(da, db)
        if dt.kind == "b":
            dt = I8
        if name == "**" and dt.kind == "i":
            dt = I8
        return elementwise(OPS[name], a, b, dtype=dt)
    if name in ("&", "|"):
        g = T.conj if name == "&" else T.disj
        return elementwise(lambda x, y: g(T.as_bool(x), T.as_bool(y)), a, b, dtype=B1)
    if da.kind == "b" and db.kind == "b" and name in ("==", "!="):
        h = lambda x, y: T.disj(T.conj(T.as_bool(x), T.as_bool(y)), T.conj(T.neg(T.as_bool(x)), T.neg(T.as_bool(y))))
        return elementwise(h if name == "==" else (lambda x, y: T.neg(h(x, y))), a, b, dtype=B1)
    return elementwise(lambda x, y: V.compare(name, Num(nf(x)), Num(nf(y))), a, b, dtype=B1)


def special_binop(a, b, name):
    if name in ("<", "<=", ">", ">=", "==", "!="):
        def f(x, y):
            return V.compare_special(name, x, y)
        if isinstance(a, Arr):
            nb = tonum(b)
            return elementwise(lambda x: V.compare_special(name, Num(nf(x)), nb), a, dtype=B1)
        na = tonum(a)
        return elementwise(lambda x: V.compare_special(name, na, Num(nf(x))), b, dtype=B1)
    raise Unsupported("array arithmetic with infinity or nan")


def uf(f, dtype=F8):
    def g(x, *a, out=None, where=None, dtype_=None, **k):
        if out is not None or where is not None:
            raise Unsupported("ufunc out/where")
        if isinstance(x, (list, tuple, Comp)):
            x = as_arr(x)
        if is_num(x) and tonum(x).special:
            return special_uf(f, tonum(x))
        return elementwise(lambda v: f(nf(v)), x, dtype=dtype)
    return g


def special_uf(f, n):
    if f is T.exp:
        return Num(ZERO) if n.special == "-inf" else n
    if f is T.log and n.special == "inf":
        return n
    if f is T.absolute:
        return abs(n)
    raise Unsupported("function of infinity")


exp = uf(T.exp)
log = uf(T.log)
sqrt = uf(T.sqrt)
absolute = uf(T.absolute)
square = uf(lambda p: p * p)
floor = uf(V.sfloor)
ceil = uf(V.sceil)
trunc = uf(V.strunc)
log1p = uf(lambda p: T.log(ONE + p))
expm1 = uf(lambda p: T.exp(p) - ONE)
log2 = uf(lambda p: T.log(p) / T.log(const(2)))
log10 = uf(lambda p: T.log(p) / T.log(const(10)))
sign = uf(lambda p: ite(T.gt(p), ONE, ite(T.gt(-p), const(-1), ZERO)))
negative = uf(lambda p: -p)
reciprocal = uf(lambda p: ONE / p)


def isnan(x):
    if isinstance(x, Arr):
        return x.map(lambda v: to_bool(V.s_isnan(Num(nf(v)))), B1)
    if isinstance(x, (list, tuple)):
        return isnan(as_arr(x))
    return V.s_isnan(x)


def isinf(x):
    if isinstance(x, Arr):
        return x.map(lambda v: to_bool(V.s_isinf(Num(nf(v)))), B1)
    return V.s_isinf(x)


def isfinite(x):
    if isinstance(x, Arr):
        return x.map(lambda v: T.conj(T.neg(to_bool(V.s_isinf(Num(nf(v))))), T.neg(to_bool(V.s_isnan(Num(nf(v)))))), B1)
    a, b = V.s_isinf(x), V.s_isnan(x)
    return wrap(T.conj(T.neg(to_bool(a)), T.neg(to_bool(b))))


class UFunc:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def __call__(self, a, b, out=None, **k):
        if out is not None:
            raise Unsupported("ufunc out")
        return self.f(a, b)

    def reduce(self, xs, axis=0, **k):
        if isinstance(xs, Arr):
            if self.name == "maximum":
                return amax(xs, axis=axis)
            if self.name == "minimum":
                return amin(xs, axis=axis)
            if self.name == "add":
                return sum_(xs, axis=axis)
            raise Unsupported("reduce")
        xs = list(xs)
        if axis not in (0, None):
            raise Unsupported("reduce of a list along another axis")
        sh = [as_arr(x)._shape for x in xs]
        for s in sh[1:]:
            if len(s) != len(sh[0]):
                e = ValueError("setting an array element with a sequence: inhomogeneous shape")
                e._from_code = True
                raise e
            if any(V.same_dim(x, y) is not True for x, y in zip(s, sh[0])):
                raise Unsupported("reduce of arrays of different shapes")
        if axis is None and sh[0]:
            raise Unsupported("reduce over all axes")
        r = xs[0]
        for x in xs[1:]:
            r = self.f(r, x)
        return r

    def accumulate(self, *a, **k):
        raise Unsupported("accumulate")

    def at(self, arr, idx, v):
        if self.name not in ("add", "subtract"):
            raise Unsupported("ufunc.at")
        IX.accumulate_at(arr, idx, v if self.name == "add" else -v, lambda x, y: x + y)

    def outer(self, a, b):
        a, b = as_arr(a), as_arr(b)
        return self.f(a[:, None], b[None, :])


def _mx(a, b):
    a, b = nf(a), nf(b)
    return ite(T.gt(b - a), b, a)


def _mn(a, b):
    a, b = nf(a), nf(b)
    return ite(T.gt(a - b), b, a)


def special_minmax(a, b, big):
    for x, y in ((a, b), (b, a)):
        if is_num(x) and tonum(x).special:
            s = tonum(x).special
            if (s == "inf") == big:
                return x
            if s in ("inf", "-inf"):
                return y
    return None


def maximum_(a, b):
    r = special_minmax(a, b, True)
    return r if r is not None else elementwise(_mx, a, b)


def minimum_(a, b):
    r = special_minmax(a, b, False)
    return r if r is not None else elementwise(_mn, a, b)


maximum = UFunc(maximum_, "maximum")
minimum = UFunc(minimum_, "minimum")
fmax, fmin = maximum, minimum
add = UFunc(lambda a, b: binop(a, b, "+"), "add")
subtract = UFunc(lambda a, b: binop(a, b, "-"), "subtract")
multiply = UFunc(lambda a, b: binop(a, b, "*"), "multiply")
divide = UFunc(lambda a, b: binop(a, b, "/"), "divide")
true_divide = divide
power = UFunc(lambda a, b: binop(a, b, "**"), "power")
float_power = power
logical_and = UFunc(lambda a, b: elementwise(lambda x, y: T.conj(T.as_bool(x), T.as_bool(y)), a, b, dtype=B1), "and")
logical_or = UFunc(lambda a, b: elementwise(lambda x, y: T.disj(T.as_bool(x), T.as_bool(y)), a, b, dtype=B1), "or")
less = UFunc(lambda a, b: binop(a, b, "<"), "less")
less_equal = UFunc(lambda a, b: binop(a, b, "<="), "less_equal")
greater = UFunc(lambda a, b: binop(a, b, ">"), "greater")
greater_equal = UFunc(lambda a, b: binop(a, b, ">="), "greater_equal")
equal = UFunc(lambda a, b: binop(a, b, "=="), "equal")
not_equal = UFunc(lambda a, b: binop(a, b, "!="), "not_equal")


def logical_not(a):
    return elementwise(lambda x: T.neg(T.as_bool(x)), a, dtype=B1)


@method("clip")
def clip(x, a_min=None, a_max=None, min=None, max=None, out=None, **k):
    if out is not None:
        raise Unsupported("clip out")
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = x if isinstance(x, Arr) or is_num(x) else as_arr(x)
    if a_min is not None and not (is_num(a_min) and tonum(a_min).special):
        r = maximum_(r, a_min)
    if a_max is not None and not (is_num(a_max) and tonum(a_max).special):
        r = minimum_(r, a_max)
    return r


def where(c, a=None, b=None):
    if a is None:
        return (nonzero(c)[0],)
    c = c if isinstance(c, Arr) else as_arr(c)
    if isinstance(c, FArr) or isinstance(a, FArr) or isinstance(b, FArr):
        return filtered_elementwise(lambda x, y, z: ite(T.as_bool(x), nf(y), nf(z)), (c, a, b), F8)
    aa, bb = as_arr(a), as_arr(b)
    dt = V.join_dtype(aa._dtype, bb._dtype)
    for z in (a, b):
        if is_num(z) and tonum(z).special:
            raise Unsupported("where with infinity or nan")
    return elementwise(lambda x, y, z: ite(T.as_bool(x), y if dt.kind == "b" else nf(y), z if dt.kind == "b" else nf(z)), c, aa, bb, dtype=dt)


@method("nonzero")
def nonzero(m):
    m = as_arr(m)
    if m.ndim != 1:
        raise Unsupported("nonzero of a matrix")
    s = m.snapshot()
    f = FArr(m._shape[0], lambda k: T.as_bool(s.at((k,))), lambda k: k, I8)
    return (f,)


def argwhere(m):
    f = nonzero(m)[0]
    return FArr(f.n, f.cond, f.val, I8, (1,))


def flatnonzero(m):
    return nonzero(m)[0]


# ------------------------------------------------------------------------------------- construction
def contig_copy(a, dtype):
    s = a.snapshot()
    src = a._dtype

    def fn(idx):
        v = s.at(idx)
        if dtype.kind == "b":
            return T.as_bool(v)
        v = nf(v)
        return V.strunc(v) if dtype.kind in "iu" and src.kind == "f" else v
    return Arr.new(a._shape, fn, dtype)


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, GenericSeq):
        x = x.arr()
    a = as_arr(x)
    if isinstance(a, FArr):
        return a
    if dtype is None or dtype_of(dtype).name == a._dtype.name:
        if order in ("C",) and not a.contig:
            return contig_copy(a, a._dtype)
        return a
    return contig_copy(a, dtype_of(dtype))


class GenericSeq:
    """A list-like argument (not an array) with symbolic contents."""


def ascontiguousarray(x, dtype=None, **k):
    a = asarray(x, dtype)
    if isinstance(a, FArr):
        return a
    if a.ndim == 0:
        a = a.reshape((1,))
    return a if a.contig else contig_copy(a, a._dtype)


def array(x, dtype=None, copy=True, **k):
    a = as_arr(x)
    if isinstance(a, FArr):
        return a
    return contig_copy(a, dtype_of(dtype, a._dtype))


def shape_of(s):
    if isinstance(s, Arr):
        s = list(s)
    if is_num(s):
        return (dim(s),)
    return tuple(dim(x) for x in s)


def zeros(shape, dtype=None, **k):
    d = V.dtype_new(dtype)
    return Arr.new(shape_of(shape), (lambda i: FALSE) if d.kind == "b" else (lambda i: ZERO), d)


def ones(shape, dtype=None, **k):
    d = V.dtype_new(dtype)
    return Arr.new(shape_of(shape), (lambda i: TRUE) if d.kind == "b" else (lambda i: ONE), d)


def full(shape, v, dtype=None, **k):
    d = V.dtype_new(dtype)
    if is_num(v) and tonum(v).special:
        p = poly(v)
        return Arr.new(shape_of(shape), lambda i: p, F8)
    f = IX.broadcast_value(v, shape_of(shape), d)
    return Arr.new(shape_of(shape), f, d)


def empty(shape, dtype=None, **k):
    n = RT.counter("uninit")
    return Arr.new(shape_of(shape), lambda i: T.App(f"uninit{n}", *i), V.dtype_new(dtype))


def _like(f):
    def g(a, *v, dtype=None, **k):
        a = as_arr(a)
        k.pop("shape", None)
        return f(a._shape, *v, dtype=V.dtype_new(dtype, a._dtype))
    return g


zeros_like, ones_like, empty_like, full_like = _like(zeros), _like(ones), _like(empty), _like(full)


def eye(n, m=None, dtype=None, **k):
    m = n if m is None else m
    return Arr.new((dim(n), dim(m)), lambda i: ite(T.eq(i[0] - i[1]), ONE, ZERO), F8)


identity = eye


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    pl, ph, ps = poly(lo), poly(hi), poly(st)
    cs = ps.const()
    if cs is None:
        raise Unsupported("arange with a symbolic step")
    n = (ph - pl) * const(1 / cs)
    if n.const() is not None or not n.isint_sorted():
        n = V.sceil(n)
    n = IX._clamp_lo(n)
    t = all(tonum(x).t == "int" for x in (lo, hi, st))
    return Arr.new((dim(n),), lambda i: pl + ps * i[0], dtype_of(dtype, I8 if t else F8))


def linspace(a, b, num=50, endpoint=True, **k):
    n = dim(num)
    if not isinstance(n, int):
        raise Unsupported("linspace with a symbolic count")
    pa, pb = poly(a), poly(b)
    dv = n - 1 if endpoint else n
    return Arr.new((n,), lambda i: pa + (pb - pa) * const(F(1, dv)) * i[0], F8)


def meshgrid(*a, indexing="xy"):
    if indexing != "ij":
        raise Unsupported("meshgrid")
    xs = [as_arr(x) for x in a]
    xs = [(x.reshape((1,)) if x.ndim == 0 else x).snapshot() for x in xs]
    shape = tuple(x._shape[0] for x in xs)
    return SList([Arr.new(shape, lambda i, d=d, x=x: x.at((i[d],)), F8) for d, x in enumerate(xs)])


def fromiter(it, dtype=None, count=-1):
    if isinstance(it, Comp):
        return contig_copy(it.arr(), dtype_of(dtype)) if dtype is not None and dtype_of(dtype).kind not in "?" else it.arr()
    return as_arr(list(it))


class Comp:
    """A comprehension over a symbolic array (no filter), or a filtered one."""

    def __init__(self, arr):
        self._arr = arr

    def arr(self):
        return self._arr


@method("reshape")
def reshape(a, *shape, order="C"):
    a = as_arr(a)
    if len(shape) == 1 and not is_num(shape[0]):
        shape = tuple(shape[0])
    if len(shape) == 0:
        raise Unsupported("reshape")
    old = a._shape
    if any(V.pconst(x) == -1 for x in shape):
        known = ONE
        for x in shape:
            if V.pconst(x) != -1:
                known = known * poly(x)
        tot = ONE
        for x in old:
            tot = tot * as_poly(x)
        q = dim(V.floordiv(tot, known)) if known != ONE else dim(tot)
        shape = tuple(Num(as_poly(q), "int") if V.pconst(x) == -1 else x for x in shape)
    new = tuple(dim(x) for x in shape)
    # strip sizes of one and compare
    so = [d for d, n in enumerate(old) if not (isinstance(n, int) and n == 1)]
    sn = [d for d, n in enumerate(new) if not (isinstance(n, int) and n == 1)]
    s = a.snapshot()
    if len(so) == len(sn) and all(same_dim(old[i], new[j]) is True for i, j in zip(so, sn)):
        pos = {i: j for i, j in zip(so, sn)}
        if a.vmap is not None and not isinstance(a.st, V._Frozen):
            # a view of the same memory
            inv = {j: i for i, j in pos.items()}
            vm = []
            ok = True
            for e in a.vmap:
                if e[0] == "f":
                    vm.append(e)
                elif e[1] in pos:
                    vm.append(("d", pos[e[1]], e[2], e[3]))
                else:
                    vm.append(("f", e[2]))
            return Arr(new, a.st, vm, a._dtype, a.contig)
        return Arr.new(new, lambda idx: s.at(tuple(idx[pos[d]] if d in pos else ZERO for d in range(len(old)))), a._dtype)
    tot_o, tot_n = ONE, ONE
    for x in old:
        tot_o = tot_o * as_poly(x)
    for x in new:
        tot_n = tot_n * as_poly(x)
    if tot_o != tot_n:
        RT.oblige(T.eq(tot_o - tot_n), "shape", "reshape keeps the number of elements")

    def lin(idx, sh):
        # position in memory order
        r = ZERO
        if order == "F":
            m = ONE
            for i, n in zip(idx, sh):
                r = r + i * m
                m = m * as_poly(n)
        else:
            for i, n in zip(idx, sh):
                r = r * as_poly(n) + i
        return r

    def unlin(p, sh):
        out = [None] * len(sh)
        rng = range(len(sh)) if order == "F" else range(len(sh) - 1, -1, -1)
        rng = list(rng)
        for c, d in enumerate(rng):
            n = as_poly(sh[d])
            if c == len(rng) - 1:
                out[d] = p
            else:
                q = idiv(p, n)
                out[d] = p - q * n
                p = q
        return tuple(out)
    return Arr.new(new, lambda idx: s.at(unlin(lin(idx, new), old)), a._dtype)


def idiv(p, n):
    """floor(p/n) where the remainder is recognised when it is a known index below n."""
    c = n.const()
    if c == 1:
        return p
    # p = q*n + r with 0 <= r < n
    at = n.atom()
    q = ZERO
    r = ZERO
    if at is not None:
        for m, k in p.d.items():
            dm = dict(m)
            if dm.get(at.id, 0) >= 1:
                dm[at.id] = dm[at.id] - 1
                q = q + T.mono_poly(dm, k)
            else:
                r = r + Poly({m: k})
    elif c is not None:
        for m, k in p.d.items():
            kk = k / c
            if kk.denominator == 1:
                q = q + Poly({m: kk})
            elif k.denominator == 1 and not m:
                q = q + const(k // c)
                r = r + const(k - (k // c) * c)
            else:
                r = r + Poly({m: k})
    else:
        return T.App("floor", p / n)
    if r == ZERO:
        return q
    if FACTS.implied(T.conj(T.ge(r), T.gt(n - r))):
        return q
    return q + T.App("floor", r / n)


T.FUN_PROPS["floordiv"] = dict(isint=True)


@method("ravel", "flatten")
def flatten(a, order="C"):
    a = as_arr(a)
    if isinstance(a, FArr):
        return FArr(a.n, a.cond, a.val, a._dtype, ())
    if a.ndim == 1:
        return a.copy()
    r = reshape(a, -1, order=order)
    return r.copy()


ravel = flatten


@method("squeeze")
def squeeze(a, axis=None):
    a = as_arr(a)
    if isinstance(a, FArr):
        return FArr(a.n, a.cond, a.val, a._dtype, ())
    key = [0 if isinstance(n, int) and n == 1 else slice(None) for n in a._shape]
    return IX.view(a, key)


@method("transpose")
def transpose(a, *axes):
    a = as_arr(a)
    if len(axes) == 1 and not is_num(axes[0]) and axes[0] is not None:
        axes = tuple(axes[0])
    ax = list(range(a.ndim))[::-1] if not axes or axes[0] is None else [int(x) for x in axes]
    inv = {o: i for i, o in enumerate(ax)}
    vm = [e if e[0] == "f" else ("d", inv[e[1]], e[2], e[3]) for e in a.vmap]
    nontriv = [x for x in ax if not (isinstance(a._shape[x], int) and a._shape[x] == 1)]
    return Arr(tuple(a._shape[x] for x in ax), a.st, vm, a._dtype, a.contig and nontriv == sorted(nontriv))


METHODS["T"] = lambda a: transpose(a)
PROPERTIES.add("T")


def swapaxes(a, i, j):
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(a, ax)


def expand_dims(a, axis):
    a = as_arr(a)
    axis = int(axis)
    if axis < 0:
        axis += a.ndim + 1
    return IX.view(a, [slice(None)] * axis + [None])


def atleast_1d(a):
    a = as_arr(a)
    return reshape(a, 1) if a.ndim == 0 else a


def atleast_2d(a):
    a = as_arr(a)
    if a.ndim == 0:
        return reshape(a, 1, 1)
    return expand_dims(a, 0) if a.ndim == 1 else a


def concatenate(xs, axis=0, **k):
    if isinstance(xs, Rep):
        x = as_arr(xs.item)
        rp = [1] * x.ndim
        rp[int(axis) % x.ndim] = Num(xs.n, "int")
        return tile(x, tuple(rp))
    xs = [as_arr(x) for x in xs]
    if any(isinstance(x, FArr) for x in xs):
        raise Unsupported("concatenation of filtered arrays")
    nd = xs[0].ndim
    axis = int(axis) % nd if nd else 0
    dt = xs[0]._dtype
    for x in xs[1:]:
        dt = V.join_dtype(dt, x._dtype)
        if x.ndim != nd:
            raise Unsupported("concatenation of different ranks")
        for d in range(nd):
            if d != axis and same_dim(x._shape[d], xs[0]._shape[d]) is not True:
                RT.oblige(T.eq(as_poly(x._shape[d]) - as_poly(xs[0]._shape[d])), "shape", "concatenated arrays match")
    offs = [ZERO]
    for x in xs:
        offs.append(offs[-1] + as_poly(x._shape[axis]))
    shape = list(xs[0]._shape)
    shape[axis] = dim(offs[-1])
    ss = [x.snapshot() for x in xs]

    def fn(idx):
        i = idx[axis]

        def el(j):
            return ss[j].at(tuple(idx[:axis]) + (i - offs[j],) + tuple(idx[axis + 1:]))
        # skip pieces known not to contain the index
        conds = []
        for j in range(len(ss) - 1):
            c = FACTS.simp(T.gt(offs[j + 1] - i))
            if c.kind == "false":
                continue
            conds.append((c, j))
            if c.kind == "true":
                break
        if conds and conds[-1][0].kind == "true":
            r = el(conds[-1][1])
            conds = conds[:-1]
        else:
            r = el(len(ss) - 1)
        for c, j in reversed(conds):
            r = ite(c, el(j), r)
        return r
    return Arr.new(tuple(shape), fn, dt)


def vstack(xs, **k):
    if isinstance(xs, Rep):
        return concatenate(Rep(atleast_2d(xs.item), xs.n), 0)
    return concatenate([atleast_2d(x) for x in xs], 0)


row_stack = vstack


def hstack(xs, **k):
    if isinstance(xs, Rep):
        x = atleast_1d(xs.item)
        return concatenate(Rep(x, xs.n), 0 if x.ndim == 1 else 1)
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def column_stack(xs):
    xs = [as_arr(x) for x in xs]
    return concatenate([x[:, None] if x.ndim == 1 else x for x in xs], 1)


def stack(xs, axis=0, **k):
    if isinstance(xs, Rep):
        x = as_arr(xs.item)
        axis = int(axis) + (x.ndim + 1 if int(axis) < 0 else 0)
        return concatenate(Rep(expand_dims(x, axis), xs.n), axis)
    xs = [as_arr(x) for x in xs]
    axis = int(axis)
    if axis < 0:
        axis += xs[0].ndim + 1
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def dstack(xs):
    if isinstance(xs, Rep):
        x = as_arr(xs.item)
        if x.ndim != 2:
            raise Unsupported("dstack")
        s = x.snapshot()
        return Arr.new(x._shape + (dim(xs.n),), lambda i: s.at(i[:2]), x._dtype)
    xs = [as_arr(x) for x in xs]
    xs = [x[:, :, None] if x.ndim == 2 else (x[None, :, None] if x.ndim == 1 else x) for x in xs]
    return concatenate(xs, 2)


def tile(a, reps):
    a = as_arr(a)
    if is_num(reps):
        reps = (reps,)
    reps = tuple(reps)
    nd = max(a.ndim, len(reps))
    sh = (1,) * (nd - a.ndim) + a._shape
    rp = (1,) * (nd - len(reps)) + reps
    out = []
    for n, r in zip(sh, rp):
        rd = dim(r)
        out.append(dim(as_poly(n) * as_poly(rd)))
    s = a.snapshot()
    off = nd - a.ndim

    def fn(idx):
        ix = []
        for d in range(off, nd):
            n, r = sh[d], rp[d]
            if isinstance(n, int) and n == 1:
                ix.append(ZERO)
            elif V.pconst(r) == 1:
                ix.append(idx[d])
            else:
                ix.append(idx[d] - as_poly(n) * idiv(idx[d], as_poly(n)))
        return s.at(tuple(ix))
    return Arr.new(tuple(out), fn, a._dtype)


@method("repeat")
def repeat(a, n, axis=None):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("repeat of a matrix")
        axis = 0
    axis = int(axis)
    s = a.snapshot()
    sh = list(a._shape)
    one = isinstance(sh[axis], int) and sh[axis] == 1
    sh[axis] = dim(as_poly(sh[axis]) * poly(n))

    def fn(idx):
        ix = list(idx)
        ix[axis] = ZERO if one else idiv(ix[axis], poly(n))
        return s.at(tuple(ix))
    return Arr.new(tuple(sh), fn, a._dtype)


def broadcast_to(a, shape):
    a = as_arr(a)
    rd = reader(a, len(shape_of(shape)))
    return Arr.new(shape_of(shape), rd, a._dtype)


def flip(a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("flip of a matrix")
    return a[::-1]


def diag(a, k=0):
    a = as_arr(a)
    s = a.snapshot()
    if a.ndim == 2:
        return Arr.new((a._shape[0],), lambda i: s.at((i[0], i[0])), a._dtype)
    return Arr.new((a._shape[0], a._shape[0]), lambda i: ite(T.eq(i[0] - i[1]), s.at((i[0],)), ZERO), a._dtype)


METHODS["diagonal"] = lambda a, *x: diag(a)


def outer(a, b):
    a, b = flatten(as_arr(a)), flatten(as_arr(b))
    return a[:, None] * b[None, :]


# ------------------------------------------------------------------------------------- reductions
def axes_of(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [int(x) % a.ndim for x in axis]
    return [int(axis) % a.ndim]


def reduce_sum(a, axis, f, keepdims=False, dtype=F8):
    """Sum of f(element) over the given axes."""
    a = as_arr(a)
    if isinstance(a, FArr):
        if axis not in (None, 0) and not a._extra:
            raise Unsupported("axis of a filtered array")
        cond, val = a.cond, a.val
        n = as_poly(a.n)
        p = T.Sum(n, lambda k: _under_range(k, n, lambda: T.ite(cond(k), f(val(k)), ZERO)))
        if axis == 0 and a._extra:
            return Arr.new(a._extra, lambda i: p, dtype)
        return Num(p)
    ax = axes_of(a, axis)
    keep = [d for d in range(a.ndim) if d not in ax]
    s = a.snapshot()

    def total(idx_keep):
        def rec(js, idx):
            if not js:
                return f(s.at(tuple(idx[d] for d in range(a.ndim))))
            d = js[0]
            n = as_poly(a._shape[d])

            def body(k):
                return _under_range(k, n, lambda: rec(js[1:], {**idx, d: k}))
            return T.Sum(n, body)
        return rec(ax, {d: i for d, i in zip(keep, idx_keep)})
    if keepdims:
        shape = tuple(1 if d in ax else a._shape[d] for d in range(a.ndim))
        return Arr.new(shape, lambda idx: total([idx[d] for d in keep]), dtype)
    if not keep:
        p = total([])
        return V.norm(p, "int") if dtype.kind == "i" else Num(p)
    return Arr.new(tuple(a._shape[d] for d in keep), total, dtype)


def _under_range(k, n, th):
    c = as_poly(k).const()
    if c is not None:
        return th()
    with under(T.ge(as_poly(k)), T.gt(n - as_poly(k))):
        return th()


def count_of(a, axis):
    a = as_arr(a)
    if isinstance(a, (FArr, V.FMat)):
        return Num(as_poly(a._cnt), "int")
    r = ONE
    for d in axes_of(a, axis):
        r = r * as_poly(a._shape[d])
    return V.norm(r, "int")


@method("sum")
def sum_(a, axis=None, dtype=None, keepdims=False, out=None, **k):
    if isinstance(a, Comp):
        a = a.arr()
    if isinstance(a, V.FMat):
        return V.norm(a.total(lambda i: nf(a.val(i))), "int" if a._dtype.kind in "bi" else "float")
    if is_num(a):
        return a
    a = as_arr(a)
    return reduce_sum(a, axis, nf, keepdims, I8 if a._dtype.kind in "bi" else F8)


@method("mean")
def mean(a, axis=None, keepdims=False, **k):
    if is_num(a):
        return a
    a = as_arr(a)
    return divide(reduce_sum(a, axis, nf, keepdims), count_of(a, axis))


def nansum(a, axis=None, **k):
    return reduce_sum(as_arr(a), axis, lambda v: ite(to_bool(V.s_isnan(Num(nf(v)))), ZERO, nf(v)))


def nanmean(a, axis=None, **k):
    a = as_arr(a)
    cnt = reduce_sum(a, axis, lambda v: ite(to_bool(V.s_isnan(Num(nf(v)))), ZERO, ONE))
    return divide(nansum(a, axis), cnt)


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a, w = as_arr(a), as_arr(weights)
    if a.ndim != 1 or w.ndim != 1:
        raise Unsupported("weighted average of a matrix")
    bshape(a._shape, w._shape)
    return divide(sum_(a * w), sum_(w))


@method("var")
def var(a, axis=None, ddof=0, **k):
    a = as_arr(a)
    if isinstance(a, FArr):
        m = poly(mean(a))
        return divide(sum_(a.map(lambda v: (nf(v) - m) ** 2)), count_of(a, axis) - ddof)
    m = mean(a, axis, keepdims=True) if axis is not None else mean(a)
    d = a - m
    return divide(sum_(d * d, axis), count_of(a, axis) - ddof)


@method("std")
def std(a, axis=None, ddof=0, **k):
    return sqrt(var(a, axis, ddof))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = as_arr(m)
    if y is not None:
        m = stack([m, as_arr(y)])
    if not rowvar:
        m = transpose(m)
    if m.ndim != 2:
        if m.ndim == 1:
            return var(m, ddof=0 if bias else 1)
        raise Unsupported("cov")
    dd = ddof if ddof is not None else (0 if bias else 1)
    n = as_poly(m._shape[1])
    s = m.snapshot()

    def fn(idx):
        i, j = idx
        si = T.Sum(n, lambda k: _under_range(k, n, lambda: nf(s.at((i, k)))))
        sj = T.Sum(n, lambda k: _under_range(k, n, lambda: nf(s.at((j, k)))))
        return T.Sum(n, lambda k: _under_range(k, n, lambda: (nf(s.at((i, k))) - si / n) * (nf(s.at((j, k))) - sj / n))) / (n - poly(dd))
    return Arr.new((m._shape[0], m._shape[0]), fn, F8)


def corrcoef(x, y=None, rowvar=True, **k):
    x = as_arr(x)
    if y is not None:
        x = stack([x, as_arr(y)])
    if not rowvar:
        x = transpose(x)
    c = cov(x)

    def fn(idx):
        i, j = idx
        d = FACTS.decide(T.eq(i - j))
        if d is True:
            RT.assume_note("corrcoef-diag", "np.corrcoef of a non-constant series with itself is 1")
            return ONE
        r = nf(c.at((i, j))) / T.sqrt(nf(c.at((i, i))) * nf(c.at((j, j))))
        if d is False:
            return r
        return ite(T.eq(i - j), ONE, r)
    return Arr.new((x._shape[0], x._shape[0]), fn, F8)


def _reduce1(name, a, axis=None):
    a = as_arr(a)
    if isinstance(a, FArr):
        cond, val = a.cond, a.val
        return Num(T.App(name + "_filtered", T.lam(as_poly(a.n), lambda k: T.ite(cond(k), ONE, ZERO)), T.lam(as_poly(a.n), lambda k: nf(val(k)))))
    if axis is not None and a.ndim > 1:
        ax = int(axis) % a.ndim
        s = a.snapshot()
        keep = [d for d in range(a.ndim) if d != ax]
        n = a._shape[ax]

        def fn(idx):
            def el(k):
                full = dict(zip(keep, idx))
                full[ax] = as_poly(k)
                return nf(s.at(tuple(full[d] for d in range(a.ndim))))
            if isinstance(n, int):
                r = el(const(0))
                for j in range(1, n):
                    r = (_mx if name == "maxof" else _mn)(r, el(const(j)))
                return r
            return T.App(name, T.lam(as_poly(n), lambda k: _under_range(k, as_poly(n), lambda: el(k))))
        return Arr.new(tuple(a._shape[d] for d in keep), fn, a._dtype)
    if a.ndim == 0:
        return a.get()
    if a.ndim != 1:
        raise Unsupported("max of a matrix")
    s = a.snapshot()
    n = a._shape[0]
    if isinstance(n, int):
        r = nf(s.at((ZERO,)))
        for j in range(1, n):
            r = (_mx if name == "maxof" else _mn)(r, nf(s.at((const(j),))))
        return Num(r)
    return Num(T.App(name, T.lam(as_poly(n), lambda k: _under_range(k, as_poly(n), lambda: nf(s.at((k,)))))))


@method("max")
def amax(a, axis=None, **k):
    return a if is_num(a) else _reduce1("maxof", a, axis)


@method("min")
def amin(a, axis=None, **k):
    return a if is_num(a) else _reduce1("minof", a, axis)


@method("argmax")
def argmax(a, axis=None, **k):
    return V.norm(poly(_reduce1("argmaxof", a, axis)), "int")


@method("argmin")
def argmin(a, axis=None, **k):
    h = RT.ext.get("argmin")
    if h is not None and axis is None:
        return h(a)
    return V.norm(poly(_reduce1("argminof", a, axis)), "int")


T.FUN_PROPS["argmaxof"] = dict(isint=True, nonneg=True)
T.FUN_PROPS["argminof"] = dict(isint=True, nonneg=True)


@method("all")
def all_(a, axis=None, **k):
    if isinstance(a, (bool, SBool)) or is_num(a):
        return wrap(to_bool(a))
    a = as_arr(a)
    if a.ndim != 1 or isinstance(a, FArr):
        raise Unsupported("all() of a matrix")
    s = a.snapshot()
    n = as_poly(a._shape[0])
    if isinstance(a._shape[0], int):
        return wrap(T.conj(*[T.as_bool(s.at((const(j),))) for j in range(a._shape[0])]))
    return wrap(T.Forall(n, lambda k: _under_range(k, n, lambda: T.as_bool(s.at((k,))))))


@method("any")
def any_(a, axis=None, **k):
    if isinstance(a, (bool, SBool)) or is_num(a):
        return wrap(to_bool(a))
    a = as_arr(a)
    if a.ndim != 1 or isinstance(a, FArr):
        raise Unsupported("any() of a matrix")
    s = a.snapshot()
    n = as_poly(a._shape[0])
    if isinstance(a._shape[0], int):
        return wrap(T.disj(*[T.as_bool(s.at((const(j),))) for j in range(a._shape[0])]))
    return wrap(T.Exists(n, lambda k: _under_range(k, n, lambda: T.as_bool(s.at((k,))))))


def count_nonzero(a, axis=None, **k):
    return reduce_sum(as_arr(a), axis, lambda v: ite(T.as_bool(v), ONE, ZERO), dtype=I8)


@method("prod")
def prod(a, axis=None, **k):
    a = as_arr(a)
    if a.ndim == 1 and isinstance(a._shape[0], int):
        r = ONE
        for j in range(a._shape[0]):
            r = r * nf(a.at((const(j),)))
        return Num(r)
    if a.ndim == 1 and not isinstance(a, FArr):
        s = a.snapshot()
        n = as_poly(a._shape[0])
        return Num(T.exp(T.Sum(n, lambda k: _under_range(k, n, lambda: T.log(nf(s.at((k,))))))))
    raise Unsupported("prod")


@method("cumsum")
def cumsum(a, axis=None, **k):
    a = as_arr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    ax = 0 if axis is None else int(axis) % a.ndim
    s = a.snapshot()

    def fn(idx):
        n = idx[ax] + 1
        return T.Sum(n, lambda k: _under_range(k, n, lambda: nf(s.at(tuple(idx[:ax]) + (k,) + tuple(idx[ax + 1:])))))
    return Arr.new(a._shape, fn, F8)


@method("dot")
def dot(a, b):
    if is_num(a) or is_num(b):
        return a * b
    a, b = as_arr(a), as_arr(b)
    n = a._shape[-1]
    m = b._shape[0] if b.ndim == 1 else b._shape[-2]
    if same_dim(n, m) is not True:
        RT.oblige(T.eq(as_poly(n) - as_poly(m)), "shape", "dot: inner sizes match")
        n = m if isinstance(m, int) else n
    sa, sb = a.snapshot(), b.snapshot()
    np_ = as_poly(n)

    def ent(ia, ib):
        def body(k):
            return _under_range(k, np_, lambda: nf(sa.at(tuple(ia) + (k,))) * nf(sb.at((k,) + tuple(ib))))
        return T.Sum(np_, body)
    if a.ndim == 1 and b.ndim == 1:
        return Num(ent((), ()))
    if a.ndim == 2 and b.ndim == 1:
        return Arr.new((a._shape[0],), lambda i: ent((i[0],), ()), F8)
    if a.ndim == 1 and b.ndim == 2:
        return Arr.new((b._shape[1],), lambda i: ent((), (i[0],)), F8)
    if a.ndim == 2 and b.ndim == 2:
        return Arr.new((a._shape[0], b._shape[1]), lambda i: ent((i[0],), (i[1],)), F8)
    raise Unsupported("dot of higher rank")


matmul = inner = dot


@method("trace")
def trace(a, *x, **k):
    a = as_arr(a)
    s = a.snapshot()
    n = as_poly(a._shape[0])
    return Num(T.Sum(n, lambda k: _under_range(k, n, lambda: nf(s.at((k, k))))))


def einsum(*a, **k):
    raise Unsupported("einsum")


# ------------------------------------------------------------------------------------- order statistics
def lam_of(a):
    a = as_arr(a)
    if isinstance(a, FArr):
        raise Unsupported("opaque function of a filtered array")
    s = a.snapshot()

    def build(d, idx):
        n = as_poly(a._shape[d])

        def body(k):
            return _under_range(k, n, lambda: (nf(s.at(tuple(idx) + (k,))) if d == a.ndim - 1 else build(d + 1, idx + [k])))
        return T.lam(n, body)
    return build(0, [])


def percentile(a, q, axis=None, method=None, interpolation=None, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("percentile of a matrix")
    nm = "percentile" if (method or interpolation or "linear") == "linear" else "percentile_" + str(method or interpolation)
    return elementwise(lambda p: T.App(nm, lam_of(a), nf(p)), q)


def quantile(a, q, **k):
    return percentile(a, binop(q, 100, "*") if isinstance(q, Arr) else tonum(q) * 100, **k)


def median(a, **k):
    return percentile(a, 50)


def sort(a, axis=-1, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("sort of a matrix")
    if a.marked("sorted") is not None:
        return a.copy()
    L = lam_of(a)
    r = Arr.new(a._shape, lambda i: T.App("sorted", L, i[0]), a._dtype)
    return r.mark("sorted", L)


def _sort_inplace(a, *x, **k):
    r = sort(a)
    IX.setitem(a, Ellipsis, r)


METHODS["sort"] = _sort_inplace


@method("argsort")
def argsort(a, axis=-1, kind=None, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    L = lam_of(a)
    RT.assume_note("argsort", "argsort is a permutation that sorts its argument; of a permutation, its inverse")
    if a.marked("permutation"):
        r = Arr.new(a._shape, lambda i: T.App("lastpos", L, i[0]), I8)
    elif "argsort" in RT.ext:
        r = RT.ext["argsort"](a, L, kind in ("stable", "mergesort"))
    else:
        nm = "argsort_stable" if kind in ("stable", "mergesort") else "argsort"
        r = Arr.new(a._shape, lambda i: T.App(nm, L, i[0]), I8)
    return r.mark("permutation")


T.FUN_PROPS["argsort"] = dict(isint=True, nonneg=True)
T.FUN_PROPS["argsort_stable"] = dict(isint=True, nonneg=True)


def bincount(a, weights=None, minlength=0):
    a = as_arr(a)
    if weights is not None:
        raise Unsupported("weighted bincount")
    s = a.snapshot()
    n = as_poly(a._shape[0])
    ml = dim(minlength)
    RT.assume_note("bincount-length", "np.bincount has minlength entries when every value is below minlength")
    return Arr.new((ml,), lambda i: T.Sum(n, lambda k: _under_range(k, n, lambda: ite(T.eq(nf(s.at((k,))) - i[0]), ONE, ZERO))), I8)


@method("round")
def round_(a, decimals=0, **k):
    d = int(decimals)
    if is_num(a):
        return V.sround(tonum(a), d)
    return as_arr(a).map(lambda v: poly(V.sround(Num(nf(v)), d)))


around = round_


@method("astype")
def astype(a, d, copy=True, **k):
    d = dtype_of(d)
    if is_num(a):
        return V.norm(V.strunc(poly(a)), "int") if d.kind == "i" and tonum(a).t != "int" else wrap(to_bool(a)) if d.kind == "b" else a
    if d.name == a._dtype.name and not copy:
        return a
    if isinstance(a, FArr):
        return a
    return contig_copy(a, d)


@method("tolist")
def tolist(a):
    a = as_arr(a)
    if not isinstance(a._shape[0], int):
        raise Unsupported("tolist of a symbolic array")
    return SList([x.tolist() if isinstance(x, Arr) else x for x in a])


@method("view")
def view_(a, *x):
    return a


@method("fill")
def fill(a, v):
    IX.setitem(a, Ellipsis, v)


METHODS["to_numpy"] = lambda a, *x, **k: a
METHODS["values"] = lambda a: a
PROPERTIES.add("values")
METHODS["real"] = lambda a: a
PROPERTIES.add("real")
METHODS["astype"] = astype


def copy(a, **k):
    return as_arr(a).copy()


def copyto(dst, src, **k):
    IX.setitem(dst, Ellipsis, src)


def real(a):
    return a if isinstance(a, Arr) or is_num(a) else as_arr(a)


def shape(a):
    return as_arr(a).shape


def size(a, axis=None):
    a = as_arr(a)
    return a.size if axis is None else a.shape[int(axis)]


def ndim(a):
    return as_arr(a).ndim


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff")
    return a[1:] - a[:-1]


def nan_to_num(a, **k):
    raise Unsupported("nan_to_num")


def array_equal(a, b):
    return all_(binop(as_arr(a), as_arr(b), "=="))


def allclose(*a, **k):
    raise Unsupported("allclose")


def isscalar(x):
    return is_num(x)


# ------------------------------------------------------------------------------------- linalg
def _det(M, n):
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = ZERO
    for j in range(n):
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = M[0][j] * _det(minor, n - 1)
        r = r + t if j % 2 == 0 else r - t
    return r


def ols(A, b):
    """Least squares by the normal equations and Cramer's rule (columns of full rank)."""
    A, b = as_arr(A), as_arr(b)
    n = as_poly(A._shape[0])
    m = A._shape[1]
    if same_dim(A._shape[0], b._shape[0]) is not True:
        RT.oblige(T.eq(n - as_poly(b._shape[0])), "shape", "lstsq: sizes match")
    if not isinstance(m, int) or m > 4 or b.ndim != 1:
        raise Unsupported("least squares of this shape")
    RT.assume_note("lstsq", "np.linalg.lstsq returns the solution of the normal equations (columns linearly independent)")
    sa, sb = A.snapshot(), b.snapshot()

    def S(f):
        return T.Sum(n, lambda k: _under_range(k, n, lambda: f(k)))
    G = [[S(lambda k, i=i, j=j: nf(sa.at((k, const(i)))) * nf(sa.at((k, const(j))))) for j in range(m)] for i in range(m)]
    g = [S(lambda k, i=i: nf(sa.at((k, const(i)))) * nf(sb.at((k,)))) for i in range(m)]
    return cramer(G, g)


def cramer(G, g):
    m = len(g)
    D = _det(G, m)
    out = []
    for c in range(m):
        M = [[g[i] if j == c else G[i][j] for j in range(m)] for i in range(m)]
        out.append(_det(M, m) / D)
    return out


def lstsq(A, b, rcond=None):
    sol = ols(A, b)
    o = RT.counter("lstsq")
    if rcond is not None:
        r = poly(rcond).const() if isinstance(rcond, (Num, int, float, F)) else None
        if r is None:
            raise Unsupported("lstsq with a computed rcond")
        if r >= 1 or r > F(1, 10 ** 10) and len(sol) > 1:
            # small singular values are set to zero unless the columns are well conditioned
            good = T.BApp("above_rcond", const(r), *sol)
            sol = [T.ite(good, p, T.fresh("truncated")) for p in sol]
    return as_arr([Num(p) for p in sol]), Num(T.fresh("lstsq_res")), Num(T.fresh("rank")), Num(T.fresh("sv"))


def solve(A, b):
    A, b = as_arr(A), as_arr(b)
    m = A._shape[0]
    if not isinstance(m, int) or m > 4:
        raise Unsupported("solve of this size")
    G = [[nf(A.at((const(i), const(j)))) for j in range(m)] for i in range(m)]
    if b.ndim == 1:
        return as_arr([Num(p) for p in cramer(G, [nf(b.at((const(i),))) for i in range(m)])])
    raise Unsupported("solve")


def inv(A):
    A = as_arr(A)
    m = A._shape[0]
    if not isinstance(m, int) or m > 4:
        raise Unsupported("inverse of this size")
    G = [[nf(A.at((const(i), const(j)))) for j in range(m)] for i in range(m)]
    cols = [cramer(G, [ONE if i == j else ZERO for i in range(m)]) for j in range(m)]
    return as_arr([[Num(cols[j][i]) for j in range(m)] for i in range(m)])


def eigvalsh(A, *x, **k):
    """Eigenvalues of a symmetric matrix in ascending order."""
    A = as_arr(A)
    L = lam_of(A)
    r = Arr.new((A._shape[0],), lambda i: T.App("eigvalsh", L, i[0]), F8)
    r.mark("sorted", L)
    RT.assume_note("eigvalsh", "np.linalg.eigvalsh returns the eigenvalues of a symmetric matrix in ascending order")
    return r


def eigh(A, *x, **k):
    return eigvalsh(A), opaque_array("eigvecs", [A], (as_arr(A)._shape[0], as_arr(A)._shape[0]))


def eigvals(A):
    A = as_arr(A)
    L = lam_of(A)
    RT.assume_note("eigvals", "np.linalg.eigvals returns the eigenvalues in an unspecified order")
    r = Arr.new((A._shape[0],), lambda i: T.App("eigvals_unordered", L, i[0]), F8)
    r.eig_of = L
    return r


def cholesky(A):
    return opaque_array("cholesky", [A], as_arr(A)._shape)


def det(A):
    A = as_arr(A)
    m = A._shape[0]
    if not isinstance(m, int) or m > 4:
        raise Unsupported("determinant of this size")
    return Num(_det([[nf(A.at((const(i), const(j)))) for j in range(m)] for i in range(m)], m))


def opaque_array(name, args, shape, dtype=F8):
    """Result of a function the engine does not look into: equal arguments give equal results."""
    ls = [lam_of(a) if isinstance(a, (Arr, list, tuple)) else poly(a) for a in args]
    return Arr.new(shape, lambda i: T.App(name, *ls, *i), dtype)


# ------------------------------------------------------------------------------------- random
class Rng:
    """Draws are opaque functions of the seed, the position in the stream and the request."""

    def __init__(self, kind, seed):
        self.kind = kind
        self.seed = seed
        self.n = 0
        self.state = Storage((), lambda i: ZERO)  # position in the stream, journaled

    def _pos(self):
        p = self.state.read(())
        JOURNAL.write(("st", self.state), lambda i, p=p: p + ONE)
        return p

    def _seedp(self):
        return poly(self.seed) if self.seed is not None else T.fresh("entropy")

    def draw(self, what, args, size):
        pos = self._pos()
        sd = self._seedp()
        ar = [poly(a) if is_num(a) else lam_of(a) for a in args]
        if size is None:
            return Num(T.App(f"{self.kind}.{what}", sd, pos, *ar))
        sh = shape_of(size)
        dims = [as_poly(x) for x in sh]
        # a request for more numbers advances the stream further; the request is part of the name
        return Arr.new(sh, lambda i: T.App(f"{self.kind}.{what}", sd, pos, *ar, *dims, *i), F8)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self.draw("normal", [], size)
        if V.pconst(loc) == 0 and V.pconst(scale) == 1:
            return z
        return loc + scale * z

    def standard_normal(self, size=None, **k):
        return self.draw("normal", [], size)

    def randn(self, *s):
        return self.draw("normal", [], s if s else None)

    def rand(self, *s):
        return self.draw("uniform", [], s if s else None)

    def random(self, size=None, **k):
        return self.draw("uniform", [], size)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.draw("uniform_lh", [low, high], size)

    def triangular(self, left, mode, right, size=None):
        return self.draw("triangular", [left, mode, right], size)

    def choice(self, a, size=None, replace=True, **k):
        if not is_num(a):
            ar = as_arr(a)
            ix = self.choice(ar.shape[0], size, replace, **k)
            if size is None:
                return ar[ix]
            return ar[ix]
        rep = replace if isinstance(replace, bool) else None
        if rep is None:
            raise Unsupported("choice")
        r = self.draw("choice" if rep else "choice_norep", [a], size)
        if isinstance(r, Arr):
            r._dtype = I8
        RT.assume_note("choice", "rng.choice(n) draws integers in [0, n)")
        return r

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if high is None:
            low, high = 0, low
        if V.pconst(low) == 0 and not endpoint:
            r = self.draw("choice", [high], size)
        else:
            r = self.draw("integers", [low, high], size)
        if isinstance(r, Arr):
            r._dtype = I8
        return r

    randint = integers

    def permutation(self, *a, **k):
        raise Unsupported("permutation")

    shuffle = permutation


for _n in ("default_rng", "RandomState"):
    for _w in ("choice", "choice_norep", "integers"):
        T.FUN_PROPS[f"{_n}.{_w}"] = dict(isint=True, nonneg=_w != "integers")


    T.RANGES[f"{_n}.triangular"] = lambda a: (a[3], a[5])


class GlobalRandom:
    """np.random.<f>: the global generator (its use violates the frame of every measure)."""

    def default_rng(self, seed=None):
        if isinstance(seed, Rng):
            return seed
        if seed is None:
            RT.events.append("unseeded generator")
        return Rng("default_rng", seed)

    def RandomState(self, seed=None):
        if isinstance(seed, Rng):
            return seed
        if seed is None:
            RT.events.append("unseeded generator")
        return Rng("RandomState", seed)

    Generator = Rng

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        RT.events.append("global random state used: np.random." + k)
        g = Rng("global", Num(T.Var("global_random_state")))
        if k == "seed":
            return lambda *a: None
        return getattr(g, k)


# ------------------------------------------------------------------------------------- fft (opaque)
class CArr:
    """Complex array: opaque."""


class Spectrum:
    """Discrete Fourier transform of (the circular convolution of) real series; only products and the inverse are known."""
    __array_priority__ = 3000

    def __init__(self, series, half=False):
        self.series = series
        self.half = half          # the first half only (of real series the rest is its mirror image)

    def __mul__(self, o):
        if isinstance(o, Spectrum) and o.half == self.half:
            return Spectrum(self.series + o.series, self.half)
        if is_num(o) or isinstance(o, (int, float)):
            return Spectrum([self.series[0] * o] + self.series[1:], self.half)
        raise Unsupported("product with a Fourier transform")

    __rmul__ = __mul__

    @property
    def shape(self):
        if self.half:
            raise Unsupported("shape of a half spectrum")
        return self.series[0].shape


class RealAsComplex:
    """Complex array whose imaginary part is zero."""
    __array_priority__ = 3000

    def __init__(self, a):
        self.a = a

    real = property(lambda self: self.a)
    shape = property(lambda self: self.a.shape)

    def __getitem__(self, k):
        return RealAsComplex(self.a[k])

    def __mul__(self, o):
        return RealAsComplex(self.a * o)

    __rmul__ = __mul__

    def squeeze(self):
        return RealAsComplex(squeeze(self.a))


def fft_series(x):
    if isinstance(x, RealAsComplex):
        x = x.a
    a = as_arr(x)
    if a.ndim != 1:
        raise Unsupported("Fourier transform of a matrix")
    return a


def fft(x, n=None, **k):
    if n is not None or k:
        raise Unsupported("padded Fourier transform")
    return Spectrum([Arr.new(fft_series(x)._shape, fft_series(x).snapshot().at, F8)])


def rfft(x, n=None, **k):
    s = fft(x, n, **k)
    s.half = True
    return s


def irfft(x, n=None, **k):
    if n is None or k or not isinstance(x, Spectrum) or not x.half or same_dim(dim(n), x.series[0]._shape[0]) is not True:
        raise Unsupported("inverse Fourier transform of another length")
    return ifft(Spectrum(x.series)).a


def circular(a, b):
    n = a._shape[0]
    if same_dim(n, b._shape[0]) is not True:
        RT.oblige(T.eq(as_poly(n) - as_poly(b._shape[0])), "shape", "operands have matching sizes")
    N_ = as_poly(n)

    def at(i):
        def term(m):
            gap = i[0] - m
            return a.at((m,)) * ite(T.ge(gap), b.at((gap,)), b.at((gap + N_,)))
        return T.Sum(N_, lambda m: as_poly(term(m)))
    return Arr.new((n,), at, F8)


def ifft(x, n=None, **k):
    """Convolution theorem: the inverse transform of a product of transforms is the circular convolution of the series."""
    if n is not None or k or not isinstance(x, Spectrum) or x.half:
        raise Unsupported("inverse Fourier transform of something else than products of transforms")
    RT.assume_note("fft", "np.fft.ifft(np.fft.fft(a) * np.fft.fft(b)) is the circular convolution of a and b (their imaginary parts vanish)")
    out = x.series[0]
    for b in x.series[1:]:
        out = circular(out, b)
    return RealAsComplex(out)


# ------------------------------------------------------------------------------------- module object
class _ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class NumpyNS(types.SimpleNamespace):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        from .hooks import Poison
        return Poison("library function numpy." + k)


def build():
    m = NumpyNS()
    g = globals()
    for n in ("exp log sqrt absolute square floor ceil trunc log1p expm1 log2 log10 sign negative reciprocal isnan isinf isfinite "
              "maximum minimum fmax fmin add subtract multiply divide true_divide power float_power logical_and logical_or logical_not "
              "less less_equal greater greater_equal equal not_equal clip where nonzero argwhere flatnonzero asarray ascontiguousarray array "
              "zeros ones full empty eye identity arange linspace meshgrid fromiter reshape ravel squeeze transpose swapaxes expand_dims "
              "atleast_1d atleast_2d concatenate vstack row_stack hstack column_stack stack dstack tile repeat broadcast_to flip diag outer "
              "mean nansum nanmean average var std cov corrcoef amax amin argmax argmin count_nonzero prod cumsum dot matmul inner trace "
              "percentile quantile median sort argsort bincount around copy copyto real shape size ndim diff nan_to_num array_equal allclose isscalar einsum "
              "zeros_like ones_like empty_like full_like").split():
        setattr(m, n, g[n])
    m.abs, m.sum, m.all, m.any, m.max, m.min, m.round = absolute, sum_, all_, any_, amax, amin, round_
    m.fabs = absolute
    m.cumsum = cumsum
    m.newaxis = None
    m.pi = Num(T.App("pi"))
    m.e = Num(T.exp(ONE))
    m.inf, m.nan, m.NINF = INF, NAN, NINF
    m.Inf = m.infty = INF
    m.NaN = NAN
    m.ndarray = Arr
    m.generic = Num

    def sc(name, f):
        def conv(x=0, *a):
            if isinstance(x, Arr):
                return astype(x, name)
            return f(x)
        conv._np_dtype = name
        conv.__name__ = name
        return conv
    m.float64 = sc("float64", lambda x: Num(poly(x)))
    def lossy(name):
        def f(x):
            raise Unsupported(f"values stored as {name}")
        return sc(name, f)
    for nm in sorted(V.NARROW):
        setattr(m, nm, lossy(nm))
    m.single, m.half, m.short, m.intc, m.byte, m.ubyte, m.ushort = m.float32, m.float16, m.int16, m.int32, m.int8, m.uint8, m.uint16
    m.double = m.float_ = m.float64
    m.int64 = sc("int64", lambda x: V.norm(V.strunc(poly(x)), "int"))
    m.intp = m.int_ = m.long = m.longlong = m.int64
    m.bool_ = sc("bool", lambda x: wrap(to_bool(x)))
    m.object_ = sc("object", lambda x: x)
    m.number, m.floating, m.integer = "number", "floating", "integer"
    m.string_ = m.bytes_ = "bytes"
    m.dtype = lambda x: dtype_of(x)
    m.errstate = _ErrState
    m.seterr = lambda **k: {}
    m.linalg = types.SimpleNamespace(lstsq=lstsq, solve=solve, inv=inv, eigvalsh=eigvalsh, eigh=eigh, eigvals=eigvals, cholesky=cholesky, det=det,
                                     norm=lambda a: sqrt(sum_(square(as_arr(a)))), LinAlgError=ValueError)
    m.random = GlobalRandom()
    m.fft = types.SimpleNamespace(fft=fft, ifft=ifft, rfft=rfft, irfft=irfft)
    mul, re, sq = m.multiply, m.real, m.squeeze
    m.multiply = lambda a, b, *x, **k: a * b if isinstance(a, Spectrum) or isinstance(b, Spectrum) else mul(a, b, *x, **k)
    m.real = lambda a: a.a if isinstance(a, RealAsComplex) else re(a)
    m.squeeze = lambda a, *x, **k: a.squeeze() if isinstance(a, RealAsComplex) else sq(a, *x, **k)
    m.typing = types.SimpleNamespace(NDArray=Arr, ArrayLike=object)
    m.testing = types.SimpleNamespace()
    T.FUN_PROPS["pi"] = dict(pos=True)
    T.mk_atom("app", ("pi",), pos=True)
    return m


METHODS.setdefault("squeeze", squeeze)
