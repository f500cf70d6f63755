"""Values the real code computes with when it is executed symbolically."""
from __future__ import annotations
from fractions import Fraction as F
import math
import numbers
from . import terms as T
from .terms import Poly, Bool, as_poly, const, ZERO, ONE, TRUE, FALSE
from . import core
from .core import FACTS, JOURNAL, RT, Unsupported, CannotMerge, MISSING, ite, under, decide


class Sym:
    """Base of symbolic values that are not numbers or arrays."""

    def merge(self, c, o):
        raise CannotMerge(type(self).__name__)


# ------------------------------------------------------------------------------------- booleans
class SBool(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = T.as_bool(b)

    def __bool__(self):
        return decide(self.b)

    def __invert__(self):
        return SBool(T.neg(self.b))

    def __and__(self, o):
        if isinstance(o, Arr):
            return o.__rand__(self)
        return SBool(T.conj(self.b, to_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(T.disj(self.b, to_bool(o)))

    __ror__ = __or__

    def num(self):
        return Num(T.ite(self.b, ONE, ZERO), "int")

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __truediv__(self, o):
        return self.num() / o

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            ob = to_bool(o)
            return SBool(T.disj(T.conj(self.b, ob), T.conj(T.neg(self.b), T.neg(ob))))
        return self.num() == o

    def __ne__(self, o):
        return SBool(T.neg((self == o).b))

    __hash__ = None

    def all(self):
        return self

    any = all

    def __repr__(self):
        return f"SBool({self.b})"


def to_bool(x):
    if isinstance(x, SBool):
        return x.b
    if isinstance(x, (bool, Bool)):
        return T.as_bool(x)
    if is_num(x):
        return T.ne(poly(x))
    if isinstance(x, Arr):
        if x.ndim == 0:
            return to_bool(x.item())
        if all(pconst(s) == 1 for s in x.shape):
            return to_bool(wrap(x.at((ZERO,) * x.ndim), x.dtype))
        raise Unsupported("truth value of an array")
    if x is None:
        return FALSE
    if isinstance(x, (list, tuple, str, dict)):
        return TRUE if len(x) else FALSE
    raise Unsupported(f"truth value of {type(x).__name__}")


# ------------------------------------------------------------------------------------- numbers
class Num:
    """A real (or integer) number given by a term; `special` is inf, -inf or nan."""
    __slots__ = ("p", "t", "special")
    __array_priority__ = 1000

    def __init__(self, p, t="float", special=None):
        self.p, self.t, self.special = p, t, special

    # arithmetic
    def _bin(self, o, f, name, rev=False):
        if isinstance(o, Arr):
            return NotImplemented
        if isinstance(o, SBool):
            o = o.num()
        if not is_num(o):
            return NotImplemented
        a, b = (tonum(o), self) if rev else (self, tonum(o))
        s = special_arith(name, a, b)
        if s is not None:
            return s
        t = "int" if a.t == "int" and b.t == "int" and name in ("+", "-", "*", "//", "%") else "float"
        return norm(f(a.p, b.p), t)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, "+")

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, "+", True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, "-")

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, "-", True)

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            return repeated(o, self)
        return self._bin(o, lambda a, b: a * b, "*")

    def __rmul__(self, o):
        if isinstance(o, (tuple, list)):
            return repeated(o, self)
        return self._bin(o, lambda a, b: a * b, "*", True)

    def __truediv__(self, o):
        return self._bin(o, div, "/")

    def __rtruediv__(self, o):
        return self._bin(o, div, "/", True)

    def __floordiv__(self, o):
        return self._bin(o, floordiv, "//")

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, "//", True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a - b * floordiv(a, b), "%")

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: a - b * floordiv(a, b), "%", True)

    def __pow__(self, o):
        return self._bin(o, spow, "**")

    def __rpow__(self, o):
        return self._bin(o, spow, "**", True)

    def __neg__(self):
        if self.special:
            return Num(None, "float", {"inf": "-inf", "-inf": "inf", "nan": "nan"}[self.special])
        return Num(-self.p, self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.special:
            return self if self.special == "nan" else INF
        return Num(T.absolute(self.p), self.t)

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, Arr):
            return NotImplemented
        if isinstance(o, SBool):
            o = o.num()
        if not is_num(o):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        return SBool(compare(op, self, tonum(o)))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.special:
            return hash(self.special)
        c = self.p.const()
        if c is not None:
            return hash(c)
        raise Unsupported("symbolic number used as a key")

    def __bool__(self):
        return decide(T.ne(self.p))

    def __index__(self):
        c = pconst(self)
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("symbolic value converted to a machine float")

    def __round__(self, nd=None):
        return sround(self, nd)

    def __repr__(self):
        return f"Num({self.special or self.p})"

    def __format__(self, spec):
        from .core import RT
        h = RT.ext.get("format")
        return h(self, spec) if h is not None else repr(self)

    # numpy scalar interface
    dtype = property(lambda self: DType("float64" if self.t == "float" else "int64"))
    shape = property(lambda self: ())
    ndim = property(lambda self: 0)
    size = property(lambda self: 1)

    def item(self):
        return self

    def is_integer(self):
        if self.t == "int":
            return True
        return SBool(is_int_cond(self.p))

    def astype(self, d, **k):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = sum

    def max(self, *a, **k):
        return self

    min = max

    def squeeze(self, *a):
        return self

    def flatten(self, *a, **k):
        return as_arr(self).reshape((1,))

    ravel = flatten


INF = Num(None, "float", "inf")
NINF = Num(None, "float", "-inf")
NAN = Num(None, "float", "nan")


def is_int_cond(p):
    if p.isint_sorted():
        return TRUE
    c = p.const()
    if c is not None:
        return TRUE if c.denominator == 1 else FALSE
    return T.eq(p - T.App("floor", p))


def norm(p, t="float"):
    """Integers with a known value stay Python integers (they are used as sizes and indices)."""
    c = p.const()
    if t == "int" and c is not None and c.denominator == 1:
        return int(c)
    return Num(p, t)


def wrap(v, dtype=None):
    if isinstance(v, Bool):
        if v.kind == "true":
            return True
        if v.kind == "false":
            return False
        return SBool(v)
    if isinstance(v, Poly):
        return Num(v, "int" if dtype is not None and dtype.kind in "iu" else "float")
    return v


def is_num(x):
    return isinstance(x, Num) or (isinstance(x, (int, float, F)) and not isinstance(x, bool)) or isinstance(x, bool) or isinstance(x, SBool) \
        or isinstance(x, numbers.Number) and not isinstance(x, complex)


def tonum(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(const(int(x)), "int")
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, int):
        return Num(const(x), "int")
    if isinstance(x, F):
        return Num(const(x), "float")
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == math.inf:
            return INF
        if x == -math.inf:
            return NINF
        return Num(T.num(x), "float")
    raise Unsupported(f"number of type {type(x).__name__}")


def poly(x):
    """Term of a finite number."""
    if isinstance(x, Poly):
        return x
    if isinstance(x, Arr):
        if all(pconst(s) == 1 for s in x.shape):
            return x.at((ZERO,) * x.ndim)
        raise Unsupported("array used as a number")
    n = tonum(x)
    if n.special:
        return T.App(n.special.replace("-inf", "neginf"))
    return n.p


def pconst(x):
    """Exact constant value or None."""
    if isinstance(x, (int, F)):
        return F(x)
    if isinstance(x, float):
        return F(repr(x)) if x == x and abs(x) != math.inf else None
    if isinstance(x, Num):
        return x.p.const() if x.special is None else None
    if isinstance(x, Poly):
        return x.const()
    return None


def special_arith(name, a, b):
    if a.special is None and b.special is None:
        return None
    if a.special == "nan" or b.special == "nan":
        return NAN
    fa = math.inf if a.special == "inf" else (-math.inf if a.special == "-inf" else None)
    fb = math.inf if b.special == "inf" else (-math.inf if b.special == "-inf" else None)
    if name == "+":
        if fa is not None and fb is not None:
            return tonum(fa + fb)
        return tonum(fa if fa is not None else fb)
    if name == "-":
        if fa is not None and fb is not None:
            return tonum(fa - fb)
        return tonum(fa if fa is not None else -fb)
    if name == "*":
        ca = fa if fa is not None else a.p.const()
        cb = fb if fb is not None else b.p.const()
        if ca is not None and cb is not None:
            return tonum(float(ca) * float(cb))
    if name == "/" and fb is not None and fa is None:
        return Num(ZERO)
    raise Unsupported("arithmetic with infinity")


def div(a, b):
    if not b.d:
        return T.App("div0")
    return a / b


def floordiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        return const(math.floor(ca / cb))
    if cb is not None and cb > 0:
        # integer part that divides exactly
        q = a * const(1 / cb)
        if q.isint_sorted():
            return q
        ip = Poly({m: c for m, c in q.d.items() if c.denominator == 1 and m and all(T._BYID[i].isint and e.denominator == 1 and e > 0 for i, e in m)})
        r = q - ip
        return ip + T.App("floor", r)
    return T.App("floor", a / b)


T.FUN_PROPS["floor"] = dict(isint=True)
T.FUN_PROPS["ceil"] = dict(isint=True)
T.FUN_PROPS["trunc"] = dict(isint=True)


def sfloor(p):
    c = p.const()
    if c is not None:
        return const(math.floor(c))
    if p.isint_sorted():
        return p
    return floordiv(p, ONE)


def sceil(p):
    return -sfloor(-p)


def strunc(p):
    c = p.const()
    if c is not None:
        return const(math.trunc(c))
    if p.isint_sorted():
        return p
    return ite(T.ge(p), sfloor(p), sceil(p))


def sround(x, nd=None):
    n = tonum(x)
    c = pconst(n)
    if c is not None:
        if nd is None:
            return round(c)
        return Num(const(round(c, nd)))
    if n.t == "int" or n.p.isint_sorted():
        return n
    if nd is None or nd == 0:
        return Num(T.App("roundhalfeven", n.p), "int" if nd is None else "float")
    return Num(T.App("round", n.p, const(nd)))


T.FUN_PROPS["roundhalfeven"] = dict(isint=True)


def spow(a, b):
    return T.power(a, b)


def compare(op, a, b):
    if a.special or b.special:
        return compare_special(op, a, b)
    if RT.nan_aware:
        na, nb = T.isnan(a.p), T.isnan(b.p)
        r = _cmp(op, a.p, b.p)
        bad = T.disj(na, nb)
        if op == "!=":
            return T.disj(bad, r)
        return T.conj(T.neg(bad), r)
    return _cmp(op, a.p, b.p)


def _cmp(op, a, b):
    d = a - b
    if op == "<":
        return T.gt(-d)
    if op == "<=":
        return T.ge(-d)
    if op == ">":
        return T.gt(d)
    if op == ">=":
        return T.ge(d)
    if op == "==":
        return T.eq(d)
    if op == "!=":
        return T.ne(d)
    raise Unsupported(op)


def compare_special(op, a, b):
    if a.special == "nan" or b.special == "nan":
        return TRUE if op == "!=" else FALSE
    va = math.inf if a.special == "inf" else (-math.inf if a.special == "-inf" else None)
    vb = math.inf if b.special == "inf" else (-math.inf if b.special == "-inf" else None)
    if va is not None and vb is not None:
        return T.as_bool({"<": va < vb, "<=": va <= vb, ">": va > vb, ">=": va >= vb, "==": va == vb, "!=": va != vb}[op])
    # a finite-or-infinite term against an infinity
    if va is not None:
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        return compare_special(op, b, a)
    pinf = posinf(a.p) if vb > 0 else posinf(-a.p)   # a equals that infinity
    nan = T.isnan(a.p) if T_maybe_nonfinite(a.p) else FALSE
    if op == "==":
        return pinf
    if op == "!=":
        return T.neg(pinf)
    if vb > 0:
        return {"<": T.conj(T.neg(pinf), T.neg(nan)), "<=": T.neg(nan), ">": FALSE, ">=": pinf}[op]
    return {">": T.conj(T.neg(pinf), T.neg(nan)), ">=": T.neg(nan), "<": FALSE, "<=": pinf}[op]


NONFINITE = set()  # names of opaque functions/variables that may be infinite or NaN


def T_maybe_nonfinite(p):
    for a in T.free_atoms(p):
        if a.kind in ("var", "app", "read") and a.args[0] in NONFINITE:
            return True
        if a.kind == "var" and str(a.args[0]).split("!")[0] in NONFINITE:
            return True
    return False


def posinf(p):
    if p.const() is not None or not T_maybe_nonfinite(p):
        return FALSE
    return T.BApp("isposinf", p)


def s_isnan(x):
    n = tonum(x)
    if n.special:
        return n.special == "nan"
    if n.p.const() is not None:
        return False
    ia = T._as_ite(n.p)
    if ia is not None:
        return wrap(T.ite(ia[0], to_bool(s_isnan(Num(ia[1]))), to_bool(s_isnan(Num(ia[2])))))
    return wrap(T.isnan(n.p))


def s_isinf(x):
    n = tonum(x)
    if n.special:
        return n.special != "nan"
    if n.p.const() is not None:
        return False
    ia = T._as_ite(n.p)
    if ia is not None:
        return wrap(T.ite(ia[0], to_bool(s_isinf(Num(ia[1]))), to_bool(s_isinf(Num(ia[2])))))
    return wrap(T.isinf(n.p))


def merge_num(c, a, b):
    a, b = tonum(a), tonum(b)
    t = "int" if a.t == "int" and b.t == "int" else "float"
    if a.special or b.special:
        if a.special == b.special:
            return a
        pa = poly(a)
        pb = poly(b)
        return Num(T.ite(c, pa, pb), t)
    return norm(ite(c, a.p, b.p), t)


# ------------------------------------------------------------------------------------- dtypes
class DType:
    def __init__(self, name):
        self.name = name
        self.kind = {"float64": "f", "float32": "f", "int64": "i", "int32": "i", "bool": "b", "object": "O", "any": "?"}.get(name, "f")

    def __eq__(self, o):
        return dtype_of(o, narrow=True).name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype({self.name})"

    @property
    def type(self):
        return self

    @property
    def itemsize(self):
        return 8


F8, I8, B1, ANY = DType("float64"), DType("int64"), DType("bool"), DType("any")


# types that do not hold every float64 or int64: storing into them is not the identity
NARROW = {"float32", "float16", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64"}
SHORT = {"float": "float64", "double": "float64", "f8": "float64", "d": "float64", "<f8": "float64", "=f8": "float64", "int": "int64", "i8": "int64", "l": "int64", "q": "int64", "float32": "float32", "f4": "float32", "single": "float32",
         "f": "float32", "half": "float16", "f2": "float16", "e": "float16", "i4": "int32", "i2": "int16", "i1": "int8", "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64"}


def dtype_of(x, default=F8, narrow=False):
    """The type the code asks for; narrow: of an existing array, or only to compare with."""
    r = _dtype_of(x, default)
    if r.name in NARROW and not narrow and not isinstance(x, DType):
        raise Unsupported(f"values stored as {r.name}")
    return r


def dtype_new(x, default=F8):
    """Of a new array that results will be stored in."""
    r = dtype_of(x, default)
    if r.name in NARROW:
        raise Unsupported(f"results stored as {r.name}")
    return r


def _dtype_of(x, default=F8):
    if isinstance(x, DType):
        return x
    if x is None:
        return default
    n = getattr(x, "_np_dtype", None)
    if n:
        return DType(n)
    if x is float:
        return F8
    if x is int:
        return I8
    if x is bool:
        return B1
    if isinstance(x, str):
        x = SHORT.get(x, x)
        return DType(x)
    nm = getattr(x, "__name__", "")
    if nm == "float" or nm == "float64":
        return F8
    if nm == "int":
        return I8
    if nm == "bool":
        return B1
    raise Unsupported(f"dtype {x!r}")


def join_dtype(a, b):
    if a.name == b.name:
        return a
    if "?" in (a.kind, b.kind):
        if "f" in (a.kind, b.kind):
            return F8
        return ANY
    if a.kind == "f" or b.kind == "f":
        return F8
    if a.kind == "O" or b.kind == "O":
        return DType("object")
    return I8


# ------------------------------------------------------------------------------------- arrays
class Storage:
    """Memory of an array: contents as a function of the index."""

    def __init__(self, shape, fn, name=None, owner=None):
        self.shape, self.fn = shape, fn
        self.name = name      # set for memory owned by the caller of the function under contract
        self.owner = owner
        self.born = JOURNAL.newborn()
        self.last = None

    def read(self, idx):
        return self.fn(idx)


def dim(x):
    """Sizes: Python ints when concrete, terms otherwise."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Num):
        c = x.p.const()
        return int(c) if c is not None and c.denominator == 1 else x.p
    if isinstance(x, Poly):
        c = x.const()
        return int(c) if c is not None and c.denominator == 1 else x
    if isinstance(x, float) and x.is_integer():
        return int(x)
    if isinstance(x, F) and x.denominator == 1:
        return int(x)
    raise Unsupported(f"array size of type {type(x).__name__}")


def dimp(x):
    return as_poly(x)


def dim_out(x):
    """Size as a value handed to the code."""
    return x if isinstance(x, int) else Num(x, "int")


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    pa, pb = as_poly(a), as_poly(b)
    if pa == pb:
        return True
    d = FACTS.decide(T.eq(pa - pb))
    return d


class Arr:
    """View of a storage: per storage dimension either a fixed index or (view dim, start, step)."""
    __array_priority__ = 2000

    def __init__(self, shape, st, vmap=None, dtype=F8, contig=True):
        self._shape = tuple(shape)
        self.st = st
        self.vmap = vmap if vmap is not None else [("d", i, ZERO, 1) for i in range(len(self._shape))]
        self._dtype = dtype
        self.contig = contig
        self._mark = None

    def mark(self, kind, info=True):
        """Records a fact about the contents (a permutation, sorted), valid until they are written."""
        self._mark = (kind, info, self.st.fn)
        return self

    def marked(self, kind):
        return self._mark[1] if self._mark is not None and self._mark[0] == kind and self._mark[2] is self.st.fn else None

    # --- construction
    @staticmethod
    def new(shape, fn, dtype=F8):
        shape = tuple(dim(s) for s in shape)
        return Arr(shape, Storage(shape, fn), None, dtype)

    shape = property(lambda self: tuple(dim_out(s) for s in self._shape))
    ndim = property(lambda self: len(self._shape))
    dtype = property(lambda self: self._dtype)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    @property
    def flags(self):
        a = self

        class Fl:
            c_contiguous = a.contig
            C_CONTIGUOUS = a.contig

            def __getitem__(self, k):
                return a.contig
        return Fl()

    def __len__(self):
        s = self._shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported("len() of a symbolic array")

    def __hash__(self):
        return id(self)

    # --- element access
    def sidx(self, idx):
        """View index -> storage index."""
        out = []
        for e in self.vmap:
            if e[0] == "f":
                out.append(e[1])
            else:
                _, d, start, step = e
                out.append(start + idx[d] * step if step != 1 else start + idx[d])
        return tuple(out)

    def at(self, idx):
        """Term (Poly or Bool) of one element."""
        idx = tuple(as_poly(i) for i in idx)
        v = self.st.read(self.sidx(idx))
        return v

    def get(self, *idx):
        return wrap(self.at(tuple(poly(i) for i in idx)), self._dtype)

    def copy(self, order=None):
        fn = self.st.fn
        vm = self
        snap = Arr(self._shape, _Frozen(fn), self.vmap, self._dtype)
        return Arr.new(self._shape, lambda idx: snap.at(idx), self._dtype)

    def snapshot(self):
        """The same contents, unaffected by later writes."""
        r = Arr(self._shape, _Frozen(self.st.fn), self.vmap, self._dtype, self.contig)
        r._mark = self._mark
        return r

    def item(self, *a):
        if a:
            return self.get(*a)
        return self.get(*([0] * self.ndim))

    def __deepcopy__(self, memo):
        return self.copy()

    # --- iteration
    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over a symbolic array")
        for i in range(n):
            yield self[i]

    # --- indexing
    def __getitem__(self, key):
        from . import indexing
        return indexing.getitem(self, key)

    def __setitem__(self, key, value):
        from . import indexing
        indexing.setitem(self, key, value)

    # --- elementwise
    def _bin(self, o, f, name, rev=False, out=None):
        from . import npmodel
        if not (isinstance(o, Arr) or is_num(o) or isinstance(o, (list, tuple))):
            return NotImplemented
        return npmodel.binop(o, self, name) if rev else npmodel.binop(self, o, name)

    def __add__(self, o): return self._bin(o, None, "+")
    def __radd__(self, o): return self._bin(o, None, "+", True)
    def __sub__(self, o): return self._bin(o, None, "-")
    def __rsub__(self, o): return self._bin(o, None, "-", True)
    def __mul__(self, o): return self._bin(o, None, "*")
    def __rmul__(self, o): return self._bin(o, None, "*", True)
    def __truediv__(self, o): return self._bin(o, None, "/")
    def __rtruediv__(self, o): return self._bin(o, None, "/", True)
    def __floordiv__(self, o): return self._bin(o, None, "//")
    def __rfloordiv__(self, o): return self._bin(o, None, "//", True)
    def __mod__(self, o): return self._bin(o, None, "%")
    def __pow__(self, o): return self._bin(o, None, "**")
    def __rpow__(self, o): return self._bin(o, None, "**", True)
    def __lt__(self, o): return self._bin(o, None, "<")
    def __le__(self, o): return self._bin(o, None, "<=")
    def __gt__(self, o): return self._bin(o, None, ">")
    def __ge__(self, o): return self._bin(o, None, ">=")
    def __eq__(self, o): return self._bin(o, None, "==")
    def __ne__(self, o): return self._bin(o, None, "!=")
    def __and__(self, o): return self._bin(o, None, "&")
    def __rand__(self, o): return self._bin(o, None, "&", True)
    def __or__(self, o): return self._bin(o, None, "|")
    def __ror__(self, o): return self._bin(o, None, "|", True)

    def __matmul__(self, o):
        from . import npmodel
        return npmodel.dot(self, o)

    def __rmatmul__(self, o):
        from . import npmodel
        return npmodel.dot(o, self)

    def __neg__(self):
        return self.map(lambda v: -as_poly(v))

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(lambda v: T.absolute(as_poly(v)))

    def __invert__(self):
        if self._dtype.kind == "b":
            return self.map(lambda v: T.neg(T.as_bool(v)), B1)
        raise Unsupported("~ of a non-boolean array")

    def _inplace(self, o, name):
        from . import npmodel, indexing
        r = npmodel.binop(self.snapshot(), o, name)
        if r.ndim != self.ndim:
            raise Unsupported("in-place operation changes the shape")
        if self._dtype.kind in "iub" and r._dtype.kind == "f":
            RT.oblige(FALSE, "dtype", "in-place operation casts float to integer")
        indexing.setitem(self, Ellipsis, r)
        return self

    def __iadd__(self, o): return self._inplace(o, "+")
    def __isub__(self, o): return self._inplace(o, "-")
    def __imul__(self, o): return self._inplace(o, "*")
    def __itruediv__(self, o): return self._inplace(o, "/")
    def __ipow__(self, o): return self._inplace(o, "**")

    def map(self, f, dtype=None):
        s = self.snapshot()
        return self._like(lambda idx: f(s.at(idx)), dtype or self._dtype)

    def _like(self, fn, dtype):
        return Arr.new(self._shape, fn, dtype)

    def __bool__(self):
        return decide(to_bool(self))

    def __index__(self):
        return Num(poly(self), "int").__index__()

    def __repr__(self):
        return f"Arr{self._shape}"

    # --- methods (delegated)
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        from . import npmodel
        f = npmodel.METHODS.get(k)
        if f is None:
            raise Unsupported(f"array attribute {k}")
        if k in npmodel.PROPERTIES:
            return f(self)
        return lambda *a, **kw: f(self, *a, **kw)


class _Frozen:
    """Immutable snapshot of a storage."""
    name = None
    last = None

    def __init__(self, fn):
        self.fn = fn

    def read(self, idx):
        return self.fn(idx)


class FArr(Arr):
    """The entries of a 1-D array selected by a condition, in order (length is not known)."""

    def __init__(self, n, cond, val, dtype=F8, extra=()):
        self.n, self.cond, self.val = dim(n), cond, val
        cnt = T.Sum(as_poly(self.n), lambda k: T.ite(cond(k), ONE, ZERO))
        self._cnt = cnt
        self._extra = tuple(extra)
        Arr.__init__(self, (dim(cnt),) + self._extra, _Frozen(self._nope), None, dtype)
        self._shape = (dim(cnt),) + self._extra

    def _nope(self, idx):
        raise Unsupported("element of a filtered array")

    def _like(self, fn, dtype):
        raise Unsupported("filtered array")

    def map(self, f, dtype=None):
        v = self.val
        return FArr(self.n, self.cond, lambda k: f(v(k)), dtype or self._dtype, self._extra)

    def same_filter(self, o):
        k = T.fresh("k", isint=True, nonneg=True)
        return as_poly(self.n) == as_poly(o.n) and self.cond(k) == o.cond(k)

    def __iter__(self):
        raise Unsupported("iteration over a filtered array")

    def copy(self, order=None):
        return self

    def snapshot(self):
        return self


class FMat(Arr):
    """The entries of a matrix selected by a mask of its shape, in row order (length is not known): only elementwise operations, counts, sums and storing them back through the mask."""

    def __init__(self, mask, val, dtype=F8):
        self.mask, self.val = mask, val
        self.over = tuple(dim(d) for d in mask._shape)
        cnt = self.total(lambda i: ONE)
        self._cnt = cnt
        Arr.__init__(self, (dim(cnt),), _Frozen(self._nope), None, dtype)
        self._shape = (dim(cnt),)

    def chosen(self, i):
        return T.as_bool(self.mask.at(tuple(i)))

    def total(self, f):
        def rec(i):
            if len(i) == len(self.over):
                return T.ite(self.chosen(i), as_poly(f(tuple(i))), ZERO)
            n = as_poly(self.over[len(i)])

            def term(k):
                with under(T.gt(n - k)):
                    return rec(i + [k])
            return T.Sum(n, term)
        return rec([])

    def _nope(self, idx):
        raise Unsupported("element of a filtered matrix")

    def _like(self, fn, dtype):
        raise Unsupported("filtered matrix")

    def map(self, f, dtype=None):
        v = self.val
        return FMat(self.mask, lambda i: f(v(i)), dtype or self._dtype)

    def same_filter(self, o):
        if len(self.over) != len(o.over) or any(same_dim(x, y) is not True for x, y in zip(self.over, o.over)):
            return False
        ks = [T.fresh("k", isint=True, nonneg=True) for _ in self.over]
        return self.chosen(ks) == o.chosen(ks)

    def __iter__(self):
        raise Unsupported("iteration over a filtered matrix")

    def copy(self, order=None):
        return self

    def snapshot(self):
        return self


def merge_arr(c, a, b):
    if isinstance(a, FMat) or isinstance(b, FMat):
        raise CannotMerge("filtered matrices")
    if isinstance(a, FArr) or isinstance(b, FArr):
        raise CannotMerge("filtered arrays")
    if len(a._shape) != len(b._shape) or any(same_dim(x, y) is not True for x, y in zip(a._shape, b._shape)):
        raise CannotMerge("arrays of different shapes")
    if a.st is b.st and a.vmap == b.vmap:
        return a
    sa, sb = a.snapshot(), b.snapshot()
    dt = join_dtype(a._dtype, b._dtype)
    if dt.kind == "b":
        return Arr.new(a._shape, lambda i: ite(c, T.as_bool(sa.at(i)), T.as_bool(sb.at(i))), dt)
    r = Arr.new(a._shape, lambda i: ite(c, as_poly(sa.at(i)), as_poly(sb.at(i))), dt)
    r.contig = a.contig and b.contig
    return r


class Rep:
    """(item,) * n with a symbolic n."""

    def __init__(self, item, n):
        self.item, self.n = item, n

    def __len__(self):
        raise Unsupported("length of a sequence repeated a symbolic number of times")

    def __iter__(self):
        raise Unsupported("iteration over a sequence repeated a symbolic number of times")

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a repeated sequence")
        RT.oblige(T.conj(T.gt(self.n - poly(k)), T.ge(self.n + poly(k))), "index", "index into the repeated sequence")
        return self.item


def repeated(xs, n):
    c = pconst(n)
    if c is not None:
        return type(xs)(list(xs) * int(c))
    if len(xs) != 1:
        raise Unsupported("a sequence repeated a symbolic number of times")
    if isinstance(xs, list) and all_numbers(xs):
        p = poly(xs[0])
        return own_list(Arr.new((dim(poly(n)),), lambda i: p, I8 if tonum(xs[0]).t == "int" else F8))
    return Rep(xs[0], poly(n))


def as_arr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, Rep):
        a = as_arr(x.item).snapshot()
        return Arr.new((dim(x.n),) + a._shape, lambda i: a.at(tuple(i[1:])), a._dtype)
    if isinstance(x, SBool) or isinstance(x, bool):
        b = to_bool(x)
        return Arr.new((), lambda i: b, B1)
    if is_num(x):
        n = tonum(x)
        p = poly(n)
        return Arr.new((), lambda i: p, I8 if n.t == "int" else F8)
    if isinstance(x, SList) and x.grown() is not None:
        own, x = x.own(), x.grown()
        if isinstance(x, FArr):
            return x
        if own is not None:
            s = own.snapshot()
            return Arr.new(s._shape, lambda i: s.at(tuple(i)), own._dtype)
    if type(x).__name__ == "Comp":
        return x.arr()
    if isinstance(x, (list, tuple, range)) or hasattr(x, "__next__"):
        els = [as_arr(e) for e in x]
        if not els:
            return Arr.new((0,), lambda i: ZERO, F8)
        nd = els[0].ndim
        if any(e.ndim != nd for e in els):
            raise Unsupported("ragged array")
        dt = els[0]._dtype
        for e in els[1:]:
            dt = join_dtype(dt, e._dtype)
        for e in els[1:]:
            for x1, x2 in zip(els[0]._shape, e._shape):
                if same_dim(x1, x2) is not True:
                    raise Unsupported("stacking arrays of different shapes")
        els = [e.snapshot() for e in els]

        def fn(idx):
            c = idx[0].const()
            if c is not None:
                return els[int(c)].at(idx[1:])
            r = els[-1].at(idx[1:])
            for j in range(len(els) - 2, -1, -1):
                r = ite(T.eq(idx[0] - const(j)), els[j].at(idx[1:]), r)
            return r
        return Arr.new((len(els),) + els[0]._shape, fn, dt)
    if type(x).__name__ == "Seq":
        first = x.item(ZERO)
        if is_num(first):
            return Arr.new((x.n,), lambda i: poly(x.item(i[0])), I8 if tonum(first).t == "int" else F8)
        if isinstance(first, (tuple, Arr)):
            a = as_arr(first)
            if a._dtype.kind in "fi":
                return Arr.new((x.n,) + a._shape, lambda i: as_arr(x.item(i[0])).at(tuple(i[1:])), a._dtype)
    raise Unsupported(f"array of {type(x).__name__}")


# ------------------------------------------------------------------------------------- lists
class Growing:
    """First item of a list in the body of a loop of symbolic length: what it holds so far. Only appending is supported."""

    def __eq__(self, o):
        raise Unsupported("list that grows in a loop of symbolic length is used in it")

    __hash__ = None


class Maybe(Growing):
    """Last item of a list in the body of a loop of symbolic length: x, appended if c."""

    def __init__(self, c, x):
        self.c, self.x = c, x


def merge_grown(c, a, b):
    """Items of a list after `if c then a else b`, where at most one appends to what a loop of symbolic length has filled."""
    n = min(len(a), len(b))
    if n and isinstance(a[n - 1], Maybe):
        n -= 1
    if n and isinstance(b[n - 1], Maybe):
        n -= 1
    if max(len(a), len(b)) > n + 1 or any(x is not y for x, y in zip(a[:n], b[:n])):
        raise CannotMerge("lists of different lengths")
    ca, xa = _maybe(a, n)
    cb, xb = _maybe(b, n)
    x = xb if ca.kind == "false" else xa if cb.kind == "false" else core.merge(c, xa, xb)
    return a[:n] + [Maybe(ite(c, ca, cb), x)]


def _maybe(xs, n):
    if len(xs) == n:
        return FALSE, None
    return (xs[n].c, xs[n].x) if isinstance(xs[n], Maybe) else (TRUE, xs[n])


class Grown(Growing):
    """Only item of a list of symbolic length: the Seq of its items (FArr: those of the iterations that appended); of numbers, arr is the list's own array of them."""

    def __init__(self, seq, arr=None):
        self.seq, self.arr = seq, arr


def grown_list(x):
    """A new list of the items of x (a Seq, or a 1-D array of which the list gets a copy)."""
    from .hooks import Seq
    if isinstance(x, FArr) or not isinstance(x, Arr):
        return SList([Grown(x)])
    if len(x._shape) != 1:
        return SList([Grown(Seq(x._shape[0], lambda i: x[Num(as_poly(i), "int")]))])
    s = x.snapshot()
    return own_list(Arr.new(s._shape, lambda i: s.at(tuple(i)), x._dtype))


def own_list(a):
    """The list whose items are those of a, an array of its own."""
    from .hooks import Seq
    return SList([Grown(Seq(a._shape[0], lambda i: wrap(a.at((as_poly(i),)), a._dtype)), a)])


class Backed(Growing):
    """A list of numbers in the body of a loop that appends one in every iteration: an array of all it will hold, and how many are there."""

    def __init__(self, arr, n):
        self.arr, self.n, self.after = arr, n, None

    def __eq__(self, o):
        return self is o

    def read(self, k):
        from . import indexing
        if isinstance(k, slice):
            raise Unsupported("slice of a list that grows in a loop of symbolic length")
        return self.arr[Num(as_poly(indexing.norm_index(k, self.n)), "int")]

    def append(self, x):
        if self.after is None or not is_num(x) or tonum(x).special or isinstance(x, (bool, SBool)):
            raise Unsupported("list grows in a loop of symbolic length")
        self.arr[Num(as_poly(self.n), "int")] = x
        return self.after


def all_numbers(xs):
    return all(is_num(x) and not isinstance(x, (bool, SBool)) and not tonum(x).special for x in xs)


class SList(list):
    """Python list whose mutations are journaled."""

    def __init__(self, *a):
        list.__init__(self, *a)
        self.born = JOURNAL.newborn()

    def _w(self, v):
        JOURNAL.write(("ls", self), list(v))

    def _plain(self):
        if list.__len__(self) and (isinstance(list.__getitem__(self, 0), Growing) or isinstance(list.__getitem__(self, -1), Growing)):
            raise Unsupported("list filled in a loop of symbolic length")

    def grown(self):
        """The Seq of its items, if a loop of symbolic length appended them."""
        return list.__getitem__(self, 0).seq if list.__len__(self) == 1 and isinstance(list.__getitem__(self, 0), Grown) else None

    def own(self):
        return list.__getitem__(self, 0).arr if self.grown() is not None else None

    def __iter__(self):
        self._plain()
        return list.__iter__(self)

    def __len__(self):
        self._plain()
        return list.__len__(self)

    def __contains__(self, x):
        self._plain()
        return list.__contains__(self, x)

    def __bool__(self):
        s = self.grown()
        if s is not None:
            from .hooks import truth
            return truth(wrap(T.gt(s._cnt if isinstance(s, FArr) else as_poly(s.n))))
        return len(self) > 0

    def append(self, x):
        b = self.backed()
        if b is not None:
            self._w([b.append(x)])
        else:
            self._w(list(list.__iter__(self)) + [x])

    def backed(self):
        return list.__getitem__(self, 0) if list.__len__(self) == 1 and isinstance(list.__getitem__(self, 0), Backed) else None

    def extend(self, xs):
        self._w(list(self) + list(xs))

    def insert(self, i, x):
        v = list(self)
        v.insert(i, x)
        self._w(v)

    def pop(self, i=-1):
        v = list(self)
        x = v.pop(int(i))
        self._w(v)
        return x

    def __setitem__(self, k, x):
        a = self.own()
        if a is not None and not isinstance(k, slice):
            if not is_num(x) or a._dtype.kind not in "fi" or a._dtype.kind == "i" and tonum(x).t != "int":
                raise Unsupported("item of another kind stored in a list of symbolic length")
            a[k] = x
            return
        v = list(self)
        v[k] = x
        self._w(v)

    def __delitem__(self, k):
        v = list(self)
        del v[k]
        self._w(v)

    def sort(self, *a, **k):
        raise Unsupported("list.sort")

    def reverse(self):
        self._w(list(self)[::-1])

    def clear(self):
        self._w([])

    def remove(self, x):
        v = list(self)
        v.remove(x)
        self._w(v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __getitem__(self, k):
        s = self.grown()
        if s is not None:
            if isinstance(k, slice) and not isinstance(s, FArr):
                return grown_list(as_arr(self)[k] if self.own() is not None else s[k])
            return s[k]
        b = self.backed()
        if b is not None:
            return b.read(k)
        self._plain()
        if isinstance(k, Num) and k.p.const() is None and len(self) and all_numbers(self):
            return as_arr(self)[k]
        r = list.__getitem__(self, k)
        return SList(r) if isinstance(k, slice) else r

    def __add__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if isinstance(o, SList) and (self.own() is not None or o.own() is not None):
            if all(x.own() is not None or x.grown() is None and all_numbers(x) for x in (self, o)):
                a, b = as_arr(self), as_arr(o)
                if not len(b._shape) or b._shape[0] == 0:
                    return grown_list(a)
                if a._shape[0] == 0:
                    return grown_list(b)
                m = as_poly(a._shape[0])
                return own_list(Arr.new((dim(m + as_poly(b._shape[0])),), lambda i: T.ite(T.gt(m - i[0]), a.at((i[0],)), b.at((i[0] - m,))), join_dtype(a._dtype, b._dtype)))
        return SList(list(self) + list(o))

    def __mul__(self, n):
        if isinstance(n, Num) and pconst(n) is None:
            return repeated(list(self), n)
        return SList(list(self) * int(n))

    __rmul__ = __mul__

    def copy(self):
        s = self.grown()
        if s is not None:
            return grown_list(as_arr(self) if self.own() is not None else s)
        return SList(self)


class SDict(dict):
    def _w(self, v):
        JOURNAL.write(("di", self), dict(v))

    def __setitem__(self, k, x):
        v = dict(self.items())
        v[k] = x
        self._w(v)

    def __delitem__(self, k):
        v = dict(self.items())
        del v[k]
        self._w(v)

    def update(self, *a, **k):
        v = dict(self.items())
        v.update(*a, **k)
        self._w(v)

    def pop(self, k, *d):
        v = dict(self.items())
        r = v.pop(k, *d)
        self._w(v)
        return r

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]


class GuardedList(Sym):
    """Items that exist only under a condition (what a generator yields)."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for g, v in self.items:
            if g.kind == "false":
                continue
            if g.kind != "true":
                raise Unsupported("iteration over conditional items")
            yield v
