"""Contracts assumed for the standard library and scipy (the trusted external functions)."""
from __future__ import annotations
from fractions import Fraction as F
import builtins
import functools
import itertools
import math
import os
import os.path as _ospath
import pathlib
import types
from . import terms as T
from .terms import as_poly, const, ZERO, ONE, TRUE, FALSE
from . import core, values as V, npmodel as N, hooks as H
from .core import FACTS, JOURNAL, RT, Unsupported, MISSING
from .values import Num, SBool, Arr, FArr, SList, SDict, poly, pconst, is_num, tonum, wrap, norm, to_bool


# ------------------------------------------------------------------------------------- builtins
def p_len(x):
    return H.symlen(x) if isinstance(x, (Arr, H.Seq, N.Comp, SList)) or hasattr(type(x), "symlen") else builtins.len(x)


def _minmax(name, a, key, default):
    pick = N._mx if name == "max" else N._mn
    if builtins.len(a) == 1:
        x = H.ungrown(a[0])
        if isinstance(x, (Arr, N.Comp)):
            x = x.arr() if isinstance(x, N.Comp) else x
            if key is not None or default is not MISSING:
                raise Unsupported(f"{name} with a key or a default of a symbolic number of items")
            return N.amax(x) if name == "max" else N.amin(x)
        items = builtins.list(x)
    else:
        items = builtins.list(a)
    if not items:
        if default is not MISSING:
            return default
        e = ValueError(f"{name}() arg is an empty sequence")
        e._from_code = True
        raise e
    if key is not None:
        ks = [key(i) for i in items]
        best, bk = items[0], ks[0]
        for i, k in builtins.zip(items[1:], ks[1:]):
            c = to_bool(k > bk) if name == "max" else to_bool(k < bk)
            best, bk = core.merge(c, i, best), core.merge(c, k, bk)
        return best
    r = items[0]
    for x in items[1:]:
        # max keeps the first of equal items, like Python
        if isinstance(x, (Num, SBool)) or isinstance(r, (Num, SBool)):
            c = to_bool(x > r) if name == "max" else to_bool(x < r)
            d = FACTS.decide(c)
            r = x if d else (r if d is False else core.merge(c, x, r))
        elif isinstance(x, Arr) or isinstance(r, Arr):
            c = to_bool(x > r) if name == "max" else to_bool(x < r)
            r = wrap(core.ite(c, poly(x), poly(r)))
        else:
            r = builtins.max(r, x) if name == "max" else builtins.min(r, x)
    return r


def p_max(*a, key=None, default=MISSING):
    return _minmax("max", a, key, default)


def p_min(*a, key=None, default=MISSING):
    return _minmax("min", a, key, default)


def p_sum(x, start=0):
    x = H.ungrown(x)
    if isinstance(x, N.Comp):
        x = x.arr()
    if isinstance(x, Arr):
        return N.sum_(x, axis=0) + start if not (isinstance(start, int) and start == 0) else N.sum_(x, axis=0)
    if isinstance(x, H.Seq) and not x.concrete():
        return start + wrap(T.Sum(as_poly(x.n), lambda k: poly(x.item(k))))
    if isinstance(x, H.GenList):
        r = start
        for g, v in builtins.list.__iter__(x):
            r = r + (v if g.kind == "true" else core.merge(g, v, 0))
        return r
    r = start
    for v in x:
        r = r + v
    return r


def p_abs(x):
    if isinstance(x, (Arr, Num)):
        return x.__abs__()
    return builtins.abs(x)


class _Float:
    __name__ = "float"
    _np_dtype = "float64"

    def __call__(self, x=0):
        if isinstance(x, str):
            f = builtins.float(x)
            return tonum(f) if (f != f or f in (math.inf, -math.inf)) else Num(const(F(x)))
        if isinstance(x, Arr):
            return Num(poly(x))
        if isinstance(x, SBool):
            x = x.num()
        n = tonum(x)
        return n if n.special else Num(n.p)


class _Int:
    __name__ = "int"
    _np_dtype = "int64"

    def __call__(self, x=0):
        if isinstance(x, str):
            return builtins.int(x)
        if isinstance(x, Arr):
            x = Num(poly(x))
        if isinstance(x, SBool):
            x = x.num()
        if hasattr(x, "sym_int"):
            return x.sym_int()
        n = tonum(x)
        return norm(V.strunc(n.p), "int")


class _Bool:
    __name__ = "bool"
    _np_dtype = "bool"

    def __call__(self, x=False):
        if isinstance(x, (Num, SBool, Arr)):
            return wrap(to_bool(x))
        return builtins.bool(x)


p_float, p_int, p_bool = _Float(), _Int(), _Bool()


def p_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for c in ts:
        if isinstance(c, types.UnionType):
            if p_isinstance(x, c.__args__):
                return True
            continue
        if c is p_float or c is builtins.float:
            if isinstance(x, Num) and x.t == "float" or isinstance(x, builtins.float):
                return True
        elif c is p_int or c is builtins.int:
            if isinstance(x, Num) and x.t == "int" or isinstance(x, builtins.int):
                return True
        elif c is p_bool or c is builtins.bool:
            if isinstance(x, (bool, SBool)):
                return True
        elif c is p_list:
            if isinstance(x, builtins.list):
                return True
        elif c is p_tuple:
            if isinstance(x, builtins.tuple):
                return True
        elif c in ("number", "floating", "integer"):
            if isinstance(x, Num) and (c == "number" or (c == "floating") == (x.t == "float")):
                return True
        elif isinstance(c, builtins.type):
            if isinstance(x, c):
                return True
        elif getattr(c, "_pd_name", None):
            if getattr(x, "_pd_name", None) == c._pd_name:
                return True
        elif isinstance(c, types.SimpleNamespace) or callable(c):
            if hasattr(c, "_pytype") and isinstance(x, c._pytype):
                return True
    return False


class _List:
    __name__ = "list"

    def __call__(self, x=()):
        if isinstance(x, H.GenList):
            r = H.GenList()
            builtins.list.extend(r, builtins.list(builtins.list.__iter__(x)))
            if all(g.kind == "true" for g, _ in builtins.list.__iter__(r)):
                return SList([v for _, v in builtins.list.__iter__(r)])
            return r
        s = H.as_seq(x)
        if s is not None and not s.concrete():
            if isinstance(x, SList):
                return x.copy()
            return V.grown_list(x.arr() if isinstance(x, N.Comp) else x if isinstance(x, Arr) else s)
        if isinstance(x, FArr):
            return V.grown_list(x)
        return SList(builtins.list(x))

    def __getitem__(self, k):
        return builtins.list[k]


def as_tuple(a):
    if a.ndim == 1:
        s = a.snapshot()
        return Arr.new(s._shape, lambda i: s.at(tuple(i)), a._dtype)
    return a


class _Tuple:
    __name__ = "tuple"

    def __call__(self, x=()):
        s = H.as_seq(x)
        if s is not None and not s.concrete():
            if isinstance(x, SList):
                x = x.copy()
                return as_tuple(x.own()) if x.own() is not None else x.grown()
            if isinstance(x, N.Comp):
                x = x.arr()
            return as_tuple(x) if isinstance(x, Arr) else s
        return builtins.tuple(x)

    def __getitem__(self, k):
        return builtins.tuple[k]


p_list, p_tuple = _List(), _Tuple()


def p_all(x):
    x = H.ungrown(x)
    if isinstance(x, N.Comp):
        x = x.arr()
    if isinstance(x, Arr):
        return N.all_(x)
    return H.and_(*[(lambda v=v: v) for v in x]) if (x := builtins.list(x)) else True


def p_any(x):
    x = H.ungrown(x)
    if isinstance(x, N.Comp):
        x = x.arr()
    if isinstance(x, Arr):
        return N.any_(x)
    return H.or_(*[(lambda v=v: v) for v in x]) if (x := builtins.list(x)) else False


def p_round(x, nd=None):
    if isinstance(x, Arr):
        return N.round_(x, nd or 0)
    return V.sround(x, nd)


def p_sorted(x, key=None, reverse=False):
    x = H.ungrown(x)
    if isinstance(x, Arr):
        if key is not None:
            raise Unsupported("sorted by key")
        r = N.sort(x)
        r = r[::-1] if reverse else r
        return V.grown_list(r) if type(r) is Arr and r.ndim == 1 else r
    L = builtins.list(x)
    if any(isinstance(v, (Num, SBool)) and pconst(v) is None for v in L):
        raise Unsupported("sorting symbolic values")
    return SList(builtins.sorted(L, key=key, reverse=reverse))


def p_map(f, *its):
    if len(its) == 1:
        return H.comp("gen", its[0], f, None)
    return H.comp("gen", H.rt_zip(*its), lambda e: f(*e), None)


def p_filter(f, it):
    return H.comp("gen", it, lambda e: e, f if f is not None else (lambda e: e))


def p_next(it, *d):
    if isinstance(it, H.GenList):
        raise Unsupported("next() on a generator of the code")
    return builtins.next(it, *d)


def p_pow(a, b):
    return H.pow_(a, b)


def p_divmod(a, b):
    return (a // b, a % b)


def p_print(*a, **k):
    h = RT.ext.get("print")
    return h(*a, **k) if h is not None else None


def silent(*a, **k):
    return None


def build_builtins(importer):
    d = dict(vars(builtins))
    d.update(len=p_len, max=p_max, min=p_min, sum=p_sum, abs=p_abs, float=p_float, int=p_int, bool=p_bool, isinstance=p_isinstance,
             list=p_list, tuple=p_tuple, all=p_all, any=p_any, round=p_round, sorted=p_sorted, map=p_map, filter=p_filter, pow=p_pow,
             divmod=p_divmod, print=p_print, range=H.rt_range, enumerate=H.rt_enumerate, zip=H.rt_zip, reversed=H.rt_reversed,
             next=p_next, __import__=importer)
    return d


# ------------------------------------------------------------------------------------- math
def m_ns():
    m = types.SimpleNamespace()
    m.pi = Num(T.App("pi"))
    m.e = Num(T.exp(ONE))
    m.inf, m.nan = V.INF, V.NAN

    def f1(f):
        return lambda x: V.wrap(f(V.poly(x))) if not tonum_special(x) else N.special_uf(f, tonum(x))
    m.exp = lambda x: N.exp(x)
    m.sqrt = lambda x: N.sqrt(x)
    m.log = lambda x, b=None: N.log(x) if b is None else N.log(x) / N.log(b)
    m.log1p, m.expm1 = N.log1p, N.expm1
    m.log2, m.log10 = N.log2, N.log10
    m.fabs = lambda x: Num(T.absolute(poly(x)))
    m.pow = lambda a, b: Num(poly(a)) ** b
    m.floor = lambda x: norm(V.sfloor(poly(x)), "int")
    m.ceil = lambda x: norm(V.sceil(poly(x)), "int")
    m.trunc = lambda x: norm(V.strunc(poly(x)), "int")
    m.isnan = V.s_isnan
    m.isinf = V.s_isinf
    m.isfinite = lambda x: H.not_(H.or_(lambda: V.s_isnan(x), lambda: V.s_isinf(x)))
    m.fsum = p_sum
    m.prod = lambda x: functools.reduce(lambda a, b: a * b, x, 1)
    m.erf = lambda x: Num(2 * T.cdf(poly(x) * T.sqrt(const(2))) - ONE)
    m.erfc = lambda x: Num(2 - 2 * T.cdf(poly(x) * T.sqrt(const(2))))
    m.lgamma = lambda x: Num(T.App("lgamma", poly(x)))
    m.gamma = lambda x: Num(T.App("gamma", poly(x)))
    m.hypot = lambda a, b: N.sqrt(a * a + b * b)
    m.sin = lambda x: Num(T.App("sin", poly(x)))
    m.cos = lambda x: Num(T.App("cos", poly(x)))
    m.copysign = None
    return m


def tonum_special(x):
    return is_num(x) and tonum(x).special


# ------------------------------------------------------------------------------------- scipy
class Normal:
    """Standard normal distribution (location and scale supported)."""

    def cdf(self, x, loc=0, scale=1):
        if not (isinstance(loc, int) and loc == 0):
            x = x - loc
        if not (isinstance(scale, int) and scale == 1):
            x = H.div(x, scale)
        return N.elementwise(lambda p: T.cdf(N.nf(p)), x)

    def sf(self, x, *a):
        return 1 - self.cdf(x, *a)

    def ppf(self, q, loc=0, scale=1):
        RT.assume_note("ppf", "norm.ppf is the inverse of the standard normal cdf")
        r = N.elementwise(lambda p: T.App("ppf", N.nf(p)), q)
        return r * scale + loc if not (loc == 0 and scale == 1) else r

    def pdf(self, x, loc=0, scale=1):
        z = H.div(x - loc, scale)
        return N.elementwise(lambda p: T.exp(-(N.nf(p) ** 2) / 2) / T.sqrt(2 * T.App("pi")), z) / scale

    def logpdf(self, x, loc=0, scale=1):
        z = H.div(x - loc, scale)
        return N.elementwise(lambda p: -(N.nf(p) ** 2) / 2 - T.log(2 * T.App("pi")) / 2, z) - N.log(scale)


norm_dist = Normal()


class NormalDist:
    def __init__(self, mu=0, sigma=1):
        self.mu, self.sigma = mu, sigma

    def cdf(self, x):
        return norm_dist.cdf(x, self.mu, self.sigma)

    def inv_cdf(self, p):
        return norm_dist.ppf(p) * self.sigma + self.mu

    def pdf(self, x):
        return norm_dist.pdf(x, self.mu, self.sigma)


class Opt(V.Sym):
    """Result of an optimiser; attributes are fresh."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getitem__(self, k):
        return self.__dict__[k]

    def get(self, k, d=None):
        return self.__dict__.get(k, d)


def minimize(fun, x0, args=(), method=None, bounds=None, constraints=(), **kw):
    """Assumed contract of scipy.optimize.minimize: the objective is evaluated any number of times at
    points of its choice (so whatever it writes is arbitrary afterwards), `fun` is the objective at `x`,
    and on success `x` satisfies bounds and constraints."""
    h = RT.ext.get("minimize") if hasattr(RT, "ext") else None
    if h is not None:
        return h(fun, x0, args, method, bounds, constraints, kw)
    return std_minimize(fun, x0, args, method, bounds, constraints, kw)


def std_minimize(fun, x0, args, method, bounds, constraints, kw):
    RT.assume_note("minimize", "scipy.optimize.minimize: opt.fun is the objective at opt.x; on success opt.x satisfies the bounds and "
                               "inequality constraints passed; the last evaluation may have been at any point")
    if not isinstance(args, tuple):
        args = (args,)
    x0a = V.as_arr(x0) if not isinstance(x0, Arr) else x0
    n = x0a._shape[0]
    if not isinstance(n, int):
        raise Unsupported("optimiser with a symbolic number of parameters")
    tag = RT.counter("minimize")
    # the optimiser may evaluate anywhere: effects of one evaluation at an arbitrary last point
    last = [T.Var(f"lastx{tag}.{i}") for i in range(n)]
    xl = Arr.new((n,), lambda i: N_pick(last, i))
    fun(xl, *args)
    xs = [T.Var(f"optx{tag}.{i}") for i in range(n)]
    x = Arr.new((n,), lambda i: N_pick(xs, i))
    mark = JOURNAL.mark()
    with H.barrier():
        val = core.call_merged(lambda: fun(x, *args), "objective")
    JOURNAL.rollback(mark)
    RT.opts.append(dict(x=xs, x0=[as_poly(x0a.at((const(i),))) for i in range(n)], args=args, bounds=bounds, constraints=constraints, fun=val, objective=fun, method=method, tag=tag))
    success = T.BApp("opt_success", const(tag))
    facts = []
    if bounds is not None:
        bs = builtins.list(bounds)
        if len(bs) != n:
            RT.oblige(FALSE, "bounds", "number of bounds differs from the number of parameters")
        for b, xi in builtins.zip(bs, xs):
            lo, hi = b
            if lo is not None and not tonum(lo).special:
                facts.append(T.ge(xi - poly(lo)))
            if hi is not None and not tonum(hi).special:
                facts.append(T.ge(poly(hi) - xi))
    cs = constraints if isinstance(constraints, (builtins.list, builtins.tuple)) else [constraints]
    for c in cs:
        if not c:
            continue
        ca = c.get("args", ()) if isinstance(c, dict) else ()
        v = c["fun"](x, *ca)
        facts.append(T.ge(poly(v)) if c["type"] == "ineq" else T.eq(poly(v)))
    RT.opts[-1]["facts"] = facts
    # the paths of success and failure are kept apart
    RT.opts[-1]["success"] = success
    ok = core.decide(success)
    return Opt(x=x, fun=val, success=ok, message="", nit=0, status=0 if ok else 1)


def N_pick(xs, i):
    c = i[0].const()
    if c is not None:
        return as_poly(xs[int(c)])
    return V.as_arr([Num(x) for x in xs]).at(i)


def fsolve(func, x0, args=(), full_output=False, **kw):
    h = RT.ext.get("fsolve") if hasattr(RT, "ext") else None
    if h is not None:
        return h(func, x0, args, full_output, kw)
    RT.assume_note("fsolve", "scipy.optimize.fsolve returns an arbitrary point of the same shape (a root when it converges)")
    if not isinstance(args, tuple):
        args = (args,)
    a = V.as_arr(x0)
    if a.ndim == 0:
        a = a.reshape((1,))
    tag = RT.counter("fsolve")
    nm = f"root{tag}"
    x = Arr.new(a._shape, lambda i: T.Var(f"{nm}.{'.'.join(str(j.const()) for j in i)}") if all(j.const() is not None for j in i) else T.Read(nm, *i))
    mark = JOURNAL.mark()
    with H.barrier():
        val = core.call_merged(lambda: func(x, *args), "equation")
    JOURNAL.rollback(mark)
    RT.roots.append(dict(x=x, x0=a, residual=val, tag=tag))
    if full_output:
        return (x, SDict({"fvec": val}), 1, "")
    return x


# ------------------------------------------------------------------------------------- misc modules
class _Ctx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def product(*its, repeat=1):
    h = RT.ext.get("product")
    if h is not None:
        return h(*(its * repeat))
    return SList(itertools.product(*[builtins.list(i) for i in its] * repeat))


def dataclass_(c=None, **kw):
    def deco(c):
        fields = {}
        for k in reversed(c.__mro__):
            for nm in getattr(k, "__annotations__", {}):
                fields[nm] = getattr(c, nm, MISSING)
        names = builtins.list(fields)

        def __init__(self, *a, **k):
            for nm, v in builtins.zip(names, a):
                setattr(self, nm, v)
            if builtins.len(a) > builtins.len(names):
                e = TypeError("too many arguments")
                e._from_code = True
                raise e
            for nm in names[builtins.len(a):]:
                if nm in k:
                    setattr(self, nm, k.pop(nm))
                else:
                    v = fields[nm]
                    if isinstance(v, Field):
                        v = v.make()
                    if v is MISSING:
                        e = TypeError("missing argument " + nm)
                        e._from_code = True
                        raise e
                    setattr(self, nm, v)
            if k:
                e = TypeError("unexpected arguments")
                e._from_code = True
                raise e
            if hasattr(self, "__post_init__"):
                self.__post_init__()
        if "__init__" not in c.__dict__:
            c.__init__ = __init__
        c._fields_ = names
        c.__dataclass_fields__ = {n: n for n in names}
        return c
    return deco(c) if c is not None else deco


class Field:
    def __init__(self, default=MISSING, default_factory=None, **k):
        self.default, self.factory = default, default_factory

    def make(self):
        return self.factory() if self.factory else self.default


def asdict(o):
    return SDict({k: o.__dict__[k] for k in o._fields_})


def astuple(o):
    return builtins.tuple(o.__dict__[k] for k in o._fields_)


def replace(o, **k):
    d = {n: o.__dict__[n] for n in o._fields_}
    d.update(k)
    return type(o)(**d)


class cached_property:
    """functools.cached_property with a journaled cache."""

    def __init__(self, f):
        self.f = f
        self.name = f.__name__

    def __set_name__(self, owner, nm):
        self.name = nm

    def __get__(self, o, cls=None):
        if o is None:
            return self
        c = o.__dict__
        if self.name in c:
            return c[self.name]
        v = self.f(o)
        JOURNAL.write(("at", o, self.name), v)
        return v


def lru_cache(*a, **k):
    if len(a) == 1 and callable(a[0]):
        return a[0]
    return lambda f: f


def reduce_(f, it, *init):
    it = builtins.list(it)
    r = init[0] if init else it.pop(0)
    for x in it:
        r = f(r, x)
    return r


def griddata(*a, **k):
    raise Unsupported("griddata")


class PD:
    """The part of pandas the measures touch: instance tests only (arguments are arrays)."""


class _Series:
    _pd_name = "Series"

    def __call__(self, *a, **k):
        raise Unsupported("pandas Series")


class _Frame:
    _pd_name = "DataFrame"

    def __call__(self, *a, **k):
        raise Unsupported("pandas DataFrame")


class Decimal(V.Sym):
    """decimal.Decimal of a float (exact), as far as it is rounded to an integer."""

    def __init__(self, x=0):
        self.p = x.p if isinstance(x, Decimal) else poly(x)

    def to_integral_value(self, rounding=None, context=None):
        p = self.p
        nn = core.FACTS.decide(T.ge(p))
        half = const(T.F(1, 2))
        up, dn = V.sfloor(p + half), V.sceil(p - half)
        r = {"ROUND_FLOOR": lambda: V.sfloor(p), "ROUND_CEILING": lambda: V.sceil(p), "ROUND_DOWN": lambda: V.strunc(p),
             "ROUND_HALF_UP": lambda: up if nn is True else core.ite(T.ge(p), up, dn),
             "ROUND_HALF_EVEN": lambda: poly(V.sround(Num(p)))}.get(rounding or "ROUND_HALF_EVEN")
        if r is None:
            raise Unsupported("rounding " + str(rounding))
        return Decimal(Num(r()))

    to_integral = to_integral_value

    def quantize(self, e, rounding=None, context=None):
        if isinstance(e, Decimal) and e.p.const() == 1:
            return self.to_integral_value(rounding)
        raise Unsupported("Decimal.quantize")

    def __int__(self):
        raise Unsupported("int of a symbolic Decimal")

    def sym_int(self):
        return V.norm(V.strunc(self.p), "int")


class StdNS(types.SimpleNamespace):
    """A modelled module: what is not modelled is unsupported when used, not when imported."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return H.Poison("library function " + k)


def std_modules(np):
    m = {}
    ns = StdNS
    m["numpy"] = np
    m["numpy.random"] = np.random
    m["numpy.linalg"] = np.linalg
    m["numpy.fft"] = np.fft
    m["numpy.typing"] = np.typing
    m["math"] = m_ns()
    stats = ns(norm=norm_dist)
    opt = ns(minimize=minimize, fsolve=fsolve, OptimizeResult=Opt)
    interp = ns(griddata=griddata)
    special = ns(ndtr=lambda x: norm_dist.cdf(x), gammaln=lambda x: N.elementwise(lambda p: T.App("lgamma", N.nf(p)), x), xlogy=lambda a, b: a * N.log(b))
    lin = np.linalg
    m["scipy"] = ns(stats=stats, optimize=opt, interpolate=interp, special=special, linalg=lin)
    m["scipy.stats"], m["scipy.optimize"], m["scipy.interpolate"], m["scipy.special"], m["scipy.linalg"] = stats, opt, interp, special, lin
    m["itertools"] = ns(product=product, chain=itertools.chain, combinations=itertools.combinations, count=itertools.count, repeat=itertools.repeat,
                        permutations=itertools.permutations, islice=itertools.islice, accumulate=itertools.accumulate, starmap=lambda f, x: [f(*e) for e in x])
    m["dataclasses"] = ns(dataclass=dataclass_, asdict=asdict, astuple=astuple, replace=replace, field=lambda **k: Field(**k), fields=lambda o: [ns(name=n) for n in o._fields_])
    m["functools"] = ns(cached_property=cached_property, lru_cache=lru_cache, cache=lambda f: f, partial=functools.partial, reduce=reduce_, wraps=functools.wraps)
    m["warnings"] = ns(catch_warnings=_Ctx, filterwarnings=silent, simplefilter=silent, warn=silent)
    m["statistics"] = ns(NormalDist=NormalDist)
    m["decimal"] = ns(Decimal=Decimal, **{k: k for k in ("ROUND_HALF_UP", "ROUND_HALF_EVEN", "ROUND_DOWN", "ROUND_UP", "ROUND_FLOOR", "ROUND_CEILING", "ROUND_HALF_DOWN")})
    m["pandas"] = ns(Series=_Series(), DataFrame=_Frame(), isna=N.isnan, isnull=N.isnan, notna=lambda x: ~N.isnan(x))
    m["matplotlib"] = ns(pyplot=ns())
    m["matplotlib.pyplot"] = m["matplotlib"].pyplot
    m["os"] = ns(cpu_count=lambda: 1, path=_ospath, fspath=os.fspath, sep=os.sep)
    m["os.path"] = _ospath
    m["pathlib"] = pathlib
    m["copy"] = ns(copy=lambda x: x.copy() if hasattr(x, "copy") else x, deepcopy=lambda x: x.copy() if isinstance(x, Arr) else x)
    m["operator"] = __import__("operator")
    m["collections"] = __import__("collections")
    m["numbers"] = __import__("numbers")
    return m
