"""Runtime of the rewritten source: what `__rt.X` in a transformed module refers to."""
from __future__ import annotations
from fractions import Fraction as F
import functools
import math
import operator
import numbers
import sys
import builtins
from . import terms as T
from .terms import Poly, Bool, as_poly, const, ZERO, ONE, TRUE, FALSE
from . import core, values as V, npmodel as N, indexing
from .core import (FACTS, JOURNAL, RT, Unsupported, CannotMerge, MISSING, under, PathEnd, SymRaise, call_merged, decide as core_decide)
from .values import Num, SBool, Arr, FArr, SList, SDict, to_bool, is_num, poly, pconst, wrap, norm, tonum

ENGINE_ERRORS = (Unsupported, CannotMerge, PathEnd, T.TermError)


class Barrier:
    """A piece of code that must not fork the paths of its surroundings."""

    def decide(self, c):
        raise CannotMerge("fork: %r" % (c,))


class barrier:
    def __enter__(self):
        self.n = len(RT.explorers)
        RT.explorers.append(Barrier())

    def __exit__(self, *a):
        del RT.explorers[self.n:]
        return False


def attempt(thunk):
    """Run thunk on the current heap without forking: (value, writes); the heap is rolled back."""
    mark = JOURNAL.mark()
    nf = len(FACTS.stack)
    fs = len(RT.fn_stack)
    try:
        with barrier():
            try:
                v = call_merged(thunk, "block")
            except PathEnd:
                return None
            except ENGINE_ERRORS:
                raise
            except Exception as e:
                if getattr(e, "_from_code", False):
                    raise CannotMerge("exception in a branch")
                raise
        return v, JOURNAL.collect(mark)
    finally:
        JOURNAL.rollback(mark)
        del FACTS.stack[nf:]
        del RT.fn_stack[fs:]


# ------------------------------------------------------------------------------------- sequences
class Seq:
    """n items given by a function of the position (n symbolic or concrete)."""

    def __init__(self, n, item):
        self.n, self.item = V.dim(n), item

    def concrete(self):
        return isinstance(self.n, int)

    def __iter__(self):
        if not self.concrete():
            raise Unsupported("iteration over a symbolic sequence outside a loop")
        for i in range(self.n):
            yield self.item(const(i))

    def __len__(self):
        if self.concrete():
            return self.n
        raise Unsupported("len of a symbolic sequence")

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, n2, step = indexing.norm_slice(k, self.n)
            return Seq(n2, lambda i: self.item(as_poly(st) + i * step))
        return self.item(indexing.norm_index(k, self.n))


def symlen(x):
    if isinstance(x, Arr):
        return V.dim_out(x._shape[0])
    if isinstance(x, (Seq, V.Rep)):
        return V.dim_out(x.n)
    if isinstance(x, N.Comp):
        return symlen(x.arr())
    if hasattr(type(x), "symlen"):
        return x.symlen()
    if isinstance(x, SList) and x.grown() is not None:
        s = x.grown()
        return symlen(s) if isinstance(s, FArr) else V.dim_out(s.n)
    if isinstance(x, SList) and x.backed() is not None:
        return V.dim_out(x.backed().n)
    return builtins.len(x)


def ungrown(x):
    """A list filled by a loop as the array or sequence it is."""
    s = x.grown() if isinstance(x, SList) else None
    if s is None or isinstance(s, FArr):
        return x if s is None else s
    return V.as_arr(s) if is_num(s.item(ZERO)) else s


def as_seq(it):
    """Seq for an iterable of symbolic length, or None when CPython can iterate over it."""
    if isinstance(it, Seq):
        return it
    if isinstance(it, SList):
        s = it.grown()
        if isinstance(s, FArr):
            raise Unsupported("iteration over a list filled conditionally")
        return s
    if isinstance(it, N.Comp):
        it = it.arr()
    if isinstance(it, Arr) and not isinstance(it, FArr) and not isinstance(it._shape[0], int):
        return Seq(it._shape[0], lambda i, it=it: it[Num(i, "int")])
    return None


def rt_range(*a):
    if all(pconst(x) is not None for x in a):
        return builtins.range(*[int(pconst(x)) for x in a])
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    st = pconst(step)
    if st is None or st == 0:
        raise Unsupported("range with a symbolic step")
    p0, p1 = poly(start), poly(stop)
    st = int(st)
    d = (p1 - p0) if st > 0 else (p0 - p1)
    n = d if abs(st) == 1 else -V.floordiv(-d, const(abs(st)))
    if not FACTS.implied(T.ge(n)):
        n = core.ite(T.gt(n), n, ZERO)
    return Seq(n, lambda i: norm(p0 + i * const(st), "int"))


def rt_enumerate(it, start=0):
    s = as_seq(it)
    if s is None:
        return builtins.enumerate(it, start)
    return Seq(s.n, lambda i: (norm(i + poly(start), "int"), s.item(i)))


def rt_zip(*its, **k):
    ss = [as_seq(i) for i in its]
    if all(s is None for s in ss):
        return builtins.zip(*its)
    sizes = []
    for s, i in zip(ss, its):
        sizes.append(as_poly(s.n) if s is not None else const(builtins.len(i)))
    n = sizes[0]
    for m in sizes[1:]:
        if V.same_dim(V.dim(n), V.dim(m)) is not True:
            n = core.ite(T.gt(n - m), m, n)
    items = [s.item if s is not None else (lambda i, L=list(it): _pick(L, i)) for s, it in zip(ss, its)]
    return Seq(n, lambda i: builtins.tuple(f(i) for f in items))


def _pick(L, i):
    c = i.const()
    if c is not None:
        return L[int(c)]
    return V.as_arr(L)[Num(i, "int")]


def rt_reversed(it):
    s = as_seq(it)
    if s is None:
        if isinstance(it, Arr):
            return builtins.list(it)[::-1]
        return builtins.reversed(it)
    return Seq(s.n, lambda i: s.item(as_poly(s.n) - ONE - i))


# ------------------------------------------------------------------------------------- operators
def lit(s):
    return Num(const(F(s)))


def unsupported(what):
    raise Unsupported(what)


def native(x):
    return isinstance(x, numbers.Number) and not isinstance(x, (Num, SBool))


def div(a, b):
    if isinstance(a, bool):
        a = int(a)
    if native(a) and native(b):
        a = tonum(a)
        if b == 0:
            e = ZeroDivisionError("division by zero")
            e._from_code = True
            raise e
    return a / b


def pow_(a, b):
    if native(a) and native(b):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        a = tonum(a)
    return a ** b


def fdiv(a, b):
    return a // b


def mod(a, b):
    if isinstance(a, str):
        return a % b
    return a % b


IOPS = {"Add": ("+", operator.iadd), "Sub": ("-", operator.isub), "Mult": ("*", operator.imul), "Div": ("/", operator.itruediv), "Pow": ("**", operator.ipow),
        "FloorDiv": ("//", operator.ifloordiv), "Mod": ("%", operator.imod), "BitAnd": ("&", operator.iand), "BitOr": ("|", operator.ior), "BitXor": ("^", operator.ixor),
        "MatMult": ("@", operator.imatmul), "LShift": ("<<", operator.ilshift), "RShift": (">>", operator.irshift)}


def augitem(op, c, k, value):
    """c[k] op= value()"""
    t = c[k]
    v = value()
    sym, f = IOPS[op]
    if isinstance(t, (FArr, V.FMat)):
        # a new array, to which nothing else refers
        if sym not in ("+", "-", "*", "/", "**"):
            raise Unsupported("augmented assignment through a mask")
        r = N.binop(t, v, sym)
        if t._dtype.kind in "iub" and r._dtype.kind == "f":
            RT.oblige(FALSE, "dtype", "in-place operation casts float to integer")
    else:
        r = f(t, v)
    c[k] = r


def idiv(a, b):
    if isinstance(a, Arr):
        a /= b
        return a
    return div(a, b)


def ipow(a, b):
    if isinstance(a, Arr):
        a **= b
        return a
    return pow_(a, b)


def is_sym(x):
    return isinstance(x, (SBool, Num)) or (isinstance(x, Arr))


def and_(*fs):
    acc = None
    pushed = 0
    try:
        for i, f in enumerate(fs):
            v = f()
            if i == len(fs) - 1 and acc is None:
                return v
            if not is_sym(v):
                if acc is None:
                    if not v:
                        return v
                    continue
                if not v:
                    return False
                continue
            if isinstance(v, Num):
                b = T.ne(poly(v))
            else:
                b = to_bool(v)
            d = FACTS.decide(b)
            if d is False:
                return False if isinstance(v, SBool) else v
            if d is True:
                continue
            acc = b if acc is None else T.conj(acc, b)
            FACTS.push(b)
            pushed += 1
    finally:
        FACTS.pop(pushed) if pushed else None
    return True if acc is None else wrap(acc)


def or_(*fs):
    acc = None
    pushed = 0
    try:
        for i, f in enumerate(fs):
            v = f()
            if i == len(fs) - 1 and acc is None:
                return v
            if not is_sym(v):
                if acc is None:
                    if v:
                        return v
                    continue
                if v:
                    return True
                continue
            if isinstance(v, Num) and i < len(fs) - 1:
                if core_decide(T.ne(poly(v))):
                    return v
                continue
            b = to_bool(v)
            d = FACTS.decide(b)
            if d is True:
                return True
            if d is False:
                continue
            acc = b if acc is None else T.disj(acc, b)
            FACTS.push(T.neg(b))
            pushed += 1
    finally:
        FACTS.pop(pushed) if pushed else None
    return False if acc is None else wrap(acc)


def not_(x):
    if isinstance(x, (SBool, Num, Arr)):
        return wrap(T.neg(to_bool(x)))
    return not x


def chain(*parts):
    if any(isinstance(p, Arr) for p in parts):
        raise Unsupported("chained comparison of arrays")
    return and_(*[(lambda p=p: p) for p in parts])


def in_(x, c):
    if isinstance(c, Arr):
        return N.any_(c == x)
    if is_num(x) and isinstance(c, (list, tuple, set, range)) and (isinstance(x, Num) or any(isinstance(e, Num) for e in c)):
        r = False
        for e in c:
            r = or_(lambda: r, lambda: x == e)
        return r
    return x in c


def truth(x):
    if isinstance(x, (SBool, Num, Arr)):
        return core_decide(to_bool(x))
    return bool(x)


def ifexp(test, fa, fb):
    if not isinstance(test, (SBool, Num, Arr)):
        return fa() if test else fb()
    c = to_bool(test)
    d = FACTS.decide(c)
    if d is not None:
        return fa() if d else fb()
    return If(c, lambda: (fa(),), lambda: (fb(),), ())[0]


def If(test, fa, fb, vals):
    if not isinstance(test, (SBool, Num, Arr, Bool)):
        return (fa if test else fb)(*vals)
    c = to_bool(test)
    d = FACTS.decide(c)
    if d is not None:
        return (fa if d else fb)(*vals)
    if RT.split_at == len(RT.fn_stack):
        return (fa if core_decide(c) else fb)(*vals)
    nob = len(RT.obligations)
    try:
        with under(c):
            ra = attempt(lambda: fa(*vals))
        with under(T.neg(c)):
            rb = attempt(lambda: fb(*vals))
        if ra is None and rb is None:
            raise PathEnd()
        if ra is None or rb is None:
            v, w = ra or rb
            core.apply_writes(w)
            return v
        mark = JOURNAL.mark()
        try:
            out = tuple(core.merge(c, x, y) for x, y in zip(ra[0], rb[0]))
            core.merge_writes(c, ra[1], rb[1])
        except CannotMerge:
            JOURNAL.rollback(mark)
            raise
        return out
    except CannotMerge:
        del RT.obligations[nob:]
    if core_decide(c):
        return fa(*vals)
    return fb(*vals)


def assert_(test, msg=None):
    c = to_bool(test) if isinstance(test, (SBool, Num, Arr)) else T.as_bool(bool(test))
    d = FACTS.decide(c)
    if d is True:
        return
    if d is None and core_decide(c):
        return
    e = AssertionError(msg() if msg else "")
    e._from_code = True
    raise e


def exc(e):
    if isinstance(e, type):
        e = e()
    e._from_code = True
    return e


def chk():
    e = sys.exc_info()[1]
    if isinstance(e, ENGINE_ERRORS) or not (getattr(e, "_from_code", False) or isinstance(e, (ImportError, StopIteration))):
        raise e


# ------------------------------------------------------------------------------------- locals
def loc(d, *names):
    return builtins.tuple(d.get(n, MISSING) for n in names)


def cur(d, n):
    return d.get(n, MISSING)


def missing(x):
    return x is MISSING


def anymissing(xs):
    return any(x is MISSING for x in xs)


def gset(g, k, v):
    JOURNAL.write(("gl", g, k), v)


def it(x):
    s = as_seq(x)
    if s is not None:
        raise Unsupported("iteration over a symbolic sequence")
    return x


def flatten_like(e, pat):
    out = []

    def go(v, i):
        if pat[i] == "n":
            out.append(v)
            return i + 1
        i += 1
        vs = builtins.list(v)
        j = 0
        while pat[i] != ")":
            i = go(vs[j], i)
            j += 1
        return i + 1
    go(e, 0)
    return out


# ------------------------------------------------------------------------------------- generators
class GenList(SList):
    """What a generator yields: (condition, item) pairs."""

    def __iter__(self):
        for g, v in list.__iter__(self):
            if g.kind == "false":
                continue
            d = FACTS.decide(g)
            if d is None:
                if core_decide(g):
                    yield v
                continue
            if d:
                yield v


def Gen():
    return GenList()


def emit(g, v):
    JOURNAL.write(("ls", g), list(list.__iter__(g)) + [(TRUE, v)])


def emitall(g, it_):
    for v in it_:
        emit(g, v)


def gendone(g):
    return g


def comp(kind, itr, f, cond):
    if isinstance(itr, SList) and isinstance(itr.grown(), FArr):
        itr = itr.grown()
    s = None if isinstance(itr, FArr) else as_seq(itr)
    made = V.grown_list if kind == "list" else N.Comp
    if isinstance(itr, FArr):
        if kind == "set":
            raise Unsupported("set of symbolic size")
        # per-entry expression over selected entries
        v = itr.val
        if cond is not None:
            raise Unsupported("filtered comprehension over a filtered array")
        return made(FArr(itr.n, itr.cond, lambda k: as_poly(poly(f(Num(v(k))))), V.F8))
    if s is not None and kind == "set":
        raise Unsupported("set of symbolic size")
    if s is None:
        out = []
        if isinstance(itr, GenList):
            items = list.__iter__(itr)
        else:
            items = ((TRUE, x) for x in itr)
        guarded = False
        for g, x in items:
            c = T.conj(g, TRUE if cond is None else to_bool_any(cond(x)))
            d = FACTS.decide(c)
            if d is False:
                continue
            if d is None:
                guarded = True
                with under(c):
                    out.append((c, f(x)))
            else:
                out.append((TRUE, f(x)))
        if guarded:
            r = GenList()
            list.extend(r, out)
            return r
        vals = [v for _, v in out]
        if kind == "set":
            return builtins.set(vals)
        return SList(vals) if kind == "list" else SList(vals)
    n = s.n
    k = T.fresh("k", isint=True, nonneg=True)
    with under(T.gt(as_poly(n) - k)):
        nob = len(RT.obligations)
        r = attempt(lambda: (f(s.item(k)),))
        if r is None:
            raise Unsupported("dead comprehension")
        if r[1]:
            if kind == "list":
                return comp_loop(itr, f, cond, nob)
            raise Unsupported("comprehension with side effects")
        sample = r[0][0]
        if cond is not None:
            cr = attempt(lambda: (cond(s.item(k)),))
            if cr[1]:
                if kind == "list":
                    return comp_loop(itr, f, cond, nob)
                raise Unsupported("comprehension with side effects")

    # the values at this moment: what is read may be written later
    now = frozen(sample, k)
    cnow = None if cond is None else frozen(cr[0][0], k)

    def val(i):
        if now is not None:
            return now(i)
        with under(T.gt(as_poly(n) - i)):
            return attempt(lambda: (f(s.item(i)),))[0][0]
    if is_num(sample) or isinstance(sample, (SBool, bool)):
        dt = V.B1 if isinstance(sample, (SBool, bool)) else (V.I8 if tonum(sample).t == "int" else V.F8)

        def ent(i):
            v = val(i)
            return to_bool(v) if dt is V.B1 else poly(v)
        if cond is not None:
            def cnd(i):
                if cnow is not None:
                    return to_bool_any(cnow(i))
                with under(T.gt(as_poly(n) - i)):
                    return to_bool_any(attempt(lambda: (cond(s.item(i)),))[0][0])
            return made(FArr(n, cnd, ent, dt))
        return made(Arr.new((n,), lambda i: ent(i[0]), dt))
    if cond is not None:
        raise Unsupported("filtered comprehension of objects")
    return V.grown_list(Seq(n, val)) if kind == "list" else Seq(n, val)


def comp_loop(itr, f, cond, nob):
    """A list comprehension with side effects, as the loop it is."""
    del RT.obligations[nob:]
    r = SList()

    def add(x):
        r.append(f(x))
        return ()

    def body(x):
        if cond is None:
            add(x)
        else:
            If(cond(x), lambda: add(x), lambda: (), ())
        return ("next", None, ())
    For(itr, body, (), (), 0)
    return r


def frozen(v, k):
    """The value v, computed at position k, as a function of the position (None: v is an object)."""
    a = k.atom()
    if isinstance(v, (bool, str, int, float, type(None))):
        return lambda i: v
    if isinstance(v, SBool):
        return lambda i: wrap(T.subst(v.b, {a: as_poly(i)}))
    if isinstance(v, Num):
        return (lambda i: v) if v.special else (lambda i: norm(T.subst(v.p, {a: as_poly(i)}), v.t))
    if isinstance(v, tuple) and type(v) is tuple:
        fs = [frozen(x, k) for x in v]
        return None if any(x is None for x in fs) else (lambda i: tuple(x(i) for x in fs))
    if type(v) is Arr:
        s = v.snapshot()
        def at(i):
            def fn(ix):
                return T.subst(s.at(tuple(ix)), {a: as_poly(i)})
            sh = tuple(d if isinstance(d, int) else V.dim(T.subst(as_poly(d), {a: as_poly(i)})) for d in v._shape)
            return Arr.new(sh, fn, v._dtype)
        return at
    return None


def to_bool_any(x):
    return to_bool(x) if isinstance(x, (SBool, Num, Arr)) else T.as_bool(bool(x))


# ------------------------------------------------------------------------------------- functions and classes
class FnInfo:
    registry = {}


def fn(mod, qual, line):
    key = f"{mod}:{qual}"

    def deco(f):
        FnInfo.registry[key] = f

        @functools.wraps(f)
        def wrapper(*a, **k):
            c = RT.contracts.get(key)
            if c is not None and not (RT.target == key and not RT.fn_stack):
                RT.used_contracts[key] = RT.used_contracts.get(key, 0) + 1
                return c(f, *a, **k)
            if len(RT.fn_stack) > 60:
                raise Unsupported("recursion")
            RT.executed.add(key)

            def run():
                RT.fn_stack.append(key)
                try:
                    return f(*a, **k)
                finally:
                    RT.fn_stack.pop()
            if not RT.fn_stack:
                return run()
            return call_merged(run, key)
        wrapper._frds_key = key
        return wrapper
    return deco


def cls(mod, qual):
    def deco(c):
        c._frds_class = True
        c._frds_key = f"{mod}:{qual}"
        if "__setattr__" not in c.__dict__ and not isinstance(c, FnInfo):
            def setattr_(self, k, v):
                p = getattr(type(self), k, None)
                if isinstance(p, property):
                    p.__set__(self, v)
                    return
                JOURNAL.write(("at", self, k), v)
            try:
                c.__setattr__ = setattr_
            except Exception:
                pass
        return c
    return deco


# ------------------------------------------------------------------------------------- loops
def For(itr, body, vals, names, line):
    if hasattr(type(itr), "contract_loop"):
        return itr.contract_loop(body, vals, names, line)
    if isinstance(itr, SList) and isinstance(itr.grown(), FArr):
        itr = itr.grown()
    s = as_seq(itr)
    if isinstance(itr, FArr):
        n = itr.n
        cond, val, dt = itr.cond, itr.val, itr._dtype

        def fbody(e, *vs):
            r = If(cond(e), lambda *w: unflag(body(wrap(val(e), dt), *w)), lambda *w: w, vs)
            return ("next", None, r)
        return sym_loop(n, lambda k: k, fbody, vals, names, line)
    if s is not None and not s.concrete():
        return sym_loop(s.n, s.item, body, vals, names, line)
    if isinstance(itr, GenList):
        items = builtins.list(list.__iter__(itr))
    else:
        items = ((TRUE, x) for x in itr)
    for g, x in items:
        if g.kind == "true":
            flag, rv, vals = call_merged(lambda: body(x, *vals), "loop")
        else:
            vals = If(g, lambda *w: unflag(body(x, *w)), lambda *w: w, vals)
            continue
        if flag == "break":
            return ("next", None, vals)
        if flag == "return":
            return (flag, rv, vals)
    return ("next", None, vals)


def unflag(r):
    if r[0] != "next":
        raise Unsupported("loop exit under a condition")
    return r[2]


def While(cond, body, vals, names, line):
    # counter form: v increases (decreases) by one per iteration and bounds the loop
    for count in range(2000):
        c = cond(*vals)
        if isinstance(c, (SBool, Num, Arr)):
            b = to_bool(c)
            d = FACTS.decide(b)
            if d is None:
                return sym_while(cond, body, vals, names, line)
            c = d
        if not c:
            return ("next", None, vals)
        flag, rv, vals = call_merged(lambda: body(*vals), "loop")
        if flag == "break":
            return ("next", None, vals)
        if flag == "return":
            return (flag, rv, vals)
    raise Unsupported("long concrete loop")


def sym_while(cond, body, vals, names, line):
    for i, nm in enumerate(names):
        v = vals[i]
        if not is_num(v) or tonum(v).t != "int":
            continue
        x = T.fresh("w", isint=True)
        vs = list(vals)
        # every other number arbitrary: the step of the counter must not depend on them
        for j, w in enumerate(vals):
            if j != i and is_num(w) and not isinstance(w, (bool, SBool)):
                vs[j] = Num(T.fresh("w", isint=tonum(w).t == "int"), tonum(w).t)
        vs[i] = Num(x, "int")
        try:
            c = attempt(lambda: (cond(*vs),))
        except (Unsupported, CannotMerge):
            continue
        if c is None or not isinstance(c[0][0], SBool) or c[1]:
            continue
        b = c[0][0].b
        if b.kind not in ("gt", "ge"):
            continue
        p = b.args[0]
        xa = x.atom()
        co = p.d.get(((xa.id, F(1)),))
        rest = p - Poly({((xa.id, F(1)),): co}) if co is not None else None
        if co not in (1, -1) or T.depends(rest, xa):
            continue
        if any(a.kind == "var" and str(a.args[0]).startswith("w!") for a in T.free_atoms(rest)):
            continue
        nob = len(RT.obligations)
        try:
            with under(b):
                r = attempt(lambda: body(*vs))
        except (Unsupported, CannotMerge):
            continue
        finally:
            del RT.obligations[nob:]
        if r is None or r[0][0] != "next":
            continue
        d = poly(r[0][2][i]) - x if is_num(r[0][2][i]) else None
        if d is None or d.const() not in (1, -1) or d.const() != -co:
            continue
        step = int(d.const())
        v0 = poly(v)
        # p = co*x + rest > 0 ; iterations while it holds: x = v0 + step*k, co*step = -1
        p0 = rest + v0 * const(co)
        cnt = p0 if b.kind == "gt" else p0 + ONE
        n = core.ite(T.gt(cnt), cnt, ZERO)

        def wbody(k, *w):
            w = list(w)
            w[i] = norm(v0 + k * const(step), "int")
            return body(*w)
        vs0 = list(vals)
        flag, rv, out = sym_loop(n, lambda k: k, wbody, tuple(vs0), names, line, skip={i})
        out = list(out)
        out[i] = norm(v0 + n * const(step), "int")
        return (flag, rv, tuple(out))
    raise Unsupported("while loop that is not a counter loop")


class Poison:
    """A local whose value after a loop is not known."""

    def __init__(self, nm):
        self._nm = nm

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"value of {self._nm}")

    def _bad(self, *a, **k):
        raise Unsupported(f"use of {self._nm}")
    __call__ = __iter__ = __len__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __bool__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __neg__ = _bad


class Comp_:
    """One carried component of a loop."""

    def __init__(self, key, init, expr):
        self.key, self.init, self.expr = key, init, expr


def sym_loop(n, item, body, vals, names, line, skip=()):
    n = as_poly(n)
    if FACTS.decide(T.gt(n)) is False:
        return ("next", None, vals)
    L = SymLoop(n, item, body, list(vals), list(names), line, set(skip))
    return L.run()


class SymLoop:
    def __init__(self, n, item, body, vals, names, line, skip):
        self.n, self.item, self.body, self.vals, self.names, self.line, self.skip = n, item, body, vals, names, line, skip

    # ---- placeholders
    def havoc_value(self, v, tag, asfloat):
        """Placeholder of the same shape; registers its atoms."""
        if v is MISSING or v is None or isinstance(v, (bool, SBool, str)) or callable(v) and not isinstance(v, Arr):
            return v
        if is_num(v):
            t = "float" if asfloat else tonum(v).t
            x = T.fresh("c", isint=(t == "int"))
            self.ph[x.atom()] = (tag, ())
            return Num(x, t)
        if isinstance(v, FArr):
            return v
        if isinstance(v, Arr):
            if all(isinstance(s, int) for s in v._shape) and math.prod(v._shape) <= 64:
                els = {}
                for idx in _indices(v._shape):
                    x = T.fresh("c")
                    self.ph[x.atom()] = (tag, idx)
                    els[idx] = x

                def fn(i):
                    c = [j.const() for j in i]
                    if all(x is not None for x in c):
                        return els[tuple(int(x) for x in c)]
                    return _select(els, i)
                return Arr.new(v._shape, fn, v._dtype)
            nm = f"hav!{T._fresh[0]}"
            T._fresh[0] += 1
            self.hav[nm] = (tag, v)
            return Arr.new(v._shape, lambda i: T.Read(nm, *i), v._dtype)
        if isinstance(v, tuple):
            return tuple(self.havoc_value(x, tag + (j,), asfloat) for j, x in enumerate(v))
        if isinstance(v, list):
            return SList([self.havoc_value(x, tag + (j,), asfloat) for j, x in enumerate(v)])
        return v

    def havoc_store(self, loc, born):
        st = loc[1]
        sh = getattr(st, "shape", ())
        tag = ("h", JOURNAL.key(loc))
        nm = f"hav!{T._fresh[0]}"
        T._fresh[0] += 1
        self.havst[nm] = loc
        if not sh:
            x = T.fresh("c")
            self.ph[x.atom()] = (tag, ())
            return lambda i: x
        return lambda i: T.Read(nm, *i)

    # ---- run
    def run(self):
        locs = {}
        asfloat = set()
        self.back, numbers = {}, {}
        # arrays the body may only update in place
        self.ident = {i for i, v in enumerate(self.vals) if type(v) is Arr and i not in self.skip}
        nob = len(RT.obligations)
        for attempt_no in range(8):
            del RT.obligations[nob:]
            self.ph, self.hav, self.havst = {}, {}, {}
            k = T.fresh("k", isint=True, nonneg=True)
            self.k = k
            hv = [self.havoc_value(v, ("v", i), i in asfloat) if i not in self.skip and i not in self.ident else v for i, v in enumerate(self.vals)]
            for key, (loc, old) in locs.items():
                if loc[0] == "ls" and key not in self.back and key in numbers:
                    # room for what it holds before the loop and an item of every iteration
                    t = V.I8 if numbers[key] == "int" else V.F8
                    self.back[key] = Arr.new((V.dim(const(len(old)) + self.n),), lambda i, old=old: _nth(old, i[0]), t)
                    self.back[key].st.shape = self.back[key]._shape
            grew = {}
            mark = JOURNAL.mark()
            try:
                for key, (loc, old) in locs.items():
                    if loc[0] == "st":
                        JOURNAL.write(loc, self.havoc_store(loc, mark))
                    elif loc[0] in ("at", "gl"):
                        JOURNAL.write(loc, self.havoc_value(old, ("h", key), key in asfloat))
                    elif loc[0] == "ls":
                        b = self.back.get(key)
                        if b is None:
                            JOURNAL.write(loc, [V.Growing()] + old)
                        else:
                            now = V.Backed(b, V.dim(const(len(old)) + k))
                            now.after = V.Backed(b, V.dim(const(len(old) + 1) + k))
                            grew[key] = now.after
                            JOURNAL.write(loc, [now])
                    else:
                        raise Unsupported("loop writes " + loc[0])
                RT.loop_marks.append(mark[1])
                try:
                    with under(T.gt(self.n - k)):
                        r = attempt(lambda: self.body(self.item(k), *hv))
                finally:
                    RT.loop_marks.pop()
                if r is None:
                    raise Unsupported("loop body never completes")
            finally:
                JOURNAL.rollback(mark)
            (flag, rv, out), writes = r
            if flag != "next":
                raise Unsupported("exit from a loop of symbolic length")
            again = False
            for i in list(self.ident):
                o, v = out[i], self.vals[i]
                if not (o is v or type(o) is Arr and o.st is v.st and o.vmap == v.vmap and o._shape == v._shape):
                    self.ident.remove(i)
                    again = True
            for key, (loc, old, new) in writes.items():
                if key in locs:
                    continue
                if loc[0] == "st" and loc[1].born > mark[1]:
                    continue
                if loc[0] == "at" and not self.preexisting(loc):
                    continue
                if loc[0] == "ls" and loc[1].born > mark[1]:
                    continue
                cur_old = JOURNAL.get(loc)
                if loc[0] == "ls" and len(new) == len(cur_old) + 1 and all(is_num(x) and not isinstance(x, (bool, SBool)) and not tonum(x).special for x in new):
                    numbers[key] = "int" if all(tonum(x).t == "int" for x in new) else "float"
                locs[key] = (loc, cur_old)
                again = True
            for i, (v, o) in enumerate(zip(self.vals, out)):
                if is_num(v) and tonum(v).t == "int" and i not in asfloat and is_num(o) and not isinstance(o, bool) and tonum(o).t == "float":
                    asfloat.add(i)
                    again = True
            for key, (loc, old) in locs.items():
                if loc[0] in ("at", "gl") and key in writes and is_num(old) and tonum(old).t == "int" and key not in asfloat \
                        and is_num(writes[key][2]) and tonum(writes[key][2]).t == "float":
                    asfloat.add(key)
                    again = True
            if not again:
                break
        else:
            raise Unsupported("loop state does not stabilise")
        self.locs, self.out, self.writes, self.hv, self.grew = locs, out, writes, hv, grew
        return self.summarise()

    def preexisting(self, loc):
        # objects created inside the body are not part of the state
        return JOURNAL.get(loc) is not MISSING

    # ---- summary
    def summarise(self):
        self.exprs = {}
        self.inits = {}
        self.isint = {}
        old_ph = {}
        for i, v in enumerate(self.vals):
            if i in self.skip or i in self.ident:
                continue
            self.add_value(("v", i), v, self.out[i], self.hv[i])
        self.stores = {}
        for key, (loc, old) in self.locs.items():
            new = self.writes.get(key)
            tag = ("h", key)
            if loc[0] == "st":
                if new is None:
                    continue
                self.add_store(key, loc, old, new[2])
            elif loc[0] in ("at", "gl"):
                if new is None:
                    continue
                self.add_value(tag, old, new[2], None)
        self.solved = {}
        self.index_stores()
        res = []
        for i, v in enumerate(self.vals):
            if i in self.skip or i in self.ident:
                res.append(v)
            else:
                res.append(self.final_value(("v", i), v, self.out[i], self.hv[i], self.names[i]))
        # heap
        for key, (loc, old) in self.locs.items():
            new = self.writes.get(key)
            if new is None:
                continue
            if loc[0] == "st":
                JOURNAL.write(loc, self.final_store(key, loc, old))
            elif loc[0] in ("at", "gl"):
                JOURNAL.write(loc, self.final_value(("h", key), old, new[2], None, str(loc[2])))
            elif loc[0] == "ls":
                JOURNAL.write(loc, self.final_list(key, old, new[2]))
        return ("next", None, tuple(res))

    def add_value(self, tag, v, o, hv):
        if v is MISSING or o is MISSING:
            return
        if is_num(v) and is_num(o) and not isinstance(v, (bool, SBool)) and not isinstance(o, (bool, SBool)):
            nv = tonum(v)
            self.inits[(tag, ())] = poly(nv)
            self.exprs[(tag, ())] = poly(o)
            self.isint[(tag, ())] = tonum(o).t == "int" and nv.t == "int"
        elif isinstance(v, Arr) and isinstance(o, Arr) and not isinstance(v, FArr) and all(isinstance(s, int) for s in v._shape) and v._shape == o._shape and math.prod(v._shape) <= 64:
            for idx in _indices(v._shape):
                c = tuple(const(j) for j in idx)
                self.inits[(tag, idx)] = as_poly(v.at(c))
                self.exprs[(tag, idx)] = as_poly(o.at(c))
        elif isinstance(v, (tuple, list)) and isinstance(o, (tuple, list)) and len(v) == len(o):
            for j, (a, b) in enumerate(zip(v, o)):
                self.add_value(tag + (j,), a, b, None)

    def add_store(self, key, loc, old, new):
        st = loc[1]
        sh = getattr(st, "shape", ())
        if not sh:
            self.inits[(("h", key), ())] = as_poly(old(()))
            self.exprs[(("h", key), ())] = as_poly(new(()))
            return
        self.stores[key] = Store(self, key, loc, old, new)

    def index_stores(self):
        for s in self.stores.values():
            s.analyse()

    # ---- resolving placeholders at a given iteration
    def deps(self, e):
        """Components an expression over the state before iteration k depends on."""
        d = []
        for a in sorted(T.free_atoms(e), key=lambda a: a.id):
            if a in self.ph:
                d.append((a, ("p",) + self.ph[a]))
            elif a.kind == "read" and a.args[0] in self.havst:
                d.append((a, self.read_dep(a)))
            elif a.kind == "read" and a.args[0] in self.hav:
                raise Unsupported("array variable rebound in a loop")
        return d

    def read_dep(self, a):
        key = JOURNAL.key(self.havst[a.args[0]])
        s = self.stores.get(key)
        loc, old = self.locs[key]
        idx = a.args[1:]
        if s is None:
            return ("old", key, idx)
        return s.classify(idx)

    def node_expr(self, node):
        """(init, expr) of a component: value after 0 iterations, value after iteration k."""
        if node[0] == "p":
            k = node[1:]
            if k not in self.exprs:
                # never changed in the body (or of a kind that is not tracked)
                return None
            return self.inits[k], self.exprs[k]
        if node[0] == "row":
            return self.stores[node[1]].row(node[2])
        raise Unsupported("component")

    def solve(self, node):
        """function: iteration count (Poly) -> value of the component before that iteration."""
        if node in self.solved:
            return self.solved[node]
        # closure
        graph = {}
        exprs = {}
        stack = [node]
        order = []
        while stack:
            x = stack.pop()
            if x in graph or x in self.solved:
                continue
            ie = self.node_expr(x)
            if ie is None:
                raise Unsupported("untracked loop variable")
            exprs[x] = ie
            ds = self.deps(ie[1])
            graph[x] = [d for _, d in ds if d[0] in ("p", "row")]
            order.append(x)
            if len(graph) > 60:
                raise Unsupported("loop state too large")
            for d in reversed(graph[x]):
                stack.append(d)
        for scc in _sccs(order, graph):
            self.solve_scc(scc, exprs, graph)
        return self.solved[node]

    def resolve(self, e, kp, own=None):
        """e with the state replaced by its value before iteration kp (own: components given directly)."""
        mp = {}
        for a, d in self.deps(e):
            if own and d in own:
                mp[a] = own[d]
            elif d[0] == "old":
                loc, old = self.locs[d[1]]
                idx = tuple(self.resolve(i, kp, own) for i in d[2])
                mp[a] = as_poly(old(idx))
            elif d[0] == "at":
                # a row written in an earlier iteration
                raise Unsupported("loop reads an older row")
            else:
                mp[a] = self.solve_ready(d)(kp)
        mp2 = dict(mp)
        mp2[self.k.atom()] = as_poly(kp)
        return T.subst(e, mp2)

    def solve_ready(self, d):
        f = self.solved.get(d)
        if f is None:
            f = self.solve(d)
        return f

    def solve_scc(self, scc, exprs, graph):
        if len(scc) == 1:
            x = scc[0]
            init, e = exprs[x]
            ph = [a for a, d in self.deps(e) if d == x]
            if not ph:
                # a delayed copy of something: value of the previous iteration
                def f(kp, e=e, init=init):
                    kp = as_poly(kp)
                    c = kp.const()
                    if c is not None and c == 0:
                        return init
                    prev = None
                    try:
                        if self.resolve(e, const(-1)) == init:
                            return self.resolve(e, kp - ONE)
                    except (Unsupported, T.TermError, ZeroDivisionError):
                        pass
                    with under(T.gt(kp)):
                        prev = self.resolve(e, kp - ONE)
                    return core.ite(T.gt(kp), prev, init)
                self.solved[x] = f
                return
            xp = as_poly(ph[0])
            if len(ph) == 1:
                if e == xp:
                    self.solved[x] = lambda kp, init=init: init
                    return
                g = e - xp
                if not T.depends(g, ph[0]):
                    def facc(kp, g=g, init=init):
                        def term(j):
                            with under(T.gt(as_poly(kp) - j), T.gt(self.n - j)):
                                return self.resolve(g, j)
                        return init + T.Sum(kp, term)
                    self.solved[x] = facc
                    return
                q = e / xp
                if not T.depends(q, ph[0]) and not T.depends(q, self.k.atom()) and not self.deps(q):
                    self.solved[x] = lambda kp, q=q, init=init: init * T.power(q, as_poly(kp))
                    return
        scc = sorted(scc, key=lambda d: repr(_nodekey(d)))
        xs = [T.fresh("x") for _ in scc]
        nvar = T.fresh("n", isint=True, nonneg=True)
        own = dict(zip(scc, xs))
        with under(T.gt(self.n - nvar)):
            step = [self.resolve(exprs[d][1], nvar, own) for d in scc]
        init = [exprs[d][0] for d in scc]
        rs = T._intern_recsys([str(d[-1]) for d in scc], init, step, xs, nvar)
        for i, d in enumerate(scc):
            self.solved[d] = (lambda kp, i=i: rs.at(i, kp))

    # ---- results
    def final_value(self, tag, v, o, hv, nm):
        if o is MISSING:
            return v
        if v is not MISSING and o is hv:
            return v
        if is_num(v) and is_num(o) and (tag, ()) in self.exprs:
            r = self.solve(("p", tag, ()))(self.n)
            return norm(r, "int" if self.isint[(tag, ())] else "float")
        if isinstance(v, Arr) and isinstance(o, Arr) and any((tag, i) in self.exprs for i in _indices(v._shape if all(isinstance(s, int) for s in v._shape) and math.prod(v._shape) <= 64 else ())):
            els = {idx: self.solve(("p", tag, idx))(self.n) for idx in _indices(v._shape)}
            if v.st is o.st:
                return v

            def fn(i):
                c = [j.const() for j in i]
                if all(x is not None for x in c):
                    return els[tuple(int(x) for x in c)]
                return _select(els, i)
            return Arr.new(v._shape, fn, o._dtype)
        if isinstance(v, (tuple, list)) and isinstance(o, (tuple, list)) and len(v) == len(o) and v is not MISSING:
            r = [self.final_value(tag + (j,), a, b, None, nm) for j, (a, b) in enumerate(zip(v, o))]
            return tuple(r) if isinstance(v, tuple) else SList(r)
        # a value of the last iteration
        try:
            return self.last(o, v)
        except (Unsupported, CannotMerge, T.TermError):
            return Poison(nm + ' after the loop')

    def last(self, o, v):
        if v is not MISSING:
            if o is v:
                return v
            if FACTS.decide(T.gt(self.n)) is not True:
                raise Unsupported("loop may be empty")
        if isinstance(o, SBool):
            return wrap(self.resolve_bool(o.b, self.n - ONE))
        if is_num(o) and not isinstance(o, bool):
            t = tonum(o)
            if t.special:
                return o
            return norm(self.resolve(t.p, self.n - ONE), t.t)
        if isinstance(o, Arr) and not isinstance(o, FArr):
            s = o.snapshot()

            def fn(i):
                e = s.at(i)
                return self.resolve(e, self.n - ONE) if isinstance(e, Poly) else self.resolve_bool(e, self.n - ONE)
            return Arr.new(o._shape, fn, o._dtype)
        if isinstance(o, tuple):
            return tuple(self.last(x, MISSING) for x in o)
        if isinstance(o, (bool, str)) or o is None:
            return o
        raise Unsupported("value of a loop variable after the loop")

    def resolve_bool(self, b, kp):
        mp = {}
        p = T.ite(b, ONE, ZERO)
        q = self.resolve(p, kp)
        return T.ne(q)

    def final_store(self, key, loc, old):
        if key in self.stores:
            return self.stores[key].final()
        x = self.solve(("p", ("h", key), ()))(self.n)
        return lambda i: x

    def final_list(self, key, old, new):
        if key in self.back:
            if len(new) != 1 or new[0] is not self.grew[key]:
                raise Unsupported("list grows in a loop of symbolic length")
            a = self.back[key]
            return list.copy(V.own_list(a))
        if old or len(new) != 2 or not isinstance(new[0], V.Growing):
            raise Unsupported("list grows in a loop of symbolic length")
        x = new[1]
        if isinstance(x, V.Maybe):
            c, e = x.c, x.x
            if not is_num(e) or isinstance(e, (bool, SBool)) or tonum(e).special:
                raise Unsupported("what is appended conditionally in a loop of symbolic length")
            e = tonum(e)
            self.resolve_bool(c, ZERO), self.resolve(e.p, ZERO)

            def cond(kp):
                with under(T.gt(self.n - as_poly(kp))):
                    return self.resolve_bool(c, as_poly(kp))

            def val(kp):
                with under(T.gt(self.n - as_poly(kp))):
                    return self.resolve(e.p, as_poly(kp))
            return [V.Grown(FArr(V.dim(self.n), cond, val, V.I8 if e.t == "int" else V.F8))]
        self.appended(x, ZERO)          # whether its values are known
        if isinstance(x, (bool, SBool)) or is_num(x) and not tonum(x).special:
            b = isinstance(x, (bool, SBool))
            t = V.B1 if b else (V.I8 if tonum(x).t == "int" else V.F8)
            return list.copy(V.own_list(Arr.new((V.dim(self.n),), lambda i: (to_bool if b else poly)(self.appended(x, as_poly(i[0]))), t)))
        return [V.Grown(Seq(self.n, lambda kp: self.appended(x, as_poly(kp))))]

    def appended(self, x, kp):
        """x, computed in iteration kp."""
        if isinstance(x, tuple):
            return tuple(self.appended(e, kp) for e in x)
        if isinstance(x, SBool):
            return wrap(self.resolve_bool(x.b, kp))
        if is_num(x):
            t = tonum(x)
            if t.special:
                return t
            with under(T.gt(self.n - kp)):
                return norm(self.resolve(t.p, kp), t.t)
        if isinstance(x, Arr) and not isinstance(x, FArr) and ("st", id(x.st)) not in self.writes and not any(isinstance(d, Poly) for d in x._shape):
            s = x.snapshot()

            def fn(i):
                e = s.at(i)
                with under(T.gt(self.n - kp)):
                    return self.resolve(e, kp) if isinstance(e, Poly) else self.resolve_bool(e, kp)
            return Arr.new(x._shape, fn, x._dtype)
        raise Unsupported("what is appended to a list in a loop of symbolic length")


def _nth(xs, i):
    """The i-th of some numbers (anything beyond them)."""
    c = i.const()
    if c is not None:
        return poly(xs[int(c)]) if 0 <= int(c) < len(xs) else ZERO
    r = ZERO
    for j in range(len(xs) - 1, -1, -1):
        r = T.ite(T.eq(i - const(j)), poly(xs[j]), r)
    return r


def _nodekey(d):
    return (d[0], str(d[1]), str(d[2:]))


def assume_deep(p, b, val, depth=0):
    """Resolve tests on b inside p, in the branches of other case distinctions too."""
    for _ in range(8):
        q = T.assume_in(p, b, val)
        if q == p:
            break
        p = q
    if depth > 6:
        return p
    mp = {}
    for m in p.d:
        for i, _e in m:
            a = T._BYID[i]
            if a.kind == "ite" and a not in mp:
                c, x, y = a.args
                x2, y2 = assume_deep(as_poly(x), b, val, depth + 1), assume_deep(as_poly(y), b, val, depth + 1)
                if x2 != x or y2 != y:
                    mp[a] = T.ite(c, x2, y2)
    if not mp:
        return p
    r = ZERO
    for m, k in p.d.items():
        t = const(k)
        for i, e in m:
            a = T._BYID[i]
            t = t * (T.power(mp[a], e) if a in mp else Poly({((i, e),): F(1)}))
        r = r + t
    return r


class Store:
    """An array written by the loop body."""

    def __init__(self, loop, key, loc, old, new):
        self.loop, self.key, self.loc, self.old, self.new = loop, key, loc, old, new
        self.shape = loc[1].shape
        self.nm = [nm for nm, l in loop.havst.items() if JOURNAL.key(l) == key][0]
        self.rows = {}

    def analyse(self):
        L = self.loop
        nd = len(self.shape)
        js = [T.fresh("j", isint=True, nonneg=True) for _ in range(nd)]
        self.js = js
        with under(T.gt(L.n - L.k), *[T.gt(as_poly(s) - j) for s, j in zip(self.shape, js)]):
            e = self.new(tuple(js))
        self.e = e = T.ite(e, ONE, ZERO) if isinstance(e, Bool) else as_poly(e)
        self.hv = T.Read(self.nm, *js)
        cands = {}
        for b in _eqs(e):
            p = b.args[0]
            for d, j in enumerate(js):
                ja = j.atom()
                co = p.d.get(((ja.id, F(1)),))
                if co is None:
                    continue
                rest = p - Poly({((ja.id, F(1)),): co})
                if T.depends(rest, ja):
                    continue
                r = rest * const(F(-1) / co)
                ck = r.d.get(((L.k.atom().id, F(1)),))
                if ck not in (1, -1):
                    continue
                c = r - L.k * const(ck)
                if T.depends(c, L.k.atom()) or any(T.depends(c, x.atom()) for x in js) or L.deps(c):
                    continue
                cands.setdefault((d, r), []).append(b)
        self.mode = None
        for (d, r), bs in cands.items():
            o = e
            for b in bs:
                o = assume_deep(o, b, False)
            if o == self.hv:
                self.mode = "row"
                self.d, self.r = d, r
                self.a = 1 if r.d.get(((L.k.atom().id, F(1)),)) == 1 else -1
                self.c = r - L.k * const(self.a)
                self.w = T.subst(e, {js[d].atom(): r})
                for b in bs:
                    bb = T.subst(b, {js[d].atom(): r})
                return
        if self.analyse_last(e, js):
            return
        g = self.merge_scatter(e, js) - self.hv
        if not any(a.kind == "read" and a.args[0] == self.nm for a in T.free_atoms(g)):
            self.mode = "acc"
            self.g = g
            return
        # every entry is its own recurrence, or small array
        reads = [a for a in T.free_atoms(e) if a.kind == "read" and a.args[0] == self.nm]
        if all(tuple(a.args[1:]) == tuple(js) for a in reads):
            self.mode = "elem"
            return
        if not reads:
            self.mode = "elem"
            return
        if all(isinstance(s, int) for s in self.shape) and math.prod(self.shape) <= 64:
            self.mode = "elem"
            return
        raise Unsupported("pattern of array writes in a loop")

    def merge_scatter(self, e, js):
        """Under the test that an entry is the one written, reads of the written entry are reads of this entry."""
        def go(p, depth=0):
            at = [a for a in T.free_atoms(p) if a.kind == "ite"]
            mp = {}
            for a in at:
                c, x, y = a.args
                x, y = as_poly(x), as_poly(y)
                for b in _conjuncts(c):
                    if b.kind != "eq":
                        continue
                    for d, j in enumerate(js):
                        ja = j.atom()
                        co = b.args[0].d.get(((ja.id, F(1)),))
                        if co is None:
                            continue
                        r = (j - b.args[0] / const(co))
                        if T.depends(r, ja):
                            continue
                        m2 = {}
                        for q in T.free_atoms(x):
                            if q.kind == "read" and q.args[0] == self.nm and as_poly(q.args[1 + d]) == r:
                                ix = list(q.args[1:])
                                ix[d] = j
                                m2[q] = T.Read(self.nm, *ix)
                        if m2:
                            x = T.subst(x, m2)
                mp[a] = T.ite(c, x, y)
            return T.subst(p, mp) if mp else p
        try:
            h = self.hv
            e2 = go(e)
            # take the unchanged value out of the case distinction
            for a in list(T.free_atoms(e2)):
                if a.kind == "ite":
                    c, x, y = a.args
                    x, y = as_poly(x), as_poly(y)
                    dx = x - h
                    own = lambda q: any(z.kind == "read" and z.args[0] == self.nm for z in T.free_atoms(q))
                    if y == h and not own(dx):
                        e2 = T.subst(e2, {a: h + T.ite(c, dx, ZERO)})
                    elif x == h and not own(y - h):
                        e2 = T.subst(e2, {a: h + T.ite(c, ZERO, y - h)})
            return e2
        except T.TermError:
            return e

    def analyse_last(self, e, js):
        """Every iteration overwrites the entries on one side of a line: the last one to do so counts."""
        L = self.loop
        k = L.k.atom()
        for b in _ineqs(e):
            p = b.args[0]
            ck = p.d.get(((k.id, F(1)),))
            if ck not in (1, -1):
                continue
            rest = p - L.k * const(ck)
            if T.depends(rest, k) or L.deps(rest) or any(c.denominator != 1 for c in rest.d.values()) or not all(T._BYID[i].isint for m in rest.d for i, _ in m):
                continue
            w, o = assume_deep(e, b, True), assume_deep(e, b, False)
            neg = False
            if o != self.hv:
                w, o, neg = o, w, True
            if o != self.hv or any(a.kind == "read" and a.args[0] == self.nm for a in T.free_atoms(w)):
                continue
            # p = rest + ck*k (> or >=) 0 over the integers, or its negation
            q = rest if b.kind == "ge" else rest - ONE      # q + ck*k >= 0
            c = ck
            if neg:
                q, c = -q - ONE, -ck                         # not (q + ck*k >= 0)
            self.mode = "last"
            self.lq, self.lc, self.w = q, c, w
            return True
        return False

    def classify(self, idx):
        """What a read of this array at idx (state before iteration k) is."""
        L = self.loop
        if self.mode == "row":
            rho = idx[self.d]
            rest = tuple(x for i, x in enumerate(idx) if i != self.d)
            diff = rho - self.r
            if diff == const(-self.a):
                return ("row", self.key, rest)
            dc = diff.const()
            if dc is not None and dc * self.a >= 0:
                return ("old", self.key, idx)
            # outside the written range or not yet written
            lo, hi = (self.c, self.c + L.n) if self.a == 1 else (self.c - L.n + ONE, self.c + ONE)
            with under(T.gt(L.n - L.k)):
                if FACTS.decide(T.gt(lo - rho)) or FACTS.decide(T.ge(rho - hi)):
                    return ("old", self.key, idx)
                if FACTS.decide(T.ge((rho - self.r) * const(self.a))):
                    return ("old", self.key, idx)
            raise Unsupported("loop reads an array at another position")
        if self.mode in ("acc", "elem"):
            return ("row", self.key, idx)
        raise Unsupported("array state")

    def row(self, rest):
        """(init, expr) of the component read by classify()."""
        L = self.loop
        if self.mode == "row":
            if rest not in self.rows:
                idx = list(rest)
                idx.insert(self.d, self.c - const(self.a))
                init = as_poly(self.old(tuple(idx)))
                ojs = [j for i, j in enumerate(self.js) if i != self.d]
                w = T.subst(self.w, {j.atom(): x for j, x in zip(ojs, rest)})
                self.rows[rest] = (init, w)
            return self.rows[rest]
        idx = rest
        if idx not in self.rows:
            self.rows[idx] = (as_poly(self.old(tuple(idx))), T.subst(self.e, {j.atom(): x for j, x in zip(self.js, idx)}))
        return self.rows[idx]

    def final(self):
        L = self.loop
        if self.mode == "row":
            d, a, c = self.d, self.a, self.c
            lo = c if a == 1 else c - L.n + ONE

            def fn(idx):
                j = idx[d]
                rest = tuple(x for i, x in enumerate(idx) if i != d)
                inr = T.conj(T.ge(j - lo), T.gt(lo + L.n - j))
                t = FACTS.decide(inr)
                if t is False:
                    return self.old(idx)
                kk = (j - c) if a == 1 else (c - j)
                node = ("row", self.key, rest)
                rec = False
                init, w = self.row(rest)
                deps = [x for _, x in L.deps(w)]
                if node in deps or self.reaches(node, deps):
                    f = L.solve(node)
                    v = f(kk + ONE)
                    # the starting row itself is the recurrence at 0
                    inr2 = T.conj(T.ge(j - (lo - ONE if a == 1 else lo)), T.gt(lo + L.n + (ZERO if a == 1 else ONE) - j))
                    if FACTS.decide(inr2) is True:
                        return v
                    return core.ite(inr2, v, as_poly(self.old(idx)))
                with under(T.ge(kk), T.gt(L.n - kk)):
                    v = L.resolve(w, kk)
                if t is True:
                    return v
                return core.ite(inr, v, as_poly(self.old(idx)))
            return fn
        if self.mode == "last":
            def fn(idx):
                mp = {j.atom(): x for j, x in zip(self.js, idx)}
                q, w = T.subst(self.lq, mp), T.subst(self.w, mp)
                if self.lc == -1:
                    # iterations k <= q write: the last is min(q, n-1)
                    wrote, kk = T.ge(q), T.minimum(q, L.n - ONE)
                    if FACTS.decide(T.gt(L.n - q)) is True:
                        kk = q
                    elif FACTS.decide(T.gt(L.n - q)) is False:
                        kk = L.n - ONE
                else:
                    # iterations k >= -q write: the last one, if any
                    wrote, kk = T.ge(q + L.n - ONE), L.n - ONE
                t = FACTS.decide(wrote)
                if t is False:
                    return as_poly(self.old(idx))
                with under(T.ge(kk), T.gt(L.n - kk)):
                    v = L.resolve(w, kk)
                return v if t is True else core.ite(wrote, v, as_poly(self.old(idx)))
            return fn
        if self.mode == "acc":
            def fn(idx):
                g = T.subst(self.g, {j.atom(): x for j, x in zip(self.js, idx)})

                def term(k):
                    with under(T.gt(L.n - k)):
                        return L.resolve(g, k)
                return as_poly(self.old(idx)) + T.Sum(L.n, term)
            return fn

        def fn(idx):
            return L.solve(("row", self.key, tuple(idx)))(L.n)
        return fn

    def reaches(self, node, deps):
        seen = set()
        todo = [d for d in deps if d[0] in ("p", "row")]
        while todo:
            x = todo.pop()
            if x == node:
                return True
            if x in seen:
                continue
            seen.add(x)
            ie = self.loop.node_expr(x)
            if ie is None:
                continue
            todo += [d for _, d in self.loop.deps(ie[1]) if d[0] in ("p", "row")]
        return False


def _conjuncts(b):
    if b.kind == "and":
        return [x for y in b.args for x in _conjuncts(y)]
    return [b]


def _ineqs(e):
    return _eqs(e, ("gt", "ge"))


def _eqs(e, kinds=("eq",)):
    out = []
    seen = set()

    def go(x):
        if isinstance(x, Bool):
            if x in seen:
                return
            seen.add(x)
            if x.kind in kinds:
                out.append(x)
            for y in x.args:
                go(y)
        elif isinstance(x, Poly):
            for m in x.d:
                for i, _ in m:
                    a = T._BYID[i]
                    if a in seen:
                        continue
                    seen.add(a)
                    if a.kind == "ite":
                        for y in a.args:
                            go(y)
    go(e)
    return out


def _indices(shape):
    import itertools
    return list(itertools.product(*[range(s) for s in shape]))


def _select(els, i):
    r = None
    for idx, v in els.items():
        c = T.conj(*[T.eq(a - const(b)) for a, b in zip(i, idx)])
        r = v if r is None else core.ite(c, v, r)
    return r


def _sccs(order, graph):
    """Strongly connected components, dependencies first."""
    index, low, onst, st, out = {}, {}, set(), [], []
    cnt = [0]

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        st.append(v)
        onst.add(v)
        for w in graph[v]:
            if w not in graph:
                continue
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop()
                onst.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in order:
        if v not in index:
            go(v)
    return out
