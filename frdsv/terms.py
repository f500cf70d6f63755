"""Term language and exact normal forms.

Numbers are mathematical reals.  A `Poly` is a finite sum of monomials with rational
coefficients; a monomial is a product of atoms with rational exponents.  Atoms are interned:
variables, array reads, applied (uninterpreted or special) functions, exponentials of monomials,
multi-term polynomials occurring under a negative or fractional power ("P" atoms), finite sums with
a canonical bound variable, components of recurrences, conditionals.

Everything is put in normal form when it is built; `prover.py` decides equality of normal forms.
"""
from __future__ import annotations
from fractions import Fraction as F
import math


RANGES = {}     # name of a function -> its arguments -> bounds of its values


class TermError(Exception):
    pass


# ----------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "pos", "nonneg", "isint", "hb", "_fv")

    def __repr__(self):
        return show_atom(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


_ATOMS = {}
_BYID = []


def mk_atom(kind, args, pos=False, nonneg=False, isint=False):
    key = (kind, args)
    a = _ATOMS.get(key)
    if a is not None and kind in ("var", "read") and (a.pos, a.nonneg, a.isint) != (pos, nonneg or pos, isint):
        raise TermError(f"{kind} {args[0]} declared twice with different signs")
    if a is None:
        a = Atom()
        a.id = len(_BYID)
        a.kind, a.args = kind, args
        a.pos, a.nonneg, a.isint = pos, nonneg or pos, isint
        a.hb = 0
        a._fv = None
        h = 0
        for x in args:
            h = max(h, height(x))
        if kind == "bound":
            h = args[0]
        if kind == "rec":
            h = max(h, RecSys._all[args[0]].hb)
        a.hb = h
        _ATOMS[key] = a
        _BYID.append(a)
    else:
        a.pos = a.pos or pos
        a.nonneg = a.nonneg or nonneg or pos
        a.isint = a.isint or isint
    return a


def height(x):
    """Largest canonical binder number occurring in x."""
    if isinstance(x, Poly):
        if x._hb is None:
            h = 0
            for m in x.d:
                for i, _ in m:
                    h = max(h, _BYID[i].hb)
            x._hb = h
        return x._hb
    if isinstance(x, Bool):
        h = 0
        for y in x.args:
            h = max(h, height(y))
        return h
    if isinstance(x, Lam):
        return max(x.h, height(x.n), height(x.body))
    if isinstance(x, tuple):
        return max([height(y) for y in x], default=0)
    return 0


# ----------------------------------------------------------------------------------- context
class Ctx:
    """Facts used when normalising: polynomials known to be positive / non-negative."""

    def __init__(self):
        self.pos = set()
        self.nonneg = set()

    def add_pos(self, p):
        p = as_poly(p)
        self.pos.add(scale1(p))

    def add_nonneg(self, p):
        p = as_poly(p)
        self.nonneg.add(scale1(p))


CTX = Ctx()


def scale1(p):
    """Divide by the absolute value of the content (keeps the sign)."""
    if not p.d:
        return p
    c = content(p)
    return p if c == 1 else Poly({m: v / c for m, v in p.d.items()})


def content(p):
    num = 0
    den = 1
    for v in p.d.values():
        num = math.gcd(num, abs(v.numerator))
        den = den * v.denominator // math.gcd(den, v.denominator)
    return F(num, den)


# ----------------------------------------------------------------------------------- polys
ZERO_M = ()


class Poly:
    __slots__ = ("d", "_h", "_hb")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._hb = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Poly):
            return NotImplemented
        return hash(self) == hash(o) and self.d == o.d

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        raise TermError("truth value of a symbolic number")

    # arithmetic
    def __add__(self, o):
        o = as_poly(o)
        if len(o.d) > len(self.d):
            a, b = o.d, self.d
        else:
            a, b = self.d, o.d
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) + (-self)

    def __mul__(self, o):
        o = as_poly(o)
        if not self.d or not o.d:
            return ZERO
        ca, cb = self.const(), o.const()
        if ca is not None:
            return o if ca == 1 else Poly({m: c * ca for m, c in o.d.items()})
        if cb is not None:
            return self if cb == 1 else Poly({m: c * cb for m, c in self.d.items()})
        if len(self.d) * len(o.d) > 60000:
            raise TermError("polynomial too large")
        r = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, c, q = mul_mono(m1, m2)
                c = c * c1 * c2
                if q is None:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
                else:
                    t = Poly({m: c}) if m else const(c)
                    t = t * q
                    extra = t if extra is None else extra + t
        p = Poly(r)
        return p if extra is None else p + extra

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(as_poly(o), F(-1))

    def __rtruediv__(self, o):
        return as_poly(o) * power(self, F(-1))

    def __pow__(self, e):
        return power(self, e)

    def __rpow__(self, b):
        return power(as_poly(b), self)

    # queries
    def const(self):
        if not self.d:
            return F(0)
        if len(self.d) == 1 and ZERO_M in self.d:
            return self.d[ZERO_M]
        return None

    def isint_sorted(self):
        for m, c in self.d.items():
            if c.denominator != 1:
                return False
            for i, e in m:
                if not _BYID[i].isint or e.denominator != 1 or e < 0:
                    return False
        return True

    def single(self):
        """(coef, mono) if one term."""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return c, m
        return None

    def atom(self):
        """The atom if this is exactly one atom."""
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return _BYID[s[1][0][0]]
        return None


ZERO = Poly({})
ONE = Poly({ZERO_M: F(1)})


def const(c):
    c = F(c)
    return Poly({ZERO_M: c}) if c else ZERO


def num(x):
    """Exact rational meaning of a literal: the decimal written in the source."""
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, F):
        return const(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return App("nan" if x != x else ("inf" if x > 0 else "neginf"))
        return const(F(repr(x)))
    raise TermError(f"not a number: {x!r}")


def as_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x.id, F(1)),): F(1)})
    if isinstance(x, Bool):
        return ite(x, ONE, ZERO)
    if isinstance(x, (int, float, F)):
        return num(x)
    raise TermError(f"not a scalar: {type(x).__name__}")


def mul_mono(m1, m2):
    """Product of monomials: (mono, coef, extra poly or None)."""
    if not m1:
        return m2, F(1), None
    if not m2:
        return m1, F(1), None
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    return fix_mono(d)


def fix_mono(d):
    """Normalise exponents: primes into [0,1), P atoms below 1, even powers of abs."""
    c = F(1)
    extra = None
    out = []
    for i, e in d.items():
        if e == 0:
            continue
        a = _BYID[i]
        k = a.kind
        if k == "prime":
            n = math.floor(e)
            if n:
                c *= F(a.args[0]) ** n
                e = e - n
            if e == 0:
                continue
        elif k == "P" and e >= 1:
            n = math.floor(e)
            q = a.args[0]
            r = q
            for _ in range(n - 1):
                r = r * q
            extra = r if extra is None else extra * r
            e = e - n
            if e == 0:
                continue
        elif k == "abs" and (e >= 2 or e <= -2):
            n = int(math.floor(abs(e) / 2)) * 2
            s = 1 if e > 0 else -1
            r = power(a.args[0], F(s * n))
            extra = r if extra is None else extra * r
            e = e - s * n
            if e == 0:
                continue
        out.append((i, e))
    out.sort()
    return tuple(out), c, extra


def mono_poly(d, c=F(1)):
    m, c2, q = fix_mono(d)
    p = Poly({m: c * c2}) if c * c2 else ZERO
    return p if q is None else p * q


# ----------------------------------------------------------------------------------- signs
def atom_pos(a):
    if a.pos:
        return True
    k = a.kind
    if k in ("E", "prime"):
        return True
    if k == "P":
        return is_pos(a.args[0])
    if k == "sum":
        return False
    if k == "ite":
        return is_pos(a.args[1]) and is_pos(a.args[2])
    if k == "abs":
        return is_pos(a.args[0]) or is_pos(-a.args[0])
    return as_poly(a) in CTX.pos


def _bound_by(c, p, val):
    """p >= 0 because the condition c has the value val."""
    if c.kind not in ("gt", "ge"):
        return False
    q = c.args[0] if val else -c.args[0]
    return bool(p.d) and scale1(p) == scale1(q) and lead_sign(p) == lead_sign(q)


def atom_nonneg(a):
    if a.nonneg or a.pos:
        return True
    k = a.kind
    if k in ("E", "prime", "abs"):
        return True
    if k == "P":
        return is_nonneg(a.args[0])
    if k == "sum":
        return is_nonneg(a.args[2])
    if k == "ite":
        return ((is_nonneg(a.args[1]) or _bound_by(a.args[0], a.args[1], True))
                and (is_nonneg(a.args[2]) or _bound_by(a.args[0], a.args[2], False)))
    return as_poly(a) in CTX.nonneg or as_poly(a) in CTX.pos


def mono_sign(m):
    """'pos', 'nonneg' or None."""
    pos = True
    for i, e in m:
        a = _BYID[i]
        if atom_pos(a):
            continue
        if e.denominator == 1 and e % 2 == 0:
            pos = pos and e < 0  # defined and even: non-negative (positive if a denominator)
            continue
        if e.denominator % 2 == 0:
            # an even root: defined only on non-negative numbers
            pos = pos and e < 0
            continue
        if atom_nonneg(a):
            pos = pos and e < 0
            continue
        return None
    return "pos" if pos else "nonneg"


def is_pos(p, depth=0):
    if not p.d:
        return False
    c = p.const()
    if c is not None:
        return c > 0
    if scale1(p) in CTX.pos:
        return True
    anyp = False
    for m, c in p.d.items():
        s = mono_sign(m)
        if c < 0 or s is None:
            break
        anyp = anyp or s == "pos"
    else:
        return anyp
    if depth == 0:
        for f in CTX.pos:
            if _diff_nonneg(p, f):
                return True
    return False


def is_nonneg(p, depth=0):
    if not p.d:
        return True
    c = p.const()
    if c is not None:
        return c >= 0
    q = scale1(p)
    if q in CTX.pos or q in CTX.nonneg:
        return True
    for m, c in p.d.items():
        s = mono_sign(m)
        if c < 0 or s is None:
            break
    else:
        return True
    if depth == 0:
        for f in CTX.pos | CTX.nonneg:
            if _diff_nonneg(p, f):
                return True
    return False


def _diff_nonneg(p, f):
    """p - c*f >= 0 structurally, with c chosen on a monomial of f (other than the constant)."""
    for m, c in f.d.items():
        if m == ZERO_M or m not in p.d:
            continue
        k = p.d[m] / c
        if k <= 0:
            continue
        if is_nonneg(p - f * const(k), depth=1):
            return True
    return False


# ----------------------------------------------------------------------------------- powers
def _factorint(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def rat_power(c, e):
    if e.denominator == 1:
        return const(c ** int(e))
    if c < 0:
        raise TermError("fractional power of a negative number")
    d = {}
    for p, k in _factorint(c.numerator).items():
        a = mk_atom("prime", (p,), pos=True)
        d[a.id] = d.get(a.id, 0) + k * e
    for p, k in _factorint(c.denominator).items():
        a = mk_atom("prime", (p,), pos=True)
        d[a.id] = d.get(a.id, 0) - k * e
    return mono_poly(d)


def common_mono(p):
    """Largest monomial factor (exponents may be negative): dict id->exp."""
    it = iter(p.d)
    first = dict(next(it))
    mn = dict(first)
    for m in it:
        dm = dict(m)
        for i in list(mn):
            mn[i] = min(mn[i], dm.get(i, F(0)))
        for i, e in dm.items():
            if i not in mn and e < 0:
                mn[i] = e
    # atoms seen with negative exponents but absent from the first monomial
    return {i: e for i, e in mn.items() if e != 0}


def together(p):
    """p = c * mono * q with q primitive, free of negative exponents and of common factors."""
    mono = {}
    c = F(1)
    for _ in range(60):
        if not p.d:
            return F(0), {}, ZERO
        k = content(p)
        c *= k
        cm = common_mono(p)
        if not cm and k == 1:
            break
        inv = {i: -e for i, e in cm.items()}
        p = Poly({m: v / k for m, v in p.d.items()})
        if inv:
            p = _mul_by_mono(p, inv)
            for i, e in cm.items():
                mono[i] = mono.get(i, F(0)) + e
    mono = {i: e for i, e in mono.items() if e != 0}
    return c, mono, p


def _mul_by_mono(p, d):
    r = ZERO
    acc = {}
    for m, c in p.d.items():
        dd = dict(m)
        for i, e in d.items():
            dd[i] = dd.get(i, F(0)) + e
        mm, cc, q = fix_mono(dd)
        if q is None:
            v = acc.get(mm, 0) + c * cc
            if v:
                acc[mm] = v
            else:
                acc.pop(mm, None)
        else:
            r = r + Poly({mm: c * cc}) * q
    return r + Poly(acc)


def lead_sign(p):
    m = max(p.d, key=lambda m: (len(m), m))
    return 1 if p.d[m] > 0 else -1


def power(p, e):
    p = as_poly(p)
    if isinstance(e, Poly):
        c = e.const()
        if c is None:
            cp = p.const()
            if cp is not None and cp == 1:
                return ONE
            return exp(e * log(p))
        e = c
    e = F(repr(e)) if isinstance(e, float) else F(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.d:
        if e > 0:
            return ZERO
        return App("div0")
    if e.denominator == 1 and e > 0:
        n = int(e)
        if len(p.d) == 1 or n <= 4:
            r = p
            for _ in range(n - 1):
                r = r * p
            return r
        if n > 64:
            raise TermError("large power")
        r = p
        for _ in range(n - 1):
            r = r * p
        return r
    ia = _as_ite(p)
    if ia is not None:
        c0, x, y = ia
        return ite(c0, power(x, e), power(y, e))
    c, mono, q = together(p)
    qc = q.const()
    if qc is not None:
        c *= qc
        q = ONE
    if e.denominator == 1:
        # negative integer
        if q is not ONE and q != ONE:
            s = 1
            if is_pos(q):
                s = 1
            elif is_pos(-q):
                s = -1
            else:
                s = lead_sign(q)
            if s < 0:
                q = -q
                c = -c
            a = mk_atom("P", (q,))
            mono = dict(mono)
            mono = {i: x * e for i, x in mono.items()}
            mono[a.id] = mono.get(a.id, F(0)) + e
        else:
            mono = {i: x * e for i, x in mono.items()}
        return rat_power(c, e) * mono_poly(mono)
    # fractional power
    out = rat_power(abs(c), e)
    rest = {}
    neg = c < 0
    for i, x in mono.items():
        a = _BYID[i]
        if atom_nonneg(a) or a.kind in ("E",):
            out = out * mono_poly({i: x * e})
        elif x.denominator == 1 and x % 2 == 0:
            if (x * e).denominator == 1:
                y = x * e
                if y % 2 == 0:
                    out = out * power(as_poly(a), y)
                else:
                    out = out * power(absolute(as_poly(a)), y)
            else:
                out = out * power(absolute(as_poly(a)), x * e)
        else:
            rest[i] = x
    if not rest and not neg:
        if q == ONE:
            return out
        a = mk_atom("P", (q,))
        return out * mono_poly({a.id: e})
    if not neg and q == ONE and len(rest) == 1:
        (i, x), = rest.items()
        return out * mono_poly({i: x * e})
    w = mono_poly(rest) * q
    if neg:
        w = -w
    c2, m2, q2 = together(w)
    w = scale1(w)
    a = mk_atom("P", (w,))
    return out * mono_poly({a.id: e})


def sqrt(p):
    return power(p, F(1, 2))


def _as_ite(p):
    """p is exactly one conditional (times a constant)?"""
    s = p.single()
    if s and len(s[1]) == 1 and s[1][0][1] == 1:
        a = _BYID[s[1][0][0]]
        if a.kind == "ite":
            c = const(s[0])
            return a.args[0], a.args[1] * c, a.args[2] * c
    return None


def absolute(p):
    p = as_poly(p)
    c = p.const()
    if c is not None:
        return const(abs(c))
    if is_nonneg(p):
        return p
    if is_nonneg(-p):
        return -p
    ia = _as_ite(p)
    if ia is not None:
        return ite(ia[0], absolute(ia[1]), absolute(ia[2]))
    c, mono, q = together(p)
    out = const(abs(c))
    rest = {}
    for i, e in mono.items():
        s = mono_sign(((i, e),))
        if s is not None:
            out = out * mono_poly({i: e})
        elif e == 1 and q == ONE and not rest and len(mono) == 1:
            rest[i] = e
        elif e.denominator == 1:
            b = mk_atom("abs", (as_poly(_BYID[i]),), nonneg=True)
            out = out * mono_poly({b.id: e})
        else:
            rest[i] = e
    if rest:
        w = mono_poly(rest) * q
        if lead_sign(w) < 0:
            w = -w
        return out * as_poly(mk_atom("abs", (w,), nonneg=True))
    if q != ONE:
        if is_nonneg(q):
            return out * q
        if is_nonneg(-q):
            return out * (-q)
        if lead_sign(q) < 0:
            q = -q
        return out * as_poly(mk_atom("abs", (q,), nonneg=True))
    return out


def exp(p):
    p = as_poly(p)
    ia = _as_ite(p)
    if ia is not None:
        return ite(ia[0], exp(ia[1]), exp(ia[2]))
    r = ONE
    d = {}
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1:
            a = _BYID[m[0][0]]
            if a.kind == "app" and a.args[0] == "log":
                r = r * power(a.args[1], c)
                continue
        a = mk_atom("E", (Poly({m: F(1)}),), pos=True)
        d[a.id] = d.get(a.id, F(0)) + c
    return r * mono_poly(d)


def log(p):
    p = as_poly(p)
    ia = _as_ite(p)
    if ia is not None:
        return ite(ia[0], log(ia[1]), log(ia[2]))
    c = p.const()
    if c is not None:
        if c <= 0:
            return App("logbad", p)
        return _log_rat(c)
    c, mono, q = together(p)
    qc = q.const()
    if qc is not None:
        c, q = c * qc, ONE
    r = ZERO
    if c > 0:
        r = _log_rat(c)
        sg = 1
    else:
        r = _log_rat(-c)
        sg = -1
    rest = {}
    unknown = []
    for i, e in mono.items():
        a = _BYID[i]
        if atom_nonneg(a):
            r = r + const(e) * _log_atom(a)
        elif e.denominator == 1 and e % 2 == 0:
            r = r + const(e) * App("log", absolute(as_poly(a)))
        else:
            unknown.append((i, e))
    if q != ONE and (is_pos(q) or not unknown and sg > 0):
        r = r + App("log", q)
        q = ONE
    elif q != ONE and is_pos(-q):
        r = r + App("log", -q)
        q = ONE
        sg = -sg
    if unknown or sg < 0 or q != ONE:
        if len(unknown) == 1 and sg > 0 and q == ONE:
            i, e = unknown[0]
            # defined only if the atom is positive
            return r + const(e) * App("log", as_poly(_BYID[i]))
        w = mono_poly(dict(unknown)) * q * const(sg)
        return r + App("log", w)
    return r


def _log_atom(a):
    if a.kind == "E":
        return a.args[0]
    if a.kind == "P":
        return log(a.args[0]) if len(a.args[0].d) == 1 else App("log", a.args[0])
    if a.kind == "prime":
        return _log_rat(F(a.args[0]))
    return App("log", as_poly(a))


def _log_rat(c):
    if c == 1:
        return ZERO
    r = ZERO
    for p, k in _factorint(c.numerator).items():
        r = r + const(k) * App("log", const(p))
    for p, k in _factorint(c.denominator).items():
        r = r - const(k) * App("log", const(p))
    return r


# ----------------------------------------------------------------------------------- functions
FUN_PROPS = {}  # name -> dict(pos=,nonneg=,isint=)


def App(fname, *args):
    args = tuple(as_poly(a) if isinstance(a, (int, float, F, Atom)) and not isinstance(a, bool) else a for a in args)
    if fname == "ceil":
        return -App("floor", -as_poly(args[0]))
    pr = FUN_PROPS.get(fname, {})
    pos = pr.get("pos", False)
    nonneg = pr.get("nonneg", False)
    if fname == "log" and isinstance(args[0], Poly):
        c = args[0].const()
        if c is not None and c > 1:
            pos = True
    return as_poly(mk_atom("app", (fname,) + args, pos=pos, nonneg=nonneg, isint=pr.get("isint", False)))


def cdf(p):
    """Standard normal distribution function; Phi(-x) is 1 - Phi(x)."""
    p = as_poly(p)
    ia = _as_ite(p)
    if ia is not None:
        return ite(ia[0], cdf(ia[1]), cdf(ia[2]))
    c = p.const()
    if c is not None and c == 0:
        return const(F(1, 2))
    if p.d and lead_sign(p) < 0:
        return ONE - App("cdf", -p)
    return App("cdf", p)


FUN_PROPS["cdf"] = dict(nonneg=True)


def Var(name, pos=False, nonneg=False, isint=False):
    return as_poly(mk_atom("var", (name,), pos=pos, nonneg=nonneg, isint=isint))


_fresh = [0]


def fresh(prefix="v", **kw):
    _fresh[0] += 1
    return Var(f"{prefix}!{_fresh[0]}", **kw)


def Read(arr, *idx, pos=False, nonneg=False, isint=False):
    return as_poly(mk_atom("read", (arr,) + tuple(as_poly(i) for i in idx), pos=pos, nonneg=nonneg, isint=isint))


# ----------------------------------------------------------------------------------- booleans
class Bool:
    __slots__ = ("kind", "args", "_h")

    def __init__(self, kind, args=()):
        self.kind, self.args = kind, args
        self._h = hash((kind, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Bool):
            return NotImplemented
        return self._h == o._h and self.kind == o.kind and self.args == o.args

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        raise TermError("truth value of a symbolic condition")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return show_bool(self)


TRUE = Bool("true")
FALSE = Bool("false")


def as_bool(x):
    if isinstance(x, Bool):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Poly):
        return ne(x)
    if isinstance(x, (int, float)):
        return TRUE if x else FALSE
    raise TermError(f"not a condition: {type(x).__name__}")


def _strip(p):
    """Divide by positive factors: content and monomials known positive."""
    c, mono, q = together(p)
    keep = {}
    for i, e in mono.items():
        if mono_sign(((i, e),)) == "pos":
            continue
        if e < 0 and mono_sign(((i, e),)) == "nonneg":
            continue
        if e < 0 and e.denominator == 1:
            # 1/x has the sign of x
            keep[i] = F(1) if e % 2 else F(0)
            continue
        if e > 2 and e.denominator == 1:
            e = F(2) if e % 2 == 0 else F(1)
        keep[i] = e
    r = mono_poly({i: e for i, e in keep.items() if e}) * q
    return r if c > 0 else -r


def gt(p):
    p = as_poly(p)
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    b = _of_constants(p, lambda v: v > 0)
    if b is not None:
        return b
    if is_pos(p):
        return TRUE
    if is_nonneg(-p):
        return FALSE
    if p.isint_sorted():
        return Bool("gt", (_int_norm(p),))
    return Bool("gt", (_strip(p),))


def _int_norm(p):
    """For integer p: p > 0  <=>  p >= 1; keep p>0 with divided content."""
    k0 = p.d.get(ZERO_M, F(0))
    rest = Poly({m: c for m, c in p.d.items() if m != ZERO_M})
    g = content(rest)
    # g*r + k0 > 0  <=>  r > -k0/g  <=> r >= floor(-k0/g)+1  <=> r - floor(-k0/g) > 0
    r = Poly({m: c / g for m, c in rest.d.items()})
    return r - const(math.floor(-k0 / g))


def ge(p):
    p = as_poly(p)
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    b = _of_constants(p, lambda v: v >= 0)
    if b is not None:
        return b
    if is_nonneg(p):
        return TRUE
    if is_pos(-p):
        return FALSE
    if p.isint_sorted():
        return gt(p + ONE)
    return Bool("ge", (_strip(p),))


def eq(p):
    p = as_poly(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    b = _of_constants(p, lambda v: v == 0)
    if b is not None:
        return b
    if is_pos(p) or is_pos(-p):
        return FALSE
    c, mono, q = together(p)
    keep = {}
    for i, e in mono.items():
        if e < 0 or mono_sign(((i, e),)) == "pos":
            continue
        keep[i] = F(1)
    p = mono_poly(keep) * q
    if not p.d:
        return TRUE
    if lead_sign(p) < 0:
        p = -p
    return Bool("eq", (scale1(p),))


def _of_constants(p, test):
    """A comparison of constants chosen by a condition is that condition (or its negation)."""
    if not 1 <= len(p.d) <= 2 or len(p.d) == 2 and () not in p.d:
        return None
    (m, k), = [x for x in p.d.items() if x[0]]
    if len(m) != 1 or m[0][1] != 1 or _BYID[m[0][0]].kind != "ite":
        return None
    c, x, y = _BYID[m[0][0]].args
    x, y = as_poly(x).const(), as_poly(y).const()
    if x is None or y is None:
        return None
    r = p.d.get((), 0)
    t, f = test(k * x + r), test(k * y + r)
    if t == f:
        return TRUE if t else FALSE
    return c if t else neg(c)


def ne(p):
    return neg(eq(p))


def lt(p):
    return gt(-as_poly(p))


def le(p):
    return ge(-as_poly(p))


def neg(b):
    b = as_bool(b)
    k = b.kind
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "gt":
        return ge(-b.args[0])
    if k == "ge":
        return gt(-b.args[0])
    if k == "not":
        return b.args[0]
    if k == "and":
        return disj(*[neg(x) for x in b.args])
    if k == "or":
        return conj(*[neg(x) for x in b.args])
    return Bool("not", (b,))


_BSEQ = {}


def _seq(b):
    """Order of first use: makes conjunctions and disjunctions canonical."""
    return _BSEQ.setdefault(b, len(_BSEQ))


def conj(*bs):
    out = []
    for b in bs:
        b = as_bool(b)
        if b.kind == "false":
            return FALSE
        if b.kind == "true":
            continue
        for x in b.args if b.kind == "and" else (b,):
            if x not in out:
                out.append(x)
    for x in out:
        if neg_simple(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=_seq)
    return Bool("and", tuple(out))


def neg_simple(x):
    return neg(x) if x.kind in ("gt", "ge", "not", "eq", "app", "forall") else None


def disj(*bs):
    out = []
    for b in bs:
        b = as_bool(b)
        if b.kind == "true":
            return TRUE
        if b.kind == "false":
            continue
        for x in b.args if b.kind == "or" else (b,):
            if x not in out:
                out.append(x)
    for x in out:
        if neg_simple(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=_seq)
    return Bool("or", tuple(out))


def BApp(fname, *args):
    args = tuple(as_poly(a) if isinstance(a, (int, float, F, Atom)) and not isinstance(a, bool) else a for a in args)
    return Bool("app", (fname,) + args)


def isnan(p):
    """An expression is NaN when one of the values it is made of is (its operations assumed defined)."""
    p = as_poly(p)
    ids = {}
    for m in p.d:
        for i, e in m:
            ids[i] = None
    return disj(*[_isnan_atom(_BYID[i]) for i in sorted(ids)])


def _isnan_atom(a):
    k = a.kind
    if a.pos or a.nonneg or a.isint:
        if k not in ("abs", "E", "P", "prime", "sum", "ite") or a.isint:
            return FALSE
    if k in ("prime", "bound"):
        return FALSE
    if k in ("abs", "E", "P"):
        return disj(*[isnan(x) for x in a.args if isinstance(x, Poly)])
    if k == "ite":
        c, x, y = a.args
        return ite(c, isnan(x), isnan(y))
    if k == "sum":
        n, h, body = a.args
        b = isnan(body)
        if b.kind == "false":
            return FALSE
        return Exists(n, lambda j: isnan(subst(body, {bound(h).atom(): as_poly(j)})))
    if k == "app" and a.args[0] in ("log", "cdf", "floor", "roundhalfeven", "sin", "cos"):
        return disj(*[isnan(x) for x in a.args[1:] if isinstance(x, Poly)])
    return BApp("isnan", as_poly(a))


def isinf(p):
    p = as_poly(p)
    if p.const() is not None:
        return FALSE
    return BApp("isinf", p)


# ----------------------------------------------------------------------------------- conditionals
def ite(c, a, b):
    c = as_bool(c)
    if c.kind == "true":
        return as_poly(a) if not isinstance(a, Bool) else a
    if c.kind == "false":
        return as_poly(b) if not isinstance(b, Bool) else b
    if isinstance(a, (Bool, bool)) or isinstance(b, (Bool, bool)):
        a, b = as_bool(a), as_bool(b)
        if a == b:
            return a
        return disj(conj(c, a), conj(neg(c), b))
    a, b = as_poly(a), as_poly(b)
    if a == b:
        return a
    k = c.kind
    if k == "ge":
        return ite(gt(-c.args[0]), b, a)
    if k == "not":
        return ite(c.args[0], b, a)
    if k == "and":
        return ite(c.args[0], ite(conj(*c.args[1:]), a, b), b)
    if k == "or":
        return ite(c.args[0], a, ite(disj(*c.args[1:]), a, b))
    # branches already decided by the same condition
    a = assume_in(a, c, True)
    b = assume_in(b, c, False)
    if a == b:
        return a
    if k == "gt":
        z = _only_zero(c.args[0])
        if z is not None:
            # an integer v >= 0 with v < 1 is 0: the first branch may be the second one there
            try:
                if subst(b, {z: ZERO}) == a:
                    return b
            except TermError:
                pass
        q = c.args[0]
        if not a.d and _multiple(b, q):
            # a part that is 0 where q is: 0 otherwise
            return ite(gt(-q), b, a)
    # terms of both branches
    both = {m: v for m, v in a.d.items() if b.d.get(m) == v}
    if both:
        s = Poly(both)
        return s + ite(c, a - s, b - s)
    f = _common_factor(a, b)
    if f is not None:
        inv = Poly({tuple((i, -e) for i, e in f): 1})
        return Poly({f: 1}) * ite(c, a * inv, b * inv)
    if k in ("app", "forall"):
        # nested conditionals on opaque conditions: in the order of first use
        sa, sb = _opaque_ite(a), _opaque_ite(b)
        cs = [x[0] for x in (sa, sb) if x is not None and _seq(x[0]) < _seq(c)]
        if cs:
            d = min(cs, key=_seq)
            a1, a2 = (sa[1], sa[2]) if sa is not None and sa[0] == d else (a, a)
            b1, b2 = (sb[1], sb[2]) if sb is not None and sb[0] == d else (b, b)
            return ite(d, ite(c, a1, b1), ite(c, a2, b2))
    if k == "gt" and a.d and b.d and len(q.d) < 7 and _proportional(a - b, q):
        # a maximum or minimum of a and b: the same whichever of two equals is taken
        m = min((m for m in q.d if m), default=())
        if q.d[m] < 0:
            return as_poly(mk_atom("ite", (gt(-q), b, a)))
    return as_poly(mk_atom("ite", (c, a, b)))


def _proportional(p, q):
    if len(p.d) != len(q.d):
        return False
    m, w = next(iter(q.d.items()))
    v = p.d.get(m)
    return v is not None and all(p.d.get(n) == u * v / w for n, u in q.d.items())


def _multiple(p, q):
    """Whether p is q times a monomial that is 0 or finite where q is 0."""
    if len(p.d) != len(q.d) or len(q.d) > 6:
        return False
    n, w = next(iter(q.d.items()))
    inv = Poly({tuple((i, -e) for i, e in n): F(1) / w})
    return any(q * (Poly({m: v}) * inv) == p for m, v in p.d.items())



def _common_factor(a, b):
    """The variables dividing every term of both branches."""
    if len(a.d) + len(b.d) > 60:
        return None
    out = None
    for m in list(a.d) + list(b.d):
        here = {i: e for i, e in m if e > 0 and _BYID[i].kind == "var"}
        out = here if out is None else {i: min(e, out[i]) for i, e in here.items() if i in out}
        if not out:
            return None
    return tuple(sorted(out.items())) if out else None


def _only_zero(q):
    """v, where q is 1 - v with an integer variable v >= 0."""
    if len(q.d) != 2 or q.d.get(()) != 1:
        return None
    (m, w), = [(m, w) for m, w in q.d.items() if m]
    if w != -1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = _BYID[m[0][0]]
    return a if a.kind == "var" and a.isint and (a.nonneg or a.pos) else None


def _opaque_ite(p):
    if len(p.d) != 1:
        return None
    (m, k), = p.d.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = _BYID[m[0][0]]
    if a.kind != "ite" or a.args[0].kind not in ("app", "forall"):
        return None
    return a.args


def assume_in(p, c, val):
    """Resolve conditionals on c (or its negation) inside p, at the top level only."""
    if not any(_BYID[i].kind == "ite" for m in p.d for i, _ in m):
        return p
    r = ZERO
    changed = False
    for m, k in p.d.items():
        t = const(k)
        for i, e in m:
            a = _BYID[i]
            if a.kind == "ite" and a.args[0] == c:
                t = t * power(a.args[1] if val else a.args[2], e)
                changed = True
            elif a.kind == "ite" and _implied(a.args[0], c, val) is not None:
                v = _implied(a.args[0], c, val)
                t = t * power(a.args[1] if v else a.args[2], e)
                changed = True
            else:
                t = t * Poly({((i, e),): F(1)})
        r = r + t
    return r if changed else p


def _implied(d, c, val):
    """Value of condition d given c == val, for sign conditions on the same polynomial."""
    if d == c:
        return val
    if d.kind in ("gt", "eq") and c.kind in ("gt", "eq"):
        p, q = d.args[0], c.args[0]
        same = p == q
        opp = p == -q
        if not (same or opp):
            return None
        if c.kind == "gt" and val:
            if d.kind == "eq":
                return False
            return True if same else False
        if c.kind == "eq" and val:
            return d.kind == "eq"
        return None
    return None


def minimum(a, b):
    a, b = as_poly(a), as_poly(b)
    return ite(gt(a - b), b, a)


def maximum(a, b):
    a, b = as_poly(a), as_poly(b)
    return ite(gt(b - a), b, a)


# ----------------------------------------------------------------------------------- binders
class Lam:
    """A vector value: n entries, body with canonical bound variable h."""
    __slots__ = ("n", "h", "body", "_h")

    def __init__(self, n, h, body):
        self.n, self.h, self.body = n, h, body
        self._h = hash((n, h, body))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lam) and self._h == o._h and self.n == o.n and self.h == o.h and self.body == o.body

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.body} | k{self.h}<{self.n}>"


def bound(h):
    return as_poly(mk_atom("bound", (h,), nonneg=True, isint=True))


def _close(f):
    k = fresh("k", isint=True, nonneg=True)
    body = f(k)
    if isinstance(body, bool):
        body = as_bool(body)
    if not isinstance(body, (Poly, Bool, Lam)):
        body = as_poly(body)
    ka = k.atom()
    h = height(body) + 1
    return subst(body, {ka: bound(h)}), h, k


def lam(n, f):
    body, h, _ = _close(f)
    return Lam(as_poly(n), h, body)


def open_lam(L, k):
    return subst(L.body, {bound(L.h).atom(): as_poly(k)})


def Sum(n, f):
    """sum_{k=0}^{n-1} f(k)"""
    n = as_poly(n)
    c = n.const()
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c <= 12:
        r = ZERO
        for j in range(int(c)):
            r = r + as_poly(f(const(j)))
        return r
    ia = _as_ite(n)
    k = fresh("k", isint=True, nonneg=True)
    body = as_poly(f(k))
    return _sum_body(n, body, k)


def _only_at(a, ka):
    """j, where the conditional a is if(k = j; x; 0) with an integer j that does not depend on k."""
    c, x, y = a.args
    if c.kind != "eq" or not isinstance(y, Poly) or y.d:
        return None
    q = c.args[0]
    for m, w in q.d.items():
        if len(m) == 1 and _BYID[m[0][0]] is ka and m[0][1] == 1 and abs(w) == 1:
            j = as_poly(ka) - q * const(1 / w)
            return j if not depends(j, ka) and j.isint_sorted() else None
    return None


def _sum_body(n, body, k):
    ka = k.atom()
    r = ZERO
    for m, c in body.d.items():
        free, dep = [], []
        for i, e in m:
            (dep if depends(_BYID[i], ka) else free).append((i, e))
        t = Poly({tuple(free): c}) if free else const(c)
        if not dep:
            r = r + t * n
            continue
        # conditionals whose condition does not depend on k come out of the sum
        done = False
        for i, e in dep:
            a = _BYID[i]
            if a.kind == "ite" and not depends_any(a.args[0], ka):
                rest = Poly({tuple(x for x in dep if x != (i, e)): F(1)}) if len(dep) > 1 else ONE
                s1 = _sum_body(n, rest * power(a.args[1], e), k)
                s2 = _sum_body(n, rest * power(a.args[2], e), k)
                r = r + t * ite(a.args[0], s1, s2)
                done = True
                break
            j = _only_at(a, ka) if a.kind == "ite" and e == 1 else None
            if j is not None:
                at = Poly({tuple(x for x in dep if x != (i, e)): F(1)}) if len(dep) > 1 else ONE
                at = subst(at * a.args[1], {ka: j})
                r = r + t * ite(conj(ge(j), gt(n - j)), at, ZERO)
                done = True
                break
        if done:
            continue
        b = Poly({tuple(dep): F(1)})
        h = height(b) + 1
        h = max(h, height(n) + 1)
        bb = subst(b, {ka: bound(h)})
        r = r + t * as_poly(mk_atom("sum", (n, h, bb), nonneg=False))
    return r


def open_sum(a, k):
    n, h, body = a.args
    return subst(body, {bound(h).atom(): as_poly(k)})


def Forall(n, f):
    n = as_poly(n)
    body, h, _ = _close(f)
    body = as_bool(body)
    if body.kind in ("true", "false") and body.kind == "true":
        return TRUE
    return Bool("forall", (n, h, body))


def Exists(n, f):
    return neg(Forall(n, lambda k: neg(as_bool(f(k)))))


def Reduce(fname, n, f):
    """Opaque reduction of a vector (maximum, percentile...): canonical in its entries."""
    return App(fname, lam(n, f))


# ----------------------------------------------------------------------------------- recurrences
class RecSys:
    """x(0) = init, x(n+1) = step(x(n), n).  Components are scalars.

    step polys are over placeholder variables xs[i] and the index variable n.
    """
    _all = []
    _intern = {}

    def __init__(self, init, step, xs, n, names):
        self.init, self.step, self.xs, self.n, self.names = init, step, xs, n, names
        self.id = len(RecSys._all)
        self.hb = max([height(p) for p in list(init) + list(step)], default=0)
        own = {x.atom() for x in xs} | {n.atom()}
        fv = set()
        for p in list(init) + list(step):
            fv |= free_atoms(p)
        self.free = frozenset(fv - own)
        lv = 0
        for a in self.free:
            if a.kind == "rec":
                lv = max(lv, RecSys._all[a.args[0]].level)
        self.level = lv + 1
        RecSys._all.append(self)

    def at(self, i, idx, unfold=True):
        idx = as_poly(idx)
        c = idx.const()
        if c is not None and unfold:
            if c == 0:
                return self.init[i]
            if c < 0:
                return App("rec_undef", const(self.id), const(i), idx)
            if c <= 4:
                return self.unfold(i, idx - 1)
        at = mk_atom("rec", (self.id, i, idx))
        return as_poly(at)

    def unfold(self, i, idx):
        """component i at idx+1, expressed at idx."""
        idx = as_poly(idx)
        mp = {x.atom(): None for x in self.xs}
        mp = {x.atom(): self.at(j, idx) for j, x in enumerate(self.xs)}
        mp[self.n.atom()] = idx
        return subst(self.step[i], mp)


def mk_recsys(names, init, stepfn):
    """stepfn(list of component polys, n poly) -> list of polys"""
    xs = [fresh("x_" + nm) for nm in names]
    n = fresh("n", isint=True, nonneg=True)
    step = [as_poly(s) for s in stepfn(xs, n)]
    init = [as_poly(i) for i in init]
    return _intern_recsys(names, init, step, xs, n)


def _level_in(polys):
    lv = 0
    for p in polys:
        for a in free_atoms(p):
            if a.kind == "rec":
                lv = max(lv, RecSys._all[a.args[0]].level)
    return lv


def _intern_recsys(names, init, step, xs, n):
    # canonical placeholders (numbered by nesting level) so that equal systems are shared
    lv = _level_in(list(init) + list(step)) + 1
    cx = [Var(f"x#{lv}.{j}") for j in range(len(xs))]
    cn = Var(f"n#{lv}", isint=True, nonneg=True)
    mp = {x.atom(): c for x, c in zip(xs, cx)}
    mp[n.atom()] = cn
    step2 = [subst(s, mp) for s in step]
    key = (tuple(init), tuple(step2))
    s = RecSys._intern.get(key)
    if s is None:
        s = RecSys(list(init), step2, cx, cn, list(names))
        RecSys._intern[key] = s
    return s


# ----------------------------------------------------------------------------------- traversal
def free_atoms(x):
    """All atoms occurring in x, including inside arguments (memoised)."""
    if isinstance(x, Atom):
        if x._fv is None:
            s = {x}
            for y in x.args:
                s |= free_atoms(y)
            if x.kind == "rec":
                s |= RecSys._all[x.args[0]].free
            x._fv = frozenset(s)
        return x._fv
    if isinstance(x, Poly):
        s = set()
        for m in x.d:
            for i, _ in m:
                s |= free_atoms(_BYID[i])
        return s
    if isinstance(x, Bool):
        s = set()
        for y in x.args:
            s |= free_atoms(y)
        return s
    if isinstance(x, Lam):
        return free_atoms(x.n) | free_atoms(x.body)
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= free_atoms(y)
        return s
    return set()


_OPEN = {}


def open_bounds(x):
    """Numbers of the binders that occur free in x."""
    if isinstance(x, Atom):
        r = _OPEN.get(x.id)
        if r is None:
            if x.kind == "bound":
                r = frozenset([x.args[0]])
            elif x.kind == "sum":
                r = (open_bounds(x.args[2]) - {x.args[1]}) | open_bounds(x.args[0])
            else:
                r = frozenset().union(*[open_bounds(y) for y in x.args])
                if x.kind == "rec":
                    S = RecSys._all[x.args[0]]
                    r = r.union(*[open_bounds(y) for y in S.init + S.step])
            _OPEN[x.id] = r
        return r
    if isinstance(x, Poly):
        return frozenset().union(*[open_bounds(_BYID[i]) for m in x.d for i, _ in m])
    if isinstance(x, Bool):
        if x.kind == "forall":
            n, h, body = x.args
            return (open_bounds(body) - {h}) | open_bounds(n)
        return frozenset().union(*[open_bounds(y) for y in x.args])
    if isinstance(x, Lam):
        return (open_bounds(x.body) - {x.h}) | open_bounds(x.n)
    if isinstance(x, (tuple, list)):
        return frozenset().union(*[open_bounds(y) for y in x])
    return frozenset()


def depends(x, a):
    return a in free_atoms(x)


def depends_any(x, a):
    return a in free_atoms(x)


def subst(x, mp, memo=None):
    """Replace atoms by polys everywhere (not inside recurrence definitions)."""
    if memo is None:
        memo = {}
    keys = mp.keys()
    return _subst(x, mp, memo, frozenset(keys))


def _subst(x, mp, memo, keys):
    if isinstance(x, Poly):
        r = memo.get(x)
        if r is not None:
            return r
        fa = free_atoms(x)
        if not (keys & fa):
            memo[x] = x
            return x
        acc = {}
        rest = ZERO
        for m, c in x.d.items():
            if not any(keys & free_atoms(_BYID[i]) for i, _ in m):
                v = acc.get(m, 0) + c
                if v:
                    acc[m] = v
                else:
                    acc.pop(m, None)
                continue
            t = const(c)
            for i, e in m:
                a = _BYID[i]
                if keys & free_atoms(a):
                    t = t * power(_subst_atom(a, mp, memo, keys), e)
                else:
                    t = t * Poly({((i, e),): F(1)})
            rest = rest + t
        r = rest + Poly(acc)
        memo[x] = r
        return r
    if isinstance(x, Bool):
        if not (keys & free_atoms(x)):
            return x
        k = x.kind
        a = [_subst(y, mp, memo, keys) for y in x.args]
        if k == "gt":
            return gt(a[0])
        if k == "ge":
            return ge(a[0])
        if k == "eq":
            return eq(a[0])
        if k == "not":
            return neg(a[0])
        if k == "and":
            return conj(*a)
        if k == "or":
            return disj(*a)
        if k == "app":
            if a[0] == "isnan":
                return isnan(a[1])
            if a[0] == "isinf":
                return isinf(a[1])
            return Bool("app", tuple(a))
        if k == "forall":
            n, h, body = a
            return _rebind_bool(n, x.args[1], body)
        return x
    if isinstance(x, Lam):
        if not (keys & free_atoms(x)):
            return x
        n = _subst(x.n, mp, memo, keys)
        body = _subst(x.body, mp, memo, keys)
        kv = fresh("k", isint=True, nonneg=True)
        b2 = _subst(body, {bound(x.h).atom(): kv}, {}, frozenset([bound(x.h).atom()]))
        h = height(b2) + 1
        b3 = _subst(b2, {kv.atom(): bound(h)}, {}, frozenset([kv.atom()]))
        return Lam(n, h, b3)
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, memo, keys) for y in x)
    return x


def _rebind_bool(n, h0, body):
    kv = fresh("k", isint=True, nonneg=True)
    b2 = subst(body, {bound(h0).atom(): kv})
    h = height(b2) + 1
    b3 = subst(b2, {kv.atom(): bound(h)})
    if b3.kind == "true":
        return TRUE
    return Bool("forall", (n, h, b3))


def _subst_atom(a, mp, memo, keys):
    if a in mp:
        return as_poly(mp[a])
    k = a.kind
    if k in ("var", "prime", "bound"):
        return as_poly(a)
    if k == "sum":
        n, h, body = a.args
        n2 = _subst(n, mp, memo, keys)
        kv = fresh("k", isint=True, nonneg=True)
        b = subst(body, {bound(h).atom(): kv})
        b2 = _subst(b, mp, {}, keys)
        c = n2.const()
        if c is not None and c <= 12:
            return Sum(n2, lambda j: subst(b2, {kv.atom(): as_poly(j)}))
        return _sum_body(n2, b2, kv)
    args = [(_subst(y, mp, memo, keys) if not isinstance(y, (str, int)) else y) for y in a.args]
    if k == "app":
        f = args[0]
        if f == "log":
            return log(args[1])
        if f == "cdf":
            return cdf(args[1])
        return as_poly(mk_atom("app", tuple(args), pos=a.pos, nonneg=a.nonneg, isint=a.isint))
    if k == "read":
        return as_poly(mk_atom("read", tuple(args), pos=a.pos, nonneg=a.nonneg, isint=a.isint))
    if k == "P":
        return args[0]
    if k == "E":
        return exp(args[0])
    if k == "abs":
        return absolute(args[0])
    if k == "ite":
        return ite(args[0], args[1], args[2])
    if k == "rec":
        sy = RecSys._all[args[0]]
        if keys & sy.free:
            # rename the placeholders apart, substitute, and share the result
            fx = [fresh("x") for _ in sy.xs]
            fn = fresh("n", isint=True, nonneg=True)
            ren = {x.atom(): f for x, f in zip(sy.xs, fx)}
            ren[sy.n.atom()] = fn
            step = [_subst(subst(p, ren), mp, {}, keys) for p in sy.step]
            init = [_subst(p, mp, {}, keys) for p in sy.init]
            sy = _intern_recsys(sy.names, init, step, fx, fn)
        return sy.at(args[1], args[2])
    raise TermError("subst " + k)


# ----------------------------------------------------------------------------------- printing
def show(p, top=True):
    if not p.d:
        return "0"
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (len(t[0]), t[0])):
        s = ""
        ms = "*".join(show_atom(_BYID[i]) + ("" if e == 1 else f"^{e}" if e.denominator == 1 and e > 0 else f"^({e})") for i, e in m)
        if not ms:
            s = str(c)
        elif c == 1:
            s = ms
        elif c == -1:
            s = "-" + ms
        else:
            s = f"{c}*{ms}"
        out.append(s)
    r = " + ".join(out).replace("+ -", "- ")
    return r


def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "bound":
        return f"k{a.args[0]}"
    if k == "prime":
        return str(a.args[0])
    if k == "app":
        return f"{a.args[0]}({', '.join(map(str, a.args[1:]))})"
    if k == "read":
        return f"{a.args[0]}[{', '.join(map(str, a.args[1:]))}]"
    if k == "P":
        return f"({a.args[0]})"
    if k == "E":
        return f"exp({a.args[0]})"
    if k == "abs":
        return f"|{a.args[0]}|"
    if k == "sum":
        return f"sum_(k{a.args[1]}<{a.args[0]}) [{a.args[2]}]"
    if k == "ite":
        return f"if({a.args[0]}; {a.args[1]}; {a.args[2]})"
    if k == "rec":
        s = RecSys._all[a.args[0]]
        return f"{s.names[a.args[1]]}@{a.args[0]}({a.args[2]})"
    return k


def show_bool(b):
    k = b.kind
    if k in ("true", "false"):
        return k
    if k == "gt":
        return f"{b.args[0]} > 0"
    if k == "ge":
        return f"{b.args[0]} >= 0"
    if k == "eq":
        return f"{b.args[0]} == 0"
    if k == "not":
        return f"not({b.args[0]})"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(map(str, b.args)) + ")"
    if k == "app":
        return f"{b.args[0]}({', '.join(map(str, b.args[1:]))})"
    if k == "forall":
        return f"forall k{b.args[1]}<{b.args[0]}: {b.args[2]}"
    return k


# ----------------------------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


_CLOSED = {}


def closed(a):
    """Neither bound variables nor placeholders of recurrences occur free in the atom."""
    r = _CLOSED.get(a.id)
    if r is None:
        r = not open_bounds(a) and not any(x.kind == "var" and "#" in x.args[0] for x in free_atoms(a))
        _CLOSED[a.id] = r
    return r


class Valuation:
    """Concrete meaning of variables, arrays and opaque functions, for refutation and cross-checks."""

    def __init__(self, vars=None, arrays=None, funs=None, bfuns=None, default=None):
        self.vars = vars or {}
        self.arrays = arrays or {}
        self.funs = funs or {}
        self.bfuns = bfuns or {}
        self.default = default  # callable(atom)->number for unknown vars
        self.memo = {}
        self.fixed = {}
        self.limit = None      # number of polynomials that may still be evaluated
        self.recmemo = {}
        self.env = {}
        self.bseed = 0         # meaning of the opaque conditions
        self.bools = {}        # opaque conditions of given truth

    def ev(self, p):
        if isinstance(p, Bool):
            return self.evb(p)
        if isinstance(p, Lam):
            return self.evlam(p)
        if not isinstance(p, Poly):
            return p
        r = 0.0
        if self.limit is not None:
            self.limit -= 1
            if self.limit < 0:
                raise EvalError("too long")
        for m, c in p.d.items():
            t = float(c)
            for i, e in m:
                v = self.atom(_BYID[i])
                if e == 1:
                    t *= v
                else:
                    try:
                        if v < 0 and e.denominator != 1:
                            raise EvalError("root of negative")
                        t *= v ** (int(e) if e.denominator == 1 else float(e))
                    except (ZeroDivisionError, OverflowError) as ex:
                        raise EvalError(str(ex))
            r += t
        return r

    def evlam(self, L):
        n = int(round(self.ev(L.n)))
        ba = bound(L.h).atom()
        old = self.env.get(ba)
        sm = self.memo
        out = []
        for j in range(n):
            self.env[ba] = j
            self.memo = {}
            out.append(self.ev(L.body))
        self.memo = sm
        if old is None:
            self.env.pop(ba, None)
        else:
            self.env[ba] = old
        return out

    def atom(self, a):
        if a in self.env:
            r = self.env[a]
            if r is None:
                raise EvalError("undefined component")
            return r
        r = self.fixed.get(a)
        if r is None:
            r = self.memo.get(a)
        if r is None:
            r = self._atom(a)
            if not isinstance(r, (int, float)):
                r = float(r)
            if r != r or r in (math.inf, -math.inf):
                raise EvalError("non-finite")
            if closed(a):
                self.fixed[a] = r
            elif a.hb == 0 and a.kind != "bound":
                self.memo[a] = r
        return r

    def _atom(self, a):
        k = a.kind
        if k == "var":
            if a.args[0] in self.vars:
                return self.vars[a.args[0]]
            if self.default:
                v = self.default(a)
                self.vars[a.args[0]] = v
                return v
            raise EvalError("unknown variable " + a.args[0])
        if k == "prime":
            return a.args[0]
        if k == "P":
            return self.ev(a.args[0])
        if k == "E":
            try:
                return math.exp(self.ev(a.args[0]))
            except OverflowError as ex:
                raise EvalError(str(ex))
        if k == "abs":
            return abs(self.ev(a.args[0]))
        if k == "ite":
            return self.ev(a.args[1]) if self.evb(a.args[0]) else self.ev(a.args[2])
        if k == "sum":
            n, h, body = a.args
            nn = int(round(self.ev(n)))
            if nn > 5000:
                raise EvalError("sum too long")
            ba = bound(h).atom()
            old = self.env.get(ba)
            r = 0.0
            sm = self.memo
            for j in range(nn):
                self.env[ba] = j
                self.memo = {}
                r += self.ev(body)
            self.memo = sm
            if old is None:
                self.env.pop(ba, None)
            else:
                self.env[ba] = old
            return r
        if k == "read":
            idx = [int(round(self.ev(i))) for i in a.args[1:]]
            return self.read(a, a.args[0], idx)
        if k == "rec":
            return self.rec(a.args[0], a.args[1], int(round(self.ev(a.args[2]))))
        if k == "app":
            f = a.args[0]
            args = [self.ev(x) if isinstance(x, (Poly, Bool, Lam)) else x for x in a.args[1:]]
            return self.apply(f, args, a)
        raise EvalError("cannot evaluate " + k)

    def read(self, a, arr, idx):
        f = self.arrays.get(arr)
        if f is None:
            if self.default is None:
                raise EvalError("unknown array " + arr)
            f = {}
            self.arrays[arr] = f
        if callable(f):
            return f(*idx)
        if isinstance(f, dict):
            t = tuple(idx)
            if t not in f:
                f[t] = self.default(a)
            return f[t]
        v = f
        for i in idx:
            if i < 0 or i >= len(v):
                raise EvalError(f"{arr}{idx} out of range")
            v = v[i]
        return v

    def apply(self, f, args, a=None):
        if f in self.funs:
            return self.funs[f](*args)
        if f == "log":
            if args[0] <= 0:
                raise EvalError("log of non-positive")
            return math.log(args[0])
        if f == "cdf":
            return 0.5 * math.erfc(-args[0] / math.sqrt(2))
        if f == "pi":
            return math.pi
        if f == "maxof":
            return max(args[0])
        if f == "minof":
            return min(args[0])
        if f == "ceil":
            return math.ceil(args[0])
        if f == "floor":
            return math.floor(args[0])
        if self.default is not None and f not in ("nan", "inf", "neginf", "div0", "logbad", "rec_undef"):
            key = (f, _hashable(args))
            if key not in self.recmemo:
                v = self.default(a)
                if f in RANGES:
                    lo, hi = [self.ev(as_poly(x)) for x in RANGES[f](a.args)]
                    v = lo + (hi - lo) * (v % 1.0 if v >= 0 else 1 - (-v) % 1.0)
                self.recmemo[key] = v
            return self.recmemo[key]
        raise EvalError("no meaning for " + str(f))

    def rec(self, sid, comp, n):
        s = RecSys._all[sid]
        if n < 0:
            raise EvalError("recurrence at negative index")
        key = ("rec", sid, self._envkey(s))
        tab = self.recmemo.setdefault(key, [])
        while len(tab) <= n:
            if not tab:
                tab.append([self.component(i) for i in s.init])
                continue
            k = len(tab) - 1
            sm, se = self.memo, self.env
            self.memo = {}
            self.env = dict(se)
            for x, v in zip(s.xs, tab[-1]):
                self.env[x.atom()] = v
            self.env[s.n.atom()] = k
            row = [self.component(st) for st in s.step]
            self.memo, self.env = sm, se
            tab.append(row)
        if tab[n][comp] is None:
            raise EvalError("undefined component")
        return tab[n][comp]

    def component(self, p):
        try:
            return self.ev(p)
        except (OverflowError, ZeroDivisionError, ValueError):
            return None
        except EvalError as ex:
            if str(ex) == "too long":
                raise
            return None

    def _envkey(self, s):
        # recurrences may depend on bound variables of enclosing sums and recurrences
        return tuple(sorted((k.id, v) for k, v in self.env.items() if k in s.free))

    def evb(self, b):
        k = b.kind
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "gt":
            return self.ev(b.args[0]) > 0
        if k == "ge":
            return self.ev(b.args[0]) >= 0
        if k == "eq":
            v = self.ev(b.args[0])
            return abs(v) < 1e-12
        if k == "not":
            return not self.evb(b.args[0])
        if k == "and":
            return all(self.evb(x) for x in b.args)
        if k == "or":
            return any(self.evb(x) for x in b.args)
        if k == "forall":
            n, h, body = b.args
            nn = int(round(self.ev(n)))
            ba = bound(h).atom()
            old = self.env.get(ba)
            ok = True
            sm = self.memo
            for j in range(nn):
                self.env[ba] = j
                self.memo = {}
                if not self.evb(body):
                    ok = False
                    break
            self.memo = sm
            if old is None:
                self.env.pop(ba, None)
            else:
                self.env[ba] = old
            return ok
        if k == "app":
            f = b.args[0]
            args = [self.ev(x) if isinstance(x, (Poly, Bool, Lam)) else x for x in b.args[1:]]
            if f in self.bfuns:
                return self.bfuns[f](*args)
            if b in self.bools:
                return self.bools[b]
            if f in ("isnan", "isinf"):
                return False
            key = ("b", f, _hashable(args))
            if key not in self.recmemo:
                import random
                self.recmemo[key] = random.Random(repr((key, self.bseed))).random() < 0.5
            return self.recmemo[key]
        raise EvalError("cannot evaluate condition " + k)


def _hashable(x):
    if isinstance(x, (list, tuple)):
        return tuple(_hashable(y) for y in x)
    if isinstance(x, float):
        return round(x, 9)
    return x
