"""Discharges obligations: exact normal forms, induction over recurrences, case splits, z3 and cvc5.

A verdict is 'proved' (with the back end that closed it), 'refuted' (with a valuation that makes the
hypotheses true and the goal false) or 'unknown'.
"""
from __future__ import annotations
from fractions import Fraction as F
import itertools
import math
import random
import time
import z3
from . import terms as T
from .terms import Poly, Bool, Lam, RecSys, as_poly, const, ZERO, ONE, TRUE, FALSE
from . import core
from .core import FACTS, under


class Stats:
    def __init__(self):
        self.reset()

    def reset(self):
        self.backend = {}
        self.solver_s = 0.0
        self.queries = 0

    def hit(self, b):
        self.backend[b] = self.backend.get(b, 0) + 1


STATS = Stats()


# ------------------------------------------------------------------------------------- z3
def exponent_sign(p):
    """x where p is a positive multiple of exp(x) - 1, or -x where it is one of 1 - exp(x)."""
    if len(p.d) != 2 or T.ZERO_M not in p.d:
        return None
    (m, c), = [(m, c) for m, c in p.d.items() if m != T.ZERO_M]
    if c != -p.d[T.ZERO_M] or any(T._BYID[i].kind != "E" for i, e in m):
        return None
    x = ZERO
    for i, e in m:
        x = x + T._BYID[i].args[0] * const(e)
    return x * const(c)


class Z3T:
    """Terms to z3. linear=True: every product is an opaque number of known sign."""

    def __init__(self, linear=True):
        self.linear = linear
        self.vars = {}
        self.axioms = []
        self.done = set()
        self.bools = {}
        self.depth = 0

    def var(self, key, isint):
        v = self.vars.get(key)
        if v is None:
            v = z3.Int(f"i{len(self.vars)}") if isint else z3.Real(f"r{len(self.vars)}")
            self.vars[key] = v
            return v, True
        return v, False

    def real(self, v):
        return z3.ToReal(v) if v.sort() == z3.IntSort() else v

    def poly(self, p):
        terms = []
        c0 = F(0)
        for m, c in p.d.items():
            if m == T.ZERO_M:
                c0 = c
                continue
            terms.append((c, self.mono(m)))
        allint = all(t.sort() == z3.IntSort() and c.denominator == 1 for c, t in terms) and c0.denominator == 1
        if allint:
            r = z3.IntVal(int(c0))
            for c, t in terms:
                r = r + int(c) * t
            return r
        r = z3.RealVal(str(c0))
        for c, t in terms:
            r = r + z3.RealVal(str(c)) * self.real(t)
        return r

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(T._BYID[m[0][0]])
        if self.linear:
            isint = all(T._BYID[i].isint and e.denominator == 1 and e > 0 for i, e in m)
            v, new = self.var(m, isint)
            if new:
                s = T.mono_sign(m)
                if s == "pos":
                    self.axioms.append(v > 0)
                elif s == "nonneg":
                    self.axioms.append(v >= 0)
            return v
        r = None
        for i, e in m:
            a = T._BYID[i]
            b = self.real(self.atom(a))
            if e.denominator == 1:
                n = abs(int(e))
                if n > 64:
                    x, new = self.var(("big", i, e), False)
                    if new and T.atom_pos(a):
                        self.axioms.append(x > 0)
                    r = x if r is None else r * x
                    continue
                x = b
                for _ in range(n - 1):
                    x = x * b
                if e < 0:
                    key = ("inv", i, n)
                    v, new = self.var(key, False)
                    if new:
                        self.axioms.append(v * x == 1)   # the code divides by it: defined where it is not zero
                        if T.atom_pos(a):
                            self.axioms.append(v > 0)
                    x = v
            else:
                key = ("pow", i, e)
                v, new = self.var(key, False)
                if new:
                    x = v
                    q = e.denominator
                    y = v
                    for _ in range(q - 1):
                        y = y * v
                    z = b
                    for _ in range(abs(e.numerator) - 1):
                        z = z * b
                    if e > 0:
                        self.axioms += [y == z, v >= 0, b >= 0]
                        if T.atom_pos(a):
                            self.axioms.append(v > 0)
                    else:
                        self.axioms += [y * z == 1, v > 0, b > 0]
                x = v
            r = x if r is None else r * x
        return r

    def atom(self, a):
        v, new = self.var(a, a.isint)
        if not new:
            return v
        k = a.kind
        if T.atom_pos(a):
            self.axioms.append(v > 0)
        elif T.atom_nonneg(a):
            self.axioms.append(v >= 0)
        if k == "ite":
            c = self.bool(a.args[0])
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            rv = self.real(v) if v.sort() == z3.IntSort() else v
            self.axioms.append(z3.If(c, rv == self.real(x), rv == self.real(y)))
        elif k == "abs":
            x = self.poly(a.args[0])
            rv = self.real(v)
            self.axioms.append(z3.If(self.real(x) >= 0, rv == self.real(x), rv == -self.real(x)))
        elif k == "P" and not self.linear:
            self.axioms.append(self.real(v) == self.real(self.poly(a.args[0])))
        elif k == "P":
            self.axioms.append(self.real(v) == self.real(self.poly(a.args[0])))
        elif k == "prime":
            self.axioms.append(self.real(v) == a.args[0])
        elif k == "app":
            f = a.args[0]
            if f == "cdf":
                self.axioms += [v > 0, v < 1]
            elif f == "floor":
                x = self.real(self.poly(a.args[1]))
                self.axioms += [self.real(v) <= x, x < self.real(v) + 1]
            elif f == "ceil":
                x = self.real(self.poly(a.args[1]))
                self.axioms += [self.real(v) >= x, x > self.real(v) - 1]
            elif f == "roundhalfeven":
                x = self.real(self.poly(a.args[1]))
                self.axioms += [self.real(v) - x <= z3.RealVal("1/2"), x - self.real(v) <= z3.RealVal("1/2")]
            elif f in T.RANGES:
                lo, hi = T.RANGES[f](a.args)
                self.axioms += [self.real(v) >= self.real(self.poly(as_poly(lo))), self.real(v) <= self.real(self.poly(as_poly(hi)))]
            elif f == "log" and isinstance(a.args[1], T.Poly):
                w = a.args[1]
                if w.const() is not None:
                    x = math.log(w.const())
                    self.axioms += [v > z3.RealVal(str(F(x) - F(1, 10 ** 9))), v < z3.RealVal(str(F(x) + F(1, 10 ** 9)))]
                elif all(c.denominator == 1 for c in w.d.values()) and all(T._BYID[i].isint and e.denominator == 1 and e > 0 for m in w.d for i, e in m):
                    x = self.poly(w)
                    self.axioms += [z3.Implies(x == 1, v == 0), z3.Implies(x >= 2, v > z3.RealVal("0.693147"))]
            elif f == "pi":
                self.axioms += [v > z3.RealVal("3.14159"), v < z3.RealVal("3.1416")]
        return v

    def bool(self, b):
        k = b.kind
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "gt":
            return self.poly(b.args[0]) > 0
        if k == "ge":
            return self.poly(b.args[0]) >= 0
        if k == "eq":
            return self.poly(b.args[0]) == 0
        if k == "not":
            return z3.Not(self.bool(b.args[0]))
        if k == "and":
            return z3.And(*[self.bool(x) for x in b.args])
        if k == "or":
            return z3.Or(*[self.bool(x) for x in b.args])
        v = self.bools.get(b)
        if v is None:
            v = z3.Bool(f"b{len(self.bools)}")
            self.bools[b] = v
        return v


def _share(facts, b):
    """Facts connected to b through shared atoms (others cannot matter), as a list."""
    return facts


def quick_implied(facts, b):
    if not any(a.kind for a in T.free_atoms(b)) and not facts:
        return False
    t = Z3T(True)
    s = z3.Solver()
    s.set("rlimit", 400000)
    g = t.bool(b)
    fs = []
    for f in facts:
        fs.append(t.bool(f))
    t0 = time.time()
    s.add(*t.axioms)
    s.add(*fs)
    s.add(z3.Not(g))
    r = s.check()
    STATS.solver_s += time.time() - t0
    STATS.queries += 1
    return r == z3.unsat


def z3_prove(hyps, goal, linear=False, rlimit=3000000, timeout=8000):
    t = Z3T(linear)
    g = t.bool(goal)
    hs = [t.bool(h) for h in hyps]
    s = z3.Solver() if linear else z3.Tactic("qfnra-nlsat").solver() if False else z3.Solver()
    s.set("timeout", timeout)
    s.add(*t.axioms)
    s.add(*hs)
    s.add(z3.Not(g))
    t0 = time.time()
    r = s.check()
    STATS.solver_s += time.time() - t0
    STATS.queries += 1
    return r == z3.unsat


def cvc5_prove(hyps, goal, timeout=8000):
    try:
        import cvc5
    except ImportError:
        return False
    t = Z3T(False)
    g = t.bool(goal)
    hs = [t.bool(h) for h in hyps]
    s = z3.Solver()
    s.add(*t.axioms)
    s.add(*hs)
    s.add(z3.Not(g))
    txt = s.to_smt2()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        t0 = time.time()
        res = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if o:
                res += str(o)
        STATS.solver_s += time.time() - t0
        STATS.queries += 1
        return "unsat" in res
    except Exception:
        return False


# ------------------------------------------------------------------------------------- simplification under facts
def ite_atoms(p):
    """Conditionals occurring in p outside binders, outermost first."""
    out, seen = [], set()

    def go(x, inb):
        if isinstance(x, Poly):
            for m in x.d:
                for i, _ in m:
                    atom(T._BYID[i])
        elif isinstance(x, Bool):
            for y in x.args:
                go(y, inb)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y, inb)

    def atom(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == "ite":
            if not T.open_bounds(a.args[0]):
                out.append(a)
            go(a.args[0], 0)
            go(a.args[1], 0)
            go(a.args[2], 0)
        elif a.kind == "sum":
            go(a.args[0], 0)
            bodyites(a.args[2])
        elif a.kind != "bound":
            for y in a.args:
                go(y, 0)

    def bodyites(x):
        # conditionals in a summand whose condition does not involve the bound variable
        for a in T.free_atoms(x):
            if a.kind == "ite" and a not in seen and not T.open_bounds(a.args[0]):
                seen.add(a)
                out.append(a)
    go(p, 0)
    return out


def simp(p):
    """Resolve the conditionals decided by the current facts."""
    for _ in range(40):
        ch = False
        for a in ite_atoms(p):
            d = FACTS.decide(a.args[0])
            if d is not None:
                p = T.subst(p, {a: a.args[1] if d else a.args[2]})
                ch = True
                break
        if not ch:
            return p
    return p


# ------------------------------------------------------------------------------------- proofs
class Budget(Exception):
    pass


def random_valuation(rnd, size=5, special=True):
    def default(a):
        if a.isint:
            return rnd.randint(0 if a.nonneg else -1, size)
        v = rnd.choice([rnd.uniform(0.05, 2), rnd.gauss(0, 1), float(rnd.randint(-2, 3))] if special else [rnd.uniform(0.05, 2), rnd.gauss(0, 1)])
        if a.pos:
            return abs(v) + 0.05
        if a.nonneg:
            return abs(v)
        if a.kind == "app" and a.args[0] == "cdf":
            return rnd.random()
        return v
    return T.Valuation(default=default)


EVALFAIL = (T.EvalError, OverflowError, ZeroDivisionError, ValueError, RecursionError, TypeError, KeyError)


class Screen:
    """Models of the facts, to give up early on equations that are false in one of them (never to accept any)."""

    def __init__(self):
        self.models = {(): [self.new(s) for s in range(3)]}

    def new(self, s):
        return random_valuation(random.Random(s), 4 + s % 4, False)

    def holds(self, v, f):
        try:
            v.memo, v.env, v.limit = {}, {}, 20000
            return v.evb(f)
        except EVALFAIL:
            return False

    def get(self, stack):
        r = self.models.get(stack)
        if r is None:
            n = len(stack) - 1
            while stack[:n] not in self.models:
                n -= 1
            r = [v for v in self.models[stack[:n]] if all(self.holds(v, f) for f in stack[n:])]
            s = 0
            while len(r) < 2 and s < 40 + 40 * (not r):
                v = self.new(1000 + s)
                if all(self.holds(v, f) for f in stack):
                    r.append(v)
                s += 1
            self.models[stack] = r
        return r

    def false(self, p):
        """p == 0 fails in some model of the facts."""
        for v in self.get(tuple(FACTS.stack)):
            try:
                v.memo, v.env, v.limit = {}, {}, 20000
                t = v.ev(p)
                if abs(t) > 1e-9 and abs(t) > 1e-4 * sum(abs(v.ev(Poly({m: c}))) for m, c in p.d.items()):
                    return True
            except EVALFAIL:
                continue
        return False


class Prover:
    def __init__(self, deadline=None):
        self.screen = Screen()
        self.deadline = deadline
        self.relcache = {}
        self.failed = set()

    def check(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget()

    def prove(self, hyps, goal, depth=0):
        """True or False (not proved)."""
        goal = T.as_bool(goal)
        n0 = len(FACTS.stack)
        try:
            hyps, goal = self.unify([T.as_bool(h) for h in hyps], goal)
            for h in hyps:
                FACTS.push(h)
            self.instantiate(goal)
            return self.goal(goal, depth)
        finally:
            del FACTS.stack[n0:]

    def unify(self, hyps, goal):
        """Replace sums and recurrences of the hypotheses and the goal that are provably equal by one of them."""
        def parts(b):
            return {a for a in T.free_atoms(b) if a.kind in ("sum", "rec") and T.closed(a)}
        hs = set().union(*[parts(h) for h in hyps]) if hyps else set()
        gs = parts(goal)
        if not hs or not gs or gs <= hs or len(hs | gs) > 40:
            return hyps, goal
        n0 = len(FACTS.stack)
        deadline = self.deadline
        self.deadline = min(deadline or 1e18, time.time() + 10)
        mp = {}
        try:
            simple = [h for h in hyps if not parts(h)]
            for h in simple:
                FACTS.push(h)
            models = self.screen.get(tuple(FACTS.stack))
            vals = {a: [self.valued(v, a) for v in models] for a in hs | gs}
            for g in sorted(gs - hs, key=lambda a: -a.id):
                if any(g in T.free_atoms(x) and x is not g for x in mp):
                    continue
                blind = 0
                for h in sorted(hs, key=lambda a: -a.id):
                    if h is g or T.depends(h, g) or T.depends(g, h) or h.kind != g.kind:
                        continue
                    both = [(x, y) for x, y in zip(vals[g], vals[h]) if x is not None and y is not None]
                    if not all(abs(x - y) <= 1e-7 * (abs(x) + abs(y)) for x, y in both):
                        continue
                    blind += not both
                    if (both or blind <= 2) and self.zero(as_poly(g) - as_poly(h), 2):
                        mp[g] = as_poly(h)
                        break
        except Budget:
            pass
        finally:
            self.deadline = deadline
            del FACTS.stack[n0:]
        if not mp:
            return hyps, goal
        return [T.as_bool(T.subst(h, mp)) for h in hyps], T.as_bool(T.subst(goal, mp))

    def valued(self, v, a):
        try:
            v.memo, v.env, v.limit = {}, {}, 20000
            return v.ev(as_poly(a))
        except EVALFAIL:
            return None

    def instantiate(self, goal):
        """Quantified hypotheses at the index variables in sight."""
        qs = []
        for h in FACTS.all():
            for x in (h.args if h.kind == "and" else (h,)):
                if x.kind == "forall":
                    qs.append(x)
        if not qs:
            return
        ks = []
        for f in FACTS.all() + [goal]:
            for a in T.free_atoms(f):
                if a.kind == "var" and a.isint and as_poly(a) not in ks:
                    ks.append(as_poly(a))
        new = []
        for q in qs[:6]:
            n, h, body = q.args
            for k in ks[:8]:
                if k == n or not FACTS.decide(T.conj(T.ge(k), T.gt(n - k))):
                    continue
                new.append(T.as_bool(T.subst(body, {T.bound(h).atom(): k})))
        for b in new:
            FACTS.push(b)

    def goal(self, g, depth):
        self.check()
        if g.kind == "true":
            STATS.hit("normal form")
            return True
        if g.kind == "and":
            return all(self.goal(x, depth) for x in g.args)
        if g.kind == "forall":
            n, h, body = g.args
            k = T.fresh("k", isint=True, nonneg=True)
            b = T.subst(body, {T.bound(h).atom(): k})
            with under(T.gt(n - k)):
                return self.goal(T.as_bool(b), depth)
        if g.kind == "eq":
            r = self.zero(g.args[0], depth)
            if r:
                return True
            return self.smt(g)
        if g.kind == "or":
            # assume the negations of all but one disjunct
            if FACTS.implied(g):
                STATS.hit("z3 linear")
                return True
            if depth < 6:
                order = sorted(g.args, key=lambda x: 0 if x.kind in ("eq", "forall", "and") else 1)
                for x in order:
                    rest = [T.neg(y) for y in g.args if y is not x]
                    with under(*rest):
                        if self.goal(x, depth + 1):
                            return True
            return self.smt(g)
        if g.kind == "not" and g.args[0].kind == "forall":
            return self.smt(g)
        if FACTS.implied(g):
            STATS.hit("z3 linear")
            return True
        # inequalities: rewrite recurrences, split conditionals
        if g.kind in ("gt", "ge") and depth < 8:
            p = simp(g.args[0])
            p2 = self.relate_all(p)
            g2 = T.gt(p2) if g.kind == "gt" else T.ge(p2)
            if g2.kind == "true":
                STATS.hit("normal form")
                return True
            if FACTS.implied(g2):
                STATS.hit("z3 linear")
                return True
            ex = exponent_sign(p2)
            if ex is not None:
                return self.goal(T.gt(ex) if g.kind == "gt" else T.ge(ex), depth + 1)
            its = ite_atoms(p2)
            if its and len(its) <= 10:
                a = its[0]
                for c, v in ((a.args[0], a.args[1]), (T.neg(a.args[0]), a.args[2])):
                    if FACTS.decide(c) is False:
                        continue
                    with under(c):
                        q = T.subst(p2, {a: v})
                        if not self.goal(T.gt(q) if g.kind == "gt" else T.ge(q), depth + 1):
                            return False
                return True
            if self.by_rounding(p2, g.kind, depth) or self.by_summand(p2, g.kind, depth):
                return True
        return self.smt(g)

    def by_rounding(self, p, kind, depth):
        """floor and ceiling replaced by their argument where that is the weaker claim."""
        for m, c in p.d.items():
            if len(m) != 1 or m[0][1] != 1 or c.denominator != 1:
                continue
            a = T._BYID[m[0][0]]
            if a.kind != "app" or a.args[0] not in ("ceil", "floor"):
                continue
            x = as_poly(a.args[1])
            rest = p - Poly({m: c})
            isint = all(v.denominator == 1 for v in rest.d.values()) and all(T._BYID[i].isint and e.denominator == 1 and e > 0 for mm in rest.d for i, e in mm)
            if (a.args[0] == "ceil") == (c > 0):
                q = rest + const(c) * x           # ceil(x) >= x, -floor(x) >= -x
            elif isint and abs(c) == 1:
                # n - ceil(x) >= 0 iff n - x >= 0; floor(x) + n >= 0 iff x + n >= 0; integers: n > 0 iff n - 1 >= 0
                q = rest + const(c) * x - (ONE if kind == "gt" else ZERO)
                if self.goal(T.ge(q), depth + 1):
                    return True
                continue
            else:
                continue
            if self.goal(T.gt(q) if kind == "gt" else T.ge(q), depth + 1):
                return True
        return False

    def by_summand(self, p, kind, depth):
        """A sum is non-negative if its terms are (or their average is at least minus the rest)."""
        lens = {}
        for m in p.d:
            for i, e in m:
                a = T._BYID[i]
                if a.kind == "sum":
                    lens.setdefault(a.args[0], None)
        for n in lens:
            k = T.fresh("k", isint=True, nonneg=True)
            tot, rest, ok = ZERO, ZERO, True
            for m, c in p.d.items():
                ss = [(i, e) for i, e in m if T._BYID[i].kind == "sum" and T._BYID[i].args[0] == n]
                if not ss:
                    rest = rest + Poly({m: c})
                    continue
                if ss[0][1].denominator != 1 or ss[0][1] < 1:
                    ok = False
                    break
                cof = dict(m)
                cof[ss[0][0]] -= 1
                if not cof[ss[0][0]]:
                    del cof[ss[0][0]]
                tot = tot + Poly({tuple(sorted(cof.items())): c}) * T.open_sum(T._BYID[ss[0][0]], k)
            if not ok or not tot.d:
                continue
            mk = T.gt if kind == "gt" else T.ge
            if kind == "ge" or FACTS.decide(T.gt(rest)):
                if self.goal(mk(rest), depth + 1):
                    with under(T.gt(n - k)):
                        if self.goal(T.ge(tot), depth + 1):
                            return True
            if rest.d and FACTS.decide(T.gt(n)):
                with under(T.gt(n - k)):
                    if self.goal(mk(tot * n + rest), depth + 1):
                        return True
        return False

    def smt(self, g):
        self.check()
        if z3_prove(FACTS.all(), g, linear=True, timeout=3000):
            STATS.hit("z3 linear")
            return True
        if z3_prove(FACTS.all(), g, linear=False, timeout=5000):
            STATS.hit("z3 nonlinear")
            return True
        if cvc5_prove(FACTS.all(), g, timeout=5000):
            STATS.hit("cvc5")
            return True
        return False

    def by_ranges(self, p, depth):
        """A sum over a conditional on its index is the sums over the two ranges of that index."""
        mp = {}
        for m in p.d:
            for i, e in m:
                a = T._BYID[i]
                if a.kind != "sum" or a in mp:
                    continue
                r = self.range_split(a)
                if r is not None:
                    mp[a] = r
        return self.zero(T.subst(p, mp), depth + 1) if mp else False

    def range_split(self, a):
        n = a.args[0]
        k = T.fresh("k", isint=True, nonneg=True)
        ka = k.atom()
        body = T.open_sum(a, k)
        for m in body.d:
            for i, e in m:
                it = T._BYID[i]
                if it.kind != "ite" or it.args[0].kind not in ("gt", "ge"):
                    continue
                q, kind = it.args[0].args[0], it.args[0].kind
                lead = [(mm, c) for mm, c in q.d.items() if any(T._BYID[x] is ka for x, _ in mm)]
                if len(lead) != 1 or len(lead[0][0]) != 1 or lead[0][0][0][1] != 1 or abs(lead[0][1]) != 1:
                    continue
                c = lead[0][1]
                rest = q - k * const(c)                     # condition: c*k + rest > 0 (or >= 0)
                if T.depends(rest, ka) or not rest.isint_sorted():
                    continue
                if c > 0:
                    b, low = -rest + (ONE if kind == "gt" else ZERO), False       # true from b on
                else:
                    b, low = rest + (ONE if kind == "ge" else ZERO), True         # true below b
                if FACTS.decide(T.ge(b)) is not True or FACTS.decide(T.ge(n - b)) is not True:
                    if FACTS.decide(T.ge(-b)):
                        b = ZERO
                    elif FACTS.decide(T.ge(b - n)):
                        b = n
                    else:
                        continue
                A = as_poly(it)
                below = T.subst(body, {it: it.args[1] if low else it.args[2]})
                above = T.subst(body, {it: it.args[2] if low else it.args[1]})
                out = ZERO
                if b.d:
                    out = out + T.Sum(b, lambda j: T.subst(below, {ka: j}))
                if (n - b).d:
                    out = out + T.Sum(n - b, lambda j: T.subst(above, {ka: j + b}))
                return out
        return None

    # ---- equality with zero
    def zero(self, p, depth=0):
        self.check()
        if not p.d:
            STATS.hit("normal form")
            return True
        if p.const() is not None:
            # a false equation: only provable if the facts are contradictory
            if FACTS.implied(FALSE):
                STATS.hit("z3 linear")
                return True
            return False
        key = (p, tuple(FACTS.stack))
        if key in self.failed:
            return False
        if not T.open_bounds(p) and self.screen.false(p):
            self.failed.add(key)
            return False
        p = simp(p)
        if not p.d:
            STATS.hit("normal form")
            return True
        c, mono, q = T.together(p)
        q = self.clear_P(q)
        if not q.d:
            STATS.hit("normal form")
            return True
        if q.const() is not None:
            if any(e > 0 for e in mono.values()):
                q = p
            elif FACTS.implied(FALSE):
                STATS.hit("z3 linear")
                return True
            else:
                return False
        for f in (self.by_roots, self.by_exponents, self.by_relation, self.by_sums, self.by_congruence, self.by_ranges, self.by_split):
            if depth > 24:
                break
            r = f(q, depth)
            if r:
                return True
        if FACTS.implied(T.eq(q)):
            STATS.hit("z3 linear")
            return True
        self.failed.add(key)
        return False

    def clear_P(self, p):
        """Expand composite denominators."""
        for _ in range(8):
            c, mono, q = T.together(p)
            p = q
            if not any(e < 0 for m in p.d for _, e in m):
                break
        return p

    def by_roots(self, p, depth):
        """sqrt(x*y) = sqrt(x)*sqrt(y), where a root of the expanded product and roots of the factors both occur."""
        ids = {i for m in p.d for i, e in m if e.denominator != 1 and T._BYID[i].kind == "P"}
        if not 3 <= len(ids) <= 12:
            return False
        base = {i: T._BYID[i].args[0] for i in ids}
        for i in sorted(ids, key=lambda i: -len(base[i].d)):
            for j, k in itertools.combinations_with_replacement(sorted(ids - {i}), 2):
                lj, lk = len(base[j].d), len(base[k].d)
                if len(base[i].d) > lj * lk or max(lj, lk) > len(base[i].d):
                    continue
                q = base[j] * base[k]
                r = q.d.keys() == base[i].d.keys() and next(iter({base[i].d[m] / q.d[m] for m in q.d}), None)
                if not r or r <= 0 or q * const(r) != base[i]:
                    continue
                out = ZERO
                for m, c in p.d.items():
                    e = dict(m).get(i)
                    if e is None:
                        out = out + Poly({m: c})
                    else:
                        f = T.power(as_poly(T._BYID[j]), e) * T.power(as_poly(T._BYID[k]), e)
                        out = out + Poly({tuple(x for x in m if x[0] != i): c}) * f * T.power(const(r), e)
                return self.zero(out, depth + 1)
        return False

    def by_exponents(self, p, depth):
        """exp(x) = exp(y) where x = y."""
        parts = {}
        for m, c in p.d.items():
            rest, ex = [], ZERO
            for i, e in m:
                a = T._BYID[i]
                if a.kind == "E":
                    ex = ex + a.args[0] * const(e)
                else:
                    rest.append((i, e))
            parts.setdefault(tuple(rest), []).append((m, c, ex))
        for rest, xs in parts.items():
            if len(xs) < 2 or len(xs) > 6:
                continue
            for (m1, c1, e1), (m2, c2, e2) in itertools.combinations(xs, 2):
                d = e1 - e2
                if len(e1.d) + len(e2.d) < 3 and len(p.d) > 2:
                    continue
                if self.zero(d, depth + 2):
                    q = dict(p.d)
                    del q[m1]
                    q[m2] = c1 + c2
                    if not q[m2]:
                        del q[m2]
                    return self.zero(Poly(q), depth + 1)
        return False

    def by_sums(self, p, depth):
        sums = {}
        for m in p.d:
            for i, e in m:
                a = T._BYID[i]
                if a.kind == "sum":
                    sums.setdefault(a.args[0], set()).add(a)
        if not sums:
            return False
        # unify lengths that differ by a constant
        ns = list(sums)
        for n1, n2 in itertools.combinations(ns, 2):
            d = n1 - n2
            c = d.const()
            big, small = (n1, n2)
            if c is None:
                if FACTS.decide(T.eq(d)):
                    mp = {a: as_poly(T.mk_atom("sum", (n2,) + a.args[1:])) for a in sums[n1]}
                    return self.zero(T.subst(p, mp), depth + 1)
                continue
            if c.denominator == 1 and abs(c) <= 6:
                if c < 0:
                    big, small, c = n2, n1, -c
                if not FACTS.decide(T.ge(small)):
                    continue
                mp = {}
                for a in sums[big]:
                    s = as_poly(T.mk_atom("sum", (small,) + a.args[1:]))
                    for j in range(int(c)):
                        s = s + T.open_sum(a, small + const(j))
                    mp[a] = s
                return self.zero(T.subst(p, mp), depth + 1)
        # each length: pull the coefficients in
        for n, atoms in sums.items():
            lin, rest = {}, {}
            ok = True
            for m, c in p.d.items():
                ss = [(i, e) for i, e in m if T._BYID[i] in atoms]
                if not ss:
                    rest[m] = c
                    continue
                if len(ss) > 1 or ss[0][1] != 1:
                    # product of sums: keep one factor as coefficient
                    if any(e != 1 for _, e in ss) and not (len(ss) == 1 and ss[0][1].denominator == 1 and ss[0][1] > 0):
                        ok = False
                        break
                i = ss[0][0]
                cof = dict(m)
                cof[i] = cof[i] - 1
                if not cof[i]:
                    del cof[i]
                cm = tuple(sorted(cof.items()))
                lin.setdefault(cm, []).append((c, T._BYID[i]))
            if not ok or not lin:
                continue
            k = T.fresh("k", isint=True, nonneg=True)
            tot = ZERO
            for cm, items in lin.items():
                cp = Poly({cm: F(1)})
                for c, a in items:
                    tot = tot + cp * const(c) * T.open_sum(a, k)
            rp = Poly(rest)
            with under(T.gt(n - k)):
                if not rp.d:
                    if self.zero(tot, depth + 1):
                        return True
                else:
                    if self.zero(tot, depth + 1):
                        n0 = len(FACTS.stack)
                        return self.zero_outer(rp, depth + 1)
                    if self.zero(tot * n + rp, depth + 1):
                        # and for an empty sum
                        if FACTS.decide(T.gt(n)):
                            return True
        return False

    def zero_outer(self, rp, depth):
        # proved below the assumption k < n of the summand: drop it again
        f = FACTS.stack.pop()
        try:
            return self.zero(rp, depth)
        finally:
            FACTS.stack.append(f)

    def relate_all(self, p):
        recs = sorted({a for a in T.free_atoms(p) if a.kind == "rec"}, key=lambda a: a.id)
        mp = {}
        for a, b in itertools.combinations(recs, 2):
            if a.args[0] == b.args[0]:
                continue
            r = self.related(a, b)
            if r is not None:
                mp[r[0]] = r[1]
        return T.subst(p, mp) if mp else p

    def by_relation(self, p, depth):
        recs = sorted({a for a in T.free_atoms(p) if a.kind == "rec" and not T.open_bounds(a)}, key=lambda a: a.id)
        # different systems related by induction; same system at provably equal positions
        mp = {}
        for a, b in itertools.combinations(recs, 2):
            if a in mp or b in mp:
                continue
            r = None
            if a.args[0] != b.args[0]:
                r = self.related(a, b)
            elif a.args[1] == b.args[1]:
                d = a.args[2] - b.args[2]
                if d.const() is None and FACTS.decide(T.eq(d)):
                    r = (a, as_poly(b))
            if r is not None:
                mp[r[0]] = r[1]
        if mp:
            return self.zero(T.subst(p, mp), depth + 1)
        # same system at neighbouring positions: unroll the later ones
        mp = {}
        for a, b in itertools.combinations(recs, 2):
            if a.args[0] == b.args[0]:
                c = (a.args[2] - b.args[2]).const()
                if c is not None and 0 < abs(c) <= 2 and c.denominator == 1:
                    hi, lo = (a, b) if c > 0 else (b, a)
                    if hi not in mp and FACTS.decide(T.ge(lo.args[2])):
                        mp[hi] = RecSys._all[hi.args[0]].unfold(hi.args[1], hi.args[2] - ONE)
        if mp and self.zero(T.subst(p, mp), depth + 1):
            return True
        # positions known to be zero
        for a in recs:
            if a.args[2].const() is None and FACTS.decide(T.eq(a.args[2])):
                s = RecSys._all[a.args[0]]
                return self.zero(T.subst(p, {a: s.init[a.args[1]]}), depth + 1)
        # a recurrence against its own unrolling: position >= 1
        if depth < 6:
            for a in recs:
                x = a.args[2]
                if x.const() is None and FACTS.decide(T.gt(x)):
                    s = RecSys._all[a.args[0]]
                    un = s.unfold(a.args[1], x - ONE)
                    if any(f.kind == "rec" for f in T.free_atoms(un)):
                        continue
                    q = T.subst(p, {a: un})
                    return self.zero(q, depth + 1)
        return False

    def related(self, a, b):
        """(a, poly with b's system) if a equals that, by induction; positions differ by at most one."""
        A, B = RecSys._all[a.args[0]], RecSys._all[b.args[0]]
        d = (a.args[2] - b.args[2]).const()
        if d is None:
            if FACTS.decide(T.eq(a.args[2] - b.args[2])):
                d = F(0)
            else:
                return None
        if d.denominator != 1 or abs(d) > 2:
            return None
        tried = []
        for (da, db) in ((max(int(d), 0), max(int(-d), 0)), (0, 0), (1, 0), (0, 1)):
            if (da, db) in tried:
                continue
            tried.append((da, db))
            pairs = self.relation(A, B, da, db, a.args[2])
            for (i, j) in pairs:
                if i == a.args[1]:
                    pos = a.args[2] - const(da)
                    if not FACTS.decide(T.ge(pos)):
                        continue
                    return a, B.at(j, pos + const(db))
        return None

    def relation(self, A, B, da, db, pos):
        """Pairs (i, j) with A_i(m+da) == B_j(m+db) for 0 <= m, m+da <= pos, by simultaneous induction."""
        key = (A.id, B.id, da, db, pos, tuple(FACTS.stack))
        if key in self.relcache:
            return self.relcache[key]
        self.relcache[key] = set()
        cand, hinted = set(), set()
        for i in range(len(A.init)):
            for j in range(len(B.init)):
                if any(self.screen.false(A.at(i, const(da + k), unfold=False) - B.at(j, const(db + k), unfold=False)) for k in (0, 1, 2, 4)):
                    # a hint only: the systems differ there in some model, whether or not the positions are in range
                    hinted.add((i, j))
        for i in range(len(A.init)):
            for j in range(len(B.init)):
                if (i, j) in hinted and any(x[0] == i and x not in hinted for x in itertools.product(range(len(A.init)), range(len(B.init)))):
                    continue
                x, y = A.at(i, const(da)), B.at(j, const(db))
                if self.zero(x - y, 12):
                    cand.add((i, j))
        m = T.fresh("m", isint=True, nonneg=True)
        while cand:
            ren = {}
            for (i, j) in sorted(cand):
                ren.setdefault(A.xs[i].atom(), B.at(j, m + const(db)))
            bad = set()
            with under(T.ge(pos - const(da) - ONE - m)):
                for (i, j) in sorted(cand):
                    mp = {x.atom(): A.at(q, m + const(da)) for q, x in enumerate(A.xs)}
                    mp.update(ren)
                    mp[A.n.atom()] = m + const(da)
                    lhs = T.subst(A.step[i], mp)
                    rhs = B.unfold(j, m + const(db))
                    if not self.zero(lhs - rhs, 8):
                        bad.add((i, j))
            if not bad:
                break
            cand -= bad
        if cand:
            STATS.hit("induction")
        self.relcache[key] = cand
        return cand

    def by_congruence(self, p, depth):
        if depth > 10:
            return False
        groups = {}
        for a in T.free_atoms(p):
            if T.open_bounds(a):
                continue
            if a.kind == "app":
                groups.setdefault(("app", a.args[0], len(a.args)), []).append(a)
            elif a.kind == "read":
                groups.setdefault(("read", a.args[0], len(a.args)), []).append(a)
            elif a.kind in ("P", "E", "abs"):
                groups.setdefault((a.kind,), []).append(a)
        tries = 0
        for g, atoms in groups.items():
            atoms.sort(key=lambda a: a.id)
            for a, b in itertools.combinations(atoms, 2):
                if T.depends(a, b) or T.depends(b, a):
                    continue
                tries += 1
                if tries > 40:
                    return False
                if self.equal_args(a.args, b.args, depth + 6):
                    STATS.hit("congruence")
                    return self.zero(T.subst(p, {b: as_poly(a)}), depth + 1)
        return False

    def equal_args(self, xs, ys, depth):
        for x, y in zip(xs, ys):
            if x is y:
                continue
            if isinstance(x, Poly) and isinstance(y, Poly):
                if x == y:
                    continue
                if not self.zero(x - y, depth):
                    return False
            elif isinstance(x, Lam) and isinstance(y, Lam):
                if x == y:
                    continue
                if x.n != y.n and not self.zero(x.n - y.n, depth):
                    return False
                k = T.fresh("k", isint=True, nonneg=True)
                bx, by = T.open_lam(x, k), T.open_lam(y, k)
                with under(T.gt(x.n - k)):
                    if isinstance(bx, Lam) or isinstance(by, Lam):
                        if not self.equal_args((bx,), (by,), depth):
                            return False
                    elif isinstance(bx, Bool) or isinstance(by, Bool):
                        if T.as_bool(bx) != T.as_bool(by):
                            return False
                    elif not self.zero(as_poly(bx) - as_poly(by), depth):
                        return False
            elif isinstance(x, Bool) and isinstance(y, Bool):
                if x != y and not (self.prove([x], y, depth) and self.prove([y], x, depth)):
                    return False
            elif x != y:
                return False
        return True

    def by_split(self, p, depth):
        its = ite_atoms(p)
        if not its or depth > 16:
            return False
        a = min(its, key=lambda a: (_size(a.args[0]), a.id))
        c = a.args[0]
        ok = True
        for cc, v, val in ((c, a.args[1], True), (T.neg(c), a.args[2], False)):
            if FACTS.decide(cc) is False:
                continue
            with under(cc):
                q = T.subst(p, {a: v})
                q = T.assume_in(q, c, val)
                eqp = self.use_equation(cc, q)
                if not self.zero(eqp, depth + 1):
                    return False
        return True

    def use_equation(self, c, q):
        """Substitute x := e for an assumed linear equation x - e == 0 over integer variables."""
        if c.kind != "eq":
            return q
        p = c.args[0]
        for m, co in p.d.items():
            if len(m) == 1 and m[0][1] == 1:
                a = T._BYID[m[0][0]]
                if a.kind == "var":
                    rest = (p - Poly({m: co})) * const(F(-1) / co)
                    if not T.depends(rest, a):
                        return T.subst(q, {a: rest})
        return q


def _size(b):
    return len(T.free_atoms(b))


# ------------------------------------------------------------------------------------- refutation
def refute(hyps, goal, seed=0, tries=250, prefer=None):
    """A valuation of the variables with hyps true and goal false, or None."""
    goal = T.as_bool(goal)
    conds = conditions(goal)
    for t in range(tries):
        val = random_valuation(random.Random(seed * 7919 + t), 5 + t % 4)
        val.bseed = t
        if t % 10 == 1 and t < 60:
            solver_values(val, hyps, goal, t)
        elif t % 5 == 3 and t < 150 and conds:
            # values on a path of the goal's conditions chosen at random
            rnd = random.Random(t)
            path = [c if rnd.random() < 0.5 else T.neg(c) for c in rnd.sample(conds, min(len(conds), 1 + t % 6))]
            solver_values(val, hyps, None, t, [T.gt(c.args[0] - const(rnd.choice((0, 0, 1, 50)))) if c.kind in ("gt", "ge") else c for c in path])
        try:
            if not all(val.evb(h) for h in hyps):
                continue
            if _false(val, goal):
                return {k: v for k, v in val.vars.items()}, {k: dict(v) if isinstance(v, dict) else None for k, v in val.arrays.items()}
        except (T.EvalError, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
    return None


def conditions(goal):
    """The comparisons the values in the goal depend on."""
    out, seen = [], set()

    def walk(c):
        if c.kind in ("and", "or", "not"):
            for x in c.args:
                walk(x)
        elif c.kind in ("gt", "ge", "eq") and str(c) not in seen:
            seen.add(str(c))
            out.append(c)
    for a in sorted((a for a in T.free_atoms(goal) if a.kind == "ite"), key=lambda a: a.id):
        try:
            if not T.open_bounds(a):
                walk(a.args[0])
        except AttributeError:
            pass
    return out[:60]


def solver_values(val, hyps, goal, t, path=()):
    """Set the variables, array elements and opaque conditions of val to those of a solver's model of hyps and not goal
    (the operations the solver does not interpret may disagree: the caller evaluates)."""
    try:
        z = Z3T(t % 20 == 1)
        s = z3.Solver()
        s.set("timeout", 1500)
        s.set("random_seed", t)
        s.add(*[z.bool(h) for h in hyps])
        if goal is not None:
            s.add(z3.Not(z.bool(goal)))
        s.add(*z.axioms)
        if s.check() != z3.sat:
            return False
        for c in path:                                   # as far as they go together
            s.push()
            s.add(z.bool(c))
            s.add(*z.axioms)
            if s.check() != z3.sat:
                s.pop()
        s.check()
        m = s.model()

        def number(v):
            x = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            return x.as_long() if z3.is_int_value(x) else float(x.as_fraction())
        for b, v in z.bools.items():
            val.bools[b] = z3.is_true(m.eval(v, model_completion=True))
        for a, v in z.vars.items():
            if isinstance(a, T.Atom):
                if a.kind == "var":
                    val.vars[a.args[0]] = number(v)
                elif a.kind == "read" and all(i.const() is not None for i in a.args[1:]):
                    val.arrays.setdefault(a.args[0], {})[tuple(int(i.const()) for i in a.args[1:])] = number(v)
        return True
    except (z3.Z3Exception, T.TermError, OverflowError, ValueError):
        return False


def _false(val, g):
    k = g.kind
    if k == "eq":
        p = g.args[0]
        v = val.ev(p)
        scale = sum(abs(_safe(val, Poly({m: c}))) for m, c in p.d.items())
        return abs(v) > 1e-7 * (1 + scale)
    if k == "and":
        return any(_false(val, x) for x in g.args)
    if k == "or":
        return all(_false(val, x) for x in g.args)
    if k == "gt":
        return val.ev(g.args[0]) < -1e-9
    if k == "ge":
        return val.ev(g.args[0]) < -1e-9
    if k == "forall":
        n, h, body = g.args
        nn = int(round(val.ev(n)))
        ba = T.bound(h).atom()
        for j in range(nn):
            val.env[ba] = j
            val.memo = {}
            if _false(val, T.as_bool(body)):
                val.env.pop(ba, None)
                val.memo = {}
                return True
        val.env.pop(ba, None)
        val.memo = {}
        return False
    return not val.evb(g)


def _safe(val, p):
    try:
        return val.ev(p)
    except T.EvalError:
        return 0.0


class Result:
    def __init__(self, name, status, backend, detail=""):
        self.name, self.status, self.backend, self.detail = name, status, backend, detail


def discharge(ob, budget=60.0, seed=0):
    """Obligation -> Result."""
    before = dict(STATS.backend)
    pr = Prover(time.time() + budget)
    n0 = len(FACTS.stack)
    try:
        with core.limit(budget + 5):
            ok = pr.prove(ob.hyps, ob.goal)
    except (Budget, RecursionError, core.TimeUp, T.TermError):
        ok = False
    finally:
        del FACTS.stack[n0:]
    used = [k for k, v in STATS.backend.items() if v > before.get(k, 0)]
    if ok:
        return Result(ob.name, "proved", "+".join(sorted(used)) or "normal form")
    cex = None
    try:
        with core.limit(40):
            cex = refute(ob.hyps, ob.goal, seed)
    except (Exception, core.TimeUp):
        cex = None
    if cex is not None:
        return Result(ob.name, "refuted", "valuation", {"vars": {str(k): v for k, v in cex[0].items()}, "arrays": {str(k): {str(i): x for i, x in (d or {}).items()} for k, d in cex[1].items()}})
    if ob.kind == "structure" and ob.goal.kind == "false" and consistent(ob.hyps):
        return Result(ob.name, "refuted", "z3 model", {"note": "the path to the forbidden operation is feasible; operations the verifier does not interpret may be any function"})
    return Result(ob.name, "unknown", "", "")


def consistent(hyps, timeout=4000):
    """A model of the hypotheses is found (uninterpreted operations may be any function)."""
    t = Z3T(True)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*[t.bool(h) for h in hyps])
    s.add(*t.axioms)
    return s.check() == z3.sat
