"""Symbolic execution of the real source: state, paths, values.

The repository's functions are not re-implemented: their source is read from /repo on every run,
control flow is rewritten mechanically (xform.py) so that tests and loops report to this module, and
the result runs under CPython on the symbolic values defined here.  Loops with a symbolic number of
iterations are turned into recurrences (their exact inductive meaning), conditionals into case
distinctions; nothing is unrolled to a bound.
"""
from __future__ import annotations
from fractions import Fraction as F
import contextlib
import itertools
import signal
import threading
from . import terms as T
from .terms import Poly, Bool, as_poly, const, ZERO, ONE, TRUE, FALSE


class Unsupported(Exception):
    """The construct is outside the fragment the engine can extract."""


class CannotMerge(Exception):
    pass


class PathEnd(Exception):
    """The current path is infeasible."""


class Missing:
    def __repr__(self):
        return "<unbound>"


MISSING = Missing()


# ------------------------------------------------------------------------------------- facts
class Facts:
    def __init__(self):
        self.stack = []
        self.cache = {}

    def push(self, b):
        self.stack.append(T.as_bool(b))

    def pop(self, n=1):
        if n:
            del self.stack[-n:]

    def all(self):
        return list(self.stack)

    def implied(self, b):
        """True if the facts prove b."""
        b = T.as_bool(b)
        if b.kind == "true":
            return True
        if b.kind == "false":
            return False
        if b in self.stack:
            return True
        key = (b, tuple(self.stack))
        r = self.cache.get(key)
        if r is None:
            from . import prover
            r = prover.quick_implied(self.stack, b)
            self.cache[key] = r
        return r

    def decide(self, b):
        """True / False / None."""
        b = T.as_bool(b)
        if b.kind == "true":
            return True
        if b.kind == "false":
            return False
        if self.implied(b):
            return True
        if self.implied(T.neg(b)):
            return False
        return None

    def simp(self, b):
        d = self.decide(b)
        return b if d is None else (TRUE if d else FALSE)


FACTS = Facts()


def under(*bs):
    class _U:
        def __enter__(self):
            for b in bs:
                FACTS.push(b)

        def __exit__(self, *a):
            FACTS.pop(len(bs))
            return False
    return _U()


def ite(c, a, b):
    c = T.as_bool(c)
    if c.kind not in ("true", "false"):
        d = FACTS.decide(c)
        if d is not None:
            return a if d else b
    return T.ite(c, a, b)


# ------------------------------------------------------------------------------------- journal
class Journal:
    """Undo log of every mutation, so that branches can be explored and merged."""

    def __init__(self):
        self.log = []
        self.born = 0

    def mark(self):
        return len(self.log), self.born

    def newborn(self):
        self.born += 1
        return self.born

    @staticmethod
    def get(loc):
        k = loc[0]
        if k == "st":
            return loc[1].fn
        if k == "at":
            return loc[1].__dict__.get(loc[2], MISSING)
        if k == "ls":
            return list(list.__iter__(loc[1]))
        if k == "di":
            return dict(dict.items(loc[1]))
        if k == "gl":
            return loc[1].get(loc[2], MISSING)
        raise Unsupported("location")

    @staticmethod
    def put(loc, v):
        k = loc[0]
        if k == "st":
            loc[1].fn = v
        elif k == "at":
            if isinstance(loc[1], type):
                if v is not MISSING:
                    type.__setattr__(loc[1], loc[2], v)
                elif loc[2] in loc[1].__dict__:
                    type.__delattr__(loc[1], loc[2])
            elif v is MISSING:
                loc[1].__dict__.pop(loc[2], None)
            else:
                loc[1].__dict__[loc[2]] = v
        elif k == "ls":
            list.__setitem__(loc[1], slice(None), v)
        elif k == "di":
            dict.clear(loc[1])
            dict.update(loc[1], v)
        elif k == "gl":
            if v is MISSING:
                loc[1].pop(loc[2], None)
            else:
                loc[1][loc[2]] = v

    def write(self, loc, v):
        self.log.append((loc, self.get(loc)))
        self.put(loc, v)

    @staticmethod
    def key(loc):
        return (loc[0], id(loc[1])) + tuple(loc[2:])

    def written(self, mark):
        out = {}
        for loc, old in self.log[mark[0]:]:
            k = self.key(loc)
            if k not in out:
                out[k] = (loc, old)
        return out

    def collect(self, mark):
        return {k: (loc, old, self.get(loc)) for k, (loc, old) in self.written(mark).items()}

    def rollback(self, mark):
        while len(self.log) > mark[0]:
            loc, old = self.log.pop()
            self.put(loc, old)


JOURNAL = Journal()


# ------------------------------------------------------------------------------------- obligations
class Obligation:
    def __init__(self, name, hyps, goal, kind, where, fn):
        self.name, self.hyps, self.goal, self.kind, self.where, self.fn = name, hyps, goal, kind, where, fn


class Runtime:
    def __init__(self):
        self.reset()

    def reset(self):
        self.obligations = []
        self.explorers = []
        self.fn_stack = []
        self.assumptions = {}
        self.contracts = {}
        self.used_contracts = {}
        self.counters = {}
        self.events = []
        self.frame_writes = []
        self.target = None
        self.executed = set()
        self.nan_aware = False
        self.safety = True
        self.ext = {}
        self.opts = []
        self.loop_marks = []
        self.merged = {}
        self.roots = []
        self.split_at = None    # call depth whose conditionals are not merged

    def oblige(self, goal, kind, what, where=""):
        if kind == "index" and not self.safety:
            return
        goal = FACTS.simp(T.as_bool(goal)) if isinstance(goal, Bool) else goal
        self.obligations.append(Obligation(what, FACTS.all(), goal, kind, where, ".".join(self.fn_stack[-1:])))

    def assume_note(self, key, text):
        self.assumptions[key] = text

    def counter(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1
        return self.counters[k]


RT = Runtime()


# ------------------------------------------------------------------------------------- paths
class Explorer:
    """Enumerates the paths of one piece of code by replaying decisions."""

    LIMIT = 400

    def __init__(self):
        self.todo = [[]]
        self.count = 0

    def more(self):
        return bool(self.todo)

    def start(self):
        self.prefix = self.todo.pop()
        self.pos = 0
        self.trail = []
        self.nfacts = len(FACTS.stack)
        self.pc = []
        self.count += 1
        if self.count > self.LIMIT:
            raise Unsupported("too many paths")

    def decide(self, c):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.todo.append(self.trail + [False])
        self.pos += 1
        self.trail.append(v)
        b = c if v else T.neg(c)
        self.pc.append(b)
        FACTS.push(b)
        return v

    def stop(self):
        del FACTS.stack[self.nfacts:]


class TimeUp(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """Raise TimeUp in the block after so many seconds (in the main thread of a process; elsewhere no limit)."""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def up(*a):
        raise TimeUp()
    old = signal.signal(signal.SIGALRM, up)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def decide(c):
    if isinstance(c, bool):
        return c
    c = T.as_bool(c)
    d = FACTS.decide(c)
    if d is not None:
        return d
    if not RT.explorers:
        raise Unsupported("undecided condition outside a function: %r" % (c,))
    return RT.explorers[-1].decide(c)


class SymRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Outcome:
    def __init__(self, kind, value, pc, writes):
        self.kind, self.value, self.pc, self.writes = kind, value, pc, writes
        self.opts = list(RT.opts)

    def cond(self):
        return T.conj(*self.pc)


def explore(thunk):
    """All paths of thunk(): list of Outcome; the heap is rolled back after each."""
    ex = Explorer()
    out = []
    # the optimizer calls made so far are part of the path
    opts0, count0 = list(RT.opts), RT.counters.get("minimize", 0)
    while ex.more():
        RT.opts[:] = opts0
        RT.counters["minimize"] = count0
        mark = JOURNAL.mark()
        depth = len(RT.explorers)
        fdepth = len(RT.fn_stack)
        ex.start()
        RT.explorers.append(ex)
        try:
            try:
                v = thunk()
                kind = "ret"
            except PathEnd:
                kind, v = "dead", None
            except (SymRaise, AssertionError, ValueError, TypeError, KeyError, IndexError, NotImplementedError,
                    RuntimeError, ZeroDivisionError, AttributeError) as e:
                if isinstance(e, (T.TermError,)):
                    raise
                if isinstance(e, RecursionError):
                    raise
                kind, v = "raise", e
                if not isinstance(e, SymRaise) and not getattr(e, "_from_code", False):
                    # an exception of the engine itself, not of the code
                    raise
        finally:
            del RT.explorers[depth:]
            del RT.fn_stack[fdepth:]
            pc = list(ex.pc)
            ex.stop()
            writes = JOURNAL.collect(mark)
            JOURNAL.rollback(mark)
        if kind != "dead":
            out.append(Outcome(kind, v, pc, writes))
    longest = max((o.opts for o in out), key=len, default=opts0)
    RT.opts[:] = longest
    RT.counters["minimize"] = count0 + len(longest) - len(opts0)
    return out


def apply_writes(writes):
    for k, (loc, old, new) in writes.items():
        JOURNAL.write(loc, new)


def merge_writes(c, wa, wb):
    """Heap after `if c then (writes wa) else (writes wb)`; the heap is in the state before both."""
    res = []
    keys = list(wa) + [k for k in wb if k not in wa]
    # attributes of objects that only one branch created: needed to merge references to them
    for k in keys:
        ea, eb = wa.get(k), wb.get(k)
        if (ea is None or eb is None) and (ea or eb)[1] is MISSING:
            JOURNAL.write((ea or eb)[0], (ea or eb)[2])
    for k in keys:
        ea, eb = wa.get(k), wb.get(k)
        loc, old = (ea or eb)[0], (ea or eb)[1]
        if (ea is None or eb is None) and old is MISSING:
            continue
        va = ea[2] if ea else old
        vb = eb[2] if eb else old
        res.append((loc, merge_loc(c, loc, va, vb)))
    for loc, v in res:
        JOURNAL.write(loc, v)


def merge_loc(c, loc, va, vb):
    if loc[0] == "st":
        if va is vb:
            return va
        return lambda idx, va=va, vb=vb: ite(c, va(idx), vb(idx))
    if loc[0] == "ls":
        if len(va) != len(vb) or va and vb and any(type(x).__name__ == "Maybe" for x in (va[-1], vb[-1])):
            if RT.loop_marks and loc[1].born <= RT.loop_marks[-1]:
                from . import values as V
                return V.merge_grown(c, va, vb)
            raise CannotMerge("lists of different lengths")
        return [merge(c, x, y) for x, y in zip(va, vb)]
    if va is MISSING:
        return vb
    if vb is MISSING:
        return va
    if loc[0] == "di":
        if set(va) != set(vb):
            raise CannotMerge("dicts")
        return {k: merge(c, va[k], vb[k]) for k in va}
    return merge(c, va, vb)


def merge(c, a, b):
    if a is b:
        return a
    if a is MISSING:
        return b
    if b is MISSING:
        return a
    from . import values as V
    if isinstance(a, V.Arr) and isinstance(b, V.Arr):
        return V.merge_arr(c, a, b)
    if isinstance(a, (V.SBool, bool)) and isinstance(b, (V.SBool, bool)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return V.SBool(ite(c, V.to_bool(a), V.to_bool(b)))
    if V.is_num(a) and V.is_num(b):
        return V.merge_num(c, a, b)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        r = [merge(c, x, y) for x, y in zip(a, b)]
        if hasattr(a, "_fields"):
            return type(a)(*r)
        if isinstance(a, tuple):
            return tuple(r)
        if isinstance(a, V.SList):
            return V.SList(r)
        return r
    if isinstance(a, dict) and type(a) is type(b) and set(a) == set(b):
        return type(a)({k: merge(c, a[k], b[k]) for k in a})
    if type(a) is type(b) and getattr(type(a), "_frds_class", False):
        memo = RT.merged.get((c, id(a), id(b)))
        now = [(k, v) for x in (a, b) for k, v in x.__dict__.items()]
        if memo is not None and memo[0] is a and memo[1] is b and len(now) == len(memo[2]) and all(p == q and x is y for (p, x), (q, y) in zip(now, memo[2])):
            return memo[3]          # references to one object on each branch stay references to one object
        o = object.__new__(type(a))
        RT.merged[(c, id(a), id(b))] = (a, b, now, o)
        if set(a.__dict__) != set(b.__dict__):
            raise CannotMerge("objects with different attributes")
        for k in a.__dict__:
            o.__dict__[k] = merge(c, a.__dict__[k], b.__dict__[k])
        return o
    if isinstance(a, V.Sym) and isinstance(b, V.Sym) and type(a) is type(b):
        return a.merge(c, b)
    try:
        if type(a) is type(b) and a == b:
            return a
    except Exception:
        pass
    raise CannotMerge("%s / %s" % (type(a).__name__, type(b).__name__))


def call_merged(thunk, name):
    """Run a callee on all its paths and merge the results (and effects) into one value."""
    outs = explore(thunk)
    if not outs:
        raise PathEnd()
    if len(outs) == 1:
        o = outs[0]
        apply_writes(o.writes)
        for b in o.pc:
            pass
        if o.kind == "raise":
            raise o.value
        return o.value
    rets = [o for o in outs if o.kind == "ret"]
    bad = [o for o in outs if o.kind == "raise"]
    if bad:
        # an exception on some paths: the caller forks
        for o in bad:
            if decide(o.cond()):
                apply_writes(o.writes)
                raise o.value
        if not rets:
            raise PathEnd()
        outs = rets
        if len(outs) == 1:
            apply_writes(outs[0].writes)
            return outs[0].value
    try:
        v, w = outs[-1].value, outs[-1].writes
        mark = JOURNAL.mark()
        for o in reversed(outs[:-1]):
            c = o.cond()
            merge_writes(c, o.writes, w)
            nv = merge(c, o.value, v)
            w = JOURNAL.collect(mark)
            JOURNAL.rollback(mark)
            v = nv
        apply_writes(w)
        return v
    except CannotMerge:
        for o in outs[:-1]:
            if decide(o.cond()):
                apply_writes(o.writes)
                return o.value
        apply_writes(outs[-1].writes)
        return outs[-1].value
