"""C29: frame conditions of every function under contract, and the same result from a second call.

The groups of the other properties are executed again with the function under contract called twice on
the same object and arguments; of their obligations only the frame conditions (no write to anything the
caller passed, no use of numpy's global random state) and the equality of the two results are kept.
"""
import copy
from ..contract import *
from ..search import equal
from . import garch, fits, mgarch, lrmes, measures, micro, merton

SKIP = ("lemma", "= realized + impact", "joint likelihood")


def same(a, b):
    """Condition under which two results are the same, arrays entry by entry."""
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a._shape) == len(b._shape):
        ix = tuple(integer(f"entry.{i}") for i in range(len(a._shape)))
        inside = [T.gt(as_poly(s) - i) for s, i in zip(a._shape, ix)]
        shape = [T.eq(as_poly(x) - as_poly(y)) for x, y in zip(a._shape, b._shape)]
        with under(T.conj(*inside)):
            e = T.eq(as_poly(a.at(ix)) - as_poly(b.at(ix)))
        return T.conj(*shape, T.disj(e, *[T.neg(x) for x in inside]))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return T.conj(*[same(x, y) for x, y in zip(a, b)])
    return equal(a, b)


class Frames(Ctx):
    histories = False

    def __init__(self, c, twice):
        super().__init__(c.L)
        self.inner, self.twice = c, twice
        self.obs = c.obs

    def prove(self, name, goal, hyps=(), kind="post"):
        if kind == "frame" or "second" in name or kind == "lemma":
            super().prove(name, goal, hyps, kind)

    def fail(self, name, why=""):
        pass

    def outcomes(self, call, key=None, raises=False):
        if not self.twice:
            return super().outcomes(call, key, True)
        RT.target = key

        def two():
            a = call()
            RT.opts.clear()
            RT.counters.clear()
            s = a.snapshot() if isinstance(a, Arr) else a
            return a, s, call()
        out = []
        for o in core.explore(two):
            if o.kind == "raise":
                out += [o] if raises else []
                continue
            mark, n0 = JOURNAL.mark(), len(FACTS.stack)
            try:
                for f in o.pc:
                    FACTS.push(f)
                core.apply_writes(o.writes)
                a, s, b = o.value
                super().prove("the second call returns the same", same(a, b), kind="frame")
            finally:
                del FACTS.stack[n0:]
                JOURNAL.rollback(mark)
            out.append(core.Outcome("ret", a, o.pc, o.writes))
        return out


# functions that estimate: their second call is the subject of C07, C10, C21
ESTIMATES = (".fit", ".starting_values", "PIN.estimate", "init_params_grid_search")


def group(pid, g):
    h = copy.copy(g)
    h.name = f"{g.name} ({pid})"
    twice = not any(s in g.name for s in ESTIMATES)
    h.thunk = lambda c: g.thunk(Frames(c, twice))
    h.results = []
    h.keep = ("frame", "lemma")
    h.assumptions, h.used = {}, {}
    return h


GROUPS = {"C29": [group(pid, g) for m in (garch, fits, mgarch, lrmes, measures, micro, merton) for pid, gs in m.GROUPS.items() for g in gs if not any(s in g.name for s in SKIP)]}
