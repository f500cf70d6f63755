"""Loop contract for searches: keep the best of any number of trials."""
from .contract import *
from . import core


class Trials:
    """Any number of trials, each with its own value: the loop over them is proved with the invariant
    `either no trial qualified so far and the state is the initial one, or the state is the one left by a
    qualifying trial j, and no qualifying trial so far had a better value`.
    `some`: condition under which some trial qualifies."""

    def __init__(self, c, obj, qualifies, better, item, some=None):
        self.c, self.obj, self.qualifies, self.better, self.item = c, obj, qualifies, better, item
        self.some = some if some is not None else T.BApp("some trial qualifies")

    def step(self, k, vals, body):
        """(condition, what happened, outcome) of one iteration from the current state."""
        def run():
            old, RT.split_at = RT.split_at, len(RT.fn_stack)
            try:
                flag, rv, out = body(self.item(k), *vals)
            finally:
                RT.split_at = old
            if flag != "next":
                raise Unsupported("early exit from the search")
            return out, self.snap(out)
        before = self.snap(vals)
        res = []
        for o in core.explore(run):
            if o.kind != "ret":
                res.append((o.cond(), "raise", o))
            else:
                res.append((o.cond(), "same" if not differing(before, o.value[1]) else "changed", o))
        return res

    def snap(self, vals):
        d = dict(snapshot(self.obj))
        for i, v in enumerate(vals):
            d[f"local {i}"] = snapshot(v)
        return d

    def contract_loop(self, body, vals, names, line):
        c = self.c
        # names bound only inside the body are not part of the state
        j, k = integer("trial.j"), integer("trial.k")
        Q, better = self.qualifies, self.better
        live = [i for i, v in enumerate(vals) if v is not core.MISSING]
        full = self.snap
        self.snap = lambda vs: full([vs[i] for i in live])
        first = self.step(j, vals, body)
        U = self.outcome(first)
        for cond, kind, x in first:
            if kind == "raise":
                c.fail("no exception in the search", type(x.value).__name__)
            elif kind == "same":
                c.prove("the first trial that qualifies is recorded", T.neg(T.conj(cond, Q(j))))
            else:
                c.prove("only a qualifying trial is recorded", Q(j), [cond])
        Uk = self.outcome(self.step(k, vals, body))
        # from the state left by j
        mark = JOURNAL.mark()
        n0 = len(FACTS.stack)
        FACTS.push(Q(j))
        core.apply_writes(U.writes)
        for cond, kind, x in self.step(k, U.value[0], body):
            if kind == "raise":
                c.fail("no exception in the search", type(x.value).__name__)
            elif kind == "same":
                c.prove("a better trial replaces the recorded one", T.neg(T.conj(cond, Q(k), better(k, j))))
            else:
                c.prove("only a qualifying trial replaces the recorded one", Q(k), [cond])
                c.prove("a worse trial does not replace the recorded one", T.neg(better(j, k)), [cond, Q(k)])
                for nm, a, b in pairs(x.value[1], Uk.value[1]):
                    c.prove(f"everything recorded belongs to the same trial ({nm})", equal(a, b), [cond, Q(k)])
        del FACTS.stack[n0:]
        JOURNAL.rollback(mark)
        # after the loop: none qualified, or the one of the highest log-likelihood
        if core.decide(self.some):
            FACTS.push(Q(j))
            core.apply_writes(U.writes)
            return ("next", None, U.value[0])
        return ("next", None, vals)

    def outcome(self, res):
        xs = [x for _, kd, x in res if kd == "changed"]
        if len(xs) != 1:
            raise Unsupported(f"the state of the search is recorded on {len(xs)} paths: " + "; ".join(f"{kd}: {c}" for c, kd, _ in res)[:1500])
        return xs[0]


def snapshot(v, depth=0):
    if getattr(type(v), "_frds_class", False) and depth < 4:
        return {k: snapshot(x, depth + 1) for k, x in v.__dict__.items()}
    if isinstance(v, Arr):
        return v.snapshot()
    if isinstance(v, (list, tuple)):
        return tuple(snapshot(x, depth + 1) for x in v)
    return v


def pairs(a, b, nm=""):
    """Leaves of two snapshots."""
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            yield from pairs(a[k], b[k], nm + "." + k if nm else k)
    else:
        yield nm, a, b


def differing(a, b):
    return any(not same_value(x, y) for _, x, y in pairs(a, b))


def same_value(a, b):
    if a is b:
        return True
    try:
        return equal(a, b).kind == "true"
    except Unsupported:
        return False


def equal(a, b):
    """Condition under which two values are the same."""
    if a is b:
        return TRUE
    if callable(a) and callable(b) and not isinstance(a, Arr):
        try:
            return T.eq(as_poly(a(())) - as_poly(b(())))
        except Exception:
            raise Unsupported("array state in a search")
    if isinstance(a, (bool, V.SBool)) and isinstance(b, (bool, V.SBool)):
        x, y = to_bool(a), to_bool(b)
        return T.disj(T.conj(x, y), T.conj(T.neg(x), T.neg(y)))
    if is_num(a) and is_num(b):
        x, y = tonum(a), tonum(b)
        if x.special or y.special:
            return TRUE if x.special == y.special else FALSE
        return T.eq(x.p - y.p)
    if isinstance(a, Arr) and isinstance(b, Arr) and a._shape == b._shape and all(isinstance(s, int) for s in a._shape):
        return T.conj(*[T.eq(as_poly(a.at(tuple(map(const, i)))) - as_poly(b.at(tuple(map(const, i))))) for i in H._indices(a._shape)])
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a._shape) == len(b._shape):
        if any(as_poly(x) != as_poly(y) for x, y in zip(a._shape, b._shape)):
            return FALSE
        ix = [integer(f"state.{i}") for i in range(len(a._shape))]
        if as_poly(a.at(tuple(ix))) == as_poly(b.at(tuple(ix))):
            return TRUE
        raise Unsupported("array state in a search")
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return T.conj(*[equal(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
    if isinstance(a, dict) and isinstance(b, dict):
        return T.conj(*[equal(a[k], b[k]) for k in a]) if set(a) == set(b) else FALSE
    if type(a) is type(b) and getattr(type(a), "_frds_class", False):
        return equal(a.__dict__, b.__dict__)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None or a is core.MISSING or b is core.MISSING:
        return TRUE if type(a) is type(b) and a == b else FALSE
    if type(a) is not type(b):
        return FALSE
    raise Unsupported("state of type " + type(a).__name__)


