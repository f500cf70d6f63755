"""Writing contracts: symbolic arguments, running the function under contract, stating postconditions."""
from __future__ import annotations
import time
import traceback
from . import terms as T, core, values as V, hooks as H, models as M, npmodel as N, prover, history
from .core import FACTS, JOURNAL, RT, Unsupported, CannotMerge, under
from .values import Num, SBool, Arr, SList, poly, to_bool, is_num, tonum
from .loader import Loader
from .terms import as_poly, const, ZERO, ONE, TRUE, FALSE


def integer(nm, nonneg=True):
    return T.Var(nm, isint=True, nonneg=nonneg)


def real(nm, pos=False, nonneg=False):
    return Num(T.Var(nm, pos=pos, nonneg=nonneg))


def vec(nm, *shape, pos=False, nonneg=False, named=True, dtype=V.F8, contig=True):
    a = Arr.new(shape, lambda i: T.Read(nm, *i, pos=pos, nonneg=nonneg), V.dtype_of(dtype, narrow=True))
    a.contig = contig
    if named:
        a.st.name = nm
    return a


def el(a, *i):
    """Entry of a result array as a term."""
    if isinstance(a, Arr):
        return as_poly(a.at(tuple(as_poly(x) for x in i)))
    a = H.ungrown(a)
    if isinstance(a, Arr):
        return el(a, *i)
    if isinstance(a, (list, tuple)):
        c = as_poly(i[0]).const()
        x = a[int(c)]
        return el(x, *i[1:]) if len(i) > 1 else poly(x)
    if isinstance(a, N.Comp):
        return el(a.arr(), *i)
    raise Unsupported(f"result of type {type(a).__name__} where an array is expected")


def length(a):
    return as_poly(poly(H.symlen(a)))


class System:
    """A simultaneous recurrence of a specification, split into its strongly connected parts like a loop's."""

    def __init__(self, names, init, step):
        self.init = [as_poly(i) for i in init]
        xs = [T.fresh("x_" + nm) for nm in names]
        n = T.fresh("n", isint=True, nonneg=True)
        self.xs, self.n, self.steps = xs, n, [as_poly(s) for s in step(xs, n)]
        at = {x.atom(): i for i, x in enumerate(xs)}
        graph = {i: sorted({at[a] for a in T.free_atoms(s) if a in at}) for i, s in enumerate(self.steps)}
        self.val = {}
        for scc in H._sccs(list(graph), graph):
            scc = sorted(scc, key=lambda i: names[i])
            i = scc[0]
            if len(scc) == 1 and i not in graph[i]:
                self.val[i] = lambda k, i=i: self.delayed(i, k)
                continue
            ys = [T.fresh("y") for _ in scc]
            m = T.fresh("n", isint=True, nonneg=True)
            own = {xs[j].atom(): y for j, y in zip(scc, ys)}
            rs = T._intern_recsys([names[j] for j in scc], [self.init[j] for j in scc], [self.stepped(j, m, own) for j in scc], ys, m)
            for c, j in enumerate(scc):
                self.val[j] = lambda k, c=c, rs=rs: rs.at(c, k)

    def stepped(self, i, k, own=()):
        mp = dict(own)
        for j, x in enumerate(self.xs):
            if x.atom() not in mp and T.depends(self.steps[i], x.atom()):
                mp[x.atom()] = self.val[j](k)
        mp[self.n.atom()] = as_poly(k)
        return T.subst(self.steps[i], mp)

    def delayed(self, i, k):
        k = as_poly(k)
        if k.const() is not None and k.const() == 0:
            return self.init[i]
        with under(T.gt(k)):
            v = self.stepped(i, k - ONE)
        return core.ite(T.gt(k), v, self.init[i])

    def at(self, i, k):
        return self.val[i](as_poly(k))


class Group:
    """One function (or lemma) under contract: its obligations."""

    def __init__(self, name, fns, thunk, ext="pure"):
        self.name, self.fns, self.thunk, self.extmode = name, fns, thunk, ext
        self.results = []
        self.error = None
        self.keep = None         # kinds of obligations, None: all
        self.exec_s = self.solve_s = 0.0
        self.executed = []
        self.assumptions = {}
        self.used = {}

    def ext(self):
        if self.extmode == "pure":
            return {"frds.algorithms.utils.utils_ext": None, "frds.measures.measures_ext": None}
        if callable(self.extmode):
            return self.extmode()
        from . import cpp
        return cpp.extensions()


class Ctx:
    """State of one proof group."""
    histories = True

    def __init__(self, loader):
        self.L = loader
        self.obs = []
        self.notes = []
        self.reached = 0
        self.kind = None

    def fn(self, key):
        return self.L.fn(key)

    def prove(self, name, goal, hyps=(), kind="post"):
        if self.kind is not None:
            kind, name = self.kind, name + " (after an earlier call with other arguments)"
        self.obs.append(core.Obligation(name, FACTS.all() + [T.as_bool(h) for h in hyps], T.as_bool(goal), kind, "", ""))

    def lemma(self, name, goal, hyps=()):
        """An obligation of its own, usable from here on."""
        self.prove(name, goal, hyps, kind="lemma")
        FACTS.push(goal if not hyps else T.disj(goal, *[T.neg(h) for h in hyps]))

    def eq(self, name, a, b, hyps=()):
        self.prove(name, T.eq(as_poly(poly(a) if not isinstance(a, T.Poly) else a) - as_poly(poly(b) if not isinstance(b, T.Poly) else b)), hyps)

    def fail(self, name, why=""):
        self.prove(name + (": " + why if why else ""), FALSE)

    def run(self, key, call, pre=(), allow_raise=False):
        """Execute call() with key as the function under contract: list of outcomes (effects not applied)."""
        RT.target = key
        for b in pre:
            FACTS.push(b)
        return core.explore(call)

    def outcomes(self, call, key=None, raises=False):
        """Outcomes; raising outcomes become obligations (their path must be infeasible) unless `raises`."""
        RT.target = key
        outs = core.explore(call)
        good = []
        for o in outs:
            if o.kind == "raise" and not raises:
                self.prove("no exception (%s)" % (type(o.value).__name__,), T.neg(o.cond()) if o.pc else FALSE)
            else:
                good.append(o)
        if not good:
            self.prove("the function returns", FALSE)
        return good

    def each(self, call, post, key=None, reach=False):
        """post(value) under the path condition and in the heap of each returning path.
        reach: some path must be one of a successful fit."""
        before = self.reached
        self._each(call, post, key)
        if reach and self.reached == before:
            self.fail("some path is one of success")

    def _each(self, call, post, key):
        """Also from whatever state an earlier call, with other arguments, may leave behind."""
        born = JOURNAL.born
        outs = self.outcomes(call, key)
        self._posts(outs, post)
        if RT.opts or not self.histories:
            return           # estimations: what a second one does is specified by their own contracts
        for state in history.left_behind(outs, call, self.L, born):
            mark, n0 = JOURNAL.mark(), len(FACTS.stack)
            old, self.kind = self.kind, "history"
            done = len(RT.obligations)
            try:
                for loc, v in state:
                    JOURNAL.write(loc, v)
                self._posts(self.outcomes(call, key), post)
            finally:
                self.kind = old
                for ob in RT.obligations[done:]:
                    ob.kind = "history"
                del FACTS.stack[n0:]
                JOURNAL.rollback(mark)

    def _posts(self, outs, post):
        for o in outs:
            mark = JOURNAL.mark()
            n0 = len(FACTS.stack)
            try:
                for b in o.pc:
                    FACTS.push(b)
                core.apply_writes(o.writes)
                RT.opts[:] = o.opts
                post(o.value)
            finally:
                del FACTS.stack[n0:]
                JOURNAL.rollback(mark)

    def fit_succeeded(self, ok, n=1):
        """Inside the postcondition of a fit that calls the optimizer n times: is this the path of success?
        A fit succeeds exactly when its (last) optimizer does."""
        if len(RT.opts) != n:
            raise Unsupported("not %d call(s) of the optimizer" % n)
        opt = RT.opts[-1]["success"]
        if not isinstance(ok, (bool, V.SBool)):
            self.fail("estimation_success is a truth value")
            return False
        self.prove("the fit succeeds exactly when the optimizer does", equal_bool(to_bool(ok), opt))
        d = FACTS.decide(opt)
        if d is None:
            FACTS.push(opt)
        if d is not False:
            self.reached += 1
        return d is not False

    def scalar(self, name, v):
        if isinstance(v, Arr) and v.ndim == 0:
            return poly(v)
        if is_num(v):
            return poly(v)
        if isinstance(v, Arr) and all(V.pconst(s) == 1 for s in v.shape):
            return poly(v)
        self.fail(name, "not a number")
        return None

    def frame(self, names=()):
        """Nothing owned by the caller was written, the global random state untouched."""
        bad = sorted({str(x) for x in RT.frame_writes})
        self.prove("frame: arguments are not written" + (f" ({', '.join(bad)})" if bad else ""), FALSE if bad else TRUE, kind="frame")
        ev = [e for e in RT.events if "global" in e]
        self.prove("frame: global random state untouched" + (f" ({ev[0]})" if ev else ""), FALSE if ev else TRUE, kind="frame")


def equal_bool(a, b):
    return T.disj(T.conj(a, b), T.conj(T.neg(a), T.neg(b)))


def run_group(g, make_loader, seed=0, budget=60.0):
    RT.reset()
    FACTS.stack.clear()
    FACTS.cache.clear()
    JOURNAL.log.clear()
    T.CTX.pos.clear()
    T.CTX.nonneg.clear()
    V.NONFINITE.clear()
    t0 = time.time()
    c = None
    try:
        with core.limit(2.5 * budget):
            c = Ctx(make_loader())
            g.thunk(c)
    except core.TimeUp:
        g.error = "the symbolic execution exceeds its time limit"
        g.trace = ""
    except (Unsupported, CannotMerge, core.PathEnd, T.TermError) as e:
        g.error = f"{type(e).__name__}: {e}"
        g.trace = traceback.format_exc()
    except RecursionError as e:
        g.error = "recursion limit"
        g.trace = ""
    except Exception as e:
        g.error = f"engine: {type(e).__name__}: {e}"
        g.trace = traceback.format_exc()
    g.exec_s = time.time() - t0
    g.executed = sorted(RT.executed)
    g.assumptions = dict(RT.assumptions)
    g.used = dict(RT.used_contracts)
    obs = (c.obs if c else []) + RT.obligations
    if g.keep:
        obs = [o for o in obs if o.kind in g.keep or "second" in o.name]
    seen = set()
    t0 = time.time()
    for ob in obs:
        if ob.goal.kind == "true" and ob.kind in ("index", "shape"):
            continue
        k = (ob.name, tuple(ob.hyps), ob.goal)
        if k in seen:
            continue
        seen.add(k)
        left = 4 * budget - (time.time() - t0)
        r = prover.discharge(ob, min(budget, max(left, 3.0)), seed)
        r.kind = ob.kind
        if ob.kind in ("history", "soft") and r.status == "refuted":
            # history: the state left behind is over-approximated, a counterexample may not be reachable
            # soft: a sufficient condition of what is wanted
            r.status, r.backend = "unknown", ""
        g.results.append(r)
    g.solve_s = time.time() - t0
    # vacuity: the precondition of the group must be satisfiable
    return g
