"""C06, C07: likelihood, starting values and fit of the univariate models."""
from ..contract import *
from .. import core
from ..search import Trials, equal, snapshot, pairs, differing
from .garch import G, J, bounds
import itertools

HALF = ONE / const(2)
PI2 = lambda: const(2) * T.App("pi")


class Margins:
    """The conditional variances, backcasts and variance bounds of constant-mean residual series, as opaque
    functions of exactly what they may depend on: their own contracts are C01-C04."""

    def __init__(self, c, classes, assets, n, given=()):
        """assets: {name of the returns array: its entry at t}; given: bounds arrays the caller passes in."""
        self.c, self.assets, self.n, self.given = c, assets, n, list(given)
        self.t = integer("margin.t")
        self.seen = []
        c_ = RT.contracts
        for K in classes:
            npar = 4 if K == J else 3
            c_[K + ".compute_variance"] = lambda f, params=None, resids=None, backcast=None, var_bounds=None, npar=npar: self.variance(npar, params, resids, backcast, var_bounds)
        c_[G + ".backcast"] = lambda f, resids=None: Num(self.backcast(resids))
        c_[G + ".variance_bounds"] = lambda f, resids=None: self.bounds(resids)

    def identify(self, resids):
        """(asset, mean) such that resids is the asset's returns minus the mean."""
        if not isinstance(resids, Arr) or resids.ndim != 1:
            raise Unsupported("residuals that are not a vector")
        self.c.prove("one residual per period", T.eq(as_poly(resids._shape[0]) - self.n))
        r = as_poly(resids.at((self.t,)))
        for i, (nm, ret) in enumerate(self.assets.items()):
            mu = ret(self.t) - r
            if not T.depends(mu, self.t.atom()):
                return i, mu
        raise Unsupported("residuals that are not the returns less a constant")

    def backcast(self, resids):
        i, mu = self.identify(resids)
        return T.Read("backcast", const(i), mu, nonneg=True)

    def bounds(self, resids):
        i, mu = self.identify(resids)
        a = Arr.new((self.n, 2), lambda ix: T.Read("bounds", ix[0], ix[1], const(i), mu, pos=True))
        self.seen.append((i, mu))
        return a

    def which_bounds(self, vb):
        k = integer("margin.k")
        if isinstance(vb, Arr) and vb.ndim == 2:
            x = as_poly(vb.at((self.t, k)))
            for i, mu in self.seen:
                if x == T.Read("bounds", self.t, k, const(i), mu, pos=True):
                    return const(i), mu
            for j, g in enumerate(self.given):
                if as_poly(vb.at((self.t, ZERO))) == as_poly(g.at((self.t, ZERO))) and as_poly(vb.at((self.t, ONE))) == as_poly(g.at((self.t, ONE))):
                    return const(-1 - j), ZERO
        raise Unsupported("variance bounds that are neither computed from residuals nor given")

    def variance(self, npar, params, resids, bc, vb):
        ps = [poly(p) for p in items(params)]
        self.c.prove("number of variance parameters", TRUE if len(ps) == npar else FALSE)
        i, mu = self.identify(resids)
        tag = self.which_bounds(vb)
        return Arr.new((self.n,), lambda ix: self.cv(ix[0], ps, i, mu, poly(bc), tag))

    @staticmethod
    def cv(t, ps, i, mu, bc, tag):
        return T.Read("variance", t, *ps, const(i), mu, bc, *tag, pos=True)


def items(p):
    if isinstance(p, Arr):
        m = p._shape[0]
        if not isinstance(m, int):
            raise Unsupported("parameters of unknown number")
        return [Num(as_poly(p.at((const(i),)))) for i in range(m)]
    return list(p)


def gaussian(n, r, s):
    """Log density of N(0, s) at r, summed."""
    return T.Sum(n, lambda t: -HALF * (T.log(PI2()) + T.log(s(t)) + r(t) ** 2 / s(t)))


PN = {G: ("omega", "alpha", "beta"), J: ("omega", "alpha", "gamma", "beta")}


# ---------------------------------------------------------------- C06
def loglik(cls):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        r, s = vec("resids", n), vec("sigma2", n, pos=True)

        def post(v):
            v = c.scalar("log-likelihood", v)
            if v is not None:
                c.eq("sum of normal log densities", v, gaussian(n, lambda t: T.Read("resids", t), lambda t: T.Read("sigma2", t, pos=True)))
        c.each(lambda: c.fn(cls).loglikelihood(r, s), post, cls + ".loglikelihood")
        c.frame()
    return thunk


def objective(cls):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        ret = lambda t: T.Read("returns", t)
        vb, lo, hi = bounds("var_bounds", n)
        m = Margins(c, (cls,), {"returns": ret}, n, given=[vb])
        bc = real("backcast")
        ps = [T.Var(x) for x in PN[cls]]
        mu = T.Var("mu")
        for zero in (False, True):
            o = c.fn(cls)(vec("returns", n), zero_mean=zero)
            m0 = ZERO if zero else mu
            want = -gaussian(n, lambda t: ret(t) - m0, lambda t: m.cv(t, ps, 0, m0, poly(bc), (const(-1), ZERO)))

            def post(v):
                v = c.scalar("objective", v)
                if v is not None:
                    c.eq("minus the log-likelihood of the " + ("zero-mean" if zero else "constant-mean") + " model", v, want)
            x = V.as_arr([Num(p) for p in ([] if zero else [mu]) + ps])
            c.each(lambda: o.loglikelihood_model(x, bc, vb, zero), post, cls + ".loglikelihood_model")
            if not zero:
                c.each(lambda: o.loglikelihood_model(x, bc, vb), post, cls + ".loglikelihood_model")
        c.frame()
    return thunk


GRID = {"persistence": (0.5, 0.7, 0.9, 0.98), "news": (0.01, 0.05, 0.1, 0.2)}


def starting(cls):
    """starting_values, as preparation calls it: the best point of the grid."""
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        ret = lambda t: T.Read("returns", t)
        m = Margins(c, (cls,), {"returns": ret}, n)
        mean = T.Sum(n, ret) / n
        var = T.Sum(n, lambda t: (ret(t) - mean) ** 2) / n
        for zero in (False, True):
            o = c.fn(cls)(vec("returns", n), zero_mean=zero)
            m0 = ZERO if zero else mean
            bc, tag = T.Read("backcast", ZERO, m0, nonneg=True), (ZERO, m0)
            layout = {}

            def point(k, perm):
                """[omega, alpha, (gamma), beta] of trial k, the components of the grid being named by perm."""
                p, *news = [T.Read("grid." + x, k) for x in perm]
                if cls == G:
                    return [var * (ONE - p), news[0], p - news[0]]
                return [var * (ONE - p), news[0], news[1], p - news[0] - news[1] / const(2)]

            def lik(k):
                ps = point(k, layout["perm"])
                return gaussian(n, lambda t: ret(t) - m0, lambda t: m.cv(t, ps, 0, m0, bc, tag))

            def product(*its):
                got = [tuple(V.pconst(x) for x in list(i)) for i in its]
                want = [tuple(core.F(str(x)) for x in GRID[g]) for g in (("persistence", "news") if cls == G else ("persistence", "news", "news"))]
                ok = sorted(tuple(sorted(x)) for x in got) == sorted(want)
                c.prove("the documented grid", TRUE if ok else FALSE)
                if not ok:
                    raise Unsupported("another grid")
                ip = [sorted(x) for x in got].index(sorted(want[0]))
                others = [i for i in range(len(got)) if i != ip]
                layout["perm"] = [str(ip)] + [str(i) for i in layout["order"](others)]
                return Trials(c, o, lambda k: TRUE, lambda k, j: T.gt(lik(k) - lik(j)),
                              lambda k: tuple(Num(T.Read(f"grid.{i}", k)) for i in range(len(its))), some=TRUE)

            def post(v):
                v = items(v)
                if not zero:
                    c.eq("the first starting value is the sample mean", poly(v[0]), mean)
                    v = v[1:]
                j = integer("trial.j")
                c.prove("number of starting values", TRUE if len(v) == len(PN[cls]) else FALSE)
                for nm, x, y in zip(PN[cls], v, point(j, layout["perm"])):
                    c.eq(f"{nm} of the grid point with the highest log-likelihood", poly(x), y)
            RT.ext["product"] = product
            # the two news components of the GJR grid have the same values: either order
            layout["order"] = lambda x: x
            c.each(lambda: o.preparation(), post, cls + ".preparation")
        c.frame()
    return thunk


# ---------------------------------------------------------------- C07
TINY = const("0.000001")


def searchable(c, opt, region, what="parameters"):
    """The optimizer may reach every point of the admissible region: its bounds and constraints exclude none."""
    for f in opt["facts"]:
        if f.kind == "true":
            continue
        c.prove(f"the bounds and constraints of the optimizer exclude no admissible {what}", f, region)


def garch_region(cls, om, rest):
    """Admissible (omega, alpha, (gamma,) beta); the coefficients are allowed a lower bound of up to 1e-6."""
    pers = rest[0] + rest[-1] + (rest[1] / const(2) if cls == J else ZERO)
    return [T.ge(om - TINY)] + [T.ge(v - TINY) for v in rest] + [T.ge(ONE - v) for v in rest] + [T.ge(ONE - pers)]


def fitted(cls):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        ret = lambda t: T.Read("returns", t)
        m = Margins(c, (cls,), {"returns": ret}, n)
        mean = T.Sum(n, ret) / n
        npar = len(PN[cls])
        RT.contracts[cls + ".starting_values"] = lambda f, self, resids=None: SList([Num(T.Var("start." + x)) for x in PN[cls]])
        t = integer("t")
        for zero in (False, True):
            RT.opts.clear()
            o = c.fn(cls)(vec("returns", n), zero_mean=zero)
            m0 = ZERO if zero else mean
            bc, tag = T.Read("backcast", ZERO, m0, nonneg=True), (ZERO, m0)

            def post(p):
                if not c.fit_succeeded(o.estimation_success):
                    return
                opt = RT.opts[-1]
                x = list(opt["x"])
                want = ([ZERO] + x) if zero else x
                c.prove("number of parameters", TRUE if len(want) == npar + 1 else FALSE)
                if len(want) == npar + 1:
                    searchable(c, opt, garch_region(cls, want[1], want[2:]))
                    start = ([] if zero else [mean]) + [T.Var("start." + x) for x in PN[cls]]
                    for nm, a, b in zip(("mu",)[zero:] + PN[cls], opt["x0"], start):
                        c.eq(f"the optimizer starts from the starting value of {nm}", a, b)
                for b in opt["facts"]:
                    FACTS.push(b)
                got = [poly(getattr(p, nm)) for nm in ("mu",) + PN[cls]]
                for nm, a, b in zip(("mu",) + PN[cls], got, want):
                    c.eq(f"{nm} is the optimizer's", a, b)
                mu, om, rest = got[0], got[1], got[2:]
                c.prove("omega is at least 1e-6", T.ge(om - const("0.000001")))
                for nm, v in zip(PN[cls][1:], rest):
                    c.prove(f"{nm} is not negative", T.ge(v))
                    c.prove(f"{nm} is at most 1", T.ge(ONE - v))
                pers = rest[0] + rest[-1] + (rest[1] / const(2) if cls == J else ZERO)
                c.prove("persistence is at most 1", T.ge(ONE - pers))
                s2 = lambda k: m.cv(k, got[1:], 0, mu, bc, tag)
                c.eq("loglikelihood is that of the parameters", poly(p.loglikelihood), gaussian(n, lambda k: ret(k) - mu, s2))
                c.eq("one residual per period", length(o.resids), n)
                c.eq("one variance per period", length(o.sigma2), n)
                with under(T.gt(n - t)):
                    c.eq("resids is returns less mu", el(o.resids, t), ret(t) - mu)
                    c.eq("sigma2 is the variance path at the parameters", el(o.sigma2, t), s2(t))
                c.prove("the parameters are kept on the object", TRUE if p is o.parameters else equal(p, o.parameters))
                # fitting again
                before, k = snapshot(o), len(RT.opts)

                def again(q):
                    c.prove("a second fit does not estimate again", TRUE if len(RT.opts) == k else FALSE)
                    c.prove("a second fit returns the same parameters", TRUE if q is p else equal(q, p))
                    for nm, a, b in pairs(before, snapshot(o)):
                        c.prove(f"a second fit leaves {nm} as it was", equal(a, b))
                c.each(lambda: o.fit(), again, cls + ".fit")
            c.each(lambda: fresh_fit(o), post, cls + ".fit", reach=True)
        c.frame()
    return thunk


def fresh_fit(o):
    """Every path of the fit calls the same optimizer."""
    RT.opts.clear()
    RT.counters["minimize"] = 0
    return o.fit()


GROUPS = {
    "C06": [Group(nm + f, [K + "." + f for f in fs], th(K)) for nm, K in (("GARCHModel.", G), ("GJRGARCHModel.", J))
            for f, fs, th in (("loglikelihood", ["loglikelihood"], loglik), ("loglikelihood_model", ["loglikelihood_model"], objective),
                              ("starting_values", ["preparation", "starting_values"], starting))],
    "C07": [Group("GARCHModel.fit", [G + ".fit", G + ".preparation"], fitted(G)), Group("GJRGARCHModel.fit", [J + ".fit", G + ".preparation"], fitted(J))],
}
