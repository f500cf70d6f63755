"""C08-C10: bivariate models with constant and dynamic conditional correlation."""
from ..contract import *
from .. import core
from ..search import Trials, equal, snapshot, pairs
from .garch import G, J
from .fits import Margins, searchable, garch_region, TINY, gaussian, PN, HALF, PI2, items

B = "frds.algorithms._mgarch:"
CCC, DCC, GDCC = B + "GARCHModel_CCC", B + "GARCHModel_DCC", B + "GJRGARCHModel_DCC"


def correlation():
    """A correlation strictly inside (-1, 1)."""
    r = T.Var("rho")
    for x in (ONE - r, ONE + r):
        FACTS.push(T.gt(x))
    T.CTX.add_pos(ONE - r * r)
    FACTS.push(T.gt(ONE - r * r))
    return r


def bivariate(n, r1, s1, r2, s2, rho):
    """Log density of the bivariate normal, summed; rho: function of the period."""
    def term(t):
        q = ONE - rho(t) * rho(t)
        z1, z2 = r1(t) / T.sqrt(s1(t)), r2(t) / T.sqrt(s2(t))
        return -T.log(PI2()) - HALF * T.log(s1(t) * s2(t) * q) - HALF * (z1 * z1 - const(2) * rho(t) * z1 * z2 + z2 * z2) / q
    return T.Sum(n, term)


def rd(nm, pos=False):
    return lambda t: T.Read(nm, t, pos=pos)


# ---------------------------------------------------------------- C08
def ccc_like(c):
    n = integer("T")
    FACTS.push(T.gt(n))
    rho = correlation()
    r1, r2, s1, s2 = rd("resids1"), rd("resids2"), rd("sigma2_1", True), rd("sigma2_2", True)
    o = c.fn(CCC)(vec("returns1", n), vec("returns2", n))
    A = (vec("resids1", n), vec("sigma2_1", n, pos=True)), (vec("resids2", n), vec("sigma2_2", n, pos=True))
    for what, first, second, corr, want in (("bivariate normal log density", *A, rho, bivariate(n, r1, s1, r2, s2, lambda t: rho)),
                                            ("the same with the assets swapped", A[1], A[0], rho, bivariate(n, r1, s1, r2, s2, lambda t: rho)),
                                            ("the sum of the univariate ones without correlation", *A, ZERO, gaussian(n, r1, s1) + gaussian(n, r2, s2))):
        def post(v, what=what, want=want):
            v = c.scalar("log-likelihood", v)
            if v is not None:
                c.eq(what, v, want)
        c.each(lambda: o.loglikelihood(*first, *second, Num(corr)), post, CCC + ".loglikelihood")
    c.frame()


def ccc_objective(c):
    n = integer("T")
    FACTS.push(T.gt(n))
    rho = correlation()
    x1, x2 = rd("returns1"), rd("returns2")
    m = Margins(c, (G,), {"returns1": x1, "returns2": x2}, n)
    o = c.fn(CCC)(vec("returns1", n), vec("returns2", n))
    p1, p2 = [[T.Var(x + k) for x in PN[G]] for k in "12"]
    mu1, mu2 = T.Var("mu1"), T.Var("mu2")
    bc = lambda i, mu: T.Read("backcast", const(i), mu, nonneg=True)
    s1 = lambda t: m.cv(t, p1, 0, mu1, bc(0, mu1), (ZERO, mu1))
    s2 = lambda t: m.cv(t, p2, 1, mu2, bc(1, mu2), (ONE, mu2))
    want = -bivariate(n, lambda t: x1(t) - mu1, s1, lambda t: x2(t) - mu2, s2, lambda t: rho)
    x = V.as_arr([Num(v) for v in [mu1, *p1, mu2, *p2, rho]])
    K = G
    # whatever the caller passes, as long as it belongs to the residuals of the parameters
    vb = [m.bounds(N.sub(vec(nm, n), Num(mu)) if hasattr(N, "sub") else vec(nm, n) - Num(mu)) for nm, mu in (("returns1", mu1), ("returns2", mu2))]

    def post(v):
        v = c.scalar("objective", v)
        if v is not None:
            c.eq("minus the bivariate log-likelihood, each asset with its own residuals, backcast, bounds and variances", v, want)
    c.each(lambda: o.loglikelihood_model(x, Num(bc(0, mu1)), Num(bc(1, mu2)), *vb), post, CCC + ".loglikelihood_model")
    c.frame()


def margin_fit(c, cls, n, t):
    """C07: after a fit the margin's parameters, residuals and variances belong together."""
    def fit(f, self):
        if self.estimation_success is True:
            return self.parameters
        at = as_poly(self.returns.at((t,)))
        k = {T.Read("returns" + k, t): k for k in "12"}.get(at)
        if k is None:
            raise Unsupported("margin of other returns")
        self.resids, self.sigma2 = vec("resids" + k, n, named=False), vec("sigma2_" + k, n, pos=True, named=False)
        self.backcast_value, self.var_bounds = Num(T.Var("backcast" + k, nonneg=True)), vec("var_bounds" + k, n, 2, named=False)
        self.parameters = type(self).Parameters(Num(T.Var("mu" + k)), *[Num(T.Var(x + k)) for x in PN[cls]], loglikelihood=Num(T.Var("loglik" + k)))
        self.estimation_success = True
        return self.parameters
    return fit


def sample_correlation(n, z1, z2):
    m1, m2 = T.Sum(n, z1) / n, T.Sum(n, z2) / n
    s = lambda f, mf, g, mg: T.Sum(n, lambda k: (f(k) - mf) * (g(k) - mg))
    return s(z1, m1, z2, m2) / T.sqrt(s(z1, m1, z1, m1) * s(z2, m2, z2, m2))


def ccc_fit(c):
    n, t = integer("T"), integer("t")
    FACTS.push(T.gt(n - ONE))
    T.CTX.add_pos(n - ONE)
    x1, x2 = rd("returns1"), rd("returns2")
    m = Margins(c, (G,), {"returns1": x1, "returns2": x2}, n)
    RT.contracts[G + ".fit"] = margin_fit(c, G, n, t)
    o = c.fn(CCC)(vec("returns1", n), vec("returns2", n))
    names = [x + k for k in "12" for x in ("mu",) + PN[G]] + ["rho"]

    def run():
        RT.opts.clear()
        RT.counters["minimize"] = 0
        return o.fit()

    def post(p):
        if not c.fit_succeeded(o.estimation_success):
            return
        if len(RT.opts[-1]["x"]) != 9:
            raise Unsupported("an optimizer call without nine parameters")
        opt = RT.opts[-1]
        x = opt["x"]
        om1, r1, om2, r2, rho = x[1], x[2:4], x[5], x[6:8], x[8]
        lim = const("0.99")
        searchable(c, opt, garch_region(G, om1, r1) + garch_region(G, om2, r2) + [T.ge(lim - rho), T.ge(lim + rho)])
        corr = sample_correlation(n, z_("1"), z_("2"))
        for nm, a, b in zip(names, opt["x0"], [T.Var(nm) for nm in names[:8]] + [corr]):
            c.eq(f"{nm} starts from its fitted margin's value" if nm != "rho" else "rho starts from the correlation of the standardised residuals", a, b)
        for f in opt["facts"]:
            FACTS.push(f)
        got = [poly(getattr(p, nm)) for nm in names]
        for nm, a, b in zip(names, got, x):
            c.eq(f"{nm} is the optimizer's", a, b)
        for k, om, rest in (("1", got[1], got[2:4]), ("2", got[5], got[6:8])):
            c.prove(f"omega{k} is at least 1e-6", T.ge(om - TINY))
            for nm, v in zip(("alpha", "beta"), rest):
                c.prove(f"{nm}{k} is not negative", T.ge(v))
                c.prove(f"{nm}{k} is at most 1", T.ge(ONE - v))
            c.prove(f"persistence of asset {k} is at most 1", T.ge(ONE - rest[0] - rest[1]))
        rho = got[8]
        c.prove("rho is strictly between -1 and 1", T.conj(T.gt(ONE - rho), T.gt(ONE + rho)))
        T.CTX.add_pos(ONE - rho * rho)
        mu1, mu2 = got[0], got[4]
        bc = lambda i, mu: T.Read("backcast", const(i), mu, nonneg=True)
        s1 = lambda t: m.cv(t, got[1:4], 0, mu1, bc(0, mu1), (ZERO, mu1))
        s2 = lambda t: m.cv(t, got[5:8], 1, mu2, bc(1, mu2), (ONE, mu2))
        c.eq("the log-likelihood is that of the parameters", poly(p.loglikelihood),
             bivariate(n, lambda t: x1(t) - mu1, s1, lambda t: x2(t) - mu2, s2, lambda t: rho))
        c.prove("the parameters are kept on the object", TRUE if p is o.parameters else equal(p, o.parameters))
        before = snapshot(o)

        def again(q):
            c.prove("a second fit does not estimate again", TRUE if len(RT.opts) == 1 else FALSE)
            c.prove("a second fit returns the same parameters", TRUE if q is p else equal(q, p))
            for nm, a, b in pairs(before, snapshot(o)):
                c.prove(f"a second fit leaves {nm} as it was", equal(a, b))
        c.each(lambda: o.fit(), again, CCC + ".fit")
    c.each(run, post, CCC + ".fit", reach=True)
    c.frame()


# ---------------------------------------------------------------- C09
def fitted_margins(c, cls, n):
    """A DCC model whose margins were fitted."""
    D, M = (DCC, G) if cls == G else (GDCC, J)
    ms = []
    for k in "12":
        m = c.fn(M)(vec("returns" + k, n))
        m.estimation_success = True
        m.resids, m.sigma2 = vec("resids" + k, n), vec("sigma2_" + k, n, pos=True)
        m.parameters = c.fn(M).Parameters(Num(T.Var("mu" + k)), *[Num(T.Var(x + k)) for x in PN[cls]], loglikelihood=Num(T.Var("loglik" + k)))
        ms.append(m)
    return c.fn(D)(*ms), D


def z_(k):
    return lambda t: T.Read("resids" + k, t) / T.sqrt(T.Read("sigma2_" + k, t, pos=True))


def dcc_corr(cls):
    def thunk(c):
        n, t = integer("T"), integer("t")
        FACTS.push(T.gt(n - ONE))
        T.CTX.add_pos(n - ONE)
        o, D = fitted_margins(c, cls, n)
        z1, z2 = z_("1"), z_("2")
        a, b = T.Var("a"), T.Var("b")
        mean = lambda f: T.Sum(n, f) / n
        m1, m2 = mean(z1), mean(z2)
        cov = lambda f, mf, g, mg: T.Sum(n, lambda k: (f(k) - mf) * (g(k) - mg)) / (n - ONE)
        q12b = cov(z1, m1, z2, m2) / T.sqrt(cov(z1, m1, z1, m1) * cov(z2, m2, z2, m2))
        w = ONE - a - b
        S = T.mk_recsys(["q11", "q22", "q12"], [ONE, ONE, q12b],
                        lambda q, k: [w + a * z1(k) ** 2 + b * q[0], w + a * z2(k) ** 2 + b * q[1], w * q12b + a * z1(k) * z2(k) + b * q[2]])

        def post(r):
            c.eq("one correlation per period", length(r), n)
            with under(T.gt(n - t)):
                c.eq("correlation at every period", el(r, t), S.at(2, t) / T.sqrt(S.at(0, t) * S.at(1, t)))
        c.each(lambda: o.conditional_correlations(Num(a), Num(b)), post, DCC + ".conditional_correlations")
        c.frame()
    return thunk


def dcc_bound(c):
    """The recursion keeps q11, q22 >= 0 and q12^2 <= q11*q22, whatever the residuals: the correlation is one."""
    a, b, w = [T.Var(x, nonneg=True) for x in ("weight.a", "weight.b", "rest")]       # rest = 1 - a - b
    p = T.Var("qbar12")
    x, y, z = T.Var("q11", nonneg=True), T.Var("q22", nonneg=True), T.Var("q12")
    u, v = T.Var("z1"), T.Var("z2")
    X, Y, Z = w + a * u * u + b * x, w + a * v * v + b * y, w * p + a * u * v + b * z
    H0 = [T.ge(ONE - p * p), T.ge(x * y - z * z)]
    c.prove("initially q12^2 <= q11*q22 (the sample correlation is at most one in size)", T.ge(ONE - p * p), [H0[0]])
    c.prove("q11 stays non-negative", T.ge(X))
    c.prove("q22 stays non-negative", T.ge(Y))
    # mixed terms of the determinant, each non-negative
    # x + y >= 2*sqrt(xy) >= 2|z| >= 2|p z|
    c.lemma("(q11 + q22)^2 >= 4*q12^2", T.ge((x + y) ** 2 - const(4) * z * z), H0)
    c.lemma("q11 + q22 >= 2*q12*qbar12", T.ge(x + y - const(2) * z * p), H0)
    c.lemma("z1^2 + z2^2 >= 2*qbar12*z1*z2", T.ge(u * u + v * v - const(2) * p * u * v), H0)
    c.lemma("q11*z2^2 + q22*z1^2 >= 2*q12*z1*z2", T.ge(x * v * v + y * u * u - const(2) * z * u * v), H0)
    D = X * Y - Z * Z
    parts = (w * w * (ONE - p * p) + b * b * (x * y - z * z) + w * b * (x + y - const(2) * z * p)
             + w * a * (u * u + v * v - const(2) * p * u * v) + a * b * (x * v * v + y * u * u - const(2) * z * u * v))
    c.eq("the determinant is a sum of these terms with non-negative weights", D, parts)
    A, Bq, C, E, F_ = [T.Var("m%d" % i, nonneg=True) for i in range(5)]
    c.prove("such a sum is not negative", T.ge(w * w * A + b * b * Bq + w * b * C + w * a * E + a * b * F_))
    r = T.Var("r")
    xx, yy = T.Var("q11", nonneg=True), T.Var("q22", nonneg=True)
    c.prove("hence the correlation is at most one in size", T.ge(ONE - r * r), [T.gt(x), T.gt(y), T.ge(x * y - z * z), T.eq(r * r * x * y - z * z)])


# ---------------------------------------------------------------- C10
def limited(r):
    lo, hi = const("-0.99"), const("0.99")
    x = T.ite(T.gt(lo - r), lo, r)
    return T.ite(T.gt(x - hi), hi, x)


def opaque_correlations():
    for D in (DCC, GDCC):
        RT.contracts[D + ".conditional_correlations"] = lambda f, self, a, b: Arr.new((as_poly(self.model1.resids._shape[0]),), lambda i, a=poly(a), b=poly(b): T.Read("rho", i[0], a, b))


def dcc_total(n, a, b, l1, l2, z1, z2):
    r = lambda t: limited(T.Read("rho", t, a, b))

    def term(t):
        q = ONE - r(t) ** 2
        return T.log(q) + (z1(t) ** 2 + z2(t) ** 2 - const(2) * r(t) * z1(t) * z2(t)) / q - z1(t) ** 2 - z2(t) ** 2
    return l1 + l2 - HALF * T.Sum(n, term)


def dcc_objective(cls):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        o, D = fitted_margins(c, cls, n)
        opaque_correlations()
        a, b = T.Var("a"), T.Var("b")
        want = -dcc_total(n, a, b, T.Var("loglik1"), T.Var("loglik2"), z_("1"), z_("2"))

        def post(v):
            v = c.scalar("objective", v)
            if v is not None:
                c.eq("minus the two-step log-likelihood", v, want)
        for x in (V.as_arr([Num(a), Num(b)]), SList([Num(a), Num(b)])):
            c.each(lambda: o.loglikelihood_model(x), post, DCC + ".loglikelihood_model")
        c.frame()
    return thunk


def joint_lemma(c):
    """At fitted margins (each margin's log-likelihood being the Gaussian one of its residuals) the two-step total
    is the bivariate normal log-likelihood: period by period."""
    rho = correlation()
    s1, s2 = T.Var("s1", pos=True), T.Var("s2", pos=True)
    r1, r2 = T.Var("r1"), T.Var("r2")
    z1, z2 = r1 / T.sqrt(s1), r2 / T.sqrt(s2)
    q = ONE - rho * rho
    uni = lambda r, s: -HALF * (T.log(PI2()) + T.log(s) + r * r / s)
    step2 = -HALF * (T.log(q) + (z1 ** 2 + z2 ** 2 - const(2) * rho * z1 * z2) / q - z1 ** 2 - z2 ** 2)
    joint = -T.log(PI2()) - HALF * T.log(s1 * s2 * q) - HALF * (z1 * z1 - const(2) * rho * z1 * z2 + z2 * z2) / q
    c.eq("univariate densities plus the correlation term are the bivariate density", uni(r1, s1) + uni(r2, s2) + step2, joint)


GRID_A = [core.F(1, 100) + core.F(49, 900) * i for i in range(10)]
GRID_B = [core.F(6, 10) + core.F(35, 900) * i for i in range(10)]


def dcc_start(cls):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        o, D = fitted_margins(c, cls, n)
        opaque_correlations()
        L = lambda k: dcc_total(n, T.Read("grid.a", k), T.Read("grid.b", k), T.Var("loglik1"), T.Var("loglik2"), z_("1"), z_("2"))
        Q = lambda k: T.gt(ONE - T.Read("grid.a", k) - T.Read("grid.b", k))

        def product(*its):
            got = [[V.pconst(x) for x in (items(i) if isinstance(i, Arr) else list(i))] for i in its]
            if [sorted(x) for x in got] == [GRID_A, GRID_B]:
                order = ("a", "b")
            elif [sorted(x) for x in got] == [GRID_B, GRID_A]:
                order = ("b", "a")
            else:
                c.fail("the grid of a and b")
                raise Unsupported("another grid")
            return Trials(c, o, Q, lambda k, j: T.gt(L(k) - L(j)), lambda k: tuple(Num(T.Read("grid." + x, k)) for x in order), some=TRUE)
        RT.ext["product"] = product

        def post(v):
            v = items(v) if not isinstance(v, tuple) else list(v)
            j = integer("trial.j")
            c.eq("a of the admissible grid point with the highest log-likelihood", poly(v[0]), T.Read("grid.a", j))
            c.eq("b of the admissible grid point with the highest log-likelihood", poly(v[1]), T.Read("grid.b", j))
        c.each(lambda: o.starting_values(), post, DCC + ".starting_values")
        c.frame()
    return thunk


def dcc_fit(cls):
    def thunk(c):
        D, M = (DCC, G) if cls == G else (GDCC, J)
        n, t = integer("T"), integer("t")
        FACTS.push(T.gt(n))
        opaque_correlations()
        RT.contracts[D + ".starting_values"] = RT.contracts[DCC + ".starting_values"] = lambda f, self: SList([Num(T.Var("start.a")), Num(T.Var("start.b"))])

        RT.contracts[M + ".fit"] = margin_fit(c, cls, n, t)
        for form in ("arrays", "models", "array and model", "fitted models"):
            xs = [vec("returns" + k, n) for k in "12"]
            if form != "arrays":
                xs[1] = c.fn(M)(xs[1])
            if form in ("models", "fitted models"):
                xs[0] = c.fn(M)(xs[0])
            if form == "fitted models":
                for x in xs:
                    x.fit()
            o = c.fn(D)(*xs)

            def run(o=o):
                RT.opts.clear()
                RT.counters["minimize"] = 0
                return o.fit()

            def post(p, o=o):
                if not c.fit_succeeded(o.estimation_success):
                    return
                opt = RT.opts[-1]
                a, b = opt["x"]
                searchable(c, opt, [T.ge(a - TINY), T.ge(b - TINY), T.ge(ONE - a - b)], "(a, b)")
                for nm, x, y in zip("ab", opt["x0"], (T.Var("start.a"), T.Var("start.b"))):
                    c.eq(f"the optimizer starts from the starting value of {nm}", x, y)
                for f in opt["facts"]:
                    FACTS.push(f)
                for k in "12":
                    for x in ("mu",) + PN[cls]:
                        c.eq(f"{x}{k} is the margin's", poly(getattr(p, x + k)), T.Var(x + k))
                pa, pb = poly(p.a), poly(p.b)
                c.eq("a is the optimizer's", pa, a)
                c.eq("b is the optimizer's", pb, b)
                for nm, v in (("a", pa), ("b", pb)):
                    c.prove(nm + " is not negative", T.ge(v))
                    c.prove(nm + " is at most 1", T.ge(ONE - v))
                c.prove("a + b is at most 1", T.ge(ONE - pa - pb))
                c.eq("the log-likelihood is that of (a, b)", poly(p.loglikelihood), dcc_total(n, pa, pb, T.Var("loglik1"), T.Var("loglik2"), z_("1"), z_("2")))
                c.prove("the parameters are kept on the object", TRUE if p is o.parameters else equal(p, o.parameters))
                before = snapshot(o)

                def again(q):
                    c.prove("a second fit does not estimate again", TRUE if len(RT.opts) == 1 else FALSE)
                    c.prove("a second fit returns the same parameters", TRUE if q is p else equal(q, p))
                    for nm, x, y in pairs(before, snapshot(o)):
                        c.prove(f"a second fit leaves {nm} as it was", equal(x, y))
                c.each(lambda: o.fit(), again, D + ".fit")
            c.each(run, post, DCC + ".fit", reach=True)
        c.frame()
    return thunk


GROUPS = {
    "C08": [Group("GARCHModel_CCC.loglikelihood", [CCC + ".loglikelihood"], ccc_like), Group("GARCHModel_CCC.loglikelihood_model", [CCC + ".loglikelihood_model"], ccc_objective),
            Group("GARCHModel_CCC.fit", [CCC + ".fit"], ccc_fit)],
    "C09": [Group("GARCHModel_DCC.conditional_correlations", [DCC + ".conditional_correlations"], dcc_corr(G)),
            Group("GJRGARCHModel_DCC.conditional_correlations", [DCC + ".conditional_correlations"], dcc_corr(J)),
            Group("lemmas of the DCC recursion", [], dcc_bound)]
    + [Group(f"{nm}.conditional_correlations, compiled", [DCC + ".conditional_correlations", "frds.algorithms.utils.utils_ext:dcc_conditional_correlations_wrapper",
                                                          "frds.algorithms.utils.utils_ext:conditional_correlations"], dcc_corr(cls), ext="ext")
       for nm, cls in (("GARCHModel_DCC", G), ("GJRGARCHModel_DCC", J))],
    "C10": [Group(nm + f, [DCC + "." + f], th(cls)) for nm, cls in (("GARCHModel_DCC.", G), ("GJRGARCHModel_DCC.", J))
            for f, th in (("loglikelihood_model", dcc_objective), ("starting_values", dcc_start), ("fit", dcc_fit))] + [Group("joint likelihood", [], joint_lemma)],
}
