"""C01-C07: univariate GARCH and GJR-GARCH."""
from ..contract import *
from ..indexing import *

G = "frds.algorithms._garch:GARCHModel"
J = "frds.algorithms._garch:GJRGARCHModel"


# ---------------------------------------------------------------- specification
def guard(v, lo, hi):
    """The variance guard of C03."""
    above = T.ite(T.isinf(v), hi + const(1000), hi + T.log(v / hi))
    return T.ite(T.gt(lo - v), lo, T.ite(T.gt(v - hi), above, v))


LAYOUTS = [dict(), dict(contig=False), dict(dtype="float32"), dict(dtype="int64", contig=False)]


def lname(lay):
    return (" of " + ("strided " if not lay.get("contig", True) else "") + lay.get("dtype", "float64")) if lay else ""


def bounds(nm, n, lay={}):
    """(n, 2) array with 0 < lower <= upper in every row."""
    lo = lambda t: T.Read(nm + ".lower", t, pos=True)
    gap = lambda t: T.Read(nm + ".gap", t, nonneg=True)
    a = Arr.new((n, 2), lambda i: T.ite(T.eq(i[1]), lo(i[0]), lo(i[0]) + gap(i[0])), V.dtype_of(lay.get("dtype", "float64"), narrow=True))
    a.contig = lay.get("contig", True)
    a.st.name = nm
    return a, lo, (lambda t: lo(t) + gap(t))


def spec_garch(om, al, be, bc, r, lo, hi):
    return T.mk_recsys(["s"], [om + (al + be) * bc],
                       lambda x, n: [guard(om + al * r(n) ** 2 + be * x[0], lo(n + ONE), hi(n + ONE))])


def gjr_step(om, al, ga, be, r, s):
    return om + (al + ga * T.ite(T.gt(-r), ONE, ZERO)) * r ** 2 + be * s


def spec_gjr(om, al, ga, be, bc, r, lo, hi):
    return T.mk_recsys(["s"], [om + (al + ga / const(2) + be) * bc],
                       lambda x, n: [guard(gjr_step(om, al, ga, be, r(n), x[0]), lo(n + ONE), hi(n + ONE))])


# ---------------------------------------------------------------- C01 / C02
def params(*names):
    return [Num(T.Var(n)) for n in names]


def variance(cls, names, spec, lay={}):
    def thunk(c):
        n, t = integer("T"), integer("t")
        FACTS.push(T.gt(n))
        ps = params(*names)
        r, (vb, lo, hi) = vec("resids", n, **lay), bounds("var_bounds", n, lay)
        bc = real("backcast")
        S = spec(*[poly(p) for p in ps], poly(bc), lambda k: T.Read("resids", k), lo, hi)
        f = c.fn(cls).compute_variance

        def post(s):
            c.eq("one variance per residual", length(s), n)
            with under(T.gt(n - t)):
                c.eq("variance recursion at every period", el(s, t), S.at(0, t))
        c.each(lambda: f(SList(ps), r, bc, vb), post, cls + ".compute_variance")
        c.frame()
    return thunk


def forecast(c):
    n, t = integer("T"), integer("t")
    FACTS.push(T.gt(n))
    om, al, ga, be = params("omega", "alpha", "gamma", "beta")
    C = c.fn(J)
    p = C.Parameters(real("mu"), om, al, ga, be, real("ll"))
    r, s0 = vec("resids", n), real("initial")
    S = T.mk_recsys(["s"], [poly(s0)], lambda x, k: [gjr_step(poly(om), poly(al), poly(ga), poly(be), T.Read("resids", k), x[0])])

    def post(s):
        c.eq("one forecast fewer than residuals", length(s), n - ONE)
        with under(T.gt(n - ONE - t)):
            c.eq("forecast recursion, without the initial value", el(s, t), S.at(0, t + ONE))
    c.each(lambda: C.forecast_variance(p, r, s0), post, J + ".forecast_variance")
    c.frame()


# ---------------------------------------------------------------- C03
def guard_fn(cls, lay={}):
    def thunk(c):
        v = T.Var("v")
        lo = T.Var("lower", pos=True)
        hi = lo + T.Var("gap", nonneg=True)
        b = Arr.new((2,), lambda i: T.ite(T.eq(i[0]), lo, hi), V.dtype_of(lay.get("dtype", "float64"), narrow=True))
        b.contig = lay.get("contig", True)
        b.st.name = "var_bounds"
        f = c.fn(cls).bounds_check

        def post(x):
            x = c.scalar("guard", x)
            if x is not None:
                with under(T.neg(T.isinf(lo))):
                    c.eq("guarded value", x, guard(v, lo, hi))
        c.each(lambda: f(Num(v), b), post, cls + ".bounds_check")
        c.frame()
    return thunk


def guard_lemmas(c):
    """Consequences of the contract of the guard (independent of the code)."""
    lo = T.Var("lower", pos=True)
    hi = lo + T.Var("gap", nonneg=True)
    v, w = T.Var("v"), T.Var("w")
    g = guard(v, lo, hi)
    fin = T.neg(T.isinf(v))
    # log(v/hi) >= 0 for v >= hi: monotonicity of log (trusted fact about log)
    lv = T.log(v / hi)
    logpos = T.disj(T.ge(hi - v), T.gt(lv))
    c.prove("never below the lower bound", T.ge(g - lo), [logpos])
    c.prove("positive", T.gt(g), [logpos])
    c.prove("unchanged inside the bounds", T.eq(g - v), [T.ge(v - lo), T.ge(hi - v)])
    gw = guard(w, lo, hi)
    lw = T.log(w / hi)
    mono = T.disj(T.gt(v - w), T.ge(lw - lv))
    c.prove("non-decreasing over finite values", T.ge(gw - g),
            [T.ge(w - v), fin, T.neg(T.isinf(w)), logpos, T.disj(T.ge(hi - w), T.gt(lw)), mono])


# ---------------------------------------------------------------- C04
def ewma(cls, lay={}):
    def thunk(c):
        n, t = integer("T"), integer("t")
        FACTS.push(T.gt(n))
        r, s0, lam = vec("resids", n, **lay), real("initial"), real("lam")
        S = T.mk_recsys(["s"], [poly(s0)], lambda x, k: [poly(lam) * x[0] + (ONE - poly(lam)) * T.Read("resids", k) ** 2])

        def post(s):
            c.eq("one value per residual", length(s), n)
            with under(T.gt(n - t)):
                c.eq("EWMA recursion", el(s, t), S.at(0, t))
        c.each(lambda: c.fn(cls).ewma(r, s0, lam), post, cls + ".ewma")
        S2 = T.mk_recsys(["s"], [poly(s0)], lambda x, k: [const("0.94") * x[0] + const("0.06") * T.Read("resids", k) ** 2])

        def post2(s):
            with under(T.gt(n - t)):
                c.eq("default decay is 0.94", el(s, t), S2.at(0, t))
        c.each(lambda: c.fn(cls).ewma(r, s0), post2, cls + ".ewma")
        c.frame()
    return thunk


def weighted(n, r):
    """Average of the first min(75, n) squared values, weights proportional to 0.94^i."""
    tau = T.minimum(const(75), n)
    w = lambda i: T.power(const("0.94"), i)
    return T.Sum(tau, lambda i: w(i) * r(i) ** 2) / T.Sum(tau, lambda i: w(i)), tau, w


def backcast(cls):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        r = vec("resids", n)
        spec, tau, w = weighted(n, lambda i: T.Read("resids", i))

        def post(x):
            x = c.scalar("backcast", x)
            if x is not None:
                c.eq("weighted average of the first 75 squared residuals", x, spec)
        c.each(lambda: c.fn(cls).backcast(r), post, cls + ".backcast")
        c.frame()
    return thunk


def vbounds(cls):
    def thunk(c):
        n, t = integer("T"), integer("t")
        FACTS.push(T.gt(n))
        r = vec("resids", n)
        R = lambda i: T.Read("resids", i)
        init, tau, w = weighted(n, R)
        S = T.mk_recsys(["s"], [init], lambda x, k: [const("0.94") * x[0] + const("0.06") * R(k) ** 2])
        m = T.Sum(n, R) / n
        var = T.Sum(n, lambda i: (R(i) - m) ** 2) / n
        lo = var / const(10 ** 8)
        mx = poly(N.amax(N.square(vec("resids", n))))
        hi = const(10 ** 7) * (ONE + mx)
        RT.assume_note("max", "np.max is the largest entry (used as an opaque reduction)")

        def post(b):
            c.eq("one pair per period", length(b), n)
            with under(T.gt(n - t)):
                v = S.at(0, t)
                cl = T.ite(T.gt(lo - v), lo, T.ite(T.gt(v - hi), hi, v))
                hyp = [T.ge(hi - lo)]
                c.eq("lower bound", el(b, t, 0), cl / const(10 ** 6), hyp)
                c.eq("upper bound", el(b, t, 1), cl * const(10 ** 6), hyp)
        c.each(lambda: c.fn(cls).variance_bounds(r), post, cls + ".variance_bounds")
        c.frame()
    return thunk


def average_lemmas(c):
    """Consequences of the weighted-average postcondition."""
    n = integer("n")
    FACTS.push(T.gt(n))
    w = lambda i: T.power(const("0.94"), i)
    W = T.Sum(n, w)
    T.CTX.add_pos(W)
    c.eq("weights sum to one", T.Sum(n, lambda i: w(i) / W), ONE)


U = "frds.algorithms.utils.utils_ext:"


def compiled(name, fns, mk):
    """The same contract with the compiled implementation in place, for every memory layout of the arguments."""
    return [Group(f"{name}, compiled{lname(lay)}", fns, mk(lay), ext="ext") for lay in LAYOUTS]


GROUPS = {
    "C01": [Group("GARCHModel.compute_variance", [G + ".compute_variance", G + ".bounds_check"], variance(G, ("omega", "alpha", "beta"), spec_garch))]
    + compiled("GARCHModel.compute_variance", [G + ".compute_variance", U + "compute_garch_variance_wrapper", U + "compute_garch_variance", U + "bounds_check"],
               lambda lay: variance(G, ("omega", "alpha", "beta"), spec_garch, lay)),
    "C02": [Group("GJRGARCHModel.compute_variance", [J + ".compute_variance", G + ".bounds_check"], variance(J, ("omega", "alpha", "gamma", "beta"), spec_gjr)),
            Group("GJRGARCHModel.forecast_variance", [J + ".forecast_variance"], forecast)]
    + compiled("GJRGARCHModel.compute_variance", [J + ".compute_variance", U + "compute_gjrgarch_variance_wrapper", U + "compute_gjrgarch_variance", U + "bounds_check"],
               lambda lay: variance(J, ("omega", "alpha", "gamma", "beta"), spec_gjr, lay)),
    "C03": [Group("GARCHModel.bounds_check", [G + ".bounds_check"], guard_fn(G)),
            Group("GJRGARCHModel.bounds_check", [G + ".bounds_check"], guard_fn(J)),
            Group("lemmas of the guard", [], guard_lemmas)]
    + compiled("GARCHModel.bounds_check", [G + ".bounds_check", U + "bounds_check_wrapper", U + "bounds_check"], lambda lay: guard_fn(G, lay)),
    "C04": [Group("ewma", [G + ".ewma"], ewma(G)), Group("backcast", [G + ".backcast"], backcast(G)),
            Group("variance_bounds", [G + ".variance_bounds"], vbounds(G)), Group("lemmas of the average", [], average_lemmas)]
    + compiled("ewma", [G + ".ewma", U + "ewma_wrapper", U + "ewma"], lambda lay: ewma(G, lay))
    + [Group("variance_bounds, compiled", [G + ".variance_bounds", U + "ewma_wrapper", U + "ewma"], vbounds(G), ext="ext")],
}
