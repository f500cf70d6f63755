"""C05: the compiled functions and their pure-Python counterparts, executed on the same arguments.

No specification in between: the obligation is that the two results are equal.
"""
from ..contract import *
from ..hooks import assume_deep
from ..loader import Loader
from .garch import G, J, U, LAYOUTS, bounds, params
from .fits import PN
from .mgarch import DCC, GDCC, fitted_margins
from .lrmes import LR, MX, model
from . import mgarch


class Compiled:
    """The context of a group whose modules see the compiled extensions."""

    def __init__(self, c):
        from .. import cpp
        self.L = Loader(ext=cpp.extensions())

    def fn(self, key):
        return self.L.fn(key)


def equal_vectors(c, n, v, what):
    t = integer("t")
    a, b = v
    c.eq("as many " + what, length(a), length(b))
    with under(T.gt(n - t)):
        c.eq(what + ": equal in every period", el(a, t), el(b, t))


def variance(cls, names, lay):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        x = Compiled(c)
        ps, r, (vb, _, _), bc = params(*names), vec("resids", n, **lay), bounds("var_bounds", n, lay), real("backcast")
        c.each(lambda: [k.fn(cls).compute_variance(SList(list(ps)), r, bc, vb) for k in (c, x)], lambda v: equal_vectors(c, n, v, "variances"))
        c.frame()
    return thunk


def ewma(cls, lay):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        x = Compiled(c)
        r, s0, lam = vec("resids", n, **lay), real("initial"), real("lam")
        c.each(lambda: [k.fn(cls).ewma(r, s0, lam) for k in (c, x)], lambda v: equal_vectors(c, n, v, "EWMA values"))
        c.each(lambda: [k.fn(cls).ewma(r, s0) for k in (c, x)], lambda v: equal_vectors(c, n, v, "EWMA values with the default decay"))
        c.frame()
    return thunk


def guard(cls, lay):
    def thunk(c):
        v = T.Var("v")
        lo = T.Var("lower", pos=True)
        hi = lo + T.Var("gap", nonneg=True)
        b = Arr.new((2,), lambda i: T.ite(T.eq(i[0]), lo, hi), V.dtype_of(lay.get("dtype", "float64"), narrow=True))
        b.contig = lay.get("contig", True)
        b.st.name = "var_bounds"
        x = Compiled(c)

        def post(v):
            with under(T.neg(T.isinf(lo))):
                c.eq("equal values of the guard", *[c.scalar("guard", a) for a in v])
        c.each(lambda: [k.fn(cls).bounds_check(Num(v), b) for k in (c, x)], post)
        c.frame()
    return thunk


def correlations(cls):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n - ONE))
        T.CTX.add_pos(n - ONE)
        a, b = T.Var("a"), T.Var("b")
        os = [fitted_margins(k, cls, n)[0] for k in (c, Compiled(c))]
        c.each(lambda: [o.conditional_correlations(Num(a), Num(b)) for o in os], lambda v: equal_vectors(c, n, v, "correlations"))
        c.frame()
    return thunk


def path(c):
    n, h = integer("n_days"), integer("horizon")
    FACTS.push(T.gt(n))
    o = model(c, n)
    f = Compiled(c).fn(MX + "simulation")
    C, a, b, rho, q = [T.Var(x, nonneg=x in "ab") for x in ("C", "a", "b", "rho", "Q_bar")]
    for x in (rho, q):
        FACTS.push(T.gt(ONE - x))
        FACTS.push(T.gt(ONE + x))
    FACTS.push(T.ge(ONE - a - b))
    state = [T.Var("firm_var", pos=True), T.Var("mkt_var", pos=True), T.Var("firm_resid"), T.Var("mkt_resid")]
    args = (vec("innovation", h, const(2)), Num(C), *[Num(x) for x in state], Num(a), Num(b), Num(rho), V.as_arr([[Num(ONE), Num(q)], [Num(q), Num(ONE)]]))
    p = [Num(T.Var(p + k, nonneg=p != "mu")) for k in ("_i", "_m") for p in ("mu",) + PN[J]]

    def call():
        v, w = o.simulation(*args), f(*args, *p)
        r = []
        for x in (v, w):
            if len(x) != 2:
                raise Unsupported("not two results")
            e = to_bool(x[1])
            d = core.decide(e)
            r.append((Num(assume_deep(poly(x[0]), e, d)), d))
        return r

    def post(v):
        (r, e), (s, d) = v
        if e != d:
            c.fail("the same event on every path")
        else:
            c.eq("the same return", r, s)
    c.each(call, post)
    c.frame()


def lname(lay):
    from .garch import lname as f
    return f(lay)


def groups():
    g = []
    for cls, nm, names, ext in ((G, "GARCHModel", PN[G], "compute_garch_variance"), (J, "GJRGARCHModel", PN[J], "compute_gjrgarch_variance")):
        for lay in LAYOUTS:
            g.append(Group(f"{nm}.compute_variance{lname(lay)}", [cls + ".compute_variance", G + ".bounds_check", U + ext + "_wrapper", U + ext, U + "bounds_check"], variance(cls, names, lay)))
    for lay in LAYOUTS:
        g.append(Group(f"ewma{lname(lay)}", [G + ".ewma", U + "ewma_wrapper", U + "ewma"], ewma(G, lay)))
        g.append(Group(f"bounds_check{lname(lay)}", [G + ".bounds_check", U + "bounds_check_wrapper", U + "bounds_check"], guard(G, lay)))
    for cls, nm in ((G, "GARCHModel_DCC"), (J, "GJRGARCHModel_DCC")):
        g.append(Group(nm + ".conditional_correlations", [DCC + ".conditional_correlations", U + "dcc_conditional_correlations_wrapper", U + "conditional_correlations"], correlations(cls)))
    g.append(Group("LRMES simulation", [LR + ".simulation", MX + "lrmes_simulation_wrapper", MX + "simulation"], path))
    return g


GROUPS = {"C05": groups()}
