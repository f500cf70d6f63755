"""C11, C12: long-run marginal expected shortfall."""
from ..contract import *
from .garch import J
from .fits import PN
from .mgarch import GDCC, DCC
import types
from ..hooks import assume_deep

LR = "frds.measures._long_run_mes:LongRunMarginalExpectedShortfall"


def model(c, n):
    """The measure of n returns above -100%, its margins and correlation model estimated."""
    x = [vec(nm, n) for nm in ("firm_returns", "market_returns")]
    k = T.fresh("i", isint=True, nonneg=True)
    o = c.fn(LR)(*x)
    for m, s in ((o.firm_model, "_i"), (o.market_model, "_m")):
        m.parameters = c.fn(J).Parameters(*[Num(T.Var(p + s, nonneg=p != "mu")) for p in ("mu",) + PN[J]], loglikelihood=Num(T.Var("loglik" + s)))
    return o


def path(innov, horizon, C, state, a, b, rho, Q, par):
    """(firm return, event) of a simulated path.

    innov(h, i): innovation of period h (0: firm's own, 1: market); state: (firm variance, market variance,
    firm residual, market residual); Q(i, j); par(name, "_i" or "_m")."""
    si, sm, ri, rm = state
    w = ONE - a - b

    def var(r, s, k):
        return par("omega", k) + par("alpha", k) * r ** 2 + T.ite(T.gt(-r), par("gamma", k) * r ** 2, ZERO) + par("beta", k) * s

    def step(q, h):
        si, sm, ri, rm, zi, zm, qi, qm, qim = q
        si2, sm2 = var(ri, si, "_i"), var(rm, sm, "_m")
        qi2, qm2, qim2 = w * Q(0, 0) + a * zi ** 2 + b * qi, w * Q(1, 1) + a * zm ** 2 + b * qm, w * Q(1, 0) + a * zi * zm + b * qim
        r = qim2 / T.sqrt(qi2 * qm2)
        zm2 = innov(h, 1)
        zi2 = r * innov(h, 1) + T.sqrt(ONE - r ** 2) * innov(h, 0)
        return [si2, sm2, T.sqrt(si2) * zi2, T.sqrt(sm2) * zm2, zi2, zm2, qi2, qm2, qim2]
    S = System(["firm_var", "mkt_var", "firm_resid", "mkt_resid", "firm_z", "mkt_z", "q_i", "q_m", "q_im"],
                    [si, sm, ri, rm, ri / T.sqrt(si), rm / T.sqrt(sm), ONE, ONE, rho], step)
    total = lambda i, k: T.Sum(horizon, lambda h: par("mu", k) + S.at(i, h + ONE))
    market = T.exp(total(3, "_m") / const(100)) - ONE
    event = T.gt(C - market)
    return T.ite(event, T.exp(total(2, "_i") / const(100)) - ONE, ZERO), event


MX = "frds.measures.measures_ext:"


def simulation(c, compiled=False, lay={}):
    n, h = integer("n_days"), integer("horizon")
    FACTS.push(T.gt(n))
    o = model(c, n)
    C, a, b, rho = [T.Var(x, nonneg=x in "ab") for x in ("C", "a", "b", "rho")]
    for x in (rho, T.Var("Q_bar")):       # correlations, weights of the DCC recursion
        FACTS.push(T.gt(ONE - x))
        FACTS.push(T.gt(ONE + x))
    FACTS.push(T.ge(ONE - a - b))
    state = [T.Var("firm_var", pos=True), T.Var("mkt_var", pos=True), T.Var("firm_resid"), T.Var("mkt_resid")]
    ret, event = path(lambda t, i: T.Read("innovation", t, const(i)), h, C, state, a, b, rho, lambda i, j: ONE if i == j else T.Var("Q_bar"), lambda p, k: T.Var(p + k, nonneg=p != "mu"))

    def post(v):
        c.eq("two results", const(len(v)), const(2))
        got = c.scalar("firm return", v[0])
        ev = v[1]
        ev = to_bool(ev)
        c.prove("a systemic event exactly when the market falls by more than C", T.conj(T.disj(ev, T.neg(event)), T.disj(T.neg(ev), event)))
        if got is not None:
            c.eq("the firm's return over the horizon in an event, 0 otherwise", got, ret)
            c.prove("above -100% in an event", T.gt(got + ONE), [event])
    args = (vec("innovation", h, const(2)), Num(C), *[Num(x) for x in state], Num(a), Num(b), Num(rho), V.as_arr([[Num(ONE), Num(T.Var("Q_bar"))], [Num(T.Var("Q_bar")), Num(ONE)]]))
    if compiled:
        p = [Num(T.Var(p + k, nonneg=p != "mu")) for k in ("_i", "_m") for p in ("mu",) + PN[J]]
        f = c.fn(MX + "simulation")
        args[0].contig = lay.get("contig", True)

        def call():
            v = f(*args, *p)
            if len(v) == 2 and isinstance(v[1], (Num, SBool)):      # the two cases, apart
                e = to_bool(v[1])
                d = core.decide(e)
                v = (Num(assume_deep(poly(v[0]), e, d)), d)
            return v
        c.each(call, post)
    else:
        c.each(lambda: o.simulation(*args), post, LR + ".simulation")
    c.frame()


# ---------------------------------------------------------------- C12
T.FUN_PROPS["path.gross"] = {"pos": True}


def simulated(innov, horizon, C, state, a, b, rho, q, pars):
    """C11: a path is a function of its innovations, state and parameters; the return is above -100%, and 0 without an event."""
    lams = [T.lam(horizon, lambda t, i=i: innov(t, i)) for i in (0, 1)]
    args = lams + [C, *state, a, b, rho, *q, *pars]
    ev = T.BApp("path.event", *args)
    return T.ite(ev, T.App("path.gross", *args) - ONE, ZERO), ev


def simulation_python(f, self, innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b, rho, Q_bar):
    p = []
    for m in (self.firm_model, self.market_model):
        p += [getattr(m.parameters, k) for k in ("mu",) + PN[J]]
    return simulation_compiled(innovation, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b, rho, Q_bar, *p)


def simulation_compiled(*args, **kw):
    if len(args) != 20 or kw:
        raise Unsupported("another signature of the compiled simulation")
    iv, Q = args[0], args[9]
    r, e = simulated(lambda t, i: as_poly(iv.at((t, const(i)))), as_poly(iv._shape[0]), poly(args[1]), [poly(x) for x in args[2:6]],
                     *[poly(x) for x in args[6:9]], [el(Q, i, j) for i, j in ((0, 0), (1, 1), (1, 0))], [poly(x) for x in args[10:]])
    return Num(r), SBool(e)


def compiled():
    m = types.ModuleType("frds.measures.measures_ext")
    m.simulation = simulation_compiled
    return {"frds.algorithms.utils.utils_ext": None, "frds.measures.measures_ext": m}


def estimate(c):
    n, h, S, seed, t = [integer(x) for x in ("n_days", "h", "S", "seed", "t")]
    C, a, b = T.Var("C"), T.Var("a", nonneg=True), T.Var("b", nonneg=True)
    FACTS.push(T.gt(n - ONE))
    FACTS.push(T.gt(S))
    T.CTX.add_pos(n - ONE)
    o = c.fn(LR)(*[vec(nm, n) for nm in ("firm_returns", "market_returns")])
    names = {"firm_returns": "_i", "market_returns": "_m"}
    resid = lambda s: (lambda k: T.Read("resids" + s, k))
    sig = lambda s: (lambda k: T.Read("sigma2" + s, k, pos=True))

    def fit(f, self):
        """C07, C10: the margins' and the correlation's estimates are kept on the models."""
        for m in (self.model1, self.model2):
            at = as_poly(m.returns.at((t,)))
            s = [v for k, v in names.items() if T.depends(at, T.Read(k, t).atom())]
            if len(s) != 1:
                raise Unsupported("margins of other returns")
            s, = s
            c.eq(f"margin {s[1:]} is estimated on log returns in percent", at, const(100) * T.log(ONE + T.Read({v: k for k, v in names.items()}[s], t)), [T.gt(n - t)])
            m.resids, m.sigma2 = vec("resids" + s, n, named=False), vec("sigma2" + s, n, pos=True, named=False)
            m.parameters = type(m).Parameters(*[Num(T.Var(p + s)) for p in ("mu",) + PN[J]], loglikelihood=Num(T.Var("loglik" + s)))
        self.parameters = type(self).Parameters(*[Num(T.Var(f"joint{i}")) for i in range(10)], a=Num(a), b=Num(b), loglikelihood=Num(T.Var("loglik")))
        self.estimation_success = SBool(T.BApp("estimation.success"))
        return self.parameters

    def correlations(f, self, a, b):
        r1 = as_poly(self.model1.resids.at((t,)))
        if r1 not in (T.Read("resids_i", t), T.Read("resids_m", t)):
            raise Unsupported("correlations of other residuals")
        return Arr.new((n,), lambda i, a=poly(a), b=poly(b): T.Read("rho", i[0], a, b))
    for D in (DCC, GDCC):
        RT.contracts[D + ".fit"] = fit
        RT.contracts[D + ".conditional_correlations"] = correlations
    RT.contracts[LR + ".simulation"] = simulation_python
    z = lambda s: (lambda k: resid(s)(k) / T.sqrt(sig(s)(k)))
    rho = lambda k: T.Read("rho", k, a, b)
    xi = lambda k: (z("_i")(k) - rho(k) * z("_m")(k)) / T.sqrt(ONE - rho(k) ** 2)
    mean = lambda f: T.Sum(n, f) / n
    cov = lambda f, g: T.Sum(n, lambda k: (f(k) - mean(f)) * (g(k) - mean(g))) / (n - ONE)
    q12 = cov(z("_m"), z("_i")) / T.sqrt(cov(z("_i"), z("_i")) * cov(z("_m"), z("_m")))
    last = n - ONE
    pars = [T.Var(p + s) for s in ("_i", "_m") for p in ("mu",) + PN[J]]

    def one(s):
        day = lambda j: T.App("default_rng.choice", seed, s, n, h, j)
        return simulated(lambda j, i: (xi, z("_m"))[i](day(j)), h, C, [sig("_i")(last), sig("_m")(last), resid("_i")(last), resid("_m")(last)],
                         a, b, rho(last), [ONE, ONE, q12], pars)
    total = T.Sum(S, lambda s: one(s)[0])
    events = T.Sum(S, lambda s: T.ite(one(s)[1], ONE, ZERO))

    def post(v):
        v = c.scalar("LRMES", v)
        if v is not None:
            c.eq("minus the mean firm return over the paths with an event, 0 without one", v, T.ite(T.eq(events), ZERO, -total / events))
    call = lambda: o.estimate(h=Num(h, "int"), S=Num(S, "int"), C=Num(C), random_seed=Num(seed, "int"))
    for out in c.outcomes(call, LR + ".estimate", raises=True):
        mark, n0 = JOURNAL.mark(), len(FACTS.stack)
        try:
            for f in out.pc:
                FACTS.push(f)
            core.apply_writes(out.writes)
            if out.kind == "raise":
                c.prove("an exception only where the estimation failed", T.neg(T.BApp("estimation.success")))
            else:
                c.prove("a value only where the estimation succeeded", T.BApp("estimation.success"))
                post(out.value)
        finally:
            del FACTS.stack[n0:]
            JOURNAL.rollback(mark)
    c.frame()


T.FUN_PROPS["path.excess"] = {"nonneg": True}


def below_one(c):
    """Each return in an event is above -1, so minus their mean is below 1 (delta: the smallest of finitely many gross returns)."""
    S, d = integer("S"), T.Var("delta", pos=True)
    e = lambda s: T.BApp("path.event", s)
    g = lambda s: d + T.App("path.excess", s)
    R = T.Sum(S, lambda s: T.ite(e(s), g(s) - ONE, ZERO))
    N_ = T.Sum(S, lambda s: T.ite(e(s), ONE, ZERO))
    X = T.Sum(S, lambda s: T.ite(e(s), g(s) - d, ZERO))
    c.lemma("what the gross returns exceed delta by is not negative", T.ge(X))
    c.lemma("the sum of the returns plus the number of events is delta times that number plus the excess", T.eq(N_ + R - d * N_ - X))
    c.prove("minus the sum of the returns is below the number of events", T.gt(N_ + R), [T.gt(N_)])
    m, k = T.Var("total"), T.Var("events", pos=True)
    c.prove("so minus the mean return over the events is below 1", T.gt(ONE + m / k), [T.gt(k + m)])


GROUPS = {
    "C11": [Group("simulation", [LR + ".simulation"], simulation)]
    + [Group(f"simulation, compiled{nm}", [MX + "lrmes_simulation_wrapper", MX + "simulation"], lambda c, lay=lay: simulation(c, True, lay), ext="ext")
       for nm, lay in (("", {}), (", strided innovations", dict(contig=False)))],
    "C12": [Group("estimate (pure Python)", [LR + ".estimate", LR + ".__init__"], estimate),
            Group("estimate (compiled simulation)", [LR + ".estimate", LR + ".__init__"], estimate, compiled),
            Group("lemma of the value", [], below_one)],
}
