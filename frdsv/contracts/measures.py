"""C13-C19, C25: closed-form measures."""
from ..contract import *

ME = "frds.measures."


# ---------------------------------------------------------------- C14
def mes(c):
    n = integer("T")
    FACTS.push(T.gt(n))
    f, m = vec("firm", n), vec("market", n)
    q = T.Var("q", nonneg=True)
    FACTS.push(T.ge(ONE - q))
    th = poly(N.percentile(vec("market", n), Num(q * 100)))
    bad = lambda k: T.gt(th - T.Read("market", k))
    cnt = T.Sum(n, lambda k: T.ite(bad(k), ONE, ZERO))
    tot = T.Sum(n, lambda k: T.ite(bad(k), T.Read("firm", k), ZERO))
    # quantifier: there is a day below the threshold
    FACTS.push(T.gt(cnt))
    K = ME + "_marginal_expected_shortfall:MarginalExpectedShortfall"
    C = c.fn(K)
    o = C(f, m)

    def post(x):
        x = c.scalar("mes", x)
        if x is not None:
            c.eq("mean of the firm's returns over exactly the days below the percentile", x, tot / cnt)
    c.each(lambda: o.estimate(Num(q)), post, K + ".estimate")

    def post5(x):
        x = c.scalar("mes", x)
        if x is not None:
            h5 = poly(N.percentile(vec("market", n), 5))
            b5 = lambda k: T.gt(h5 - T.Read("market", k))
            n5 = T.Sum(n, lambda k: T.ite(b5(k), ONE, ZERO))
            c.eq("the default percentile is the 5th", x, T.Sum(n, lambda k: T.ite(b5(k), T.Read("firm", k), ZERO)) / n5, [T.gt(n5)])
    c.each(lambda: o.estimate(), post5, K + ".estimate")
    c.frame()


def mes_lemmas(c):
    """Consequences of the postcondition, for any set of days."""
    n = integer("T")
    d = lambda k: T.Read("day", k, nonneg=True)
    cnt = T.Sum(n, d)
    FACTS.push(T.gt(cnt))
    T.CTX.add_pos(cnt)
    mes = lambda r: T.Sum(n, lambda k: d(k) * r(k)) / cnt
    a, b = T.Var("a"), T.Var("b")
    r1, r2 = (lambda k: T.Read("firm1", k)), (lambda k: T.Read("firm2", k))
    c.eq("linear in firm returns", mes(lambda k: a * r1(k) + b * r2(k)), a * mes(r1) + b * mes(r2))
    c.eq("a constant return gives that constant", mes(lambda k: a), a)
    lo = lambda k: a + T.Read("gap", k, nonneg=True)
    c.prove("not below the smallest return", T.ge(mes(lo) - a))


# ---------------------------------------------------------------- C15
def ses_spec(n, mes, lvg, ses, mf, lf):
    """Normal equations of the regression on (1, mes, lvg)."""
    S = lambda f: T.Sum(n, f)
    cols = [lambda k: ONE, mes, lvg]
    Gm = [[S(lambda k, i=i, j=j: cols[i](k) * cols[j](k)) for j in range(3)] for i in range(3)]
    g = [S(lambda k, i=i: cols[i](k) * ses(k)) for i in range(3)]
    return N.cramer(Gm, g)


def ses(c):
    n = integer("F")
    FACTS.push(T.gt(n))
    m, l, s = vec("mes", n), vec("lvg", n), vec("ses", n)
    mf, lf = real("mes_firm"), real("lvg_firm")
    K = ME + "_systemic_expected_shortfall:SystemicExpectedShortfall"
    o = c.fn(K)(m, l, s, mf, lf)
    a0, b0, c0 = ses_spec(n, lambda k: T.Read("mes", k), lambda k: T.Read("lvg", k), lambda k: T.Read("ses", k), poly(mf), poly(lf))

    def post(x):
        x = c.scalar("ses", x)
        if x is not None:
            c.eq("(b*MES + c*LVG)/(b + c) of the regression slopes", x, (b0 * poly(mf) + c0 * poly(lf)) / (b0 + c0))
    c.each(lambda: o.estimate(), post, K + ".estimate")
    c.frame()


def ses_lemmas(c):
    b, cc, x, y = T.Var("b"), T.Var("c"), T.Var("x"), T.Var("y")
    f = lambda b, cc, m, l: (b * m + cc * l) / (b + cc)
    nz = [T.ne(b + cc)]
    c.eq("equal MES and leverage give that value", f(b, cc, x, x), x, nz)
    s = T.Var("s")
    c.eq("rescaling the slopes leaves the value unchanged", f(s * b, s * cc, x, y), f(b, cc, x, y), nz + [T.ne(s)])
    n = integer("F")
    R = lambda nm: (lambda k: T.Read(nm, k))
    d = T.Var("shift")
    a1, b1, c1 = ses_spec(n, R("mes"), R("lvg"), R("ses"), x, y)
    a2, b2, c2 = ses_spec(n, R("mes"), R("lvg"), lambda k: T.Read("ses", k) + d, x, y)
    c.eq("shifting all training returns leaves the MES slope unchanged", b2, b1)
    c.eq("shifting all training returns leaves the leverage slope unchanged", c2, c1)
    a3, b3, c3 = ses_spec(n, R("mes"), R("lvg"), lambda k: T.Read("ses", k) * d, x, y)
    c.eq("rescaling all training returns rescales the MES slope", b3, b1 * d)
    c.eq("rescaling all training returns rescales the leverage slope", c3, c1 * d)


# ---------------------------------------------------------------- C16
def absorption(c):
    n, t = integer("n"), integer("T")
    FACTS.push(T.gt(n - ONE))
    FACTS.push(T.gt(t - ONE))
    x = vec("returns", n, t)
    f = T.Var("f", nonneg=True)
    FACTS.push(T.ge(ONE - f))
    K = ME + "_absorption_ratio:AbsorptionRatio"
    o = c.fn(K)(x)
    S = N.cov(vec("returns", n, t))
    ev = N.eigvalsh(S)
    tr = T.Sum(n, lambda i: as_poly(S.at((i, i))))
    m = T.App("floor", f * n + T.F(1, 2))
    FACTS.push(T.ge(n - m))     # f <= 1
    FACTS.push(T.ge(m))

    def post(v):
        v = c.scalar("ratio", v)
        if v is not None:
            c.eq("sum of the m largest eigenvalues over the trace, m = f*n rounded half up", v,
                 T.Sum(m, lambda i: as_poly(ev.at((n - m + i,)))) / tr)
    c.each(lambda: o.estimate(Num(f)), post, K + ".estimate")
    fifth = T.App("floor", n / const(5) + T.F(1, 2))
    c.each(lambda: o.estimate(), lambda v: c.eq("the default fraction is a fifth", poly(v), T.Sum(fifth, lambda i: as_poly(ev.at((n - fifth + i,)))) / tr), K + ".estimate")
    c.frame()


# ---------------------------------------------------------------- C18, C19
def bs(S, K, r, Tm, sg, q):
    d1 = (T.log(S / K) + (r - q + sg ** 2 / const(2)) * Tm) / (sg * T.sqrt(Tm))
    d2 = d1 - sg * T.sqrt(Tm)
    call = S * T.exp(-q * Tm) * T.cdf(d1) - K * T.exp(-r * Tm) * T.cdf(d2)
    put = K * T.exp(-r * Tm) * T.cdf(-d2) - S * T.exp(-q * Tm) * T.cdf(-d1)
    return call, put, d1, d2


def blsprice(c):
    P = lambda nm: Num(T.Var(nm, pos=True))
    S, K, Tm, sg = P("S"), P("K"), P("T"), P("sigma")
    r, q = real("r"), real("q")
    fn = c.fn(ME + "_option_price:blsprice")
    call, put, _, _ = bs(*[poly(x) for x in (S, K, r, Tm, sg, q)])

    def post(v):
        c.eq("call price", poly(v[0]), call)
        c.eq("put price", poly(v[1]), put)
        c.eq("put-call parity", poly(v[0]) - poly(v[1]), poly(S) * T.exp(-poly(q) * poly(Tm)) - poly(K) * T.exp(-poly(r) * poly(Tm)))
    c.each(lambda: fn(S, K, r, Tm, sg, q), post, ME + "_option_price:blsprice")
    c0, p0, _, _ = bs(*[poly(x) for x in (S, K, r, Tm, sg)], ZERO)

    def post0(v):
        c.eq("no yield by default: call", poly(v[0]), c0)
        c.eq("no yield by default: put", poly(v[1]), p0)
    c.each(lambda: fn(S, K, r, Tm, sg), post0, ME + "_option_price:blsprice")
    c.frame()


def blsprice_arrays(c):
    n, i = integer("n"), integer("i")
    FACTS.push(T.gt(n - i))
    V_ = lambda nm: vec(nm, n, pos=True)
    S, K, Tm, sg = V_("S"), V_("K"), V_("T"), V_("sigma")
    r, q = vec("r", n), vec("q", n)
    fn = c.fn(ME + "_option_price:blsprice")
    R = lambda nm, **k: T.Read(nm, i, **k)
    call, put, _, _ = bs(R("S", pos=True), R("K", pos=True), R("r"), R("T", pos=True), R("sigma", pos=True), R("q"))

    def post(v):
        c.eq("call price of every entry", el(v[0], i), call)
        c.eq("put price of every entry", el(v[1], i), put)
    c.each(lambda: fn(S, K, r, Tm, sg, q), post, ME + "_option_price:blsprice")
    c.frame()


def bs_lemmas(c):
    P = lambda nm: T.Var(nm, pos=True)
    S, K, Tm, sg, h = P("S"), P("K"), P("T"), P("sigma"), P("h")
    r, q = T.Var("r"), T.Var("q")
    c1, p1, d1, d2 = bs(S, K, r, Tm, sg, q)
    ch, ph, _, _ = bs(h * S, h * K, r, Tm, sg, q)
    c.eq("call homogeneous of degree one", ch, h * c1)
    c.eq("put homogeneous of degree one", ph, h * p1)
    c.prove("call at most the discounted asset price", T.ge(S * T.exp(-q * Tm) - c1))
    c.prove("put at most the discounted strike", T.ge(K * T.exp(-r * Tm) - p1))


def cca(c):
    P = lambda nm: Num(T.Var(nm, pos=True))
    E, vol, D, Tm = P("equity"), P("vol"), P("barrier"), P("T")
    r, cds = real("r"), real("cds")
    K = ME + "_contingent_claim_analysis:ContingentClaimAnalysis"
    C = c.fn(K)
    # the roots returned by the solver are square roots of the asset value and volatility: non-zero
    from .. import models as M

    def fsolve(func, x0, args, full, kw):
        h = RT.ext.pop("fsolve")
        x = M.fsolve(func, x0, args, full, kw)
        RT.ext["fsolve"] = h
        return x
    z = [T.Var("root.A", pos=True), T.Var("root.s", pos=True)]

    def solver(func, x0, args, full, kw):
        if not isinstance(args, tuple):
            args = (args,)
        a0 = V.as_arr(x0)
        x = V.as_arr([Num(z[0]), Num(z[1])])
        mark = JOURNAL.mark()
        res = func(x, *args)
        JOURNAL.rollback(mark)
        c.eq("the system has two equations", length(V.as_arr(list(res))), const(2))
        RT.roots.append(dict(x=x, residual=res, x0=a0))
        if full:
            return (x, V.SDict({}), 1, "")
        return x
    RT.ext["fsolve"] = solver
    RT.assume_note("fsolve", "fsolve is called on the recorded system and returns a non-zero point (its sign is irrelevant: only squares are used)")

    def post(v):
        if len(RT.roots) != 1:
            c.fail("one system of equations is solved")
            return
        A, s = z[0] ** 2, z[1] ** 2
        e, vv, d, t, rr = [poly(x) for x in (E, vol, D, Tm, r)]
        call, put, d1, d2 = bs(A, d, rr, t, s, ZERO)
        res = [poly(x) for x in RT.roots[-1]["residual"]]
        c.eq("first equation: equity is the call on the assets", res[0], e - call)
        c.eq("second equation: equity volatility", res[1], e * vv - A * s * T.cdf(d1))
        c.eq("first value: the put on the assets struck at the barrier", poly(v[0]), put)
        disc = d * T.exp(-rr * t)
        debt = disc - put
        cdsput = (ONE - T.exp(-(poly(cds) / const(10000)) * (d / debt - ONE) * t)) * disc
        c.eq("second value: put minus CDS-implied put", poly(v[1]), put - cdsput)
        c.eq("balance at a solution: assets = equity + discounted barrier - put", A, e + disc - poly(v[0]), [T.eq(res[0])])
    c.each(lambda: C.estimate(E, vol, r, D, Tm, cds), post, K + ".estimate")
    RT.roots.clear()

    def post0(v):
        c.eq("equal values with a zero CDS spread", poly(v[0]), poly(v[1]))
    c.each(lambda: C.estimate(E, vol, r, D, Tm, 0), post0, K + ".estimate")
    c.frame()


# ---------------------------------------------------------------- C17
def dip(c):
    n, sims, rets = integer("n_banks"), integer("n_simulations"), integer("n_returns")
    for x in (n, sims, rets):
        FACTS.push(T.gt(x))
    p, R = vec("default_prob", n), vec("correlations", n, n)
    th, seed = T.Var("threshold", nonneg=True), integer("seed")
    K = ME + "_distress_insurance_premium:DistressInsurancePremium"
    o = c.fn(K)(p, R)
    rng = N.Rng("RandomState", Num(seed, "int"))
    z = N.dot(rng.normal(0, 1, size=(Num(rets, "int"), Num(n, "int"))), N.transpose(N.cholesky(vec("correlations", n, n))))
    below = lambda s: T.Sum(n, lambda b: T.ite(T.gt(T.App("ppf", T.Read("default_prob", b)) - as_poly(z.at((s, b)))), ONE, ZERO))
    freq = lambda i: T.Sum(rets, lambda s: T.ite(T.eq(below(s) - i), ONE, ZERO)) / rets
    # losses of i+1 defaults: the (i+2)-th request of the generator
    tri = lambda i, d, j: T.App("RandomState.triangular", seed, ONE + i, const("0.1"), const("0.55"), ONE, i + ONE, sims, d, j)
    slot = lambda i, j: T.App("ceil", const(100) * T.Sum(i + ONE, lambda d: tri(i, d, j)))
    prob = lambda k: T.Sum(n, lambda i: T.Sum(sims, lambda j: T.ite(T.eq(slot(i, j) - k), freq(i + ONE), ZERO))) / sims
    first = poly(V.norm(V.strunc(poly(V.sround(Num(th * const(100)), 6))), "int")) * n
    FACTS.push(T.ge(const(100) * n - first))     # threshold at most 100%
    FACTS.push(T.ge(first))

    def post(v):
        v = c.scalar("premium", v)
        if v is not None:
            m = const(100) * n + ONE - first
            Sx = T.Sum(m, lambda k: prob(first + k))
            Sw = T.Sum(m, lambda k: (first + k) / const(100) * prob(first + k))
            c.lemma("the expected loss is not negative", T.ge(Sw))
            c.lemma("the expected loss is at most the number of banks times the probability", T.ge(n * Sx - Sw))
            c.eq("expected loss over the slots at or above the threshold", v,
                 T.Sum(const(100) * n + ONE - first, lambda k: (first + k) / const(100) * prob(first + k)))
    c.each(lambda: o.estimate(Num(th), Num(seed, "int"), Num(rets, "int"), Num(sims, "int")), post, K + ".estimate")
    c.frame()


# ---------------------------------------------------------------- C25
def kyle(c):
    n = integer("n")
    FACTS.push(T.gt(n))
    for how in ("array", "integer volume"):
        y, x = vec("ret", n), vec("vol", n, dtype=V.F8 if how == "array" else V.dtype_of("int64"))
        X = lambda k: T.Read("vol", k)
        spec = const(10 ** 6) * T.Sum(n, lambda k: X(k) * T.Read("ret", k)) / T.Sum(n, lambda k: X(k) ** 2)
        K = ME + "_kyle_lambda:kyle_lambda"

        def post(v):
            v = c.scalar("lambda", v)
            if v is not None:
                c.eq("least-squares slope without intercept, per million", v, spec)
        c.each(lambda: c.fn(K)(y, x), post, K)
    c.frame()
    a = T.Var("a")
    lam = lambda X, Y: T.Sum(n, lambda k: X(k) * Y(k)) / T.Sum(n, lambda k: X(k) ** 2)
    Y = lambda k: T.Read("ret", k)
    X = lambda k: T.Read("vol", k)
    c.eq("lemma: scales with returns", lam(X, lambda k: a * Y(k)), a * lam(X, Y))
    b = T.Var("b", pos=True)
    c.eq("lemma: scales inversely with volume", lam(lambda k: b * X(k), Y), lam(X, Y) / b)


def zscore(c):
    n = integer("n")
    FACTS.push(T.gt(n))
    roa, cap, past = real("roa"), real("capital"), vec("past", n)
    m = T.Sum(n, lambda k: T.Read("past", k)) / n
    sd = T.sqrt(T.Sum(n, lambda k: (T.Read("past", k) - m) ** 2) / n)
    K = ME + "_z_score:z_score"

    def post(v):
        v = c.scalar("z", v)
        if v is not None:
            c.eq("(roa + capital ratio)/population standard deviation", v, (poly(roa) + poly(cap)) / sd)
    c.each(lambda: c.fn(K)(roa, cap, past), post, K)
    c.frame()


# ---------------------------------------------------------------- C13
L = ME + "_long_run_mes:LongRunMarginalExpectedShortfall"


def lrmes_contract():
    """LRMES is used through its own contract (C12): a value that is a function of the data it was given and its arguments."""
    made = []

    def init(f, self, *a, **k):
        names = ["firm_returns", "market_returns"]
        d = dict(zip(names, a))
        d.update(k)
        JOURNAL.write(("at", self, "_given"), (d["firm_returns"], d["market_returns"]))

    def est(f, self, *a, **k):
        names = ["h", "S", "C", "random_seed"]
        dfl = dict(h=22, S=10000, C=Num(const("-0.1")), random_seed=42)
        dfl.update(zip(names, a))
        dfl.update(k)
        fr, mr = self._given
        return Num(T.App("LRMES", N.lam_of(fr), N.lam_of(mr), *[poly(dfl[n]) for n in names]))
    RT.contracts[L + ".__init__"] = init
    RT.contracts[L + ".estimate"] = est


def srisk(kind, agg):
    def thunk(c):
        t = integer("T")
        FACTS.push(T.gt(t - ONE))
        c.fn(ME + "_srisk:SRISK")
        lrmes_contract()
        mk = vec("market", t)
        k, h, S, Cc, seed = real("k"), Num(integer("h"), "int"), Num(integer("S"), "int"), real("C"), Num(integer("seed"), "int")
        K = ME + "_srisk:SRISK"
        args = [poly(h), poly(S), poly(Cc), poly(seed)]
        ml = N.lam_of(vec("market", t))
        short = lambda W, D, l: poly(k) * D - (ONE - poly(k)) * W * (ONE - l)
        if kind == "single":
            W, D = real("W", pos=True), real("D")
            fr = vec("firm", t)
            o = c.fn(K)(fr, mk, W, D)
            val = short(poly(W), poly(D), T.App("LRMES", N.lam_of(vec("firm", t)), ml, *args))

            def post(v):
                v = c.scalar("srisk", v)
                if v is None:
                    return
                if agg:
                    c.eq("a shortfall of one firm counts only if positive", v, T.ite(T.gt(val), val, ZERO))
                else:
                    c.eq("expected capital shortfall", v, val)
        else:
            n, i = integer("n"), integer("i")
            FACTS.push(T.gt(n - ONE))
            FACTS.push(T.gt(n - i))
            W, D = vec("W", n, pos=True), vec("D", n)
            fr = vec("firm", t, n)
            o = c.fn(K)(fr, mk, W, D)
            one = lambda j: short(T.Read("W", j, pos=True), T.Read("D", j),
                                  T.App("LRMES", T.lam(t, lambda s: T.Read("firm", s, j)), ml, *args))

            def post(v):
                if agg:
                    v = c.scalar("aggregate", v)
                    if v is not None:
                        c.eq("sum of the positive shortfalls", v, T.Sum(n, lambda j: T.ite(T.gt(one(j)), one(j), ZERO)))
                else:
                    c.eq("one value per firm", length(v), n)
                    c.eq("each firm's expected capital shortfall, with its own LRMES", el(v, i), one(i))
        kw = dict(k=k, lrmes_h=h, lrmes_S=S, lrmes_C=Cc, lrmes_random_seed=seed, aggregate_srisk=agg)
        c.each(lambda: o.estimate(**kw), post, K + ".estimate")
        if kind == "single" and not agg:
            dflt = [const(22), const(10000), const("-0.1"), const(42)]
            w8 = const("0.08")

            def post0(v):
                v = c.scalar("srisk", v)
                if v is not None:
                    l = T.App("LRMES", N.lam_of(vec("firm", t)), ml, *dflt)
                    c.eq("defaults: capital ratio 8%, 22 days, 10000 simulations, a fall of 10%, seed 42", v, w8 * poly(D) - (ONE - w8) * poly(W) * (ONE - l))
            c.each(lambda: o.estimate(), post0, K + ".estimate")
        c.frame()
    return thunk


def srisk_lemma(c):
    n = integer("n")
    x = lambda j: T.Read("srisk", j)
    c.prove("the aggregate is never negative", T.ge(T.Sum(n, lambda j: T.ite(T.gt(x(j)), x(j), ZERO))))


SR = [ME + "_srisk:SRISK.estimate", ME + "_srisk:SRISK.__init__"]
GROUPS = {
    "C13": [Group(f"SRISK.estimate ({k}{', aggregate' if a else ''})", SR, srisk(k, a)) for k in ("single", "multiple") for a in (False, True)]
           + [Group("lemma of the aggregate", [], srisk_lemma)],
    "C14": [Group("MarginalExpectedShortfall.estimate", [ME + "_marginal_expected_shortfall:MarginalExpectedShortfall.estimate"], mes),
            Group("lemmas of MES", [], mes_lemmas)],
    "C15": [Group("SystemicExpectedShortfall.estimate", [ME + "_systemic_expected_shortfall:SystemicExpectedShortfall.estimate"], ses),
            Group("lemmas of SES", [], ses_lemmas)],
    "C16": [Group("AbsorptionRatio.estimate", [ME + "_absorption_ratio:AbsorptionRatio.estimate"], absorption)],
    "C17": [Group("DistressInsurancePremium.estimate", [ME + "_distress_insurance_premium:DistressInsurancePremium.estimate"], dip)],
    "C18": [Group("ContingentClaimAnalysis.estimate", [ME + "_contingent_claim_analysis:ContingentClaimAnalysis.estimate"], cca)],
    "C19": [Group("blsprice", [ME + "_option_price:blsprice"], blsprice), Group("blsprice on arrays", [ME + "_option_price:blsprice"], blsprice_arrays),
            Group("lemmas of the formula", [], bs_lemmas)],
    "C25": [Group("kyle_lambda", [ME + "_kyle_lambda:kyle_lambda"], kyle), Group("z_score", [ME + "_z_score:z_score"], zscore)],
}
