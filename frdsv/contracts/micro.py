"""C20-C24: market microstructure measures."""
from ..contract import *
from .. import core
from ..search import Trials, equal

ME = "frds.measures."
HUND = const(100)


def R(nm, k, **kw):
    return T.Read(nm, k, **kw)


# ---------------------------------------------------------------- C22 / C23
def quoted(c):
    n = integer("n")
    FACTS.push(T.gt(n))
    K = ME + "spread:quoted_spread"
    b, a = (lambda k: R("bid", k, pos=True)), (lambda k: R("ask", k, pos=True))
    A = (vec("bid", n, pos=True), vec("ask", n, pos=True))
    pct = T.Sum(n, lambda k: (a(k) - b(k)) / ((a(k) + b(k)) / const(2)) * HUND) / n
    lg = T.Sum(n, lambda k: T.log(a(k)) - T.log(b(k))) / n
    for how, call, want in (("percent", lambda: c.fn(K)(*A), pct), ("percent, explicit", lambda: c.fn(K)(*A, pct_spread=True), pct), ("log", lambda: c.fn(K)(*A, pct_spread=False), lg)):
        def post(v, how=how, want=want):
            v = c.scalar("spread", v)
            if v is not None:
                c.eq(f"simple average of the {how} spreads", v, want)
        c.each(call, post, K)
    c.frame()


def _weighted(c, n, item, nan, v, what, zero):
    """Dollar-volume weighted, or the plain average of the values there are when no trade has dollar volume."""
    w = lambda k: R("volume", k, nonneg=True) * R("price", k, pos=True)
    tot = T.Sum(n, w)
    if not zero:
        c.eq(f"dollar-volume weighted average of {what}", v, T.Sum(n, lambda k: w(k) * item(k)) / tot)
    else:
        cnt = T.Sum(n, lambda k: T.ite(nan(k), ZERO, ONE))
        c.eq(f"plain average of {what} where present (no dollar volume)", v, T.Sum(n, lambda k: T.ite(nan(k), ZERO, item(k))) / cnt)


def trade(K, args, diff, anchor):
    """args: names of the array parameters; diff: (minuend, subtrahend) names; anchor: name of the midpoint at trade."""
    def thunk(c):
        n = integer("n")
        FACTS.push(T.gt(n))
        # with no dollar volume at all, midpoints may be missing: no sign is assumed of them there
        for zero in (False, True):
            val = lambda nm, k: R("price", k, pos=True) if nm == "price" else (R("volume", k, nonneg=True) if nm == "volume" else R(nm if not zero else nm + "?", k, pos=not zero))
            A = []
            for x in args:
                if x == "volume":
                    A.append(vec("volume", n, nonneg=True))
                elif x == "price":
                    A.append(vec("price", n, pos=True))
                else:
                    A.append(vec(x if not zero else x + "?", n, pos=not zero))
            for direction in (False, True):
                for pct in (True, False):
                    if zero and not pct:
                        # logarithms of midpoints: positive where present
                        pass
                    d = lambda k: R("direction", k)
                    x, y = diff
                    if pct:
                        base = lambda k: (val(x, k) - val(y, k)) / val(anchor, k) * HUND
                    else:
                        base = lambda k: T.log(val(x, k)) - T.log(val(y, k))
                    if direction:
                        item = lambda k: const(2) * d(k) * base(k)
                    elif pct:
                        item = lambda k: const(2) * T.absolute(val(x, k) - val(y, k)) / val(anchor, k) * HUND
                    else:
                        item = lambda k: const(2) * T.absolute(base(k))
                    names = {x, y} | ({anchor} if pct else set()) | ({"direction"} if direction else set())
                    nan = lambda k: T.disj(*[T.isnan(d(k) if z == "direction" else val(z, k)) for z in sorted(names)])
                    what = ("directed " if direction else "absolute ") + ("percent" if pct else "log") + " spreads"
                    kw = {}
                    if direction:
                        kw["trade_direction"] = vec("direction", n)
                    if not pct:
                        kw["pct_spread"] = False
                    w = T.Forall(n, lambda k: T.eq(R("volume", k, nonneg=True)))
                    n0 = len(FACTS.stack)
                    if zero:
                        FACTS.push(w)
                    else:
                        j = integer("traded")
                        FACTS.push(T.gt(n - j))
                        FACTS.push(T.gt(R("volume", j, nonneg=True)))

                    def post(v):
                        v = c.scalar("spread", v)
                        if v is not None:
                            _weighted(c, n, item, nan, v, what, zero)
                    c.each(lambda: c.fn(K)(*A, **kw), post, K)
                    del FACTS.stack[n0:]
        c.frame()
    return thunk


def decomposition(c):
    """Effective spread = realized spread + price impact, per trade, hence for every weighted average."""
    n = integer("n")
    p, m, l = (lambda k: R("price", k, pos=True)), (lambda k: R("midpoint", k, pos=True)), (lambda k: R("later", k, pos=True))
    d, w = (lambda k: R("direction", k)), (lambda k: R("weight", k))
    tot = T.Sum(n, w)
    avg = lambda f: T.Sum(n, lambda k: w(k) * f(k)) / tot
    pc = lambda a, b: (lambda k: const(2) * d(k) * (a(k) - b(k)) / m(k) * HUND)
    lg = lambda a, b: (lambda k: const(2) * d(k) * (T.log(a(k)) - T.log(b(k))))
    c.eq("effective = realized + impact, percent", avg(pc(p, m)), avg(pc(p, l)) + avg(pc(l, m)))
    c.eq("effective = realized + impact, log", avg(lg(p, m)), avg(lg(p, l)) + avg(lg(l, m)))


# ---------------------------------------------------------------- C24
def nanmean_of(n, f, nan):
    return T.Sum(n, lambda k: T.ite(nan(k), ZERO, f(k))) / T.Sum(n, lambda k: T.ite(nan(k), ZERO, ONE))


def slope(side):
    def thunk(c):
        n, k = integer("n"), integer("levels")
        FACTS.push(T.gt(n))
        FACTS.push(T.gt(k - ONE))
        K = ME + f"lob_slope:DGGW_{side}_slope"
        size, top, mid = vec("size", n, k), vec("top", n), vec("mid", n)
        dist = lambda i: (R("top", i) - R("mid", i)) if side == "ask" else T.absolute(R("top", i) - R("mid", i))
        f = lambda i: T.Sum(k, lambda j: T.Read("size", i, j)) / dist(i)
        nan = lambda i: T.disj(T.Exists(k, lambda j: T.isnan(T.Read("size", i, j))), T.isnan(R("top", i)), T.isnan(R("mid", i)))

        def post(v):
            v = c.scalar("slope", v)
            if v is not None:
                c.eq("average over quotes of total depth over the distance from the midpoint, missing quotes left out", v, nanmean_of(n, f, nan))
        c.each(lambda: c.fn(K)(size, top, mid), post, K)
        c.frame()
    return thunk


def slope_difference(side):
    def thunk(c):
        n, k = integer("n"), integer("levels")
        FACTS.push(T.gt(n))
        FACTS.push(T.gt(k - const(4)))
        K = ME + f"lob_slope:DGGW_{side}_side_slope_difference"
        size, price = vec("size", n, k), vec("price", n, k)
        s = lambda i, j: T.Read("size", i, const(j))
        p = lambda i, j: T.Read("price", i, const(j))
        f = lambda i: (s(i, 4) - s(i, 2)) / T.absolute(p(i, 4) - p(i, 2)) - (s(i, 2) - s(i, 0)) / T.absolute(p(i, 2) - p(i, 0))
        nan = lambda i: T.disj(*[T.isnan(g(i, j)) for g in (s, p) for j in (0, 2, 4)])

        def post(v):
            v = c.scalar("difference", v)
            if v is not None:
                c.eq("slope over levels 3-5 less slope over levels 1-3, averaged over complete quotes", v, nanmean_of(n, f, nan))
        c.each(lambda: c.fn(K)(size, price), post, K)
        c.frame()
    return thunk


def depth(c):
    n, k = integer("n"), integer("levels")
    FACTS.push(T.gt(n))
    FACTS.push(T.gt(k))
    K = ME + "lob_slope:DGGW_scaled_depth_difference"
    D = lambda nm, i: T.Sum(k, lambda j: T.Read(nm, i, j))
    f = lambda a, b: (lambda i: const(2) * (D(a, i) - D(b, i)) / (D(a, i) + D(b, i)))
    nan = lambda i: T.disj(*[T.Exists(k, lambda j, nm=nm: T.isnan(T.Read(nm, i, j))) for nm in ("bid", "ask")])

    def post(v):
        v = c.scalar("sdd", v)
        if v is not None:
            c.eq("average of 2*(ask depth - bid depth)/(ask depth + bid depth) over complete quotes", v, nanmean_of(n, f("ask", "bid"), nan))
    c.each(lambda: c.fn(K)(vec("bid", n, k), vec("ask", n, k)), post, K)

    def post2(v):
        v = c.scalar("sdd", v)
        if v is not None:
            c.eq("changes sign when the sides are swapped", v, -nanmean_of(n, f("ask", "bid"), nan))
    c.each(lambda: c.fn(K)(vec("ask", n, k), vec("bid", n, k)), post2, K)
    c.frame()


def depth_lemma(c):
    n = integer("n")
    FACTS.push(T.gt(n))
    a, b = (lambda i: R("askdepth", i, nonneg=True)), (lambda i: R("biddepth", i, nonneg=True))
    w = lambda i: R("present", i, nonneg=True)
    cnt = T.Sum(n, w)
    T.CTX.add_pos(cnt)
    FACTS.push(T.gt(cnt))
    i = integer("i")
    x = (a(i) - b(i)) * const(2) / (a(i) + b(i))
    nz = [T.gt(a(i) + b(i))]
    c.prove("every scaled difference is at most 2", T.ge(const(2) - x), nz)
    c.prove("every scaled difference is at least -2", T.ge(const(2) + x), nz)
    z = lambda i: R("two_minus", i, nonneg=True)
    c.prove("an average of numbers at most 2 is at most 2", T.ge(const(2) - T.Sum(n, lambda k: w(k) * (const(2) - z(k))) / cnt))


# ---------------------------------------------------------------- C20
def pin_spec(n, al, de, eb, es, mu):
    B, S = (lambda t: R("B", t, nonneg=True)), (lambda t: R("S", t, nonneg=True))
    po = lambda rate, cnt: T.exp(-rate + cnt * T.log(rate))       # Poisson without the factorial
    day = lambda t: (al * (ONE - de) * po(eb + mu, B(t)) * po(es, S(t)) + al * de * po(eb, B(t)) * po(es + mu, S(t))
                     + (ONE - al) * po(eb, B(t)) * po(es, S(t)))
    return -T.Sum(n, lambda t: T.log(day(t)))


def interior():
    eb, es, mu = [T.Var(x, pos=True) for x in ("eB", "eS", "mu")]
    # 0 < alpha, delta < 1
    a0, d0, a1, d1 = T.Var("alpha", pos=True), T.Var("delta", pos=True), None, None
    FACTS.push(T.gt(ONE - a0))
    FACTS.push(T.gt(ONE - d0))
    T.CTX.add_pos(ONE - a0)
    T.CTX.add_pos(ONE - d0)
    return a0, d0, eb, es, mu


def pin_likelihood(which):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        al, de, eb, es, mu = interior()
        spec = pin_spec(n, al, de, eb, es, mu)
        P = ME + "_probability_of_informed_trading:PIN"
        o = c.fn(P)(vec("B", n, nonneg=True), vec("S", n, nonneg=True))
        K = P + ".loglikelihood_" + which

        def post(v):
            v = c.scalar("likelihood", v)
            if v is not None:
                c.eq("minus the log-likelihood of the Poisson mixture", v, spec)
                if which == "LK2011":
                    stable(c, n, powers)
        f = getattr(o, "loglikelihood_" + which)
        powers = []

        def call():
            powers.clear()
            np_, exp = c.L.np, c.L.np.exp

            def recorded(x, *a, **k):
                powers.append(x)
                return exp(x, *a, **k)
            np_.exp = recorded
            try:
                return f(V.as_arr([Num(x) for x in (al, de, eb, es, mu)]))
            finally:
                np_.exp = exp
        c.each(call, post, K)
        c.frame()
    return thunk


def stable(c, n, powers):
    """No exponential of Lin and Ke's form overflows, and those of a day do not all vanish."""
    t = integer("day")
    with under(T.gt(n - t)):
        es = [el(x, t) if isinstance(x, Arr) and len(x._shape) == 1 else poly(x) for x in powers if is_num(x) or isinstance(x, Arr) and len(x._shape) == 1]
        for e in es:
            c.prove("no exponential overflows", T.ge(-e), kind="soft")
        if es:
            c.prove("the largest exponential of a day is one", T.disj(*[T.eq(e) for e in es]), kind="soft")


# ---------------------------------------------------------------- C21
PINK = ME + "_probability_of_informed_trading:PIN"


def grid(c):
    """Every starting point of the search matches the two sample means; points with a negative sell rate, and only those, are left out."""
    n = integer("T")
    FACTS.push(T.gt(n))
    o = c.fn(PINK)(vec("B", n, nonneg=True), vec("S", n, nonneg=True))
    mb = T.Sum(n, lambda t: R("B", t, nonneg=True)) / n
    ms = T.Sum(n, lambda t: R("S", t, nonneg=True)) / n
    FACTS.push(T.gt(mb))

    outs = c.outcomes(lambda: items_of(o.init_params_grid_search()), PINK + ".init_params_grid_search")
    grid_pts = {}
    for w in outs:
        for g, x in w.value:
            al, de, eb, es, mu = x
            grid_pts[(al, de, eb / mb)] = x
    sides = [set(k[i] for k in grid_pts) for i in range(3)]
    c.prove("no combination of the grid is missing", TRUE if grid_pts and len(grid_pts) == len(sides[0]) * len(sides[1]) * len(sides[2]) or _lost(grid_pts, sides, mb, ms) else FALSE)
    YZ = {core.F(k, 10) for k in (1, 3, 5, 7, 9)}
    for nm, side in zip(("alpha", "delta", "the share of uninformed buys"), sides):
        c.prove(f"{nm} takes the five values 0.1, 0.3, 0.5, 0.7, 0.9 of Yan and Zhang (2012)", TRUE if {x.const() for x in side} == YZ else FALSE)
    for w in outs:
        pc = list(w.pc)
        eqs, nonneg, neg, here = [], [], [], set()
        for g, (al, de, eb, es, mu) in w.value:
            eqs += [T.disj(T.neg(g), T.eq(al * (ONE - de) * mu + eb - mb)), T.disj(T.neg(g), T.eq(al * de * mu + es - ms))]
            nonneg.append(T.disj(T.neg(g), T.ge(es)))
            neg.append(T.disj(g, T.gt(-es)))
            here.add((al, de, eb / mb))
        for k, (al, de, eb, es, mu) in grid_pts.items():
            if k not in here:
                neg.append(T.gt(-es))
        c.prove("every starting point matches the sample means of buys and sells", T.conj(*eqs), pc)
        c.prove("no starting point has a negative sell rate", T.conj(*[b for b in nonneg if b not in pc]), pc)
        c.prove("only points with a negative sell rate are left out", T.conj(*[b for b in neg if b not in pc]), pc)
    c.frame()


def items_of(v):
    items = list.__iter__(v) if isinstance(v, H.GenList) else [(T.TRUE, x) for x in v]
    return [(g, tuple(poly(y) for y in x)) for g, x in items]


def _lost(pts, sides, mb, ms):
    """Combinations that never occur: only right if their sell rate is negative in every sample."""
    for al in sides[0]:
        for de in sides[1]:
            for ga in sides[2]:
                if (al, de, ga) not in pts:
                    mu = (mb - ga * mb) / (al * (ONE - de))
                    if not FACTS.decide(T.gt(al * de * mu - ms)):
                        return False
    return bool(pts)


PN = ("alpha", "delta", "eB", "eS", "mu")


def pin_estimate(method):
    def thunk(c):
        n = integer("T")
        FACTS.push(T.gt(n))
        V.NONFINITE.add("opt.fun")
        fun = lambda k: T.Read("opt.fun", k)
        ok = lambda k: T.BApp("opt.success", k)
        xk = lambda k: [T.Read("opt." + x, k) for x in PN]
        sk = lambda k: [T.Read("start." + x, k) for x in PN]
        # a qualifying optimum: success, and a log-likelihood that is a number below infinity
        Q = lambda k: T.conj(ok(k), T.neg(T.isnan(fun(k))), T.neg(V.posinf(-fun(k))))
        better = lambda k, j: T.gt(fun(j) - fun(k))
        RT.assume_note("pin.minimize", "scipy.optimize.minimize(L-BFGS-B): any result for each starting point; on success opt.x is within the bounds and opt.fun is not +inf")
        cur = {}

        def item(k):
            cur["k"] = k
            return tuple(Num(x) for x in sk(k))
        for w in ("EHO2010", "LK2011"):
            RT.contracts[PINK + ".loglikelihood_" + w] = lambda f, self, x, w=w: Num(T.App("minus.loglik." + w, *[el(x, i) for i in range(5)]))

        def minimize(func, x0, args, meth, bounds, constraints, kw):
            k = cur["k"]
            x0 = V.as_arr(x0) if not isinstance(x0, Arr) else x0
            for i, s in enumerate(sk(k)):
                c.eq("the search starts at the grid point", el(x0, i), s)
            x = V.as_arr([Num(v) for v in xk(k)])
            a = args if isinstance(args, tuple) else (args,)
            val = poly(func(x, *a))
            c.eq("the objective is minus the log-likelihood of the method", val, T.App("minus.loglik." + method, *xk(k)))
            for i, (lo, hi) in enumerate(list(bounds)):
                c.prove(f"{PN[i]} is bounded below by 0", TRUE if lo is not None and V.pconst(lo) == 0 else FALSE)
                if i < 2:
                    c.prove(f"{PN[i]} is bounded above by 1", TRUE if hi is not None and V.pconst(hi) == 1 else FALSE)
                else:
                    c.prove(f"{PN[i]} is not bounded above", TRUE if hi is None or tonum(hi).special == "inf" else FALSE)
            return M.Opt(x=x, fun=Num(fun(k)), success=V.SBool(ok(k)), message="", nit=0, status=0)
        RT.ext["minimize"] = minimize
        RT.contracts[PINK + ".init_params_grid_search"] = lambda f, self: Trials(c, self, Q, better, item)

        def post(v):
            j = integer("trial.j")
            if o.estimation_success is False or (not isinstance(o.estimation_success, bool) and False):
                for x in ("alpha", "delta", "epsilon_b", "epsilon_s", "mu", "loglikelihood", "pin"):
                    y = getattr(v, x)
                    c.prove(f"{x} is NaN when no optimum qualifies", TRUE if is_num(y) and tonum(y).special == "nan" else FALSE)
                c.prove("failure is reported only if no optimum qualifies", T.neg(T.BApp("some trial qualifies")))
                return
            c.prove("success is reported as a plain flag", to_bool(o.estimation_success))
            c.prove("success is reported only if an optimum qualifies", T.BApp("some trial qualifies"))
            al, de, eb, es, mu = xk(j)
            for x, y in zip(("alpha", "delta", "epsilon_b", "epsilon_s", "mu"), xk(j)):
                c.eq(f"{x} of the best optimum", poly(getattr(v, x)), y)
            c.eq("its log-likelihood", poly(v.loglikelihood), -fun(j))
            c.eq("its probability of informed trading", poly(v.pin), al * mu / (al * mu + eb + es))
            c.prove("the method", TRUE if v.method == method else FALSE)
            c.prove("the parameters are kept on the object", TRUE if v is o.parameters else equal(v, o.parameters))
        for past in ("new", "after a success"):
            o = c.fn(PINK)(vec("B", n, nonneg=True), vec("S", n, nonneg=True))
            if past != "new":
                P = type(o).Parameters
                q = P(*[Num(T.Var("old." + x)) for x in PN], loglikelihood=Num(T.Var("old.ll")))
                q.pin, q.method = Num(T.Var("old.pin")), "EHO2010"
                o.parameters, o.estimation_success = q, True
            c.each(lambda: o.estimate(method), post, PINK + ".estimate")
            if method == "EHO2010":
                c.each(lambda: o.estimate(), post, PINK + ".estimate")
        c.frame()
    return thunk


def pin_lemma(c):
    al, mu, eb, es = [T.Var(x, nonneg=True) for x in ("alpha", "mu", "eB", "eS")]
    tot = al * mu + eb + es
    pin = al * mu / tot
    c.prove("pin is not negative", T.ge(pin), [T.gt(tot)])
    c.prove("pin is at most 1", T.ge(ONE - pin), [T.gt(tot)])


S_ = ME + "spread:"
GROUPS = {
    "C20": [Group("PIN.loglikelihood_" + w, [ME + "_probability_of_informed_trading:PIN.loglikelihood_" + w], pin_likelihood(w)) for w in ("EHO2010", "LK2011")],
    "C21": [Group("PIN.init_params_grid_search", [PINK + ".init_params_grid_search"], grid)]
           + [Group("PIN.estimate " + w, [PINK + ".estimate", PINK + ".Parameters.calculate_pin"], pin_estimate(w)) for w in ("EHO2010", "LK2011")]
           + [Group("lemma of the probability", [], pin_lemma)],
    "C22": [Group("quoted_spread", [S_ + "quoted_spread"], quoted),
            Group("effective_spread", [S_ + "effective_spread"], trade(S_ + "effective_spread", ("price", "midpoint", "volume"), ("price", "midpoint"), "midpoint")),
            Group("realized_spread", [S_ + "realized_spread"], trade(S_ + "realized_spread", ("price", "later", "midpoint", "volume"), ("price", "later"), "midpoint"))],
    "C23": [Group("simple_price_impact", [ME + "price_impact:simple_price_impact"],
                  trade(ME + "price_impact:simple_price_impact", ("price", "later", "midpoint", "volume"), ("later", "midpoint"), "midpoint")),
            Group("effective = realized + impact", [], decomposition)],
    "C24": [Group(f"DGGW_{s}_slope", [ME + f"lob_slope:DGGW_{s}_slope"], slope(s)) for s in ("ask", "bid")]
           + [Group(f"DGGW_{s}_side_slope_difference", [ME + f"lob_slope:DGGW_{s}_side_slope_difference"], slope_difference(s)) for s in ("ask", "bid")]
           + [Group("DGGW_scaled_depth_difference", [ME + "lob_slope:DGGW_scaled_depth_difference"], depth), Group("lemmas of the depth difference", [], depth_lemma)],
}
