"""C27: building blocks of the modified Merton model."""
from ..contract import *
from .measures import bs

MM = "frds.measures.modified_merton."
BS = "frds.measures._option_price:blsprice"


# ---------------------------------------------------------------- loan_payoff
def payoff(F, m, rho, sig, Tm):
    """Expectation of min(exp(m + s Z), F), Z standard normal, in closed form."""
    s = sig * T.sqrt(Tm) * T.sqrt(ONE - rho)
    a = (T.log(F) - m) / s
    EA = T.exp(m + s ** 2 / const(2))
    return EA * T.cdf(a - s) + F * T.cdf(-a), EA, a, s


def correlation():
    gap = T.Var("1-rho", pos=True)       # 0 <= rho < 1
    FACTS.push(T.ge(ONE - gap))
    return ONE - gap


def loan(fdim, matrix):
    def thunk(c):
        K = MM + "loan_payoff:loan_payoff"
        fn = c.fn(K)
        P = lambda nm: T.Var(nm, pos=True)
        sig, Tm, rho = P("sigma"), P("T"), correlation()
        iv = T.Var("ival")
        dims = [integer(f"n{k}") for k in range(fdim)]
        ix = [integer(f"i{k}") for k in range(fdim)]
        for n, i in zip(dims, ix):
            FACTS.push(T.gt(n - i))
        f = vec("f", *dims) if fdim else real("f")
        F = vec("F", *dims, pos=True) if matrix == "F" or matrix == "both" else Num(P("F"))
        ival = vec("ival", *dims) if matrix == "both" else Num(iv)
        m = (T.Read("f", *ix) if fdim else poly(f)) + (T.Read("ival", *ix) if matrix == "both" else iv)
        FF = T.Read("F", *ix, pos=True) if matrix else P("F")
        spec = payoff(FF, m, rho, sig, Tm)[0]

        def post(v):
            if fdim:
                c.prove("one payoff for every state", T.conj(*[T.eq(as_poly(a) - b) for a, b in zip(v._shape, dims)]) if isinstance(v, Arr) and len(v._shape) == fdim else FALSE)
                x = el(v, *ix)
            else:
                x = c.scalar("payoff", v)
            if x is not None:
                c.eq("expected smaller of asset value and face value", x, spec)
        c.each(lambda: fn(F, f, ival, Num(rho), Num(sig), Num(Tm)), post, K)
        c.frame()
    return thunk


def loan_lemmas(c):
    F, s = T.Var("F", pos=True), T.Var("s", pos=True)
    m, z = T.Var("m"), T.Var("z")
    two = const(2)
    phi = lambda x: T.exp(-x ** 2 / two)         # times 1/sqrt(2 pi), which cancels
    EA = T.exp(m + s ** 2 / two)
    a = (T.log(F) - m) / s
    c.eq("the asset value at a shock times its density is EA times the density shifted by s", T.exp(m + s * z) * phi(z), EA * phi(z - s))
    c.eq("at the default point both densities agree", EA * phi(a - s), F * phi(a))
    c.eq("the default point is where the asset value is the face value", T.exp(m + s * a), F)
    c.eq("the shock is below the default point by as much as the log asset value is below the log face value (times 1/s > 0)", s * (a - z), T.log(F) - T.log(T.exp(m + s * z)))
    # d/dm of the closed form, by the chain rule with d Phi(x) = phi(x) dx, da/dm = -1/s
    slope = EA * T.cdf(a - s) + EA * phi(a - s) * (-ONE / s) + F * phi(a) * (ONE / s)
    c.eq("slope in the factor is the expected asset value below the default point", slope, EA * T.cdf(a - s))
    c.prove("increasing in the factor", T.ge(slope))
    x = T.Var("asset", pos=True)
    c.prove("never above the face value, shock by shock", T.ge(F - T.ite(T.gt(F - x), x, F)))
    c.prove("never above the asset value, shock by shock", T.ge(x - T.ite(T.gt(F - x), x, F)))


# ---------------------------------------------------------------- find_face_value_indiv
def face(c):
    K = MM + "find_face_value_indiv:find_face_value_indiv"
    fn = c.fn(K)
    P = lambda nm: T.Var(nm, pos=True)
    F, sig, Tm = P("F"), P("sigma"), P("T")
    mu, iv, r, d = [T.Var(x) for x in ("mu", "ival", "r", "d")]
    call, put, _, _ = bs(T.exp(iv), F, r, Tm, sig, d)
    L = F * T.exp(-r * Tm) - put

    def post(v):
        x = c.scalar("error", v)
        if x is not None:
            c.eq("promised yield minus the yield implied by the loan value", x, mu - T.log(F / L) / Tm)
    c.each(lambda: fn(*[Num(x) for x in (mu, F, iv, sig, Tm, r, d)]), post, K)
    c.frame()
    A = T.exp(iv)
    # the loan value by put-call parity
    c.eq("lemma: the loan value is the asset value less payouts and the call", L, A * T.exp(-d * Tm) - call)


# ---------------------------------------------------------------- merton_solution
def opaque_blsprice():
    def price(f, S, K, r, T_=None, sigma=None, q=0, **k):
        Tm = k.get("T", T_)
        a = [poly(x) for x in (S, K, r, Tm, sigma, q)]
        return (Num(T.App("blsprice.call", *a)), Num(T.App("blsprice.put", *a)))
    RT.contracts[BS] = price


def solution(case):
    def thunk(c):
        K = MM + "merton_solution:merton_solution"
        fn = c.fn(K)
        P = lambda nm: T.Var(nm, pos=True)
        E, D, Tm, vE = P("E"), P("D"), P("T"), P("sigE")
        r, d = T.Var("r"), T.Var("d")
        a0, s0 = P("A"), P("sigma")
        A, s = (-a0 if "A" in case else a0), (-s0 if "s" in case else s0)
        Ap, sp = (ZERO if "A" in case else a0), (ZERO if "s" in case else s0)
        if case:
            opaque_blsprice()
            C = T.App("blsprice.call", Ap, D, r, Tm, sp, d)
        else:
            C, _, d1, _ = bs(Ap, D, r, Tm, sp, d)
        carry = ONE - T.exp(-d * Tm)
        e0 = E - (C + Ap * carry)
        v0 = ZERO if case else (T.exp(-d * Tm) * T.cdf(d1) + carry) * (a0 / E) * s0

        def post(v):
            c.eq("two errors", length(v), const(2))
            x, y = el(v, 0), el(v, 1)
            if not case:
                c.eq("observed less model equity value", x, e0)
                c.eq("observed less model equity volatility", y, vE - v0)
                return
            p = x - e0
            c.eq("the same penalty on both errors", p, y - (vE - v0))
            c.prove("a negative guess is penalised", T.gt(p))
            h = P("h")
            mp = {}
            if "A" in case:
                mp[a0.atom()] = h * a0
            if "s" in case:
                mp[s0.atom()] = h * s0
            c.eq("the penalty grows with the square of the negative guess", T.subst(p, mp), h ** 2 * p)
        c.each(lambda: fn((Num(A), Num(s)), *[Num(x) for x in (E, D, r, d, Tm, vE)]), post, K)
        c.frame()
    return thunk


LP, FF, MS = [MM + x for x in ("loan_payoff:loan_payoff", "find_face_value_indiv:find_face_value_indiv", "merton_solution:merton_solution")]
GROUPS = {
    "C27": [Group("loan_payoff (numbers)", [LP], loan(0, "")), Group("loan_payoff (factor array)", [LP], loan(1, "")),
            Group("loan_payoff (factor block)", [LP], loan(3, "")), Group("loan_payoff (face value block)", [LP], loan(3, "both")),
            Group("lemmas of the payoff", [], loan_lemmas), Group("find_face_value_indiv", [FF], face)]
           + [Group(f"merton_solution ({n})", [MS], solution(k)) for n, k in (("positive guesses", ""), ("negative asset value", "A"), ("negative volatility", "s"), ("both negative", "As"))],
}


# ---------------------------------------------------------------- C28
NAMES = ("Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt")


def balance(c, v, at, par):
    """What the results are given the loan values at the horizon; the shapes of all."""
    s, j, sims, k = at
    D, r, y, H, g = par
    Lt, Bt, Et, LH, BH, EH, sigE, mF, dflt, mdef, face, FH, Gt, mu, F, sigL = v
    disc = T.exp(-r * H)
    E2 = lambda X: as_poly(X.at((s, j)))
    left = E2(LH) * T.exp(-y * H)
    c.eq("debt payoff: the smaller of its face value and what payouts leave", E2(BH), T.ite(T.gt(D - left), left, D))
    c.eq("loan value = debt + equity at the horizon", E2(LH), E2(BH) + E2(EH))
    c.eq("default exactly when equity after payouts is not positive", E2(dflt), T.ite(T.gt(left - E2(BH)), ZERO, ONE))
    avg = lambda X: T.Sum(sims, lambda t: as_poly(X.at((t, j)))) / sims
    L1, B1, E1, G1, m1 = [el(X, j) for X in (Lt, Bt, Et, Gt, mdef)]
    c.eq("loan value today: discounted mean", L1, avg(LH) * disc)
    c.eq("debt value today: discounted mean", B1, avg(BH) * disc)
    c.eq("equity value today: discounted mean", E1, avg(EH) * disc)
    c.eq("loan value = debt + equity today", L1, B1 + E1)
    c.eq("guarantee today: g times the mean discounted debt shortfall", G1,
         T.Sum(sims, lambda t: (lambda x: T.ite(T.gt(D - x), g * (D - x), ZERO))(as_poly(LH.at((t, j))) * T.exp(-y * H))) / sims * disc)
    c.eq("default probability: mean of the indicator", m1, avg(dflt))
    c.prove("default probability not negative", T.ge(m1))
    c.prove("default probability at most one", T.ge(ONE - m1))
    for nm, X in zip(NAMES, v):
        if nm in ("mu", "F"):
            continue
        shape = [sims, k] if nm in ("LH", "BH", "EH", "default", "face", "FH") else [k]
        c.prove(f"shape of {nm}", T.conj(*[T.eq(as_poly(a) - b) for a, b in zip(X._shape, shape)]) if len(X._shape) == len(shape) else FALSE)


def computation(which, given, g_given):
    def thunk(c):
        K = MM + f"{which}:{which}"
        fn = c.fn(K)
        P = lambda nm: T.Var(nm, pos=True)
        r, y, d = [T.Var(x) for x in ("r", "y", "d")]
        Tm, book, D, ltv, sig = P("T"), P("bookF"), P("D"), P("ltv"), P("sigma")
        rho, g = T.Var("rho", pos=True), T.Var("g", nonneg=True)
        n, sims, k = [T.Var(x, isint=True, pos=True) for x in ("N", "Nsim2", "szfs")]
        hn = integer("HN")
        FACTS.push(T.gt(n - hn))
        H = hn * Tm / n           # the horizon is a whole number of cohort steps
        fs = vec("fs", k)
        cols = n if which == "mod_single_cohort_computation" else n * const(3)
        w = vec("w", sims, cols) if given else None
        param = [Num(x) for x in (r, Tm, book, H, D, rho, ltv, sig, d, y)] + ([Num(g)] if g_given else [])
        if not g_given:
            g = ZERO

        def solver(func, x0, args, full, kw):
            RT.roots.append(x0)
            return V.as_arr([Num(T.Var("mu"))])
        RT.ext["fsolve"] = solver
        RT.assume_note("fsolve", "fsolve returns some yield")

        seen = {}

        def smooth(f, x, wn):
            # a function of the series and the window: equal arguments (as terms over the same variables) give equal results
            L, m = N.lam_of(x), x._shape[0]
            fv = sorted((a for a in T.free_atoms(L) | T.free_atoms(poly(wn)) if a.kind == "var"), key=lambda a: a.id)
            std = {a: T.Var(f"smooth.{k}", isint=a.isint) for k, a in enumerate(fv)}      # the same up to the names of its variables
            nm = "fftsmooth.%d" % seen.setdefault((T.subst(L, std), T.subst(poly(wn), std)), len(seen))
            fv = [as_poly(a) for a in fv]
            return Arr.new((m,), lambda i: T.App(nm, *fv, i[0]), V.F8)
        RT.contracts[MM + "fftsmooth:fftsmooth"] = smooth

        def pay(f, F, f_, ival, rho_, sig_, T_):
            rest = [poly(x) for x in (rho_, sig_, T_)]
            at = lambda x, i: as_poly(x.at(i)) if isinstance(x, Arr) else poly(x)
            fr = [x.snapshot() if isinstance(x, Arr) else x for x in (F, f_, ival)]
            return Arr.new(f_._shape, lambda i: T.App("loan_payoff", *[at(x, i) for x in fr], *rest), V.F8)
        RT.contracts[LP] = pay

        def post(v):
            c.eq("sixteen results", length(v), const(16))
            Lt, Bt, Et, LH, BH, EH, sigE, mF, dflt, mdef, face, FH, Gt, mu, F, sigL = v
            s, j = integer("s"), integer("j")
            FACTS.push(T.gt(sims - s))
            FACTS.push(T.gt(k - j))
            balance(c, v, (s, j, sims, k), (D, r, y, H, g))
        c.each(lambda: fn(fs, V.SList(param) if hasattr(V, "SListX") else param, Num(n, "int"), Num(sims, "int"), w), post, K)
        c.frame()
    return thunk


C28 = [MM + f"{n}:{n}" for n in ("mod_merton_computation", "mod_single_cohort_computation")]
GROUPS["C28"] = [Group(f"{k.split(':')[1]} ({'shocks given' if w else 'shocks drawn'}, {'with' if g else 'without'} guarantee)", [k], computation(k.split(":")[1], w, g))
                 for k in C28 for w, g in ((True, True), (False, False))]


# ---------------------------------------------------------------- C32: tables and the solver's residual


def shocks(seed, rows, sims):
    """norm.ppf(RandomState(seed).rand(rows, sims)).T"""
    u = N.Rng("RandomState", seed).rand(Num(poly(rows), "int"), Num(poly(sims), "int")).snapshot()
    return Arr.new((V.dim(poly(sims)), V.dim(poly(rows))), lambda i: T.App("ppf", as_poly(u.at((i[1], i[0])))), V.F8)


def value(nm, key, fs, param, n, sims, w, seed, j):
    if w is None:
        w = shocks(seed, poly(n) * (const(1) if "single" in key else const(3)), sims)
        seed = ZERO
    else:
        seed = ZERO                  # unused when shocks are given
    return T.App(f"{key.split(':')[1]}.{nm}", N.lam_of(fs), N.lam_of(w), *[poly(x) for x in param], poly(n), poly(sims), *j)


def opaque_computation():
    """The computations through their own contracts (C28): functions of what they are given."""
    def make(key):
        def comp(f, fs, param, N, Nsim2, w=None, random_seed=1):
            par = [param[i] for i in range(len(param) if isinstance(param, (list, tuple)) else int(V.pconst(V.as_arr(param)._shape[0])))]
            fs = V.as_arr(fs).snapshot()
            w = V.as_arr(w).snapshot() if w is not None else None
            k, out = fs._shape[0], []
            for nm in NAMES:
                shape = () if nm in ("mu", "F") else (V.dim(poly(Nsim2)), k) if nm in ("LH", "BH", "EH", "default", "face", "FH") else (k,)
                at = lambda i, nm=nm: value(nm, key, fs, par, N, Nsim2, w, random_seed, i)
                out.append(Arr.new(shape, at, V.F8) if shape else Num(at(())))
            return tuple(out)
        return comp
    for k in C28:
        RT.contracts[k] = make(k)


def lookup(key, comp):
    def thunk(c):
        fn = c.fn(key)
        opaque_computation()
        d, y, Tm, Hh, bookD, rho, ltv = [T.Var(x) for x in ("d", "y", "T", "H", "bookD", "rho", "ltv")]
        n, sims, G, J, K, Q = [integer(x) for x in ("N", "Nsim2", "n_fs", "n_sig", "n_r", "n_F")]
        for x in (n, sims, G, J, K, Q):
            FACTS.push(T.gt(x))
        xs = [vec(x, G, J, K, Q) for x in ("xfs", "xr", "xF", "xsig")]
        ix = g, j, k, q = [integer(x) for x in ("g", "j", "k", "q")]
        for i, m in zip(ix, (G, J, K, Q)):
            FACTS.push(T.gt(m - i))
        R = lambda nm: T.Read(nm, ZERO, j, k, q)
        r = R("xr")
        par = [r, Tm, R("xF"), Hh, bookD * T.exp(r * Hh), rho, ltv, R("xsig"), d, y]
        fs = Arr.new((G,), lambda i: T.Read("xfs", i[0], ZERO, ZERO, ZERO), V.F8)

        def post(v):
            c.eq("six tables", length(v), const(6))
            w = shocks(1, n * const(3), sims)
            for nm, X in zip(("Lt", "Bt", "Et", "mFt", "mdef", "sigEt"), v):
                c.prove(f"shape of the table of {nm}", T.conj(*[T.eq(as_poly(a) - b) for a, b in zip(X._shape, (G, J, K, Q))]) if len(X._shape) == 4 else FALSE)
                c.eq(f"{nm} of every grid point: the computation with that point's rate, loan amount and volatility", el(X, *ix), value(nm, comp, fs, par, n, sims, w, 1, (g,)))
        c.each(lambda: fn(Num(d), Num(y), Num(Tm), Num(Hh), Num(bookD), Num(rho), Num(ltv), *xs, Num(n, "int"), Num(sims, "int")), post, key)
        c.frame()
    return thunk


def residual(c):
    key = MM + "mod_single_cohort_solution:mod_single_cohort_solution"
    fn = c.fn(key)
    opaque_computation()
    n, sims, k = [T.Var(x, isint=True, pos=True) for x in ("N", "Nsim2", "szfs")]
    i = integer("i")
    FACTS.push(T.gt(k - i))
    par = [T.Var(x) for x in ("r", "T", "bookF", "H", "D", "rho", "ltv", "sigma", "d", "y", "g")]
    b = T.Var("guess")
    E, vE = T.Var("E"), T.Var("sigE")
    fs = vec("fs", k)
    new = par[:2] + [b] + par[3:]

    def post(v):
        c.eq("two errors", length(v), const(2))
        V_ = lambda nm: value(nm, C28[1], vec("fs", k), new, n, sims, None, 1, (i,))
        c.eq("observed less model equity value at the guessed loan amount", el(v[0], i), E - V_("Et"))
        c.eq("observed less model equity volatility at the guessed loan amount", el(v[1], i), vE - V_("sigEt"))
    for how in ("list", "array"):
        p = [Num(x) for x in par]
        if how == "array":
            a = vec("param", const(11))
            new = [T.Read("param", const(t)) if t != 2 else b for t in range(11)]
        c.each(lambda: fn((fs, Num(b)), V.SList(p) if how == "list" else a, Num(n, "int"), Num(sims, "int"), Num(E), Num(vE)), post, key)
    c.frame()


GROUPS["C32"] = [Group(k.split(":")[1], [k], lookup(k, f)) for k, f in ((MM + "mod_merton_create_lookup:mod_merton_create_lookup", C28[0]), (MM + "mod_single_merton_create_lookup:mod_single_merton_create_lookup", C28[1]))] + [
    Group("mod_single_cohort_solution", [MM + "mod_single_cohort_solution:mod_single_cohort_solution"], residual)]


# ---------------------------------------------------------------- C33: smoothing
def smoothing(c):
    K = MM + "fftsmooth:fftsmooth"
    fn = c.fn(K)
    m, h = T.Var("half_n", isint=True, pos=True), T.Var("half_w", isint=True, pos=True)
    FACTS.push(T.gt(m - h))                    # w + 2 <= n
    n, w = m * const(2), h * const(2)
    x = vec("x", n)
    X = lambda q: T.Read("x", q)
    i = integer("i")
    FACTS.push(T.gt(n - i))

    def mean(t):
        """Mean of the window's values at t: those after t - w/2, up to t + w/2."""
        return T.Sum(n, lambda q: T.ite(T.gt(q - (t - h)), T.ite(T.ge(t + h - q), X(q), ZERO), ZERO)) / w

    def post(v):
        c.prove("as many values as given", T.eq(length(v) - n))
        v = el(v, i)
        lo, hi = h, n - h - const(1)
        spec = T.ite(T.gt(h - i), mean(lo) - (h - i) * (mean(lo + ONE) - mean(lo)),
                     T.ite(T.gt(i - hi), mean(hi) + (i - hi) * (mean(hi) - mean(hi - ONE)), mean(i)))
        c.eq("mean of the window around the position; straight lines through the last two means at both ends", v, spec)
    c.each(lambda: fn(x, Num(w, "int")), post, K)
    c.frame()


GROUPS["C33"] = [Group("fftsmooth", [MM + "fftsmooth:fftsmooth"], smoothing)]


# ---------------------------------------------------------------- C34: values of the model
SMOOTH = MM + "fftsmooth:fftsmooth"


def model_values(which, given):
    single = "single" in which

    def thunk(c):
        K = MM + f"{which}:{which}"
        fn = c.fn(K)
        P = lambda nm: T.Var(nm, pos=True)
        r, y, d = [T.Var(x) for x in ("r", "y", "d")]
        Tm, book, D, ltv, sig = P("T"), P("bookF"), P("D"), P("ltv"), P("sigma")
        rho = correlation_pos()
        n, sims, k = [T.Var(x, isint=True, pos=True) for x in ("N", "Nsim2", "szfs")]
        hn = integer("HN")
        FACTS.push(T.gt(n - hn))
        H = hn * Tm / n
        fs = vec("fs", k)
        cols = n if single else n * const(3)
        w = vec("w", sims, cols)
        W = (lambda s, i: T.Read("w", s, i)) if given else (lambda s, i: as_poly(shocks(1, cols, sims).at((s, i))))
        g = T.Var("g", nonneg=True) if given else ZERO
        param = [Num(x) for x in (r, Tm, book, H, D, rho, ltv, sig, d, y)] + ([Num(g)] if given else [])
        mu, ival = T.Var("mu"), T.log(book) - T.log(ltv)
        eqs = []

        def solver(func, x0, args, full, kw):
            RT.roots.append(x0)
            eqs.append(poly(scalar_of(func(Num(mu), *args))))
            return V.as_arr([Num(mu)])
        RT.ext["fsolve"] = solver
        RT.assume_note("fsolve", "fsolve returns a root of the equation it is given")
        RT.contracts[FF] = lambda f, *a, **kw: Num(T.App("yield_error", *[poly(scalar_of(x)) for x in a]))
        made = {"order": {}, "smooth": {}}

        def opaque(tag, L, info, shape, dtype):
            """A function of the series L (and of the variables L depends on); the same up to the names of variables."""
            fv = sorted((a for a in T.free_atoms(L) if a.kind == "var"), key=lambda a: a.id)
            std = {a: T.Var(f"{tag}.{i}", isint=a.isint) for i, a in enumerate(fv)}
            key = (T.subst(L, std), T.subst(poly(info), std))
            own = [as_poly(a) for a in fv if a.args[0] not in KNOWN]
            nm = "%s.%d" % (tag, made[tag].setdefault(key, (len(made[tag]), own, L, poly(info)))[0])
            T.FUN_PROPS[nm] = dict(isint=True, nonneg=True) if tag == "order" else {}
            return Arr.new(shape, lambda i: T.App(nm, *own, i[0]), dtype)
        RT.ext["argsort"] = lambda a, L, stable: opaque("order", L, Num(ONE if stable else ZERO), a._shape, V.I8)
        RT.contracts[SMOOTH] = lambda f, x, wn: opaque("smooth", N.lam_of(x), wn, (x._shape[0],), V.F8)

        def pay(f, F, f_, iv, rho_, sig_, T_):
            rest = [poly(x) for x in (rho_, sig_, T_)]
            at = lambda x, i: as_poly(x.at(i)) if isinstance(x, Arr) else poly(x)
            fr = [x.snapshot() if isinstance(x, Arr) else x for x in (F, f_, iv)]
            return Arr.new(f_._shape, lambda i: T.App("loan_payoff", *[at(x, i) for x in fr], *rest), V.F8)
        RT.contracts[LP] = pay

        sf = T.sqrt(rho) * sig
        up = {0: ZERO, 1: sf / const(10), 2: -sf / const(10)}
        step = (r - d - sig ** 2 / const(2)) * Tm / n
        stepw = -rho * sig ** 2 * Tm / n / const(2)
        path = lambda m, s, upto: T.Sum(upto, lambda i: m + sf * T.sqrt(Tm / n) * W(s, i))
        f = lambda s, i: path(step, s, i)
        fw = lambda s, i: path(stepw, s, i)
        F = book * T.exp(mu * Tm)
        payoff_ = lambda F_, x, iv: T.App("loan_payoff", F_, x, iv, rho, sig, Tm)

        def shock(cohort, j, blk):
            return T.Read("fs", j) * sf * T.sqrt(Tm) * (ONE if single else (n - cohort) / n) + up[blk]

        def first(s, q, j, blk=0):
            """Payoff of the first loan of cohort q."""
            if single:
                return payoff_(F, f(s, n) + shock(None, j, blk), ival)
            return payoff_(F, f(s, n + q) - (fw(s, n) - fw(s, q)) - f(s, q) + shock(q, j, blk), ival)

        def post(v):
            c.eq("sixteen results", length(v), const(16))
            Lt, Bt, Et, LH, BH, EH, sigE, mF, dflt, mdef, face, FH, Gt, mu_, F_, sigL = v
            s, j, q = integer("s"), integer("j"), integer("q")
            FACTS.push(T.gt(sims - s))
            FACTS.push(T.gt(k - j))
            if not eqs:
                raise Unsupported("no equation is solved")
            c.eq("the promised yield solves the face value equation of the loan amount", eqs[0], T.App("yield_error", mu, F, ival, sig, Tm, r, d))
            c.eq("promised yield", c.scalar("yield", mu_), mu)
            c.eq("loan face value", c.scalar("face value", F_), F)
            # loan values of all states: blocks of columns of the shocks as given, raised and lowered
            cols3, size = k * const(3), sims * k * const(3)

            def state(J, g):
                return T.ite(T.gt(k - J), g(J, 0), T.ite(T.gt(k * const(2) - J), g(J - k, 1), g(J - k * const(2), 2)))

            def horizon(s, q, j, b):
                """Expected borrower asset value at the horizon of loans of cohort q; of second loans: per unit of the first's payoff."""
                if single:
                    return T.exp(f(s, hn) + shock(None, j, b) + ival + (ONE - rho) * H * sig ** 2 / const(2))
                left = T.ite(T.ge(hn - q), hn - q, n + hn - q) / n
                grown = T.exp((ONE - rho) * sig ** 2 * Tm * left / const(2))
                one = T.exp(f(s, n + hn) - (fw(s, n) - fw(s, q)) - f(s, q) + shock(q, j, b) + ival) * grown
                two = T.exp(f(s, n + hn) - f(s, n + q)) * book / ltv * grown
                return T.ite(T.ge(q - hn), one, two)

            def second(s, q, j, b):
                """Payoff of the second loan of cohort q, per unit of the first's payoff (over the loan amount)."""
                L = first(s, q, j, b)
                return payoff_(L * T.exp(mu * Tm), f(s, n * const(2) + q) - f(s, n + q), T.log(L / ltv)) / (L / book)

            if any(len(x) != 1 for x in made.values()):
                raise Unsupported("not one ranking and one smoothing of the loan values")
            (_, own, L, stable), = made["order"].values()
            (_, own2, L2, window), = made["smooth"].values()
            if len(own) != (0 if single else 1) or len(own2) != len(own):
                raise Unsupported("the ranking does not depend on the cohort only")
            p = integer("p")
            FACTS.push(T.gt(size - p))

            def at(state_, g):
                J = V.floordiv(state_, sims)
                return state(J, lambda j, b: g(state_ - sims * J, j, b))

            def cohorts(q):
                loan = (lambda s, j, b: first(s, None, j, b)) if single else (lambda s, j, b: T.ite(T.ge(q - hn), first(s, q, j, b), second(s, q, j, b)))
                c.eq("states are ranked by the borrowers' asset values at the horizon, to nine decimals", T.open_lam(L, p), N.round_(Num(at(p, lambda s, j, b: horizon(s, q, j, b))), 9))
                c.eq("the loans' payoffs are smoothed in that order", T.open_lam(L2, p), at(T.App("order.0", *own, p), loan))
            c.eq("ties keep the order of the states", stable, ONE)
            if own:
                with core.under(T.gt(n - own[0])):
                    cohorts(own[0])
            else:
                cohorts(None)
            c.eq("the window is a twentieth of the states", window, V.sfloor(size / const(20)))

            def smoothed(q, s, J):
                order = Arr.new((size,), lambda i: T.App("order.0", *q, i[0]), V.I8).mark("permutation")
                rank = N.zeros(Num(size, "int"), "int64")
                rank[order] = N.arange(Num(size, "int"))
                return T.App("smooth.0", *q, as_poly(rank.at((sims * J + s,))))

            if single:
                LHf = lambda s, J: smoothed((), s, J) * T.exp(-r * (Tm - H))
            else:
                # discounted from each loan's maturity to the horizon
                pay1 = lambda q, s, J: smoothed((q,), s, J)
                pay2 = lambda q, s, J: smoothed((q,), s, J) * state(J, lambda j, b: first(s, q, j, b)) / book
                disc = lambda q: T.exp(-r * q * Tm / n)
                LHf = lambda s, J: T.exp(r * H) * (T.Sum(n, lambda q: disc(q) * T.ite(T.ge(q - hn), pay1(q, s, J), ZERO))
                                                   + T.exp(-r * Tm) * T.Sum(n, lambda q: disc(q) * T.ite(T.ge(q - hn), ZERO, pay2(q, s, J)))) / n
            c.eq("loan value at the horizon: smoothed payoffs by rank of the borrowers' asset values, discounted", el(LH, s, j), LHf(s, j))
            left_ = lambda x: x * T.exp(-y * H)
            debt = lambda x: T.ite(T.gt(D - left_(x)), left_(x), D)
            loans_ = lambda J: T.Sum(sims, lambda t: LHf(t, J))
            equity = lambda J: T.Sum(sims, lambda t: (lambda x: x - debt(x))(LHf(t, J)))
            for nm, got, val in (("loan", sigL, loans_), ("equity", sigE, equity)):
                c.eq(f"{nm} volatility: difference of its log value at a factor a tenth of a standard deviation higher and lower", el(got, j),
                     const(5) * (T.log(val(j + k)) - T.log(val(j + k * const(2)))))
            if single:
                c.eq("borrower asset value at the factor shock", el(mF, j), book / ltv * T.exp(shock(None, j, 0)))
                c.eq("face value discounted from the loans' maturity to the horizon", el(face, s, j), F * T.exp(-r * (Tm - H)))
                c.eq("expected borrower asset value at the horizon", el(FH, s, j), T.exp(f(s, hn) + shock(None, j, 0) + ival + (ONE - rho) * H * sig ** 2 / const(2)))
            else:
                age = lambda q: (n - q) / n
                c.eq("borrower asset value at the factor shock: mean over the cohorts of what each has grown to", el(mF, j),
                     book / ltv * T.Sum(n, lambda q: T.exp(age(q) * (r - d) * Tm + shock(q, j, 0))) / n)
                c.eq("expected borrower asset value at the horizon: mean over the cohorts", el(FH, s, j), T.Sum(n, lambda q: horizon(s, q, j, 0)) / n)
                c.eq("mean face value over the cohorts, a first loan that matured before the horizon replaced by a second of its payoff", el(face, s, j),
                     T.Sum(n, lambda q: T.ite(T.ge(q - hn), F * T.exp(-r * (q - hn) * Tm / n), first(s, q, j) * T.exp(mu * Tm) * T.exp(-r * (q - hn + n) * Tm / n))) / n)
            balance(c, v, (s, j, sims, k), (D, r, y, H, g))
        c.each(lambda: fn(fs, param, Num(n, "int"), Num(sims, "int"), w if given else None), post, K)
        c.frame()
    return thunk


KNOWN = {"r", "y", "d", "T", "bookF", "D", "ltv", "sigma", "rho", "1-rho", "N", "Nsim2", "szfs", "HN", "mu"}


def scalar_of(x):
    return x.at((ZERO,) * len(x._shape)) if isinstance(x, Arr) else x


def correlation_pos():
    gap, rho = T.Var("1-rho", pos=True), T.Var("rho", pos=True)
    FACTS.push(T.gt(ONE - rho))
    return rho


GROUPS["C34"] = [Group(f"{k.split(':')[1]} ({'shocks given' if w else 'shocks drawn'})", [k], model_values(k.split(":")[1], w)) for k in C28 for w in (True, False)]
