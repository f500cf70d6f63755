"""C20-C24: executable form of the contracts of the microstructure measures."""
import math
import numpy as np
import scipy.optimize
from .harness import ENV, check, same, need, layout, Violation, Skip
from .p_measures import unchanged

LAY = ("plain", "strided", "reversed", "readonly")
FORMS = ("array", "list", "series", "strided", "readonly")


def form(x, how):
    if how == "list":
        return list(x)
    if how == "series":
        import pandas as pd
        return pd.Series(x, index=np.arange(len(x))[::-1] * 3 + 5)
    if how in ("strided", "readonly", "reversed"):
        dt = x.dtype
        return layout(x, how).astype(dt) if how != "readonly" else layout(x, how)
    return np.array(x)


# ---------------------------------------------------------------- C22
def mean(xs):
    return math.fsum(xs) / len(xs)


def gen_quoted(rng, i):
    n = rng.size([1, 2, 3, 10, 101], 5000)
    mid = rng.pick([1.0, 25.0, 4000.0, 1e-3]) * (1 + 0.1 * rng.random(n))
    half = mid * rng.random(n) * rng.pick([0.001, 0.2])
    bid, ask = mid - half, mid + half * rng.uniform(0.5, 1.5)
    if rng.chance(0.2):
        bid, ask = np.round(bid) + 1, np.round(ask) + 2
    if rng.chance(0.15):
        bid, ask = ask, bid                                  # crossed quotes
    return dict(bid=bid, ask=ask, form=rng.pick(FORMS), ints=rng.chance(0.2))


@check("C22", "quoted_spread", gen_quoted, 120)
def run_quoted(c):
    f = ENV.mod("frds.measures.spread").quoted_spread
    b, a = c["bid"], c["ask"]
    if c["ints"]:
        b, a = np.round(b).astype(np.int64) + 1, np.round(a).astype(np.int64) + 2
    B, A = form(b, c["form"]), form(a, c["form"])
    pct = mean([(float(y) - float(x)) / ((float(x) + float(y)) / 2) * 100 for x, y in zip(b, a)])
    same("percent", f(B, A), pct, rtol=1e-9, atol=1e-12)
    same("log", f(B, A, pct_spread=False), mean([math.log(float(y)) - math.log(float(x)) for x, y in zip(b, a)]), rtol=1e-8, atol=1e-12)
    same("percent, repeated", f(B, A, True), pct, rtol=1e-9, atol=1e-12)
    unchanged((b, a), (B, A))


def gen_trades(rng, i):
    n = rng.size([1, 2, 3, 7, 50, 200], 5000)
    mid = rng.pick([1.0, 30.0, 2500.0, 1e-3]) * (1 + 0.1 * rng.random(n))
    price = mid * (1 + 0.01 * rng.standard_normal(n))
    later = mid * (1 + 0.02 * rng.standard_normal(n))
    if rng.chance(0.2):                                      # moves by whole factors
        price, later = mid * np.exp(1.2 * rng.standard_normal(n)), mid * np.exp(1.5 * rng.standard_normal(n))
    if rng.chance(0.1):
        price = mid.copy()                                   # every trade at the midpoint
    vol = rng.integers(0, 5, n).astype(float) * 100
    if vol.sum() == 0:
        vol[0] = 100.0
    unit = rng.pick([1.0, 1.0, 1.0, 1e-4, 1e-9, 1e5])
    vol *= unit
    zero = rng.chance(0.3)
    missing = zero and rng.chance(0.6)
    if zero:
        vol[:] = 0
    if missing:
        for x in (mid, later):
            x[rng.random(n) < 0.3] = np.nan
        mid[0] = later[0] = 31.0
    d = rng.pick([lambda: rng.choice([-1, 1], n), lambda: rng.choice([-1, 0, 1], n), lambda: rng.choice([-1.0, 1.0], n), lambda: np.zeros(n), lambda: -np.ones(n), lambda: np.ones(n, dtype=int)])()
    return dict(price=price, midpoint=mid, later=later, volume=vol, direction=d, form=rng.pick(FORMS), voldtype=rng.pick(["f", "i"]) if unit >= 1 else "f",
                dform=rng.pick(FORMS))


def ref_average(items, weights):
    if all(w == 0 for w in weights):
        xs = [x for x in items if x == x]
        return mean(xs) if xs else math.nan
    return math.fsum(w * x for w, x in zip(weights, items)) / math.fsum(weights)


def lg(x):
    return math.log(x) if x == x else math.nan


def ref_items(kind, p, m, l, d, directed, pct):
    a, b = dict(effective=(p, m), realized=(p, l), impact=(l, m))[kind]
    out = []
    for x, y, mm, dd in zip(a, b, m, d):
        v = (x - y) / mm * 100 if pct else lg(x) - lg(y)
        out.append(2 * float(dd) * v if directed else 2 * abs(v))
    return out


def trade_check(kinds, check_sum):
    def run(c):
        sp, pi = ENV.mod("frds.measures.spread"), ENV.mod("frds.measures.price_impact")
        p, m, l, d = [np.asarray(c[k]) for k in ("price", "midpoint", "later", "direction")]
        v = c["volume"].astype(np.int64) if c["voldtype"] == "i" else c["volume"]
        P, M_, L, W = [form(x, c["form"]) for x in (p, m, l, v)]
        D = form(d, c["dform"])
        w = [float(x) * float(y) for x, y in zip(v, p)]
        got = {}
        for kind in ("effective", "realized", "impact"):
            fn, A = dict(effective=(sp.effective_spread, (P, M_, W)), realized=(sp.realized_spread, (P, L, M_, W)), impact=(pi.simple_price_impact, (P, L, M_, W)))[kind]
            if kind not in kinds and not check_sum:
                continue
            for directed in (False, True):
                for pct in (True, False):
                    kw = {}
                    if directed:
                        kw["trade_direction"] = D
                    if not pct:
                        kw["pct_spread"] = False
                    got[kind, directed, pct] = fn(*A, **kw)
                    if kind in kinds:
                        what = f"{kind}, {'directed' if directed else 'absolute'}, {'percent' if pct else 'log'}"
                        same(what, got[kind, directed, pct], ref_average(ref_items(kind, p, m, l, d, directed, pct), w), rtol=1e-8, atol=1e-11)
        if check_sum and not any(np.isnan(x).any() for x in (m, l)):
            for pct in (True, False):
                e, r, s = [got[k, True, pct] for k in ("effective", "realized", "impact")]
                same("effective = realized + impact", r + s, e, rtol=1e-8, atol=1e-10)
        unchanged((p, m, l, v, d), (P, M_, L, W, D))
    return run


check("C22", "trade spreads", gen_trades, 200)(trade_check(("effective", "realized"), False))
check("C23", "price impact", gen_trades, 200)(trade_check(("impact",), True))


# ---------------------------------------------------------------- C24
def gen_book(rng, i):
    n = rng.size([1, 2, 3, 17, 100], 3000)
    k = int(rng.pick([2, 3, 5, 5, 6, 10]))
    unit = rng.pick([1.0, 1.0, 1.0, 1e-6, 1e5])
    size = lambda: unit * rng.pick([rng.integers(0, 200, (n, k)).astype(float), rng.uniform(50, 120, (n, k))])
    mid = rng.pick([1.0, 50.0, 1e-3]) * (1 + 0.05 * rng.random(n))
    step = mid[:, None] * 0.01 * (0.5 + rng.random((n, k)))
    ask = mid[:, None] + np.cumsum(step, axis=1)
    bid = mid[:, None] - np.cumsum(step[:, ::-1], axis=1) * 0.5
    x = dict(bs=size(), as_=size(), mid=mid, ask=ask, bid=bid, lay=rng.pick(LAY + ("fortran",)), ints=rng.chance(0.2) and unit >= 1)
    if rng.chance(0.4) and n > 1:
        for key in rng.permutation(["bs", "as_", "ask", "bid"])[:2]:
            r = rng.random(x[key].shape) < 0.1
            x[key] = np.where(r, np.nan, x[key])
        x["mid"] = np.where(rng.random(n) < 0.1, np.nan, mid)
        x["ints"] = False
    if rng.chance(0.15):
        x["mid"] = ask[:, -1] + mid * 0.1      # ask below the midpoint: the sign is kept
    return x


def present_mean(xs):
    xs = [x for x in xs if x == x]
    return math.fsum(xs) / len(xs) if xs else math.nan


@check("C24", "order book slopes", gen_book, 200)
def run_book(c):
    m = ENV.mod("frds.measures.lob_slope")
    bs, as_, bp, ap, mid = [np.array(c[k]) for k in ("bs", "as_", "bid", "ask", "mid")]
    if c["ints"]:
        bs, as_ = bs.astype(np.int64), as_.astype(np.int64)
    lay = (lambda x: layout(x, c["lay"]).astype(x.dtype)) if c["lay"] != "readonly" else (lambda x: layout(x, "readonly"))
    BS, AS, BP, AP, MID = map(lay, (bs, as_, bp, ap, mid))
    n, k = bs.shape
    tot = lambda s, i: math.fsum(float(v) for v in s[i]) if not np.isnan(s[i]).any() else math.nan
    top = k - 1
    same("ask slope", m.DGGW_ask_slope(AS, AP[:, top], MID), present_mean([tot(as_, i) / (ap[i, top] - mid[i]) for i in range(n)]), rtol=1e-9)
    same("bid slope", m.DGGW_bid_slope(BS, BP[:, top], MID), present_mean([tot(bs, i) / abs(bp[i, top] - mid[i]) for i in range(n)]), rtol=1e-9)
    den = [tot(as_, i) + tot(bs, i) for i in range(n)]
    if not any(x == 0 for x in den):
        want = present_mean([2 * (tot(as_, i) - tot(bs, i)) / den[i] for i in range(n)])
        got = m.DGGW_scaled_depth_difference(BS, AS)
        same("scaled depth difference", got, want, rtol=1e-9, atol=1e-12)
        need(not (abs(got) > 2 + 1e-12), "scaled depth difference outside [-2, 2]")
        same("sides swapped", m.DGGW_scaled_depth_difference(AS, BS), -got, rtol=1e-9, atol=1e-12)
    if k >= 5:
        for nm, s, p, S, P in (("bid", bs, bp, BS, BP), ("ask", as_, ap, AS, AP)):
            g = lambda i, a, b: (float(s[i, b]) - float(s[i, a])) / abs(p[i, b] - p[i, a])
            same(nm + "-side slope difference", getattr(m, f"DGGW_{nm}_side_slope_difference")(S, P), present_mean([g(i, 2, 4) - g(i, 0, 2) for i in range(n)]), rtol=1e-7, atol=1e-9)
    unchanged((bs, as_, bp, ap, mid), (BS, AS, BP, AP, MID))


# ---------------------------------------------------------------- C20
def gen_pin(rng, i):
    T = rng.size([1, 2, 5, 30, 60], 3000)
    scale = rng.pick([3, 20, 80, 800, 6000])
    a, d = rng.uniform(0.02, 0.98, 2)
    eb, es, mu = rng.uniform(0.2, 1.5, 3) * scale
    if rng.chance(0.25):         # nearly certain events, hardly any uninformed trade
        a, d = [x if rng.chance(0.4) else (lambda e: e if rng.chance(0.5) else 1 - e)(10.0 ** -rng.uniform(2, 12)) for x in (a, d)]
        eb, es = [x * rng.pick([1.0, 1e-4]) for x in (eb, es)]
    s = rng.random(T)
    B = rng.poisson(eb + mu * (s < a * (1 - d)))
    S = rng.poisson(es + mu * (s > 1 - a * d))
    if rng.chance(0.3):
        B[0] = 0
    if rng.chance(0.3):
        S[-1] = 0
    if rng.chance(0.15):
        S[:] = 0
    return dict(B=B, S=S, dtype=rng.pick(["int64", "float64", "int32"]), params=np.array([a, d, eb, es, mu]), lay=rng.pick(LAY), other=rng.uniform(0.05, 0.95))


def ref_pin(B, S, par):
    a, d, eb, es, mu = map(float, par)
    tot = []
    for b, s in zip(B, S):
        b, s = float(b), float(s)
        t = [math.log(a * (1 - d)) - (eb + mu) + b * math.log(eb + mu) - es + s * math.log(es),
             math.log(a * d) - eb + b * math.log(eb) - (es + mu) + s * math.log(es + mu),
             math.log(1 - a) - eb + b * math.log(eb) - es + s * math.log(es)]
        m = max(t)
        tot.append(m + math.log(math.fsum(math.exp(x - m) for x in t)))
    return -math.fsum(tot)


@check("C20", "PIN likelihoods", gen_pin, 200)
def run_pin_like(c):
    P = ENV.meas().PIN
    b, s = c["B"].astype(c["dtype"]), c["S"].astype(c["dtype"])
    B, S = [layout(x, c["lay"]).astype(c["dtype"]) for x in (b, s)]
    o = P(B, S)
    for par in (c["params"], c["params"] * np.array([1, 1, c["other"], 1, 1]), c["params"] * np.array([1, c["other"], 1, 1, 2])):
        want = ref_pin(b, s, par)
        # factors of the unscaled form: outside it overflows
        a, d, eb, es, mu = par
        M_ = np.minimum(b, s) + np.maximum(b, s) / 2
        big = max(float(np.max(np.abs(x))) for x in ((s - M_) * math.log(es / (mu + es)), M_ * math.log(eb / (mu + eb)), M_ * math.log(es / (mu + es)), (b - M_) * math.log(eb / (mu + eb)))) * 2 + mu
        tol = dict(rtol=1e-8, atol=1e-7)
        for how in (par, tuple(par), list(par)):
            same("Lin and Ke form", o.loglikelihood_LK2011(how), want, **tol)
            if big < 600:
                same("Easley et al. form", o.loglikelihood_EHO2010(how), want, **tol)
    unchanged((b, s), (B, S))


# ---------------------------------------------------------------- C21
class Script:
    """Stands in for scipy's minimizer: plays back scripted outcomes, and records what it was asked."""

    def __init__(self, outcomes=None):
        self.outcomes, self.calls = outcomes, []

    def __call__(self, fun, x0, args=(), method=None, bounds=None, **kw):
        k = len(self.calls)
        x0 = np.array(x0, dtype=float)
        if self.outcomes is None:
            r = REAL(fun, x0, args=args, method=method, bounds=bounds, **kw)
        else:
            ok, f, x = self.outcomes[k % len(self.outcomes)]
            r = scipy.optimize.OptimizeResult(x=np.array(x, dtype=float), fun=f, success=ok, message="", nit=1, status=0 if ok else 2)
        self.calls.append(dict(x0=x0, fun=fun, args=args, bounds=bounds, method=method, x=np.array(r.x, dtype=float), f=float(r.fun), ok=bool(r.success)))
        return r


REAL = scipy.optimize.minimize


def with_script(mod, script, thunk):
    """Replaces whatever name the module calls the minimizer by."""
    names = [k for k, v in vars(mod).items() if v is REAL]
    opt = [v for v in vars(mod).values() if v is scipy.optimize]
    try:
        for k in names:
            setattr(mod, k, script)
        if opt or not names:
            scipy.optimize.minimize = script
        return thunk()
    finally:
        for k in names:
            setattr(mod, k, REAL)
        scipy.optimize.minimize = REAL


def gen_estimate(rng, i):
    T = rng.size([3, 8, 12], 200)
    scale = rng.pick([4, 15])
    B, S = rng.poisson(scale * rng.uniform(0.5, 2), T) + 1, rng.poisson(scale * rng.uniform(0.1, 2), T)
    if rng.chance(0.2):
        S[:] = rng.integers(0, 2)
    runs = []
    for r in range(int(rng.pick([1, 2, 3]))):
        kind = rng.pick(["none", "one", "mixed", "mixed", "mixed", "nan", "inf", "ties"])
        out = []
        for k in range(int(rng.integers(3, 9))):
            ok = kind not in ("none",) and (rng.chance(0.6) if kind in ("mixed", "nan", "inf") else kind == "ties")
            f = float(rng.normal(0, 10)) if kind != "ties" else 3.0
            if kind == "nan" and rng.chance(0.5):
                f = math.nan
            if kind == "inf" and rng.chance(0.5):
                f = -math.inf
            if not ok and rng.chance(0.5):
                f -= 100                                  # better than any, but not a success
            out.append((bool(ok), f, np.append(rng.random(2), rng.uniform(0.1, 20, 3))))
        if kind == "one":
            out[int(rng.integers(len(out)))] = (True, 5.0, np.append(rng.random(2), rng.uniform(0.1, 20, 3)))
        runs.append(dict(method=rng.pick(["EHO2010", "LK2011"]), default=rng.chance(0.3), out=out))
    return dict(B=B, S=S, dtype=rng.pick(["int64", "float64"]), runs=runs, real=False)


def gen_real(rng, i):
    x = gen_estimate(rng, i)
    return dict(x, runs=[dict(method=m, default=False) for m in rng.permutation(["EHO2010", "LK2011"])], real=True)


FIELDS = ("alpha", "delta", "epsilon_b", "epsilon_s", "mu")


def run_estimate(c):
    mod = ENV.mod("frds.measures._probability_of_informed_trading")
    B, S = c["B"].astype(c["dtype"]), c["S"].astype(c["dtype"])
    o = mod.PIN(B, S)
    mb, ms = mean([float(x) for x in B]), mean([float(x) for x in S])
    if any(abs(ms - a * d * (mb - g * mb) / (a * (1 - d))) < 1e-9 * (1 + ms) for a in G for d in G for g in G):
        raise Skip
    for r in c["runs"]:
        s = Script(None if c["real"] else [(ok, f, np.array(x)) for ok, f, x in r["out"]])
        method = "EHO2010" if r["default"] else r["method"]
        got = with_script(mod, s, (lambda: o.estimate()) if r["default"] else (lambda: o.estimate(r["method"])))
        need(s.calls or True, "")
        starts(s.calls, mb, ms)
        for k in s.calls[:3]:
            want = getattr(o, "loglikelihood_" + method)(k["x0"])
            same("objective", k["fun"](k["x0"], *(k["args"] if isinstance(k["args"], tuple) else (k["args"],))), want, rtol=1e-9)
            lo = [b[0] for b in k["bounds"]] if not hasattr(k["bounds"], "lb") else list(k["bounds"].lb)
            hi = [b[1] for b in k["bounds"]] if not hasattr(k["bounds"], "ub") else list(k["bounds"].ub)
            need(all(x == 0 for x in lo) and all(x == 1 for x in hi[:2]) and all(x is None or x == math.inf for x in hi[2:]), "bounds of the search")
        ok = [k for k in s.calls if k["ok"] and k["f"] == k["f"] and k["f"] > -math.inf and not (-k["f"] == math.inf)]
        finite = [k for k in s.calls if k["ok"] and math.isfinite(k["f"])]
        # -inf objective = +inf log-likelihood: not finite
        if not finite:
            if ok:
                raise Skip
            need(o.estimation_success is False or o.estimation_success == False, "success reported without any successful finite optimum")  # noqa: E712
            for f in FIELDS + ("loglikelihood", "pin"):
                need(math.isnan(getattr(got, f)), f"{f} is {getattr(got, f)!r} although no optimum qualifies")
        else:
            best = min(k["f"] for k in finite)
            need(bool(o.estimation_success), "failure reported although an optimum qualifies")
            same("log-likelihood", got.loglikelihood, -best, rtol=1e-12, atol=0)
            cand = [k for k in finite if k["f"] == best and all(getattr(got, f) == x for f, x in zip(FIELDS, k["x"]))]
            need(cand, f"the parameters do not belong to an optimum of the highest log-likelihood: {[getattr(got, f) for f in FIELDS]}")
            a, d, eb, es, mu = cand[0]["x"]
            if a * mu + eb + es > 0:
                same("pin", got.pin, a * mu / (a * mu + eb + es), rtol=1e-12)
                need(0 <= got.pin <= 1 + 1e-12, "pin outside [0, 1]")
            need(got.method == method, f"method {got.method!r}")
        need(o.parameters is got or o.parameters == got or not finite, "the parameters kept on the object differ from those returned")
    unchanged((c["B"], c["S"]), (B, S))


G = (0.1, 0.3, 0.5, 0.7, 0.9)


def starts(calls, mb, ms):
    want = {}
    for a in G:
        for d in G:
            for g in G:
                eb = g * mb
                mu = (mb - eb) / (a * (1 - d))
                es = ms - a * d * mu
                if es >= 0:
                    want[a, d, g] = np.array([a, d, eb, es, mu])
    got = [k["x0"] for k in calls]
    for x in got:
        a, d, eb, es, mu = x
        same("buys implied by a starting point", a * (1 - d) * mu + eb, mb, rtol=1e-9)
        same("sells implied by a starting point", a * d * mu + es, ms, rtol=1e-9, atol=1e-9)
        need(es >= 0, f"starting point with a negative sell rate {es!r}")
    need(len(got) == len(want), f"{len(got)} starting points, {len(want)} points of the grid have a non-negative sell rate")
    for k, w in want.items():
        need(any(np.allclose(x, w, rtol=1e-8, atol=1e-9) for x in got), f"no starting point for alpha, delta, gamma = {k}")


check("C21", "PIN estimation, scripted optimizer", gen_estimate, 60)(run_estimate)
check("C21", "PIN estimation, real optimizer", gen_real, 3, thorough=20)(run_estimate)
