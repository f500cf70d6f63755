"""C13-C19, C25: executable form of the contracts of the closed-form measures."""
import math
from fractions import Fraction
import numpy as np
from .harness import ENV, check, same, need, layout, LAYOUTS, Violation, Skip, close

SQ2 = math.sqrt(2.0)


def cdf(x):
    return 0.5 * math.erfc(-x / SQ2)


def unchanged(before, after, what="argument"):
    for i, (b, a) in enumerate(zip(before, after)):
        need(np.array_equal(np.asarray(b), np.asarray(a), equal_nan=np.asarray(a).dtype.kind == "f"), f"{what} {i} was modified")


# ---------------------------------------------------------------- C14
def ref_percentile(x, q):
    x = sorted(float(v) for v in x)
    pos = q * (len(x) - 1)
    i = min(int(math.floor(pos)), len(x) - 1)
    j = min(i + 1, len(x) - 1)
    return x[i] + (x[j] - x[i]) * (pos - i)


def gen_mes(rng, i):
    T = rng.size([1, 2, 3, 5, 20, 21, 40, 100, 101, 250], 5000)
    m = rng.standard_normal(T) * 0.02
    if rng.chance(0.4):
        m = np.round(m, 2)              # ties
    f = (rng.standard_normal(T) * 0.03 + 0.5 * m) * rng.pick([1.0, 1.0, 1e-4, 60.0])
    if rng.chance(0.2):             # a crash
        f[int(np.argmin(m))] -= 40 * float(np.abs(f).max())
    q = float(rng.pick([0.05, 0.01, 0.1, 0.25, 0.5, 0.99, 1.0, 0.0, rng.random()]))
    return dict(firm=f, market=m, q=q, flayout=rng.pick(LAYOUTS[:3]), mlayout=rng.pick(LAYOUTS[:3]), default=rng.chance(0.2),
                q2=rng.pick([None, 0.05, 0.5, 0.9, float(rng.random())]))


@check("C14", "MES", gen_mes, 200)
def run_mes(c):
    M = ENV.meas().MarginalExpectedShortfall
    f, m = layout(c["firm"], c["flayout"]), layout(c["market"], c["mlayout"])
    q = 0.05 if c["default"] else c["q"]
    th = ref_percentile(m, q)
    if any(0 < abs(x - th) < 1e-12 for x in m):
        raise Skip
    worst = [x for x, y in zip(f, m) if y < th]
    if not worst:
        raise Skip
    f0, m0 = f.copy(), m.copy()
    o = M(f, m)
    got = o.estimate() if c["default"] else o.estimate(q)
    same("MES", got, math.fsum(worst) / len(worst), rtol=1e-9, atol=1e-13)
    need(min(worst) - 1e-12 <= got <= max(worst) + 1e-12, "MES outside the range of the firm's returns on those days")
    same("repeated call", o.estimate(q), got, rtol=0, atol=0)
    if c["q2"] is not None and np.any(m < np.percentile(m, c["q2"] * 100)):
        same("another percentile from the same object", o.estimate(c["q2"]), M(f, m).estimate(c["q2"]), rtol=0, atol=0)
        same("the first percentile again", o.estimate(q), got, rtol=0, atol=0)
    unchanged((f0, m0), (f, m))
    p = np.random.default_rng(3).permutation(len(f))
    same("days in another order", M(f[p], m[p]).estimate(q), got, rtol=1e-9, atol=1e-13)
    same("linear in firm returns", M(2 * f + 1, m).estimate(q), 2 * got + 1, rtol=1e-9, atol=1e-12)


# ---------------------------------------------------------------- C15
def gen_ses(rng, i):
    n = rng.size([3, 4, 5, 10, 40], 1500)
    return dict(mes=rng.standard_normal(n) * rng.pick([1e-5, 1e-3, 0.02, 1.0, 50.0]), lvg=rng.uniform(1, 30, n), ses=rng.standard_normal(n) * 0.3,
                mf=float(rng.standard_normal()), lf=float(rng.uniform(1, 30)), shift=float(rng.standard_normal()), k=float(rng.uniform(0.2, 4)),
                lay=rng.pick(LAYOUTS[:3]))


def exact_ols(cols, y):
    """Normal equations in exact arithmetic."""
    C = [[Fraction(float(v)) for v in col] for col in cols]
    Y = [Fraction(float(v)) for v in y]
    m = len(C)
    A = [[sum(a * b for a, b in zip(C[i], C[j])) for j in range(m)] + [sum(a * b for a, b in zip(C[i], Y))] for i in range(m)]
    for i in range(m):
        p = next((r for r in range(i, m) if A[r][i] != 0), None)
        if p is None:
            raise Skip
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(m):
            if r != i and A[r][i] != 0:
                A[r] = [u - A[r][i] * v for u, v in zip(A[r], A[i])]
    return [A[i][m] for i in range(m)]


@check("C15", "SES", gen_ses, 120)
def run_ses(c):
    S = ENV.meas().SystemicExpectedShortfall
    me, lv, se = [layout(c[k], c["lay"]) for k in ("mes", "lvg", "ses")]
    a, b, cc = exact_ols([np.ones(len(me)), me, lv], se)
    den = b + cc
    X = np.column_stack([np.ones(len(me)), me, lv])
    if abs(den) < 1e-3 * (abs(b) + abs(cc)) or np.linalg.cond(X / np.linalg.norm(X, axis=0)) > 1e5:
        raise Skip
    want = float((b * Fraction(c["mf"]) + cc * Fraction(c["lf"])) / den)
    before = [x.copy() for x in (me, lv, se)]
    o = S(me, lv, se, c["mf"], c["lf"])
    same("SES", o.estimate(), want, rtol=1e-6, atol=1e-8)
    same("SES, repeated call", o.estimate("BFLV2012"), want, rtol=1e-6, atol=1e-8)
    same("SES of a firm whose MES equals its leverage", S(me, lv, se, 1.7, 1.7).estimate(), 1.7, rtol=1e-6)
    same("SES with shifted training returns", S(me, lv, se + c["shift"], c["mf"], c["lf"]).estimate(), want, rtol=1e-6, atol=1e-8)
    same("SES with rescaled training returns", S(me, lv, se * c["k"], c["mf"], c["lf"]).estimate(), want, rtol=1e-6, atol=1e-8)
    unchanged(before, (me, lv, se))


# ---------------------------------------------------------------- C16
def gen_ar(rng, i):
    n = rng.size([2, 3, 5, 7, 10, 12, 25], 80)
    T = rng.size([2, 3, 6, 20, 60], 1500)
    x = rng.standard_normal((n, T))
    if rng.chance(0.5):
        x += rng.standard_normal(T) * rng.uniform(0, 3)
    f = float(rng.pick([0.0, 0.2, 1.0, 0.5, 0.1, 0.25, 0.3, 0.7, rng.random(), (int(rng.integers(0, n)) + 0.5) / n]))
    return dict(x=x * rng.pick([1.0, 0.01, 50.0, 1e-5]), f=f, default=rng.chance(0.2), lay=rng.pick(["plain", "strided", "fortran"]))


@check("C16", "absorption ratio", gen_ar, 150)
def run_ar(c):
    A = ENV.meas().AbsorptionRatio
    x = layout(c["x"], c["lay"])
    n, T = x.shape
    f = 0.2 if c["default"] else c["f"]
    d = x - x.mean(axis=1, keepdims=True)
    S = d @ d.T / (T - 1)
    ev = np.sort(np.linalg.eigvalsh(S))[::-1]
    k = math.floor(Fraction(f * n) + Fraction(1, 2))
    want = math.fsum(ev[:k]) / np.trace(S)
    x0 = x.copy()
    o = A(x)
    got = o.estimate() if c["default"] else o.estimate(f)
    need(not np.iscomplexobj(got), "the ratio is a complex number")
    same("absorption ratio", got, want, rtol=1e-10, atol=1e-11)
    need(-1e-9 <= got <= 1 + 1e-9, f"ratio {got} outside [0,1]")
    same("all eigenvectors", o.estimate(1.0), 1.0, rtol=1e-8)
    same("no eigenvector", o.estimate(0.0), 0.0, atol=1e-12)
    vs = [float(o.estimate(g)) for g in np.linspace(0, 1, 23)]
    need(all(b >= a - 1e-9 for a, b in zip(vs, vs[1:])), f"decreasing in the fraction: {vs}")
    same("repeated call", o.estimate(f), got, rtol=0, atol=0)
    same("rescaled returns", A(x * 7.5).estimate(f), want, rtol=1e-7, atol=1e-9)
    unchanged((x0,), (x,))


# ---------------------------------------------------------------- C17
def ref_dip(p, R, th, seed, rets, sims):
    from statistics import NormalDist
    rng = np.random.RandomState(seed)
    n = len(p)
    lim = [NormalDist().inv_cdf(float(v)) for v in p]
    z = rng.normal(0, 1, size=(rets, n)) @ np.linalg.cholesky(R).T
    cnt = [sum(1 for b in range(n) if row[b] < lim[b]) for row in z]
    freq = [cnt.count(i) / rets for i in range(n + 1)]
    prob = {}
    for i in range(n):
        l = rng.triangular(0.1, 0.55, 1, size=(i + 1, sims))
        tot = [0.0] * sims
        for r in range(i + 1):
            tot = [a + b for a, b in zip(tot, l[r])]
        for v in tot:
            k = math.ceil(v * 100)
            prob[k] = prob.get(k, 0.0) + freq[i + 1] / sims
    pct = int(round(th * 100, 6))
    return math.fsum(k / 100 * v for k, v in prob.items() if k >= pct * n)


def gen_dip(rng, i):
    n = int(rng.pick([1, 2, 3, 4, 6]))
    A = rng.standard_normal((n, n + 2))
    S = A @ A.T
    d = np.sqrt(np.diag(S))
    R = S / np.outer(d, d)
    hi = rng.pick([0.02, 0.3, 0.95])
    return dict(p=rng.uniform(0.001, hi, n), R=R, th=float(rng.pick([0.15, 0.29, 0.0, 0.5, 0.57, 0.9, 1.0, 0.01, 0.58, round(float(rng.random()), 2)])),
                seed=int(rng.integers(0, 10 ** 6)), other=int(rng.integers(4)), rets=rng.size([1, 50, 1000, 3000], 6000), sims=rng.size([1, 7, 100, 300], 4000))


@check("C17", "distress insurance premium", gen_dip, 40)
def run_dip(c):
    D = ENV.meas().DistressInsurancePremium
    n = len(c["p"])
    p, R = c["p"].copy(), c["R"].copy()
    want = ref_dip(p, R, c["th"], c["seed"], c["rets"], c["sims"])
    o = D(p, R)
    np.random.seed(11)
    g0 = np.random.get_state()[1].copy()
    got = o.estimate(c["th"], c["seed"], c["rets"], c["sims"])
    same("premium", got, want, rtol=1e-9, atol=1e-12)
    need(math.isfinite(got) and 0 <= got <= n + 1e-9, f"premium {got} outside [0, {n}]")
    same("repeated call", o.estimate(c["th"], c["seed"], c["rets"], c["sims"]), got, rtol=0, atol=0)
    higher = o.estimate(min(1.0, c["th"] + 0.1), c["seed"], c["rets"], c["sims"])
    th, sd, rets, sims = [(c["th"], c["seed"], c["rets"], c["sims"]), (c["th"], c["seed"] + 1, c["rets"], c["sims"]), (c["th"], c["seed"], c["rets"] + 3, c["sims"]), (c["th"], c["seed"], c["rets"], c["sims"] + 2)][c["other"]]
    same("another call on the same object", o.estimate(th, sd, rets, sims), D(p, R).estimate(th, sd, rets, sims), rtol=0, atol=0)
    same("a call with the threshold only", o.estimate(th, random_seed=sd, n_simulated_returns=rets, n_simulations=sims), D(p, R).estimate(th, sd, rets, sims), rtol=0, atol=0)
    need(higher <= got + 1e-12, "the premium increases with the threshold")
    need(np.array_equal(g0, np.random.get_state()[1]), "numpy's global random state was changed")
    unchanged((c["p"], c["R"]), (p, R))


# ---------------------------------------------------------------- C18
def ref_bs(S, K, r, T, sg, q=0.0):
    d1 = (math.log(S / K) + (r - q + sg ** 2 / 2) * T) / (sg * math.sqrt(T))
    d2 = d1 - sg * math.sqrt(T)
    call = S * math.exp(-q * T) * cdf(d1) - K * math.exp(-r * T) * cdf(d2)
    put = K * math.exp(-r * T) * cdf(-d2) - S * math.exp(-q * T) * cdf(-d1)
    return call, put, d1


def gen_cca(rng, i):
    d, T, r = float(rng.uniform(1, 60)), float(rng.pick([0.5, 1.0, 2.0, 5.0, 1.5])), float(rng.uniform(-0.01, 0.08))
    A, s = d * float(rng.uniform(1.05, 3.0)), float(rng.uniform(0.08, 0.6))
    e, _, d1 = ref_bs(A, d, r, T, s)
    return dict(e=e, vol=A * s * cdf(d1) / e, r=r, d=d, T=T, cds=float(rng.pick([0.0, 10.0, 50.0, 150.0, 400.0, 2500.0])), A=A, s=s)


def merton_root(e, vol, r, d, T, A, s):
    """Does a solver started where estimate starts converge to the root (A, s) the inputs were made from?"""
    from scipy.optimize import fsolve

    def f(x):
        c, _, d1 = ref_bs(x[0] ** 2, d, r, T, x[1] ** 2)
        return e - c, e * vol - x[0] ** 2 * x[1] ** 2 * cdf(d1)
    try:
        x, info, ier, _ = fsolve(f, (e, vol), full_output=True)
    except (ValueError, ZeroDivisionError, OverflowError):
        return False
    return ier == 1 and abs(x[0] ** 2 / A - 1) < 1e-6 and abs(x[1] ** 2 / s - 1) < 1e-5 and float(np.max(np.abs(info["fvec"]))) < 1e-9 * (1 + A)


@check("C18", "contingent claims", gen_cca, 120)
def run_cca(c):
    C = ENV.meas().ContingentClaimAnalysis
    e, vol, r, d, T, cds = [c[k] for k in ("e", "vol", "r", "d", "T", "cds")]
    if not merton_root(e, vol, r, d, T, c["A"], c["s"]):
        raise Skip
    put, diff = C.estimate(e, vol, r, d, T, cds)
    disc = d * math.exp(-r * T)
    same("put price", put, ref_bs(c["A"], d, r, T, c["s"])[1], rtol=1e-4, atol=1e-5 * d)
    debt = disc - put
    cp = (1 - math.exp(-(cds / 10000) * (d / debt - 1) * T)) * disc
    same("put minus CDS-implied put", diff, put - cp, rtol=1e-7, atol=1e-9)
    if cds == 0:
        same("zero spread", diff, put, rtol=0, atol=1e-12)
    again = C.estimate(e, vol, r, d, T, cds)
    same("repeated call", again, (put, diff), rtol=0, atol=0)


# ---------------------------------------------------------------- C19
def gen_bs(rng, i):
    n = int(rng.pick([0, 0, 1, 4]))
    sz = n if n else None
    u = lambda a, b: rng.uniform(a, b, sz) if n else float(rng.uniform(a, b))
    tt, ss = rng.pick([(0.01, 8), (0.01, 8), (1e-4, 0.01), (8, 60)]), rng.pick([(0.02, 1.5), (0.02, 1.5), (1e-5, 0.02), (1.5, 5)])
    S, K, r, T, sg = u(0.5, 150), u(0.5, 150), u(-0.05, 0.2), u(*tt), u(*ss)
    if rng.chance(0.4):         # near the money, for any volatility
        K = S * np.exp(r * T + sg * np.sqrt(T) * (rng.standard_normal(sz) if n else float(rng.standard_normal())))
        K = K if n else float(K)
    return dict(S=S, K=K, r=r, T=T, s=sg, q=u(-0.02, 0.2), n=n,
                scalar_q=rng.chance(0.3), default=rng.chance(0.3), h=float(rng.uniform(0.1, 9)))


@check("C19", "Black-Scholes", gen_bs, 250)
def run_bs(c):
    f = ENV.meas().blsprice
    a = [np.array(c[k]) if c["n"] else c[k] for k in ("S", "K", "r", "T", "s")]
    q = 0.0 if c["default"] else (float(np.mean(c["q"])) if c["scalar_q"] else c["q"])
    b = [np.array(x) for x in a]
    call, put = f(*a) if c["default"] else f(*a, q)
    rows = np.broadcast_arrays(*[np.atleast_1d(x) for x in a], np.atleast_1d(q))
    want = np.array([ref_bs(*[float(v) for v in r]) for r in zip(*rows)])
    same("call", np.atleast_1d(call), want[:, 0], rtol=1e-8, atol=1e-9)
    same("put", np.atleast_1d(put), want[:, 1], rtol=1e-8, atol=1e-9)
    S, K, r, T, s = a
    same("put-call parity", np.asarray(call) - put, S * np.exp(-np.asarray(q) * T) - K * np.exp(-np.asarray(r) * T), rtol=1e-8, atol=1e-8)
    need(np.all(np.asarray(call) >= -1e-9) and np.all(np.asarray(put) >= -1e-9), "negative price")
    need(np.all(call <= S * np.exp(-np.asarray(q) * T) + 1e-9) and np.all(put <= K * np.exp(-np.asarray(r) * T) + 1e-9), "price above its bound")
    h = c["h"]
    c2, p2 = f(h * S, h * K, r, T, s, q)
    same("homogeneity", np.concatenate([np.atleast_1d(c2), np.atleast_1d(p2)]), h * np.concatenate([np.atleast_1d(call), np.atleast_1d(put)]), rtol=1e-8, atol=1e-8)
    unchanged(b, a)


# ---------------------------------------------------------------- C25
def gen_kyle(rng, i):
    n = rng.size([1, 2, 3, 10, 60], 4000)
    x = rng.standard_normal(n) * rng.pick([1.0, 1e6])
    if rng.chance(0.3):
        x[rng.random(n) < 0.5] = 0.0
    if not np.any(x):
        x[0] = 3.0
    if rng.chance(0.2):
        x = np.round(x * 10)
        if not np.any(x):
            x[0] = 3.0
    return dict(y=rng.standard_normal(n) * 0.01 + rng.pick([0.0, 0.02]), x=x, kind=rng.pick(["array", "list", "series", "strided", "int", "f32"]))


def as_kind(x, kind):
    if kind == "list":
        return [float(v) for v in x]
    if kind == "series":
        import pandas as pd
        return pd.Series(x, index=np.arange(len(x)) * 2 + 5)
    if kind == "int":
        return np.round(x).astype(np.int64) if np.any(np.round(x)) else np.asarray(x)
    if kind == "strided":
        return layout(x, "strided")
    if kind == "f32":
        return x.astype(np.float32)
    return np.array(x)


@check("C25", "Kyle's lambda", gen_kyle, 150)
def run_kyle(c):
    f = ENV.meas().kyle_lambda
    y, x = as_kind(c["y"], "array" if c["kind"] == "int" else c["kind"]), as_kind(c["x"], c["kind"])
    Y, X = [Fraction(float(v)) for v in y], [Fraction(float(v)) for v in x]
    want = float(1000000 * sum(a * b for a, b in zip(X, Y)) / sum(a * a for a in X))
    tol = 2e-4 if c["kind"] == "f32" else 1e-8
    before = (np.array(y), np.array(x))
    got = f(y, x)
    same("lambda", got, want, rtol=tol, atol=tol * 1e6 * max(1e-12, max(abs(float(v)) for v in Y) / max(abs(float(v)) for v in X)))
    need(np.ndim(got) == 0, "not a number")
    unchanged(before, (y, x))


def gen_z(rng, i):
    n = rng.size([2, 3, 5, 40], 4000)
    return dict(roa=float(rng.normal(0, 0.1)), cap=float(rng.uniform(-0.1, 0.9)), past=rng.standard_normal(n) * rng.pick([0.02, 3.0]) + rng.pick([0.0, 5.0]),
                kind=rng.pick(["array", "list", "strided"]))


@check("C25", "bank Z-score", gen_z, 120)
def run_z(c):
    p = as_kind(c["past"], c["kind"])
    b = np.array(p)
    P = [float(v) for v in p]
    m = math.fsum(P) / len(P)
    sd = math.sqrt(math.fsum((v - m) ** 2 for v in P) / len(P))
    same("z-score", ENV.meas().z_score(c["roa"], c["cap"], p), (c["roa"] + c["cap"]) / sd, rtol=1e-7)
    unchanged((b,), (p,))


# ---------------------------------------------------------------- C13
def gen_srisk(rng, i):
    n = rng.size([1, 1, 2, 3], 40)
    T = 40
    return dict(n=n, T=T, W=rng.uniform(1, 100, n) * rng.pick([1.0, 1.0, 1.0, 1e-5, 1e6]), D=rng.uniform(0, 900, n) * rng.pick([1.0, 1.0, 1e-5, 1e6]), k=float(rng.pick([0.08, 0.055, 0.3, 0.0])), lr=rng.uniform(-0.2, 0.9, n) * rng.pick([1.0, 1.0, 1.0, 7.0]), agg=rng.chance(0.5),
                h=int(rng.integers(1, 40)), S=int(rng.integers(10, 500)), C=float(-rng.uniform(0.05, 0.3)), seed=int(rng.integers(0, 99)), seed0=int(rng.integers(10 ** 6)), how=rng.pick(["kw", "pos", "default"]),
                earlier=int(rng.pick([0, 0, 1, 2, 3, 4])))


@check("C13", "SRISK with a given LRMES", gen_srisk, 150)
def run_srisk(c):
    """SRISK's own formula: LRMES is replaced by a recorder that returns a known value for each firm."""
    mod = ENV.mod("frds.measures._srisk")
    S = mod.SRISK
    n, T = c["n"], c["T"]
    g = np.random.default_rng(c["seed0"])
    mk = g.standard_normal(T)
    R = g.standard_normal((T, n))
    calls = []

    class Fake:
        def __init__(self, firm_returns, market_returns):
            self.f, self.m = np.array(firm_returns), np.array(market_returns)

        def estimate(self, h=22, S=10000, C=-0.1, random_seed=42):
            need(np.array_equal(self.m, mk), "LRMES is not given the market's returns")
            j = [j for j in range(n) if np.array_equal(self.f, R[:, j])]
            need(len(j) == 1, "LRMES is not given the firm's own returns")
            calls.append((j[0], h, S, C, random_seed))
            return float(c["lr"][j[0]]) * (1.0 if (h, S, C, random_seed) == asked else 0.5)
    names = [k for k, v in vars(mod).items() if getattr(v, "__name__", "") == "LongRunMarginalExpectedShortfall"]
    if not names:
        raise Skip
    saved = {k: getattr(mod, k) for k in names}
    k, h, Sn, C, seed = (c["k"], c["h"], c["S"], c["C"], c["seed"]) if c["how"] != "default" else (0.08, 22, 10000, -0.1, 42)
    asked, reached = (h, Sn, C, seed), False
    try:
        for nm in names:
            setattr(mod, nm, Fake)
        if n == 1:
            o = S(R[:, 0].copy(), mk.copy(), float(c["W"][0]), float(c["D"][0]))
        else:
            o = S(R.copy(), mk.copy(), c["W"].copy(), c["D"].copy())
        if c["earlier"]:
            # an earlier call with other arguments
            other = list(asked)
            other[c["earlier"] - 1] = [h + 1, Sn + 5, C - 0.01, seed + 1][c["earlier"] - 1]
            o.estimate(k / 2 + 0.01, *other, not c["agg"])
            reached = bool(calls)
            calls.clear()
        if c["how"] == "kw":
            got = o.estimate(k=k, lrmes_h=h, lrmes_S=Sn, lrmes_C=C, lrmes_random_seed=seed, aggregate_srisk=c["agg"])
        elif c["how"] == "pos":
            got = o.estimate(k, h, Sn, C, seed, c["agg"])
        else:
            got = o.estimate(aggregate_srisk=c["agg"])
    finally:
        for nm, v in saved.items():
            setattr(mod, nm, v)
    if not calls and not reached:
        raise Skip          # LRMES reached in another way
    if not reached:
        need(all(x[1:] == (h, Sn, C, seed) for x in calls), f"LRMES called with {calls[0][1:]}, expected {(h, Sn, C, seed)}")
        need(sorted(x[0] for x in calls) == list(range(n)), "LRMES not computed once per firm")
    val = k * c["D"] - (1 - k) * c["W"] * (1 - c["lr"])
    if c["agg"]:
        same("aggregate SRISK", got, math.fsum(v for v in val if v > 0), rtol=1e-9, atol=1e-9)
    elif n == 1:
        same("SRISK", np.reshape(got, (-1,)), val, rtol=1e-9, atol=1e-9)
    else:
        same("SRISK", got, val, rtol=1e-9, atol=1e-9)


def gen_srisk2(rng, i):
    n = int(rng.pick([1, 2]))
    return dict(n=n, T=int(rng.pick([250, 320])), W=rng.uniform(1, 100, n), D=rng.uniform(0, 900, n), seed0=int(rng.integers(10 ** 6)), agg=rng.chance(0.5), h=int(rng.pick([5, 22])))


@check("C13", "SRISK with the estimated LRMES", gen_srisk2, 2, thorough=12)
def run_srisk2(c):
    M = ENV.meas()
    n, T = c["n"], c["T"]
    g = np.random.default_rng(c["seed0"])
    mk = g.standard_normal(T) * 0.01
    R = 0.7 * mk[:, None] + g.standard_normal((T, n)) * 0.01
    kw = dict(lrmes_h=c["h"], lrmes_S=400, lrmes_C=-0.02, lrmes_random_seed=7)
    lr = np.array([M.LongRunMarginalExpectedShortfall(R[:, j].copy(), mk.copy()).estimate(c["h"], 400, -0.02, 7) for j in range(n)])
    R0, mk0 = R.copy(), mk.copy()
    o = M.SRISK(R[:, 0], mk, float(c["W"][0]), float(c["D"][0])) if n == 1 else M.SRISK(R, mk, c["W"].copy(), c["D"].copy())
    got = o.estimate(aggregate_srisk=c["agg"], **kw)
    val = 0.08 * c["D"] - 0.92 * c["W"] * (1 - lr)
    want = math.fsum(v for v in val if v > 0) if c["agg"] else val
    same("SRISK", np.reshape(got, np.shape(want)), want, rtol=1e-7, atol=1e-7)
    unchanged((R0, mk0), (R, mk))
