"""C01-C07: contracts of the univariate models, executable form."""
import itertools
import math
import numpy as np
from .harness import ENV, check, same, need, layout, LAYOUTS, Violation, Skip, close

MODES = ("ext", "pure")


# ---------------------------------------------------------------- reference
def guard(v, lo, hi):
    if v < lo:
        return lo
    if v <= hi:
        return v
    if hi <= 0:
        raise Skip                       # bounds are positive
    return hi + 1000 if math.isinf(v) else hi + math.log(v / hi)


def ref_variance(kind, p, r, bc, vb):
    if kind == "garch":
        om, al, be = p
        ga = 0.0
    else:
        om, al, ga, be = p
    r = [float(x) for x in r]
    s = [om + (al + ga / 2 + be) * bc]
    for t in range(1, len(r)):
        v = om + (al + (ga if r[t - 1] < 0 else 0.0)) * r[t - 1] ** 2 + be * s[-1]
        s.append(guard(v, float(vb[t][0]), float(vb[t][1])))
    return np.array(s)


def ref_ewma(r, s0, lam=0.94):
    s = [float(s0)]
    for t in range(1, len(r)):
        s.append(lam * s[-1] + (1 - lam) * float(r[t - 1]) ** 2)
    return np.array(s)


def ref_backcast(r):
    tau = min(75, len(r))
    w = [0.94 ** i for i in range(tau)]
    return math.fsum(w[i] * float(r[i]) ** 2 for i in range(tau)) / math.fsum(w)


def ref_bounds(r):
    r = np.asarray(r, dtype=float)
    v = ref_ewma(r, ref_backcast(r))
    lo, hi = np.var(r) / 1e8, 1e7 * (1 + np.max(r ** 2))
    v = np.minimum(np.maximum(v, lo), hi)
    return np.column_stack([v / 1e6, v * 1e6])


def ref_ll(r, s):
    r, s = np.asarray(r, float), np.asarray(s, float)
    return math.fsum(-0.5 * (math.log(2 * math.pi) + math.log(si) + ri * ri / si) for ri, si in zip(r, s))


# ---------------------------------------------------------------- inputs
def series(rng, T, kind=None):
    kind = kind or rng.pick(["normal", "normal", "garch", "skewed", "tiny", "large", "zeros"])
    if kind == "zeros":
        x = rng.standard_normal(T) * (rng.random(T) < 0.5)
    elif kind == "garch":
        x, s = np.zeros(T), 1.0
        for t in range(T):
            x[t] = math.sqrt(s) * rng.standard_normal()
            s = 0.1 + (0.08 + 0.1 * (x[t] < 0)) * x[t] ** 2 + 0.8 * s
    elif kind == "skewed":
        x = rng.exponential(1.0, T) - 1
    else:
        x = rng.standard_normal(T) * {"normal": 1.5, "tiny": 1e-3, "large": 40.0}[kind]
    return x


def length(rng, i, cap=160):
    return [1, 2, 3, 75, 76, 74, 90, 150][i % 8] if i % 2 == 0 else rng.size(range(4, cap), 3000, 0.12)


def unit(rng):
    """Of variances: returns may be fractions, percentages, or nearly constant."""
    return float(rng.pick([1.0, 1.0, 1.0, 1.0, 1e-10, 1e-18, 1e6]))


def gen_var(kind):
    def gen(rng, i):
        T = length(rng, i // 2)
        r = series(rng, T)
        if kind == "garch":
            p = [float(rng.uniform(0.001, 1)), float(rng.uniform(0, 0.5)), float(rng.uniform(0, 0.9))]
        else:
            p = [float(rng.uniform(0.001, 1)), float(rng.uniform(0, 0.4)), float(rng.uniform(0, 0.5)), float(rng.uniform(0, 0.9))]
        how = rng.pick(["model", "tight", "wide", "mixed"])
        if how == "model":
            vb = ref_bounds(r)
        else:
            lo = rng.uniform(0.05, 1.5, T) if how != "wide" else np.full(T, 1e-9)
            gap = rng.uniform(0.0, 1.0, T) if how == "tight" else rng.uniform(0, 5, T) if how == "mixed" else np.full(T, 1e9)
            vb = np.column_stack([lo, lo + gap])
        u, bc = unit(rng), float(rng.uniform(0.01, 4))
        r, vb, p[0], bc = r * math.sqrt(u), vb * u, p[0] * u, bc * u
        if u != 1 and rng.chance(0.3):
            p[0] = 0.0
        if rng.chance(0.1):
            p[0] = float("inf") if rng.chance(0.3) else 1e300
        return dict(resids=r, params=p, backcast=bc, bounds=vb, unit=u, mode=MODES[i % 2], layout=rng.pick(LAYOUTS),
                    vlayout=rng.pick(["plain", "fortran", "f32", "strided"]), aslist=bool(rng.integers(2)))
    return gen


def run_var(kind, cls):
    def run(c):
        A = getattr(ENV.alg(c["mode"]), cls)
        r, vb = layout(c["resids"], c["layout"]), layout(c["bounds"], c["vlayout"])
        p = list(c["params"]) if c["aslist"] else np.array(c["params"])
        r0, vb0 = np.array(r), np.array(vb)
        got = A.compute_variance(p, r, c["backcast"], vb)
        want = ref_variance(kind, c["params"], np.asarray(r0, float), c["backcast"], np.asarray(vb0, float))
        same("conditional variance", got, want, rtol=1e-9, atol=1e-10 * min(1.0, c["unit"]))
        need(np.array_equal(r0, r) and np.array_equal(vb0, vb), "arguments were modified")
        again = A.compute_variance(p, r, c["backcast"], vb)
        same("second call", again, got, rtol=0, atol=0)
    return run


check("C01", "GARCH variances", gen_var("garch"), 60)(run_var("garch", "GARCHModel"))
check("C02", "GJR-GARCH variances", gen_var("gjr"), 60)(run_var("gjr", "GJRGARCHModel"))


def gen_fc(rng, i):
    T = length(rng, i)
    return dict(resids=series(rng, T), p=[float(x) for x in rng.uniform(0, 0.5, 6)], s0=float(rng.uniform(0.01, 3)), mode=MODES[i % 2], layout=rng.pick(LAYOUTS))


@check("C02", "variance forecasts", gen_fc, 40)
def run_fc(c):
    A = ENV.alg(c["mode"]).GJRGARCHModel
    mu, om, al, ga, be, ll = c["p"]
    r = layout(c["resids"], c["layout"])
    got = A.forecast_variance(A.Parameters(mu, om, al, ga, be, ll), r, c["s0"])
    s = [c["s0"]]
    for t in range(1, len(r)):
        x = float(r[t - 1])
        s.append(om + (al + (ga if x < 0 else 0)) * x ** 2 + be * s[-1])
    same("variance forecasts", got, np.array(s[1:]), rtol=1e-9)


def gen_guard(rng, i):
    lo = float(rng.uniform(1e-6, 2))
    hi = lo if rng.chance(0.1) else lo * float(rng.uniform(1, 50))
    v = rng.pick([lo, hi, lo * 0.5, hi * 1.0001, hi * 3, (lo + hi) / 2, float("inf"), 0.0, -1.0, float(rng.uniform(0, 2 * hi)), hi * 1e9, 1e305, 1e200, 1e-200, -1e300, hi * math.exp(float(rng.uniform(0, 300)))])
    if rng.chance(0.2):
        k = 10.0 ** float(rng.uniform(-30, 30))
        lo, hi, v = lo * k, hi * k, v * k
    return dict(v=float(v), w=float(rng.uniform(0, 3 * hi)), lo=lo, hi=hi, mode=MODES[i % 2], cls=rng.pick(["GARCHModel", "GJRGARCHModel"]), layout=rng.pick(["plain", "strided", "f32", "list"]))


@check("C03", "variance guard", gen_guard, 200)
def run_guard(c):
    A = getattr(ENV.alg(c["mode"]), c["cls"])
    b = [c["lo"], c["hi"]]
    a = b if c["layout"] == "list" else layout(b, c["layout"])
    lo, hi = (float(x) for x in a)
    f = lambda v: A.bounds_check(v, a)
    g = f(c["v"])
    same("guarded value", g, guard(c["v"], lo, hi), rtol=1e-12)
    need(g >= lo and g > 0, f"below the lower bound: {g}")
    if not math.isinf(c["v"]):
        h = f(c["w"])
        need((h >= g - 1e-12 * abs(g)) if c["w"] >= c["v"] else (g >= h - 1e-12 * abs(h)), "not monotone")
        if lo <= c["v"] <= hi:
            need(g == c["v"], "changed inside the bounds")


def gen_r(rng, i):
    T = length(rng, i, 200)
    u = unit(rng)
    return dict(resids=series(rng, T) * math.sqrt(u), s0=float(rng.uniform(0, 3)) * u, unit=u, lam=float(rng.uniform(0, 1)), default=bool(rng.integers(2)), mode=MODES[i % 2], cls=["GARCHModel", "GJRGARCHModel"][(i // 2) % 2], layout=rng.pick(LAYOUTS))


@check("C04", "EWMA", gen_r, 60)
def run_ewma(c):
    A = getattr(ENV.alg(c["mode"]), c["cls"])
    r = layout(c["resids"], c["layout"])
    if c["default"]:
        same("EWMA (default decay)", A.ewma(r, c["s0"]), ref_ewma(r, c["s0"]), rtol=1e-9, atol=1e-10 * min(1.0, c["unit"]))
    else:
        same("EWMA", A.ewma(r, c["s0"], c["lam"]), ref_ewma(r, c["s0"], c["lam"]), rtol=1e-9, atol=1e-10 * min(1.0, c["unit"]))


@check("C04", "backcast", gen_r, 60)
def run_backcast(c):
    A = getattr(ENV.alg(c["mode"]), c["cls"])
    r = layout(c["resids"], c["layout"])
    got = A.backcast(r)
    same("backcast", got, ref_backcast(r), rtol=1e-5 if c["layout"] == "f32" else 1e-9, atol=1e-10 * min(1.0, c["unit"]))
    q = np.asarray(r, float)[:75] ** 2
    need(q.min() * (1 - 1e-5) - 1e-12 <= got <= q.max() * (1 + 1e-5) + 1e-12, "outside the squared residuals it averages")


def gen_vb(rng, i):
    d = gen_r(rng, i)
    if i % 3 == 1:      # the global limits bind: one huge residual long ago, or a constant series
        T = 60 + i
        x = rng.standard_normal(T) * 1e-7
        x[int(rng.integers(T))] = 1e3
        d["resids"] = x
    if i % 3 == 2:
        T = 400 if i % 2 else 30
        x = np.zeros(T)
        x[-1] = 1.0 + abs(rng.standard_normal())
        d["resids"] = x
    d["layout"] = "plain" if d["layout"] == "int" else d["layout"]
    return d


@check("C04", "variance bounds", gen_vb, 60)
def run_vb(c):
    A = getattr(ENV.alg(c["mode"]), c["cls"])
    r = layout(c["resids"], c["layout"])
    got = A.variance_bounds(r)
    same("variance bounds", got, ref_bounds(r), rtol=2e-4 if c["layout"] == "f32" else 1e-9, atol=0)
    need(np.all(got[:, 0] <= got[:, 1]), "lower bound above upper bound")
    need(np.array_equal(np.asarray(r), layout(c["resids"], c["layout"])), "argument was modified")
