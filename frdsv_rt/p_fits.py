"""C06-C10: likelihoods, starting values and fits of the univariate and bivariate models, executable form."""
import itertools
import math
import numpy as np
import scipy.optimize
from .harness import ENV, check, same, need, layout, LAYOUTS, Violation, Skip, close
from .p_garch import MODES, guard, ref_variance, ref_ewma, ref_backcast, ref_bounds, ref_ll, series, length, unit
from .p_micro import REAL, with_script

CLS = {"garch": "GARCHModel", "gjr": "GJRGARCHModel"}
NAMES = {"garch": ("mu", "omega", "alpha", "beta"), "gjr": ("mu", "omega", "alpha", "gamma", "beta")}


def draw_params(rng, kind):
    if kind == "garch":
        return [float(rng.uniform(0.001, 1)), float(rng.uniform(0, 0.5)), float(rng.uniform(0, 0.5))]
    return [float(rng.uniform(0.001, 1)), float(rng.uniform(0, 0.3)), float(rng.uniform(0, 0.4)), float(rng.uniform(0, 0.5))]


# ---------------------------------------------------------------- C06
def gen_like(rng, i):
    T = max(2, length(rng, i))
    kind = ["garch", "gjr"][i % 2]
    r = series(rng, T) + rng.pick([0.0, 0.3])
    p, u = draw_params(rng, kind), unit(rng)
    p[0] *= u
    return dict(kind=kind, returns=r * math.sqrt(u), params=p, mu=float(rng.standard_normal() * 0.3) * math.sqrt(u), bc=float(rng.uniform(0.01, 4)) * u,
                zero=bool(rng.integers(2)), mode=MODES[(i // 2) % 2], layout=rng.pick(LAYOUTS[:3]), omit=rng.chance(0.3))


@check("C06", "likelihood", gen_like, 80)
def run_like(c):
    M = getattr(ENV.alg(c["mode"]), CLS[c["kind"]])
    x = layout(c["returns"], c["layout"])
    o = M(x, zero_mean=c["zero"])
    r = np.asarray(c["returns"]) - (0 if c["zero"] else c["mu"])
    vb = ref_bounds(np.asarray(c["returns"])) if np.var(c["returns"]) > 0 else None
    if vb is None:
        raise Skip
    s = ref_variance(c["kind"], c["params"], r, c["bc"], vb)
    if not np.all(s > 0):
        raise Skip
    p = np.array(c["params"] if c["zero"] else [c["mu"]] + c["params"])
    p0, vb0, x0 = p.copy(), vb.copy(), x.copy()
    want = -ref_ll(r, s)
    got = o.loglikelihood_model(p, c["bc"], vb) if c["omit"] and not c["zero"] else o.loglikelihood_model(p, c["bc"], vb, c["zero"])
    same("objective", got, want, rtol=1e-9)
    same("objective, again", o.loglikelihood_model(p, c["bc"], vb, c["zero"]), want, rtol=1e-9)
    same("log-likelihood", M.loglikelihood(r, s), -want, rtol=1e-9)
    need(np.array_equal(p, p0) and np.array_equal(vb, vb0) and np.array_equal(x, x0), "arguments were modified")


GP, GA = (0.5, 0.7, 0.9, 0.98), (0.01, 0.05, 0.1, 0.2)


def grid_points(kind, var):
    if kind == "garch":
        return [[var * (1 - p), a, p - a] for a in GA for p in GP]
    return [[var * (1 - p), a, g, p - a - g / 2] for a in GA for g in GA for p in GP]


def gen_start(rng, i):
    T = rng.size([5, 20, 40, 76, 120], 1500)
    kind = ["garch", "gjr"][i % 2]
    return dict(kind=kind, returns=series(rng, T) + rng.pick([0.0, 0.5]), zero=bool(rng.integers(2)), mode=MODES[(i // 2) % 2])


@check("C06", "starting values", gen_start, 40)
def run_start(c):
    M = getattr(ENV.alg(c["mode"]), CLS[c["kind"]])
    x = np.array(c["returns"])
    if np.var(x) < 1e-12:
        raise Skip
    o = M(x, zero_mean=c["zero"])
    r = x if c["zero"] else x - x.mean()
    sv = [float(v) for v in o.preparation()]
    ps = sv if c["zero"] else sv[1:]
    bc, vb = ref_backcast(r), ref_bounds(r)
    L = lambda p: ref_ll(r, ref_variance(c["kind"], p, r, bc, vb))
    pts = grid_points(c["kind"], float(np.var(x)))
    need(any(len(q) == len(ps) and np.allclose(q, ps, rtol=1e-9, atol=1e-12) for q in pts), f"starting values {ps} are not on the documented grid")
    best = max(L(q) for q in pts)
    need(L(ps) >= best - 1e-9 * (1 + abs(best)), f"starting values have log-likelihood {L(ps)!r}, another point of the grid has {best!r}")
    if not c["zero"]:
        same("starting_values", o.starting_values(r), ps, rtol=1e-12)


# ---------------------------------------------------------------- C07
def gen_fit(rng, i):
    T = rng.size([30, 60, 100], 500)
    kind = ["garch", "gjr"][i % 2]
    r = series(rng, T, rng.pick(["garch", "garch", "normal", "skewed"])) + rng.pick([0.0, 0.5])
    d = dict(kind=kind, returns=r, zero=bool(rng.integers(2)), mode=MODES[(i // 2) % 2], real=True, layout=rng.pick(LAYOUTS[:3]))
    return d


def gen_fit_script(rng, i):
    d = gen_fit(rng, i)
    T = rng.size([2, 5, 30, 90], 2500)
    d.update(real=False, returns=series(rng, T, "garch") + rng.pick([0.0, 0.5]), x=[float(rng.standard_normal() * 0.2 * rng.pick([1.0, 1.0, 1e-4]))] + draw_params(rng, d["kind"]),
             last=[float(rng.standard_normal() * 0.2)] + draw_params(rng, d["kind"]), fail=int(rng.pick([0, 0, 1, 2])))
    return d


class Evaluating:
    """Stand-in for the optimizer: evaluates the objective at points of its choosing, ends anywhere."""

    def __init__(self, x, last, fail):
        self.x, self.last, self.fail, self.calls = x, last, fail, []

    def __call__(self, fun, x0, args=(), method=None, bounds=None, constraints=(), **kw):
        n = len(x0)
        a = args if isinstance(args, tuple) else (args,)
        x = np.array(self.x[-n:], dtype=float)
        bs = [(b[0], b[1]) for b in bounds] if not hasattr(bounds, "lb") else list(zip(bounds.lb, bounds.ub))
        x = np.array([min(max(v, -math.inf if lo is None else lo), math.inf if hi is None else hi) for v, (lo, hi) in zip(x, bs)])
        f = fun(x.copy(), *a)
        fun(np.array(self.last[-n:], dtype=float), *a)
        ok = len(self.calls) >= self.fail
        self.calls.append(dict(x=x, f=f, x0=x0, bounds=bs, cons=constraints))
        return scipy.optimize.OptimizeResult(x=x.copy(), fun=f, success=ok, message="", nit=1, status=0)


def excluded(call, point):
    """The bound or constraint of an optimizer call that excludes a point, or None."""
    for v, (lo, hi) in zip(point, call["bounds"]):
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return f"the bounds {(lo, hi)}"
    cons = call["cons"]
    for k in (cons if isinstance(cons, (list, tuple)) else [cons]):
        if isinstance(k, dict) and k and k["type"] == "ineq" and np.any(np.asarray(k["fun"](np.array(point), *k.get("args", ()))) < -1e-12):
            return "a constraint"
    return None


def admissible(kind, rng):
    """Admissible parameters, corners of the region included."""
    tiny, one = 1e-6, 1 - 2e-6
    ps = [(tiny, one), (one, tiny), (tiny, tiny), (0.3, 0.65)] if kind == "garch" else \
        [(tiny, tiny, one), (tiny, one, 0.4), (one, tiny, tiny), (tiny, tiny, tiny), (0.1, 0.9, 0.44)]
    return [[mu, om] + list(p) for mu in (-1e4, 0.3) for om in (1e-6, 1e6) for p in ps]


def scripted(mods, script, thunk):
    if script is None:
        return thunk()
    for m in mods[1:]:
        inner = thunk
        thunk = lambda m=m, inner=inner: with_script(m, script, inner)
    return with_script(mods[0], script, thunk)


def fields(p, names):
    return [float(getattr(p, n)) for n in names]


def check_fit(c, o, p):
    kind, x = c["kind"], np.asarray(c["returns"], dtype=float)
    mu, *ps = fields(p, NAMES[kind])
    tol = 1e-6
    need(ps[0] >= 1e-6 * (1 - 1e-6) and all(-tol <= v <= 1 + tol for v in ps[1:]), f"parameters outside their bounds: {ps}")
    if c["real"]:
        need(ps[1] + ps[-1] + (ps[2] / 2 if kind == "gjr" else 0) <= 1 + 1e-5, f"persistence above one: {ps}")
    if c["zero"]:
        need(mu == 0, f"mean {mu} in a zero-mean model")
    r0 = x if c["zero"] else x - x.mean()
    r = x - mu
    s = ref_variance(kind, ps, r, ref_backcast(r0), ref_bounds(r0))
    same("resids", o.resids, r, rtol=1e-10, atol=1e-12)
    same("sigma2", o.sigma2, s, rtol=1e-8)
    same("loglikelihood", p.loglikelihood, ref_ll(r, s), rtol=1e-8)


def run_fit(c):
    if np.var(c["returns"]) < 1e-10:
        raise Skip
    mod = ENV.mod("frds.algorithms._garch", c["mode"])
    M = getattr(ENV.alg(c["mode"]), CLS[c["kind"]])
    x = layout(c["returns"], c["layout"])
    o = M(x, zero_mean=c["zero"])
    s = None if c["real"] else Evaluating(c["x"], c["last"], c["fail"])
    for attempt in range(1 if c["real"] else 3):
        p = scripted([mod], s, o.fit)
        if o.estimation_success:
            break
    if not o.estimation_success:
        raise Skip
    check_fit(c, o, p)
    if s:
        call = s.calls[-1]
        for q in admissible(c["kind"], None):
            q = q[len(q) - len(call["x"]):]
            why = excluded(call, q)
            need(why is None, f"the optimizer may not reach the admissible parameters {q}: excluded by {why}")
        need(c["zero"] or abs(float(call["x0"][0]) - np.mean(c["returns"])) <= 1e-9 * (1 + np.max(np.abs(c["returns"]))), "the optimizer does not start from the sample mean")
        M2 = getattr(ENV.alg(c["mode"]), CLS[c["kind"]])
        same("starting point", [float(v) for v in call["x0"]], [float(v) for v in M2(x, zero_mean=c["zero"]).preparation()], rtol=1e-9)
    state = [fields(p, NAMES[c["kind"]] + ("loglikelihood",)), np.array(o.resids), np.array(o.sigma2)]
    k = len(s.calls) if s else None
    q = scripted([mod], s, o.fit)
    need(q is p or fields(q, NAMES[c["kind"]] + ("loglikelihood",)) == state[0], "a second fit returned other parameters")
    need(fields(o.parameters, NAMES[c["kind"]] + ("loglikelihood",)) == state[0] and np.array_equal(o.resids, state[1]) and np.array_equal(o.sigma2, state[2]), "a second fit changed the model")
    check_fit(c, o, p)
    need(np.array_equal(x, layout(c["returns"], c["layout"])), "the returns were modified")


check("C07", "fit, scripted optimizer", gen_fit_script, 60)(run_fit)
check("C07", "fit, real optimizer", gen_fit, 10, thorough=60)(run_fit)


# ---------------------------------------------------------------- C08
def biv_ll(r1, s1, r2, s2, rho):
    tot = []
    for t in range(len(r1)):
        C = np.array([[s1[t], rho[t] * math.sqrt(s1[t] * s2[t])], [rho[t] * math.sqrt(s1[t] * s2[t]), s2[t]]])
        det = s1[t] * s2[t] * (1 - rho[t] ** 2)
        q = (r1[t] ** 2 * s2[t] - 2 * r1[t] * r2[t] * C[0, 1] + r2[t] ** 2 * s1[t]) / det
        tot.append(-math.log(2 * math.pi) - 0.5 * math.log(det) - 0.5 * q)
    return math.fsum(tot)


def gen_ccc(rng, i):
    T = rng.size([2, 3, 20, 80], 3000)
    rho = float(rng.pick([0.0, 0.5, -0.7, 0.95, -0.98, 0.9998, -0.99999]))
    e = rng.standard_normal((2, T))
    x, y = e[0] * rng.uniform(0.5, 3) + 0.2, (rho * e[0] + math.sqrt(1 - rho ** 2) * e[1]) * rng.uniform(0.5, 3) - 0.1
    k = float(rng.pick([1.0, 1.0, 1e-3, 1e5]))                # the second asset in another unit
    p2 = draw_params(rng, "garch")
    p2[0] *= k * k
    return dict(x=x, y=y * k, rho=rho, s1=rng.uniform(0.2, 5, T), s2=rng.uniform(0.2, 5, T) * k * k, p1=draw_params(rng, "garch"), p2=p2,
                mu=[float(rng.standard_normal() * 0.2), float(rng.standard_normal() * 0.2 * k)], mode=MODES[i % 2], layout=rng.pick(LAYOUTS[:3]))


@check("C08", "CCC likelihood", gen_ccc, 60)
def run_ccc(c):
    A = ENV.alg(c["mode"])
    x, y = layout(c["x"], c["layout"]), layout(c["y"], c["layout"])
    o = A.GARCHModel_CCC(x, y)
    r1, r2, s1, s2, rho = c["x"], c["y"], c["s1"], c["s2"], c["rho"]
    T = len(r1)
    want = biv_ll(r1, s1, r2, s2, [rho] * T)
    same("log-likelihood", o.loglikelihood(r1, s1, r2, s2, rho), want, rtol=1e-9, atol=1e-9)
    same("assets swapped", o.loglikelihood(r2, s2, r1, s1, rho), want, rtol=1e-9, atol=1e-9)
    same("no correlation", o.loglikelihood(r1, s1, r2, s2, 0.0), ref_ll(r1, s1) + ref_ll(r2, s2), rtol=1e-9, atol=1e-9)
    e1, e2 = r1 - c["mu"][0], r2 - c["mu"][1]
    v1 = ref_variance("garch", c["p1"], e1, ref_backcast(e1), ref_bounds(e1))
    v2 = ref_variance("garch", c["p2"], e2, ref_backcast(e2), ref_bounds(e2))
    p = np.array([c["mu"][0], *c["p1"], c["mu"][1], *c["p2"], rho])
    args = (A.GARCHModel.backcast(e1), A.GARCHModel.backcast(e2), A.GARCHModel.variance_bounds(e1), A.GARCHModel.variance_bounds(e2))
    want = -biv_ll(e1, v1, e2, v2, [rho] * T)
    same("objective", o.loglikelihood_model(p, *args), want, rtol=1e-8, atol=1e-8)
    q = np.array([c["mu"][1], *c["p2"], c["mu"][0], *c["p1"], rho])
    same("objective, assets swapped", A.GARCHModel_CCC(y, x).loglikelihood_model(q, args[1], args[0], args[3], args[2]), want, rtol=1e-8, atol=1e-8)
    need(np.array_equal(x, layout(c["x"], c["layout"])), "returns were modified")


def gen_ccc_fit(rng, i):
    T = rng.size([25, 40], 120)
    e = rng.standard_normal((2, T))
    f = lambda: [float(rng.standard_normal() * 0.2)] + draw_params(rng, "garch")
    return dict(x=series(rng, T, "garch") + e[0], y=series(rng, T, "garch") + rng.pick([-1, 1]) * e[0] + 0.3 * e[1], mode=MODES[i % 2], real=i % 6 == 0,
                xs=[f(), f(), f() + f() + [float(rng.uniform(-0.95, 0.95))]], fails=rng.chance(0.25))


class Joint:
    """Stand-in for the optimizer in the CCC fit: scripted end points for the margins and for the joint step."""

    def __init__(self, ends, fail_first):
        self.ends, self.fail, self.calls, self.k = ends, fail_first, [], 0

    def __call__(self, fun, x0, args=(), method=None, bounds=None, constraints=(), **kw):
        a = args if isinstance(args, tuple) else (args,)
        if len(x0) == 9:
            x = np.array(self.ends[2])
            ok = not self.fail or any(len(c["x"]) == 9 for c in self.calls)
        else:
            x, ok = np.array(self.ends[self.k % 2]), True
            self.k += 1
        f = fun(x.copy(), *a)
        fun(np.array(x0, dtype=float), *a)
        bs = [(b[0], b[1]) for b in bounds] if not hasattr(bounds, "lb") else list(zip(bounds.lb, bounds.ub))
        self.calls.append(dict(x=x, f=f, x0=np.array(x0, dtype=float), bounds=bs, cons=constraints))
        return scipy.optimize.OptimizeResult(x=x, fun=f, success=ok, message="", nit=1, status=0)


def run_ccc_fit(c):
    A = ENV.alg(c["mode"])
    mods = [ENV.mod("frds.algorithms._garch", c["mode"]), ENV.mod("frds.algorithms._mgarch", c["mode"])]
    s = None if c["real"] else Joint(c["xs"], c["fails"])
    x, y = np.array(c["x"]), np.array(c["y"])
    d = A.GARCHModel_CCC(x, y)

    def go():
        p = d.fit()
        return p if d.estimation_success else d.fit()
    p = scripted(mods, s, go)
    if not d.estimation_success or not d.model1.estimation_success or not d.model2.estimation_success:
        need(s is None, "the optimizer succeeded and the fit did not")
        raise Skip
    names = [f + k for k in "12" for f in NAMES["garch"]] + ["rho"]
    v = fields(p, names)
    if s:
        need(v == [float(q) for q in c["xs"][2]], f"parameters {v}, the optimum is {c['xs'][2]}")
        call = s.calls[-1]
        want = [getattr(m.parameters, f) for m in (d.model1, d.model2) for f in NAMES["garch"]]
        z1, z2 = [m.resids / np.sqrt(m.sigma2) for m in (d.model1, d.model2)]
        same("starting point", call["x0"], want + [float(np.corrcoef(z1, z2)[0, 1])], rtol=1e-9)
        for q in admissible("garch", None):
            for rho in (-0.985, 0.0, 0.985):
                why = excluded(call, q + [0.1, 0.5, 0.2, 0.6, rho]) or excluded(call, [0.1, 0.5, 0.2, 0.6] + q + [rho])
                need(why is None, f"the optimizer may not reach the admissible parameters {q} with correlation {rho}: excluded by {why}")
    else:
        need(all(v[i] >= 1e-6 * (1 - 1e-6) for i in (1, 5)) and all(-1e-6 <= v[i] <= 1 + 1e-6 for i in (2, 3, 6, 7)) and max(v[2] + v[3], v[6] + v[7]) <= 1 + 1e-5
             and -1 < v[8] < 1, f"parameters outside their region: {v}")
    e1, e2 = x - v[0], y - v[4]
    s1 = ref_variance("garch", v[1:4], e1, ref_backcast(e1), ref_bounds(e1))
    s2 = ref_variance("garch", v[5:8], e2, ref_backcast(e2), ref_bounds(e2))
    same("loglikelihood", p.loglikelihood, biv_ll(e1, s1, e2, s2, [v[8]] * len(x)), rtol=1e-7, atol=1e-7)
    before, k = fields(p, names + ["loglikelihood"]), len(s.calls) if s else 0
    q = scripted(mods, s, d.fit)
    need(fields(q, names + ["loglikelihood"]) == before and fields(d.parameters, names + ["loglikelihood"]) == before, "a second fit changed the parameters")
    need(not s or len(s.calls) == k, "a second fit estimated again")


check("C08", "CCC fit", gen_ccc_fit, 18, thorough=80)(run_ccc_fit)


# ---------------------------------------------------------------- C09 / C10
def ref_dcc(a, b, z1, z2):
    m1, m2 = math.fsum(z1) / len(z1), math.fsum(z2) / len(z2)
    c11 = math.fsum((v - m1) ** 2 for v in z1)
    c22 = math.fsum((v - m2) ** 2 for v in z2)
    c12 = math.fsum((u - m1) * (v - m2) for u, v in zip(z1, z2))
    q12b = c12 / math.sqrt(c11 * c22)
    q11, q22, q12 = 1.0, 1.0, q12b
    out = [q12]
    for t in range(1, len(z1)):
        q11 = (1 - a - b) + a * z1[t - 1] ** 2 + b * q11
        q22 = (1 - a - b) + a * z2[t - 1] ** 2 + b * q22
        q12 = (1 - a - b) * q12b + a * z1[t - 1] * z2[t - 1] + b * q12
        out.append(q12 / math.sqrt(q11 * q22))
    return np.array(out)


def gen_dcc(rng, i):
    T = rng.size([2, 3, 20, 80], 3000)
    e = rng.standard_normal((2, T))
    rho = float(rng.pick([0.0, 0.5, -0.7, 0.95, 0.9999]))
    x, y = e[0] * rng.uniform(0.5, 3), (rho * e[0] + math.sqrt(1 - rho ** 2) * e[1]) * rng.uniform(0.5, 3)
    if rng.chance(0.3):
        x[int(rng.integers(T))] += 25        # an outlier
    a, b = rng.pick([(0.05, 0.9), (0.0, 0.0), (1.0, 0.0), (0.5, 0.5), (0.0, 1.0), (0.3, 0.1), (0.02, 0.97), tuple(rng.dirichlet([1, 1, 1])[:2])])
    kind = ["garch", "gjr"][i % 2]
    k, k1, quiet = float(rng.pick([1.0, 1.0, 1.0, 1e-4, 1e3])), float(rng.pick([1.0, 1.0, 1.0, 1e-5])), float(rng.pick([1.0, 1.0, 1.0, 1e4]))    # units; the first asset calmer than its variances
    return dict(kind=kind, x=(x + 0.1) * k1, y=(y - 0.2) * k, s1=rng.uniform(0.2, 5, T) * quiet * k1 * k1, s2=rng.uniform(0.2, 5, T) * k * k, a=float(a), b=float(b), mu=[0.1 * k1, -0.2 * k], ll=[float(v) for v in rng.uniform(-200, 0, 2)],
                p1=draw_params(rng, kind), p2=draw_params(rng, kind), mode=MODES[(i // 2) % 2], models=rng.chance(0.6), slay=rng.pick(LAYOUTS[:3]))


def dcc_model(c):
    """A DCC model whose margins are fitted: states set by hand."""
    A = ENV.alg(c["mode"])
    M, D = getattr(A, CLS[c["kind"]]), getattr(A, CLS[c["kind"]] + "_DCC")
    ms = []
    for nm, s, mu, p, ll in (("x", "s1", c["mu"][0], c["p1"], c["ll"][0]), ("y", "s2", c["mu"][1], c["p2"], c["ll"][1])):
        ms.append(M(np.array(c[nm])))
    d = D(ms[0], ms[1]) if c["models"] else D(np.array(c["x"]), np.array(c["y"]))
    for m, s, mu, p, ll in ((d.model1, "s1", c["mu"][0], c["p1"], c["ll"][0]), (d.model2, "s2", c["mu"][1], c["p2"], c["ll"][1])):
        m.estimation_success = True
        m.parameters = M.Parameters(mu, *p, loglikelihood=ll)
        m.resids = layout(m.returns - mu, c.get("slay", "plain"))
        m.sigma2 = layout(np.array(c[s]), c.get("slay", "plain"))
    return d


@check("C09", "DCC correlations", gen_dcc, 120)
def run_dcc(c):
    d = dcc_model(c)
    z1, z2 = [(np.asarray(c[k]) - mu) / np.sqrt(np.asarray(c[s])) for k, s, mu in (("x", "s1", c["mu"][0]), ("y", "s2", c["mu"][1]))]
    if min(np.var(z) / (1 + np.mean(z) ** 2) for z in (z1, z2)) < 1e-6:
        raise Skip
    want = ref_dcc(c["a"], c["b"], z1, z2)
    got = d.conditional_correlations(c["a"], c["b"])
    same("conditional correlations", got, want, rtol=1e-7, atol=1e-9)
    need(np.all(np.abs(got) <= 1 + 1e-7), "a correlation outside [-1, 1]")
    same("again", d.conditional_correlations(c["a"], c["b"]), got, rtol=0, atol=0)


def dcc_total(c, z1, z2, a, b):
    r = np.clip(ref_dcc(a, b, z1, z2), -0.99, 0.99)
    return sum(c["ll"]) - 0.5 * math.fsum(math.log(1 - x * x) + (u * u + v * v - 2 * x * u * v) / (1 - x * x) - u * u - v * v for x, u, v in zip(r, z1, z2))


@check("C10", "DCC likelihood", gen_dcc, 60)
def run_dcc_like(c):
    d = dcc_model(c)
    z1, z2 = [(np.asarray(c[k]) - mu) / np.sqrt(np.asarray(c[s])) for k, s, mu in (("x", "s1", c["mu"][0]), ("y", "s2", c["mu"][1]))]
    if min(np.var(z1), np.var(z2)) < 1e-9:
        raise Skip
    for par in (np.array([c["a"], c["b"]]), [c["a"], c["b"]]):
        same("objective", d.loglikelihood_model(par), -dcc_total(c, z1, z2, c["a"], c["b"]), rtol=1e-7, atol=1e-7)
    # at fitted margins: the joint log-likelihood
    s1, s2 = np.asarray(c["s1"]), np.asarray(c["s2"])
    for m, s in ((d.model1, s1), (d.model2, s2)):
        m.parameters.loglikelihood = ref_ll(m.resids, s)
    r = np.clip(ref_dcc(c["a"], c["b"], z1, z2), -0.99, 0.99)
    same("minus the joint log-likelihood", d.loglikelihood_model([c["a"], c["b"]]), -biv_ll(d.model1.resids, s1, d.model2.resids, s2, r), rtol=1e-7, atol=1e-7)


@check("C10", "DCC starting values", gen_dcc, 8)
def run_dcc_start(c):
    d = dcc_model(c)
    z1, z2 = [(np.asarray(c[k]) - mu) / np.sqrt(np.asarray(c[s])) for k, s, mu in (("x", "s1", c["mu"][0]), ("y", "s2", c["mu"][1]))]
    if min(np.var(z1), np.var(z2)) < 1e-9 or len(z1) > 40:
        raise Skip
    a, b = map(float, d.starting_values())
    pts = [(x, y) for x in np.linspace(0.01, 0.5, 10) for y in np.linspace(0.6, 0.95, 10) if x + y < 1]
    need(any(abs(a - x) < 1e-12 and abs(b - y) < 1e-12 for x, y in pts), f"({a}, {b}) is not an admissible point of the grid")
    best = max(dcc_total(c, z1, z2, x, y) for x, y in pts)
    need(dcc_total(c, z1, z2, a, b) >= best - 1e-7 * (1 + abs(best)), "another admissible point of the grid has a higher log-likelihood")


def gen_dcc_fit(rng, i):
    T = rng.size([25, 40], 120)
    kind = ["garch", "gjr"][i % 2]
    e = rng.standard_normal((2, T))
    f = lambda: [float(rng.standard_normal() * 0.2)] + draw_params(rng, kind)
    return dict(kind=kind, x=series(rng, T, "garch") + e[0], y=series(rng, T, "garch") + e[0] + 0.3 * e[1], mode=MODES[(i // 2) % 2], m1=rng.chance(0.5), m2=rng.chance(0.5), prefit=rng.chance(0.4),
                zero=rng.chance(0.2), real=i % 4 == 0, xs=[f(), f(), [float(v) for v in rng.uniform(0.05, 0.45, 2)]], fails=rng.chance(0.25))


class Sequence:
    """Stand-in for the optimizer in a two-step fit: one scripted end point per number of parameters."""

    def __init__(self, mods, ends, fail_first):
        self.ends, self.fail, self.calls, self.k = ends, fail_first, [], 0

    def __call__(self, fun, x0, args=(), method=None, bounds=None, constraints=(), **kw):
        n = len(x0)
        a = args if isinstance(args, tuple) else (args,)
        if n == 2:
            x = np.array(self.ends[2])
            ok = not (self.fail and not any(len(c["x"]) == 2 for c in self.calls))
        else:
            x, ok = np.array(self.ends[self.k % 2][-n:]), True
            self.k += 1
        f = fun(x.copy(), *a)
        fun(np.array(x0, dtype=float), *a)
        bs = [(b[0], b[1]) for b in bounds] if not hasattr(bounds, "lb") else list(zip(bounds.lb, bounds.ub))
        self.calls.append(dict(x=x, f=f, x0=np.array(x0), bounds=bs, cons=constraints))
        return scipy.optimize.OptimizeResult(x=x, fun=f, success=ok, message="", nit=1, status=0)


def run_dcc_fit(c):
    A = ENV.alg(c["mode"])
    M, D = getattr(A, CLS[c["kind"]]), getattr(A, CLS[c["kind"]] + "_DCC")
    mods = [ENV.mod("frds.algorithms._garch", c["mode"]), ENV.mod("frds.algorithms._mgarch", c["mode"])]
    s = None if c["real"] else Sequence(mods, c["xs"], c["fails"])
    x, y = np.array(c["x"]), np.array(c["y"])
    m1 = M(x, zero_mean=c["zero"]) if c["m1"] else x
    m2 = M(y) if c["m2"] else y

    def go():
        if c["prefit"]:
            for m in (m1, m2):
                if not isinstance(m, np.ndarray):
                    m.fit()
        d = D(m1, m2)
        p = d.fit()
        if not d.estimation_success:
            p = d.fit()
        return d, p
    d, p = scripted(mods, s, go)
    if not d.estimation_success or not d.model1.estimation_success or not d.model2.estimation_success:
        raise Skip
    nm = NAMES[c["kind"]]
    for k, m in (("1", d.model1), ("2", d.model2)):
        for f in nm:
            need(getattr(p, f + k) == getattr(m.parameters, f), f"{f}{k} is {getattr(p, f + k)!r}, the margin's {f} is {getattr(m.parameters, f)!r}")
    need(np.array_equal(d.model1.returns, x) and np.array_equal(d.model2.returns, y), "margins of other returns")
    tol = 1e-6
    need(-tol <= p.a <= 1 + tol and -tol <= p.b <= 1 + tol, f"a = {p.a}, b = {p.b}")
    if c["real"]:
        need(p.a + p.b <= 1 + 1e-5, "a + b above one")
    z1, z2 = [m.resids / np.sqrt(m.sigma2) for m in (d.model1, d.model2)]
    cc = dict(ll=[d.model1.parameters.loglikelihood, d.model2.parameters.loglikelihood])
    same("loglikelihood", p.loglikelihood, dcc_total(cc, z1, z2, p.a, p.b), rtol=1e-7, atol=1e-7)
    if s:
        need([p.a, p.b] == list(c["xs"][2]), f"(a, b) = {(p.a, p.b)}, the optimum is {c['xs'][2]}")
        call = s.calls[-1]
        same("starting point", call["x0"], [float(v) for v in d.starting_values()], rtol=1e-12)
        for q in ([1e-6, 1 - 2e-6], [1 - 2e-6, 1e-6], [1e-6, 1e-6], [0.5, 0.499999], [0.03, 0.965]):
            why = excluded(call, q)
            need(why is None, f"the optimizer may not reach the admissible (a, b) = {q}: excluded by {why}")
    all_f = [f + k for k in "12" for f in nm] + ["a", "b", "loglikelihood"]
    before = fields(p, all_f)
    k = len(s.calls) if s else 0
    q = scripted(mods, s, d.fit)
    need(fields(q, all_f) == before and fields(d.parameters, all_f) == before, "a second fit changed the parameters")
    need(not s or len(s.calls) == k, "a second fit estimated again")


check("C10", "DCC fit", gen_dcc_fit, 16, thorough=80)(run_dcc_fit)
