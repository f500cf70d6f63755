"""C29: nothing the caller passed is written to, the global random state is neither read nor changed, a second call returns the same."""
import copy
import dataclasses
import math
import numpy as np
from .harness import ENV, check, need, layout, Violation, Skip
from .p_micro import form, FORMS
from .p_garch import series, ref_bounds
from .p_fits import draw_params, gen_dcc, dcc_model
from .p_lrmes import gen_path, gen_estimate, prepared, model

CASES = {}


def case(*names):
    def deco(f):
        for n in names:
            CASES[n] = f
        return f
    return deco


def leaves(x):
    """The numbers of a result, in order."""
    if x is None or isinstance(x, (str, bool)):
        return [x]
    if hasattr(x, "to_numpy") and hasattr(x, "index"):
        return [str(list(x.index)), x.to_numpy()]
    if dataclasses.is_dataclass(x):
        return [v for f in dataclasses.fields(x) for v in leaves(getattr(x, f.name))]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in leaves(y)]
    return [np.asarray(x)]


def identical(a, b):
    if hasattr(a, "equals") and hasattr(b, "equals"):
        return a.equals(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and any(hasattr(x, "equals") for x in a):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    a, b = leaves(a), leaves(b)
    return len(a) == len(b) and all((x is y or x == y) if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray) else
                                    x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(a, b))


def arrays(fm):
    return fm if fm in ("array", "strided", "readonly") else "array"


def vecs(rng, n, *scales):
    return [rng.standard_normal(n) * s for s in scales]


# each case: rng, how arguments are passed, mode -> (arguments owned by the caller, call)
@case("MarginalExpectedShortfall")
def _(rng, fm, mode, nm):
    f, m = [form(x, arrays(fm)) for x in vecs(rng, 60, 0.02, 0.02)]
    o = ENV.meas(mode).MarginalExpectedShortfall(f, m)
    return (f, m), lambda: (o.estimate(), o.estimate(0.3))


@case("SystemicExpectedShortfall")
def _(rng, fm, mode, nm):
    a = [form(x, arrays(fm)) for x in (rng.standard_normal(12), rng.uniform(1, 20, 12), rng.standard_normal(12))]
    o = ENV.meas(mode).SystemicExpectedShortfall(*a, 0.3, 4.0)
    return a, lambda: o.estimate()


@case("AbsorptionRatio")
def _(rng, fm, mode, nm):
    x = layout(rng.standard_normal((6, 30)), "plain" if fm in ("list", "series") else fm)
    o = ENV.meas(mode).AbsorptionRatio(x)
    return (x,), lambda: (o.estimate(), o.estimate(0.7))


@case("DistressInsurancePremium")
def _(rng, fm, mode, nm):
    n = 4
    p = form(rng.uniform(0.05, 0.4, n), fm if fm not in ("list", "series") else "array")
    r = np.full((n, n), 0.3) + 0.7 * np.eye(n)
    r = layout(r, "readonly" if fm == "readonly" else "plain")
    o = ENV.meas(mode).DistressInsurancePremium(p, r)
    kw = dict(default_threshold=0.2, random_seed=int(rng.integers(99)), n_simulated_returns=200, n_simulations=500)
    return (p, r), lambda: o.estimate(**kw)


@case("ContingentClaimAnalysis")
def _(rng, fm, mode, nm):
    o = ENV.meas(mode).ContingentClaimAnalysis()
    return (), lambda: o.estimate(5.0, 0.6, 10.0, 0.02, 5, 1.5)


@case("blsprice")
def _(rng, fm, mode, nm):
    a = [form(rng.uniform(5, 15, 7), arrays(fm)) for _ in "SK"]
    f = ENV.meas(mode).blsprice
    return a, lambda: (f(*a, 0.02, 2.0, 0.3), f(a[0], 10.0, 0.02, 2.0, 0.3, 0.01))


@case("kyle_lambda", "z_score")
def _(rng, fm, mode, nm):
    if nm == "z_score":
        x = form(rng.standard_normal(8), fm)
        f = ENV.mod("frds.measures._z_score", mode).z_score
        return (x,), lambda: f(0.2, 0.1, x)
    r, v = [layout(rng.standard_normal(20) * s, "plain" if fm in ("list", "series") else fm) for s in (1, 1000)]
    f = ENV.mod("frds.measures._kyle_lambda", mode).kyle_lambda
    return (r, v), lambda: f(r, v)


@case("quoted_spread", "effective_spread", "realized_spread", "simple_price_impact")
def _(rng, fm, mode, nm):
    n = 25
    mid = 30 + rng.standard_normal(n)
    side = 2 * rng.integers(0, 2, n) - 1
    price, later, vol = mid + rng.standard_normal(n), mid + rng.standard_normal(n), rng.integers(1, 9, n) * 100
    if nm == "quoted_spread":
        a = [form(mid - 0.1, fm), form(mid + 0.1, fm)]
        f = ENV.mod("frds.measures.spread", mode).quoted_spread
        return a, lambda: (f(*a), f(*a, pct_spread=False))
    if nm == "effective_spread":
        a = [form(x, fm) for x in (price, mid, vol, side)]
        f = ENV.mod("frds.measures.spread", mode).effective_spread
        return a, lambda: (f(*a), f(*a, pct_spread=False))
    g = ENV.mod("frds.measures.spread", mode).realized_spread if nm == "realized_spread" else ENV.mod("frds.measures.price_impact", mode).simple_price_impact
    a = [form(x, fm) for x in (price, later, mid, vol, side)]
    return a, lambda: (g(*a), g(*a, pct_spread=False))


@case("DGGW_ask_slope", "DGGW_bid_slope", "DGGW_ask_side_slope_difference", "DGGW_bid_side_slope_difference", "DGGW_scaled_depth_difference")
def _(rng, fm, mode, nm):
    import inspect
    n = 20
    bid = 100 - np.sort(rng.random((n, 5)), axis=1) - 0.1
    ask = 100 + np.sort(rng.random((n, 5)), axis=1) + 0.1
    bs, as_ = rng.integers(1, 50, (2, n, 5))
    f = getattr(ENV.mod("frds.measures.lob_slope", mode), nm)
    vals = dict(bid_price=bid, ask_price=ask, bid_size=bs, ask_size=as_)
    lay = "readonly" if fm == "readonly" else "fortran" if fm == "strided" else "plain"
    args = {}
    for k in inspect.signature(f).parameters:
        if k not in vals:
            v = dict(mid_point=(bid[:, 0] + ask[:, 0]) / 2, ask_price_highest_level=ask[:, 4], bid_price_highest_level=bid[:, 4]).get(k)
            if v is None:
                raise Skip
            args[k] = v.copy()
        else:
            x = vals[k].copy(order="F" if lay == "fortran" else "C")
            x.flags.writeable = lay != "readonly"
            args[k] = x
    return tuple(args.values()), lambda: f(**args)


@case("PIN.loglikelihood_EHO2010", "PIN.loglikelihood_LK2011", "PIN.estimate")
def _(rng, fm, mode, nm):
    n = 20
    b, s = rng.poisson(20, n), rng.poisson(25, n)
    B, S = [form(x, arrays(fm)) for x in (b, s)]
    o = ENV.meas(mode).PIN(B, S)
    x = np.array([0.3, 0.4, 20.0, 18.0, 22.0]) * rng.uniform(0.8, 1.2, 5)
    if fm == "readonly":
        x.flags.writeable = False
    if nm == "PIN.estimate":
        m = str(rng.pick(["EHO2010", "LK2011"]))
        g = o.init_params_grid_search
        first = []

        def few():
            import itertools
            return itertools.islice(g(), 60, 64)
        o.init_params_grid_search = few
        return (B, S), lambda: o.estimate(m)
    return (B, S, x), lambda: getattr(o, nm[4:])(x)


@case("SRISK")
def _(rng, fm, mode, nm):
    mod = ENV.mod("frds.measures._srisk", mode)
    single = rng.chance(0.4)
    n, k = 30, 3
    f = rng.standard_normal(n) * 0.02 if single else rng.standard_normal((n, k)) * 0.02
    m = rng.standard_normal(n) * 0.02
    E, D = (10.0, 50.0) if single else (rng.uniform(1, 9, k), rng.uniform(9, 90, k))
    if fm == "readonly":
        for x in (f, m, E, D):
            if not isinstance(x, float):
                x.flags.writeable = False

    class Fake:                                # a stand-in for the estimated LRMES
        def __init__(self, a, b):
            self.v = float(np.clip(np.sum(np.asarray(a) * np.asarray(b)) * 100, -0.5, 0.8))

        def estimate(self, *a, **k):
            return self.v
    o = mod.SRISK(f, m, E, D)

    def call():
        old = mod.LongRunMarginalExpectedShortfall
        mod.LongRunMarginalExpectedShortfall = Fake
        try:
            return o.estimate(aggregate_srisk=True), o.estimate(k=0.1), o.estimate(aggregate_srisk=True)
        finally:
            mod.LongRunMarginalExpectedShortfall = old
    return tuple(x for x in (f, m, E, D) if not isinstance(x, float)), call


@case("GARCHModel", "GJRGARCHModel")
def _(rng, fm, mode, nm):
    A = getattr(ENV.alg(mode), nm)
    n = rng.size([20, 80, 120], 400)
    r = form(series(rng, n, "garch"), arrays(fm))
    vb = ref_bounds(r)
    p = draw_params(rng, "garch" if nm == "GARCHModel" else "gjr")
    x = np.array([0.01] + p)
    if fm == "readonly":
        vb.flags.writeable = x.flags.writeable = False
    s2 = np.abs(rng.standard_normal(n)) + 0.1
    o = A(r)

    def call():
        v = [A.compute_variance(p, r, 1.2, vb), A.variance_bounds(r), A.backcast(r), A.ewma(r, 1.0), A.bounds_check(2.0, vb[0]), A.loglikelihood(r, s2),
             A(r).preparation()]
        v.append(o.loglikelihood_model(x, 1.2, vb))
        v.append(np.array(o.returns))
        return v
    return (r, vb, x, s2, p), call


@case("GARCHModel.fit", "GJRGARCHModel.fit")
def _(rng, fm, mode, nm):
    A = getattr(ENV.alg("ext"), nm[:-4])
    r = form(series(rng, 150, "garch"), arrays(fm))
    o = A(r)

    def call():
        q = A(r)
        return o.fit(), q.fit(), np.array(q.sigma2)
    return (r,), call


@case("GARCHModel_CCC.fit", "GARCHModel_DCC.fit", "GJRGARCHModel_DCC.fit")
def _(rng, fm, mode, nm):
    A = getattr(ENV.alg("ext"), nm[:-4])
    e = rng.standard_normal((2, 120))
    x, y = e[0], 0.5 * e[0] + e[1]
    x, y = [form(v, arrays(fm)) for v in (x, y)]
    o = A(x, y)

    def call():
        p = o.fit()
        return [getattr(p, f.name) for f in dataclasses.fields(p)] if dataclasses.is_dataclass(p) else p
    return (x, y), call


@case("DCC.conditional_correlations")
def _(rng, fm, mode, nm):
    c = dict(gen_dcc(rng, int(rng.integers(8))), mode=mode)
    d = dcc_model(c)
    a = [d.model1.resids, d.model2.resids, d.model1.sigma2, d.model2.sigma2]
    x = np.array([c["a"], c["b"]])
    return a + [x], lambda: (d.conditional_correlations(c["a"], c["b"]), d.loglikelihood_model(x) if c["a"] + c["b"] < 1 and len(c["x"]) > 3 else 0)


@case("LRMES.simulation")
def _(rng, fm, mode, nm):
    c = dict(gen_path(rng, 1), mode=mode)
    iv = layout(np.array(c["innov"]), "readonly" if fm == "readonly" else "fortran" if fm == "strided" else "plain")
    Q = np.array([[1.0, c["qbar"]], [c["qbar"], 1.0]])
    args = [iv, c["C"], c["fv"], c["mv"], c["fr"], c["mr"], c["a"], c["b"], c["rho"], Q]
    if mode == "ext":
        f = ENV.mod("frds.measures.measures_ext", "ext").simulation
        return (iv, Q), lambda: f(*args, *c["mi"], *c["mm"])
    o = model(c)
    return (iv, Q), lambda: o.simulation(*args)


@case("LRMES.estimate")
def _(rng, fm, mode, nm):
    c = dict(gen_estimate(rng, 1), mode=mode)
    o = prepared(c)
    fr, mr = c["firm"], c["market"]
    return (fr, mr), lambda: o.estimate(h=c["h"], S=min(c["S"], 60), C=c["C"], random_seed=c["seed"])


@case("LRMES (estimated)", "SRISK (estimated)")
def _(rng, fm, mode, nm):
    e = rng.standard_normal((2, 120))
    f, m = 0.02 * (0.6 * e[1] + 0.8 * e[0]), 0.01 * e[1]
    if fm == "readonly":
        f.flags.writeable = m.flags.writeable = False
    if nm.startswith("LRMES"):
        o = ENV.meas("ext").LongRunMarginalExpectedShortfall(f, m)
        return (f, m), lambda: o.estimate(h=3, S=40, C=-0.01)
    o = ENV.meas("ext").SRISK(f, m, 10.0, 90.0)
    return (f, m), lambda: o.estimate(0.08, 3, 40, -0.01, 5)


@case("anomaly_scores")
def _(rng, fm, mode, nm):
    import pandas as pd
    n = 40
    d = pd.DataFrame({"x": rng.standard_normal(n), "s": list(rng.choice(["a", "bb", "ccc"], n)), "y": rng.standard_normal(n), "z": rng.integers(0, 9, n)})
    d.loc[3, "x"] = np.nan
    ex = ["z"]
    f = ENV.mod("frds.algorithms.isolation_forest", mode).anomaly_scores
    seed = int(rng.integers(1, 999))
    return (d, ex), lambda: f(d, forest_size=20, tree_size=16, exclude_cols=ex, random_seed=seed)


@case("loan_payoff", "find_face_value_indiv", "merton_solution", "fftsmooth")
def _(rng, fm, mode, nm):
    f = getattr(ENV.mod("frds.measures.modified_merton." + nm, mode), nm)
    fm = arrays(fm)
    if nm == "loan_payoff":
        F, x = form(rng.uniform(0.5, 2, 9), fm), form(rng.standard_normal(9), fm)
        return (F, x), lambda: (f(F, x, 0.1, 0.5, 0.2, 10), f(0.8, x, 0.1, 0.5, 0.2, 10))
    if nm == "find_face_value_indiv":
        return (), lambda: f(0.02, 0.8, 0.1, 0.2, 10, 0.01, 0.005)
    if nm == "merton_solution":
        x = form(rng.uniform(0.2, 1, 2), fm)
        y = [-0.3, 0.2] if rng.chance(0.5) else [0.4, -0.1]
        return (x, y), lambda: (f(x, 0.02, 0.7, 0.01, 0.002, 5.0, 0.6), f(y, 0.02, 0.7, 0.01, 0.002, 5.0, 0.6))
    x = form(rng.standard_normal(40), fm)
    return (x,), lambda: f(x, 4)


@case("mod_merton_computation", "mod_single_cohort_computation", "mod_single_cohort_solution", "mod_merton_create_lookup", "mod_single_merton_create_lookup")
def _(rng, fm, mode, nm):
    f = getattr(ENV.mod("frds.measures.modified_merton." + nm, mode), nm)
    N, S = 10, 20
    fs = np.array([-0.5, 0.0]) if fm != "strided" else np.array([-0.5, 9.0, 0.0, 9.0])[::2]
    p = [0.01, 10, 0.66, 5, 0.63, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
    w = None if rng.chance(0.4) else rng.standard_normal((S, 3 * N))
    if rng.chance(0.3):
        p = np.array(p)
        p.flags.writeable = fm != "readonly"
        raise_ = lambda: None
    if fm == "readonly":
        fs.flags.writeable = False
        if w is not None:
            w.flags.writeable = False
    if "solution" in nm:
        b = [fs, 0.7]
        return (b[0], p), lambda: f(b, p, N, S, 0.05, 0.3)
    if "lookup" in nm:
        x = [np.full((2, 1, 1, 1), v) for v in (0.0, 0.01, 0.66, 0.2)]
        x[0][:, 0, 0, 0] = fs
        if fm == "readonly":
            for v in x:
                v.flags.writeable = False
        return x, lambda: f(0.005, 0.002, 10, 5, 0.63, 0.5, 0.66, *x, N, S)
    return tuple(v for v in (fs, p, w) if v is not None), lambda: f(fs, p, N, S, w)


SLOW = ("fit", "estimated", "PIN.estimate", "lookup")


def gen_frame(slow):
    names = sorted(n for n in CASES if any(s in n for s in SLOW) == slow)

    def gen(rng, i):
        return dict(fn=names[i % len(names)], seed=int(rng.integers(1 << 30)), form=FORMS[(i // len(names)) % len(FORMS)] if not slow else str(rng.pick(FORMS)), mode=["ext", "pure"][int(rng.integers(2))])
    return gen, len(names)


def run_frame(c):
    from .harness import Rng
    rng = Rng(np.random.PCG64(c["seed"]))
    np.random.seed(11)
    state = np.random.get_state()[1].copy()
    args, call = CASES[c["fn"]](rng, c["form"], c["mode"], c["fn"])
    before = copy.deepcopy(args)
    try:
        first = copy.deepcopy(call())
    except (AssertionError, RuntimeError) as e:
        raise Skip
    need(np.array_equal(state, np.random.get_state()[1]), f"{c['fn']}: numpy's global random state was changed")
    for i, (b, a) in enumerate(zip(before, args)):
        need(identical(b, a) and type(a) is type(b), f"{c['fn']}: argument {i} was modified")
    np.random.seed(12)
    second = call()
    need(identical(first, second), f"{c['fn']}: a second call returned another result")
    for i, (b, a) in enumerate(zip(before, args)):
        need(identical(b, a), f"{c['fn']}: argument {i} was modified by the second call")


g, n = gen_frame(False)
check("C29", "frames and repeated calls", g, n * 5, thorough=n * 40)(run_frame)
g, n = gen_frame(True)
check("C29", "frames and repeated calls, estimations", g, n, thorough=n * 6)(run_frame)
