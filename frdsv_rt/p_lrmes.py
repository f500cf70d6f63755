"""C11, C12: long-run marginal expected shortfall, executable form."""
import math
import numpy as np
from .harness import ENV, check, same, need, layout, Violation, Skip
from .p_garch import MODES
from .p_fits import draw_params, ref_dcc

LRMES = "LongRunMarginalExpectedShortfall"


def ref_path(innov, C, firm_var, mkt_var, firm_resid, mkt_resid, a, b, rho, q_im_bar, mi, mm):
    qi = qm = 1.0
    q = rho
    si, sm, ri, rm = firm_var, mkt_var, firm_resid, mkt_resid
    zi, zm = ri / math.sqrt(si), rm / math.sqrt(sm)
    fi, fm = [], []
    for e_i, e_m in innov:
        v = []
        for (mu, om, al, ga, be), r, s in ((mi, ri, si), (mm, rm, sm)):
            v.append(om + al * r * r + (ga * r * r if r < 0 else 0.0) + be * s)
        si, sm = v
        if not (si > 0 and sm > 0):
            raise Skip
        qi, qm, q = (1 - a - b) + a * zi * zi + b * qi, (1 - a - b) + a * zm * zm + b * qm, (1 - a - b) * q_im_bar + a * zi * zm + b * q
        r = q / math.sqrt(qi * qm)
        if not abs(r) < 1 - 1e-6:
            raise Skip
        zm = e_m
        zi = r * e_m + math.sqrt(1 - r * r) * e_i
        ri, rm = math.sqrt(si) * zi, math.sqrt(sm) * zm
        fi.append(mi[0] + ri)
        fm.append(mm[0] + rm)
        if max(si, sm) > 1e8:
            raise Skip
    if max(math.fsum(fi), math.fsum(fm)) > 5e4:
        raise Skip
    market = math.exp(math.fsum(fm) / 100) - 1
    if abs(market - C) < 1e-9:
        raise Skip
    return (math.exp(math.fsum(fi) / 100) - 1, True) if market < C else (0.0, False)


def state(rng):
    a, b = rng.pick([(0.05, 0.9), (0.0, 0.0), (0.3, 0.1), (0.02, 0.97), (0.4, 0.5), tuple(rng.dirichlet([1, 1, 1])[:2])])
    d = dict(a=float(a), b=float(b), rho=float(rng.uniform(-0.95, 0.95)), qbar=float(rng.uniform(-0.95, 0.95)),
             fv=float(rng.uniform(0.1, 8)), mv=float(rng.uniform(0.1, 8)), fr=float(rng.standard_normal() * 2), mr=float(rng.standard_normal() * 2),
             mi=[float(rng.standard_normal() * 0.1)] + draw_params(rng, "gjr"), mm=[float(rng.standard_normal() * 0.1)] + draw_params(rng, "gjr"))
    # quiet and wild assets, strong correlations, a last day without a surprise
    for v, r, p in (("fv", "fr", "mi"), ("mv", "mr", "mm")):
        s = rng.pick([1.0, 1.0, 1.0, 1e-3, 1e-2, 30.0])
        d[v] *= s
        d[r] *= rng.pick([1.0, 1.0, 1.0, 0.0]) * s ** 0.5
        d[p][1] *= s
    if rng.pick([True, False, False, False]):
        d["rho"], d["qbar"] = (float(rng.pick([-1.0, 1.0]) * rng.uniform(0.97, 0.9995)) for _ in range(2))
    return d


def gen_path(rng, i):
    h = rng.size([1, 1, 2, 3, 10, 22, 60], 1500)
    d = state(rng)
    d.update(innov=rng.standard_normal((h, 2)) * rng.pick([1.0, 2.0]), C=float(rng.pick([-0.1, -0.02, 0.0, 0.03, 0.5, -0.3])), mode=MODES[i % 2], layout=rng.pick(["plain", "column", "reversed", "fortran"]))
    return d


def model(c):
    m = getattr(ENV.meas(c["mode"]), LRMES)
    g = np.random.default_rng(3)
    x = g.standard_normal((2, 30)) * 0.01 if "firm" not in c else (np.array(c["firm"]), np.array(c["market"]))
    o = m(x[0], x[1])
    for k, p in ((o.firm_model, c["mi"]), (o.market_model, c["mm"])):
        k.parameters = type(k).Parameters(*p, loglikelihood=-1.0)
    return o


@check("C11", "simulated path", gen_path, 300)
def run_path(c):
    iv = np.array(c["innov"])
    want = ref_path(iv.tolist(), c["C"], c["fv"], c["mv"], c["fr"], c["mr"], c["a"], c["b"], c["rho"], c["qbar"], c["mi"], c["mm"])
    x = layout(iv, c["layout"])
    x0 = x.copy()
    Q = np.array([[1.0, c["qbar"]], [c["qbar"], 1.0]])
    args = [x, c["C"], c["fv"], c["mv"], c["fr"], c["mr"], c["a"], c["b"], c["rho"], Q]
    if c["mode"] == "ext":
        got = ENV.mod("frds.measures.measures_ext", "ext").simulation(*args, *c["mi"], *c["mm"])
    else:
        got = model(c).simulation(*args)
    need(len(got) == 2, "not two results")
    need(bool(got[1]) == want[1], f"systemic event reported {bool(got[1])}, expected {want[1]}")
    same("firm return", got[0], want[0], rtol=1e-7, atol=1e-9)
    need(np.array_equal(x, x0), "innovations were modified")


# ---------------------------------------------------------------- C12
def gen_estimate(rng, i):
    n = rng.size([3, 12, 60, 150], 2500)
    e = rng.standard_normal((2, n))
    r = float(rng.pick([0.6, -0.5, 0.0, 0.9]))
    if rng.chance(0.25):                                     # a day of panic
        e[int(rng.integers(2)), int(rng.integers(n))] = float(rng.pick([-1.0, 1.0]) * rng.uniform(9, 14))
    d = state(rng)
    d.update(firm=0.015 * (r * e[1] + math.sqrt(1 - r * r) * e[0]) + 0.001, market=0.01 * e[1], s1=rng.uniform(0.5, 4, n), s2=rng.uniform(0.5, 4, n),
             h=rng.size([1, 2, 5, 22], 400), S=rng.size([1, 2, 7, 60, 200], 2500, 0.1), C=float(rng.pick([-0.1, -0.03, 0.0, 0.02, 0.5, -0.9])), seed=int(rng.integers(1000)), mode=MODES[i % 2],
             corr=float(rng.uniform(-0.9, 0.9)), other=rng.pick([None, "h", "S", "C", "random_seed"]))
    return d


def prepared(c):
    """The measure with its estimation replaced by given values."""
    o = model(c)
    d = o.dcc_model

    def fit(*a, **k):
        for m, s, mu in ((o.firm_model, c["s1"], c["mi"]), (o.market_model, c["s2"], c["mm"])):
            m.resids, m.sigma2 = np.asarray(m.returns) - mu[0], np.array(s)
            m.parameters = type(m).Parameters(*mu, loglikelihood=-1.0)
            m.estimation_success = True
        d.estimation_success = True
        d.parameters = type(d).Parameters(a=c["a"], b=c["b"], loglikelihood=-1.0)
        return d.parameters
    d.fit = fit
    return o


def ref_estimate(c):
    r1, r2 = [100 * np.log(1 + np.asarray(c[k])) - m[0] for k, m in (("firm", c["mi"]), ("market", c["mm"]))]
    s1, s2 = np.asarray(c["s1"]), np.asarray(c["s2"])
    z1, z2 = r1 / np.sqrt(s1), r2 / np.sqrt(s2)
    rho = ref_dcc(c["a"], c["b"], z1, z2)
    if not np.all(np.abs(rho) < 1 - 1e-6):
        raise Skip
    xi = (z1 - rho * z2) / np.sqrt(1 - rho ** 2)
    qbar = float(np.corrcoef(z1, z2)[0, 1])
    g = np.random.default_rng(c["seed"])
    tot, n = [], 0
    for _ in range(c["S"]):
        ix = g.choice(len(xi), size=c["h"], replace=True)
        v, ev = ref_path(list(zip(xi[ix].tolist(), z2[ix].tolist())), c["C"], s1[-1], s2[-1], r1[-1], r2[-1], c["a"], c["b"], rho[-1], qbar, c["mi"], c["mm"])
        tot.append(v)
        n += ev
    return -math.fsum(tot) / n if n else 0.0


@check("C12", "estimate from given estimates", gen_estimate, 60)
def run_estimate(c):
    want = ref_estimate(c)
    f0, m0 = np.array(c["firm"]), np.array(c["market"])
    np.random.seed(5)
    before = np.random.get_state()[1].copy()
    o = prepared(c)
    f, m = np.array(c["firm"]), np.array(c["market"])
    got = o.estimate(h=c["h"], S=c["S"], C=c["C"], random_seed=c["seed"])
    same("LRMES", got, want, rtol=1e-6, atol=1e-9)
    need(got <= 1, f"LRMES {got!r} is not below 1")
    same("LRMES, once more on the same object", o.estimate(h=c["h"], S=c["S"], C=c["C"], random_seed=c["seed"]), got, rtol=0, atol=0)
    if c["other"] and c["h"] * c["S"] < 20000:
        kw = dict(h=c["h"], S=c["S"], C=c["C"], random_seed=c["seed"])
        kw[c["other"]] = {"h": c["h"] + 1, "S": c["S"] + 3, "C": c["C"] + 0.02, "random_seed": c["seed"] + 1}[c["other"]]
        same(f"LRMES with another {c['other']} on the same object", o.estimate(**kw), prepared(c).estimate(**kw), rtol=0, atol=0)
    same("LRMES, positional arguments", prepared(c).estimate(c["h"], c["S"], c["C"], c["seed"]), got, rtol=0, atol=0)
    need(np.array_equal(before, np.random.get_state()[1]), "the global random state was changed")
    need(np.array_equal(f, f0) and np.array_equal(m, m0), "returns were modified")


def gen_whole(rng, i):
    n = int(rng.pick([120, 200]))
    e = rng.standard_normal((2, n))
    return dict(firm=0.02 * (0.6 * e[1] + 0.8 * e[0]), market=0.01 * e[1], h=3, S=50, C=-0.01, seed=int(rng.integers(100)), mode="ext")


@check("C12", "estimate with its own estimation", gen_whole, 2, thorough=12)
def run_whole(c):
    M = getattr(ENV.meas(c["mode"]), LRMES)
    kw = dict(h=c["h"], S=c["S"], C=c["C"], random_seed=c["seed"])
    o = M(np.array(c["firm"]), np.array(c["market"]))
    try:
        got = o.estimate(**kw)
    except RuntimeError:
        raise Skip
    d = dict(c)
    for k, m, s in (("mi", o.firm_model, "s1"), ("mm", o.market_model, "s2")):
        p = m.parameters
        d[k] = [p.mu, p.omega, p.alpha, p.gamma, p.beta]
        d[s] = m.sigma2
    d["a"], d["b"] = o.dcc_model.parameters.a, o.dcc_model.parameters.b
    same("LRMES from the estimated models", got, ref_estimate(d), rtol=1e-5, atol=1e-8)
    same("LRMES of a new object with the same data", M(np.array(c["firm"]), np.array(c["market"])).estimate(**kw), got, rtol=0, atol=0)
