"""C27, C28: executable form of the contracts of the modified Merton model."""
import math
import numpy as np
from .harness import ENV, check, same, need, layout, Violation, Skip, dictionary, narrow
from .p_measures import cdf, unchanged
from .p_micro import form, FORMS

MM = "frds.measures.modified_merton."


def get(nm):
    return getattr(ENV.mod(MM + nm), nm)


# ---------------------------------------------------------------- C27
def ref_bs(S, K, r, T, sg, q):
    d1 = (math.log(S / K) + (r - q + sg * sg / 2) * T) / (sg * math.sqrt(T))
    d2 = d1 - sg * math.sqrt(T)
    return (S * math.exp(-q * T) * cdf(d1) - K * math.exp(-r * T) * cdf(d2),
            K * math.exp(-r * T) * cdf(-d2) - S * math.exp(-q * T) * cdf(-d1), d1)


def expected_payoff(F, m, s):
    """E[min(exp(m + s Z), F)] by quadrature on either side of the kink."""
    a = (math.log(F) - m) / s
    z = np.linspace(-12 + min(a, 0) * 0, min(max(a, -12), 12 + s), 8001)
    mid, w = (z[1:] + z[:-1]) / 2, np.diff(z)
    below = float(np.sum(w * np.exp(m + s * mid - mid * mid / 2))) / math.sqrt(2 * math.pi)
    return below + F * cdf(-a)


def gen_loan(rng, i):
    n = int(rng.integers(1, 6))
    return dict(F=np.exp(rng.standard_normal(n) * rng.pick([0.1, 1.0, 2.0, 9.0])), f=rng.standard_normal(n) * rng.pick([0.05, 0.5, 2.0]), ival=float(rng.standard_normal() * 0.5),
                rho=float(rng.pick([0.0, 0.3, 0.5, 0.9, 0.99, 0.9999, rng.random() * 0.999])), sig=float(rng.pick([0.01, 0.1, 0.2, 0.6, 1.5])),
                T=float(rng.pick([0.25, 1, 5, 10, 30])), how=rng.pick(["scalar", "vector", "face", "block", "ival"]))


@check("C27", "loan_payoff", gen_loan, 120)
def run_loan(c):
    f_ = get("loan_payoff")
    F, f, iv, rho, sig, T, how = c["F"], c["f"], c["ival"], c["rho"], c["sig"], c["T"], c["how"]
    s = sig * math.sqrt(T * (1 - rho))
    n = len(f)
    ivs = np.full(n, iv)
    if how == "scalar":
        got = [f_(float(a), float(b), iv, rho, sig, T) for a, b in zip(F, f)]
    elif how == "vector":
        F = np.full(n, F[0])
        got = f_(float(F[0]), f, iv, rho, sig, T)
    elif how == "block":
        got = np.asarray(f_(F.reshape(1, n, 1), f.reshape(1, n, 1), iv, rho, sig, T))
        need(got.shape == (1, n, 1), "shape of the payoff")
        got = got.ravel()
    elif how == "ival":
        ivs = iv + np.arange(n) * 0.1
        got = f_(F, f, ivs, rho, sig, T)
    else:
        got = f_(F, f, iv, rho, sig, T)
    for k in range(n):
        m = float(f[k] + ivs[k])
        EA = math.exp(m + s * s / 2)
        a = (math.log(F[k]) - m) / s
        want = EA * cdf(a - s) + F[k] * cdf(-a)
        # 1 - cdf loses everything below the rounding of one
        same(f"payoff of state {k}", got[k], want, rtol=1e-9, atol=1e-12 + 1e-14 * EA)
        if EA < 1e6 and a - s < 11:
            same(f"payoff of state {k} by quadrature", got[k], expected_payoff(F[k], m, s), rtol=1e-4, atol=1e-8)
        need(got[k] <= F[k] * (1 + 1e-12) + 1e-14 * EA and got[k] <= EA * (1 + 1e-12) + 1e-13 * EA, "payoff above the face value or the expected asset value")
    up = np.asarray(f_(F, f + 0.1, ivs, rho, sig, T))
    need(np.all(up >= np.asarray(got) - 1e-12 * np.exp(f + ivs + s * s / 2) - 1e-12), "payoff falls as the factor rises")


def gen_face(rng, i):
    k = float(rng.pick([0.0, 0.0, -8.0, 8.0]))               # in another currency
    return dict(mu=float(rng.standard_normal() * 0.05), F=float(np.exp(k + rng.standard_normal() * 0.4)), ival=float(k + rng.standard_normal() * 0.4), sig=float(rng.pick([0.05, 0.2, 0.5, 1.0])),
                T=float(rng.pick([0.5, 1, 3, 5, 10])), r=float(rng.pick([0.0, 0.01, -0.01, 0.05])), d=float(rng.pick([0.0, 0.005, 0.05])))


@check("C27", "find_face_value_indiv", gen_face, 80)
def run_face(c):
    _, put, _ = ref_bs(math.exp(c["ival"]), c["F"], c["r"], c["T"], c["sig"], c["d"])
    L = c["F"] * math.exp(-c["r"] * c["T"]) - put
    if L < 1e-6:
        raise Skip
    same("error", get("find_face_value_indiv")(**c), c["mu"] - math.log(c["F"] / L) / c["T"], rtol=1e-9, atol=1e-11)


def gen_solution(rng, i):
    return dict(A=float(np.exp(rng.standard_normal() * 0.4)) * [1, -1][int(rng.chance(0.35))], sig=float(rng.pick([0.05, 0.2, 0.5, 1.0, 5e-4, rng.random() + 0.01])) * [1, -1][int(rng.chance(0.35))],
                E=float(np.exp(rng.standard_normal() - 1)), D=float(np.exp(rng.standard_normal() * 0.4)), r=float(rng.pick([0.0, 0.01, -0.01, 0.05])), d=float(rng.pick([0.0, 0.002, 0.05])),
                T=float(rng.pick([0.5, 1, 5, 10])), sigE=float(rng.random()), form=rng.pick(["tuple", "list", "array"]))


@check("C27", "merton_solution", gen_solution, 160)
def run_solution(c):
    f = get("merton_solution")
    rest = [c[k] for k in ("E", "D", "r", "d", "T", "sigE")]
    E, D, r, d, T, vE = rest
    mk = {"tuple": tuple, "list": list, "array": np.array}[c["form"]]

    def at(A, s):
        g = f(mk([A, s]), *rest)
        need(len(g) == 2, "two errors")
        return float(g[0]), float(g[1])
    A, s = c["A"], c["sig"]
    a, v = max(A, 0.0), max(s, 0.0)
    carry = 1 - math.exp(-d * T)
    if a > 0 and v > 0:
        C, _, d1 = ref_bs(a, D, r, T, v, d)
        vol = (math.exp(-d * T) * cdf(d1) + carry) * a / E * v
    else:
        C = a * math.exp(-d * T) - D * math.exp(-r * T)      # no volatility: the forward, if worth anything
        if a > 0 and abs(C) < 1e-9:
            raise Skip
        C, vol = max(C, 0.0) if a > 0 else 0.0, 0.0
    e = (E - C - a * carry, vE - vol)
    x, y = at(A, s)
    if a > 0 and v > 0:
        same("equity error", x, e[0], rtol=1e-9, atol=1e-11)
        same("volatility error", y, e[1], rtol=1e-9, atol=1e-11)
        return
    p = x - e[0]
    tol = 1e-9 * (1 + abs(p))
    same("the same penalty on both errors", y - e[1], p, rtol=1e-9, atol=1e-9)
    need(p > 0, "a negative guess is not penalised")
    h = 2.0
    x2, y2 = at(A * h if A < 0 else A, s * h if s < 0 else s)
    same("the penalty grows with the square of the guess", x2 - e[0], h * h * p, rtol=1e-8, atol=1e-7)


# ---------------------------------------------------------------- C28
NAMES = ("mod_merton_computation", "mod_single_cohort_computation")


def gen_balance(rng, i):
    N = rng.size([2, 4, 5, 10], 20)
    return dict(fn=NAMES[i % 2], N=N, S=20 * (rng.size([20, 40], 280) // 20), fs=np.sort(rng.standard_normal(2)) * rng.pick([0.5, 1.5]), T=10.0 if rng.chance(0.7) else 5.0, hn=int(rng.integers(1, N)),
                r=float(rng.pick([0.01, 0.0, 0.05])), bookF=float(rng.uniform(0.5, 0.9)), D=float(rng.pick([0.3, 0.55, 0.63, 0.8, 1.2])), rho=float(rng.pick([0.3, 0.5, 0.8])), ltv=float(rng.uniform(0.5, 0.95)),
                sig=float(rng.pick([0.1, 0.2, 0.4])), d=0.005, y=float(rng.pick([0.0, 0.002, 0.02])), g=float(rng.pick([0.0, 0.5, 1.0])), given=rng.chance(0.5), with_g=rng.chance(0.8), seed=int(rng.integers(1, 99)),
                column=rng.chance(0.2))


def gen_balance_in(rng, i):
    c, u = gen_balance(rng, i), float(rng.pick([1.0, 1.0, 1.0, 1e-6, 1e4]))      # the bank in another currency
    c.update(bookF=c["bookF"] * u, D=c["D"] * u, unit=u)
    return c


@check("C28", "balance", gen_balance_in, 60, thorough=400)
def run_balance(c):
    f = get(c["fn"])
    N, S, T = c["N"], c["S"], c["T"]
    H = c["hn"] * T / N
    if not float(H * (N / T)).is_integer():
        raise Skip
    p = [c["r"], T, c["bookF"], H, c["D"], c["rho"], c["ltv"], c["sig"], c["d"], c["y"]] + ([c["g"]] if c["with_g"] else [])
    g = c["g"] if c["with_g"] else 0.0
    cols = N if "single" in c["fn"] else 3 * N
    w = np.random.default_rng(c["seed"]).standard_normal((S, cols)) if c["given"] else None
    out = f(c["fs"], p, N, S, w, c["seed"])
    need(len(out) == 16, "sixteen results")
    Lt, Bt, Et, LH, BH, EH, sigE, mF, dflt, mdef, face, FH, Gt, mu, F, sigL = out
    k = len(c["fs"])
    for nm, x, sh in (("LH", LH, (S, k)), ("BH", BH, (S, k)), ("EH", EH, (S, k)), ("default", dflt, (S, k)), ("Lt", Lt, (k,)), ("Bt", Bt, (k,)), ("Et", Et, (k,)), ("Gt", Gt, (k,)), ("mdef", mdef, (k,))):
        need(np.shape(x) == sh, f"shape of {nm}")
    D, disc = c["D"], math.exp(-c["r"] * H)
    left = LH * math.exp(-c["y"] * H)
    same("debt payoff", BH, np.where(left < D, left, D), rtol=1e-12, atol=0)
    same("loan value = debt + equity at the horizon", BH + EH, LH, rtol=1e-12, atol=1e-14)
    if np.any((np.abs(left - D) < 1e-12 * c["unit"]) | ~np.isfinite(left)):
        raise Skip
    same("default indicator", dflt, np.where(left > D, 0.0, 1.0), rtol=0, atol=0)
    for nm, x, y in (("loan", Lt, LH), ("debt", Bt, BH), ("equity", Et, EH), ("guarantee", Gt, g * np.maximum(D - left, 0))):
        same(f"{nm} value today", x, np.mean(y, axis=0) * disc, rtol=1e-10, atol=1e-14)
    same("loan value = debt + equity today", Bt + Et, Lt, rtol=1e-10, atol=1e-13)
    same("default probability", mdef, np.mean(dflt, axis=0), rtol=1e-12, atol=0)
    need(np.all((mdef >= 0) & (mdef <= 1)), "default probability outside [0,1]")


# ---------------------------------------------------------------- C32
def draws(seed, rows, S):
    from scipy.stats import norm
    return norm.ppf(np.random.RandomState(seed).rand(rows, S)).T


def gen_tables(rng, i):
    J, K, Q = [int(v) for v in rng.integers(1, 3, 3)]
    return dict(single=i % 2 == 1, fs=np.sort(rng.standard_normal(2)) * 0.6, sig=rng.uniform(0.1, 0.4, (J, K, Q)), r=rng.uniform(0.0, 0.05, (J, K, Q)), F=rng.uniform(0.5, 0.9, (J, K, Q)),
                N=int(rng.pick([2, 5])), S=20, d=0.005, y=float(rng.pick([0.0, 0.01])), bookD=0.63, rho=float(rng.pick([0.3, 0.5])), ltv=float(rng.uniform(0.6, 0.9)))


@check("C32", "tables", gen_tables, 16, thorough=120)
def run_tables(c):
    nm = "mod_single_merton_create_lookup" if c["single"] else "mod_merton_create_lookup"
    comp = get("mod_single_cohort_computation" if c["single"] else "mod_merton_computation")
    J, K, Q = c["sig"].shape
    G, N, S, T = len(c["fs"]), c["N"], c["S"], 10.0
    H = T / N
    big = lambda a: np.tile(a[None], (G, 1, 1, 1))
    xfs = np.tile(c["fs"][:, None, None, None], (1, J, K, Q))
    tabs = get(nm)(c["d"], c["y"], T, H, c["bookD"], c["rho"], c["ltv"], xfs, big(c["r"]), big(c["F"]), big(c["sig"]), N, S)
    need(len(tabs) == 6, "six tables")
    w = draws(1, 3 * N, S)
    for j in range(J):
        for k in range(K):
            for q in range(Q):
                r = c["r"][j, k, q]
                p = [r, T, c["F"][j, k, q], H, c["bookD"] * math.exp(r * H), c["rho"], c["ltv"], c["sig"][j, k, q], c["d"], c["y"]]
                out = comp(c["fs"], p, N, S, w)
                for t, x, n in zip(tabs, [out[i] for i in (0, 1, 2, 7, 9, 6)], ("Lt", "Bt", "Et", "mFt", "mdef", "sigEt")):
                    need(np.shape(t) == (G, J, K, Q), f"shape of the table of {n}")
                    same(f"{n} at grid point {(j, k, q)}", t[:, j, k, q], x, rtol=1e-9, atol=1e-12)


def gen_residual(rng, i):
    return dict(f=float(rng.standard_normal() * 0.5), book=float(rng.uniform(0.5, 0.9)), N=int(rng.pick([2, 5])), E=float(rng.random()), sigE=float(rng.random()),
                p=[0.01, 10.0, 0.7, 0.0, 0.63, 0.5, 0.7, 0.2, 0.005, 0.002] + [0.5] * int(rng.integers(2)), hn=1, array=rng.chance(0.4))


@check("C32", "residual", gen_residual, 16, thorough=120)
def run_residual(c):
    p = list(c["p"])
    p[3] = c["hn"] * p[1] / c["N"]
    fs = np.array([c["f"]])
    got = get("mod_single_cohort_solution")((fs, c["book"]), np.array(p) if c["array"] else p, c["N"], 40, c["E"], c["sigE"])
    q = list(p)
    q[2] = c["book"]
    out = get("mod_single_cohort_computation")(fs, q, c["N"], 40)
    need(len(got) == 2, "two errors")
    same("equity value error", got[0], c["E"] - out[2], rtol=1e-10, atol=1e-12)
    same("equity volatility error", got[1], c["sigE"] - out[6], rtol=1e-10, atol=1e-12)


# ---------------------------------------------------------------- C33
def ref_smooth(x, w):
    n, h = len(x), w // 2
    mean = lambda t: math.fsum(x[t - h + 1:t + h + 1]) / w
    lo, hi = h, n - h - 1
    out = []
    for i in range(n):
        if i < lo:
            out.append(mean(lo) - (lo - i) * (mean(lo + 1) - mean(lo)))
        elif i > hi:
            out.append(mean(hi) + (i - hi) * (mean(hi) - mean(hi - 1)))
        else:
            out.append(mean(i))
    return np.array(out)


def gen_smooth(rng, i):
    n = 2 * max(2, rng.size([2, 3, 4, 5, 10, 25, 60], 2500) // (1 + i % 2))
    h = int(rng.integers(1, n // 2)) if i % 3 else max(1, min(n // 2 - 1, n // 40))
    x = rng.standard_normal(n)
    kind = rng.pick(["noise", "line", "sorted", "level", "int"])
    if kind == "line":
        x = 0.3 + 0.7 * np.arange(n)
    elif kind == "sorted":
        x = np.sort(x)
    elif kind == "level":
        x = x + 1e4
    elif kind == "int":
        x = rng.integers(-5, 5, n)
    u = 1.0 if kind in ("line", "int") else float(rng.pick([1.0, 1.0, 1.0, 1e-9]))
    return dict(x=x * u if u != 1 else x, w=2 * h, kind=kind, unit=u, layout=rng.pick(["plain", "strided", "readonly"]))


@check("C33", "smoothing", gen_smooth, 120)
def run_smooth(c):
    x = c["x"] if c["kind"] == "int" else layout(c["x"], c["layout"])
    before = np.array(x)
    got = get("fftsmooth")(x, c["w"])
    scale = float(np.max(np.abs(before))) + c["unit"]
    want = ref_smooth(np.asarray(before, float), c["w"])
    same("smoothed series", got, want, rtol=1e-9, atol=1e-12 * scale * len(before))
    need(np.asarray(got).dtype.kind == "f", "the smoothed series is not real")
    need(np.array_equal(before, np.asarray(x)), "the series was changed")
    if c["kind"] == "line":
        # means after t - w/2 up to t + w/2 of a line lie half a step above it
        same("a straight line stays one", got, before + 0.7 / 2, rtol=1e-9, atol=1e-10 * scale)


# ---------------------------------------------------------------- C34
def ref_payoff(F, f, iv, rho, sig, T):
    from scipy.stats import norm
    s = sig * math.sqrt(T * (1 - rho))
    a = (np.log(F) - f - iv) / s
    return np.exp(f + iv + s * s / 2) * norm.cdf(a - s) + F * norm.cdf(-a)


def yield_gap(mu, book, iv, sig, T, r, d):
    from scipy.stats import norm
    A, F = math.exp(iv), book * math.exp(mu * T)
    d1 = (math.log(A / F) + (r - d + sig * sig / 2) * T) / (sig * math.sqrt(T))
    put = F * math.exp(-r * T) * norm.cdf(sig * math.sqrt(T) - d1) - A * math.exp(-d * T) * norm.cdf(-d1)
    L = F * math.exp(-r * T) - put
    return mu - math.log(F / L) / T if L > 0 else float("nan")


def ref_model(c, w, H, mu):
    """The sixteen results, cohort by cohort and column by column."""
    r, T, book, D, rho, ltv, sig, d, y, N, S = [c[x] for x in ("r", "T", "bookF", "D", "rho", "ltv", "sig", "d", "y", "N", "S")]
    g = c["g"] if c["with_g"] else 0.0
    single = "single" in c["fn"]
    hn, k, dt = c["hn"], len(c["fs"]), T / N
    iv, sf = math.log(book / ltv), math.sqrt(rho) * sig
    walk = np.concatenate([np.zeros((S, 1)), np.cumsum(w, axis=1)], axis=1) * sf * math.sqrt(dt)
    drift = (r - d - sig * sig / 2) * dt
    F = book * math.exp(mu * T)
    cols = [(c["fs"][j], m) for m in (0.0, sf / 10, -sf / 10) for j in range(k)]
    LH, mF, face, FH = np.zeros((S, 3 * k)), np.zeros(k), np.zeros((S, k)), np.zeros((S, k))
    cohorts = [None] if single else list(range(N))
    for q in cohorts:
        A, P, scale, assets, faces = [np.zeros((S, 3 * k)) for _ in range(5)]
        for J, (x, up) in enumerate(cols):
            sh = x * sf * math.sqrt(T) * (1 if single else (N - q) / N) + up
            if single:
                f1 = N * drift + walk[:, N] + sh
                P[:, J] = ref_payoff(F, f1, iv, rho, sig, T)
                A[:, J] = np.exp(hn * drift + walk[:, hn] + sh + iv + (1 - rho) * H * sig ** 2 / 2)
                scale[:, J], faces[:, J], assets[:, J] = math.exp(-r * (T - H)), F * math.exp(-r * (T - H)), math.exp(sh + iv)
                continue
            # factor shocks after the valuation date are given: those before it are replaced by the factor realisation
            own = -(N - q) * (-rho * sig ** 2 / 2 * dt)
            f1 = N * drift + walk[:, N + q] - walk[:, N] + own + sh
            L1 = ref_payoff(F, f1, iv, rho, sig, T)
            left = (hn - q if q <= hn else N + hn - q) / N
            grown = math.exp((1 - rho) * sig ** 2 * T * left / 2)
            assets[:, J] = math.exp((N - q) * (r - d) * dt + sh + iv)
            if q >= hn:
                A[:, J] = np.exp((N + hn - q) * drift + walk[:, N + hn] - walk[:, N] + own + sh + iv) * grown
                P[:, J] = L1
                scale[:, J], faces[:, J] = math.exp(-r * (q - hn) * dt), F * math.exp(-r * (q - hn) * dt)
            else:
                A[:, J] = np.exp((hn - q) * drift + walk[:, N + hn] - walk[:, N + q]) * book / ltv * grown
                F2 = L1 * math.exp(mu * T)
                P[:, J] = ref_payoff(F2, N * drift + walk[:, 2 * N + q] - walk[:, N + q], np.log(L1 / ltv), rho, sig, T) / L1 * book
                scale[:, J] = L1 / book * math.exp(-r * (q - hn + N) * dt)
                faces[:, J] = F2 * math.exp(-r * (q - hn + N) * dt)
        a = A.flatten(order="F")
        o = np.sort(a)
        gap = np.diff(o)
        edge = np.abs(o * 1e9 - np.floor(o * 1e9) - 0.5) < 1e-4
        if np.any((gap > 1e-12) & (gap < 3e-9)) or np.any((gap <= 1e-12) & (edge[1:] | edge[:-1])) or not np.all(np.isfinite(a)):
            raise Skip
        order = sorted(range(len(a)), key=lambda i: (round(float(a[i]), 9), i))
        p = P.flatten(order="F")
        sm = ref_smooth(p[order], len(a) // 20)
        at = np.empty(len(a))
        at[order] = sm
        LH += at.reshape((S, 3 * k), order="F") * scale / len(cohorts)
        mF += assets[0, :k] / len(cohorts)
        face += faces[:, :k] / len(cohorts)
        FH += A[:, :k] / len(cohorts)
    left = LH * math.exp(-y * H)
    BH = np.minimum(D, left)
    EH, disc = LH - BH, math.exp(-r * H)
    mean = lambda x: x.mean(axis=0) * disc
    Lt, Bt, Et, Gt = mean(LH), mean(BH), mean(EH), mean(g * np.maximum(D - left, 0))
    dflt = np.where(left > D, 0.0, 1.0)
    with np.errstate(all="ignore"):
        vol = lambda x: 5 * (np.log(x[k:2 * k]) - np.log(x[2 * k:]))
        sE, sL = vol(Et), vol(Lt)
    if np.any(np.abs(left - D) < 1e-9):
        raise Skip
    if np.min(Et) < 1e-6:
        sE = None
    return dict(Lt=Lt[:k], Bt=Bt[:k], Et=Et[:k], LH=LH[:, :k], BH=BH[:, :k], EH=EH[:, :k], sigEt=sE, mFt=mF, default=dflt[:, :k], mdef=dflt[:, :k].mean(axis=0), face=face, FH=FH,
                Gt=Gt[:k], mu=None, F=F, sigLt=sL if np.min(Lt) > 1e-6 else None)


def gen_model(rng, i):
    c = gen_balance(rng, i)
    k = int(rng.integers(1, 4))
    c.update(fs=np.sort(rng.standard_normal(k)) * rng.pick([0.5, 1.5]), S=40 * int(rng.pick([1, 1, 2, 3])), hn=int(rng.integers(0, c["N"])), d=float(rng.pick([0.005, 0.0, 0.02])))
    # (the window is a twentieth of the sample)
    big = [b for b in [x * f for x in dictionary() for f in (1, 20)] if 400 < b < 40000] + narrow()
    if big and rng.chance(0.1):
        # a sample just past a size the sources mention
        c.update(N=2, hn=int(rng.integers(0, 2)), S=40 * (int(rng.pick(big)) // (3 * k * 40) + 1))
    return c


@check("C34", "model values", gen_model, 60, thorough=400)
def run_model(c):
    f = get(c["fn"])
    N, S, T = c["N"], c["S"], c["T"]
    H = c["hn"] * T / N
    if not float(H * (N / T)).is_integer():
        raise Skip
    cols = N if "single" in c["fn"] else 3 * N
    if c["given"]:
        w = np.random.default_rng(c["seed"]).standard_normal((S, cols))
    else:
        w = draws(c["seed"], cols, S)
    p = [c["r"], T, c["bookF"], H, c["D"], c["rho"], c["ltv"], c["sig"], c["d"], c["y"]] + ([c["g"]] if c["with_g"] else [])
    out = f(c["fs"], p, N, S, w.copy() if c["given"] else None, c["seed"])
    need(len(out) == 16, "sixteen results")
    iv = math.log(c["bookF"] / c["ltv"])
    mu = float(out[13])
    eq = lambda m: yield_gap(m, c["bookF"], iv, c["sig"], T, c["r"], c["d"])
    if not abs(eq(mu)) < 1e-7:
        from scipy.optimize import fsolve
        x, _, ier, _ = fsolve(lambda m: [eq(float(m[0]))], [c["r"] + 0.01], full_output=True)
        if ier != 1 or not abs(eq(float(x[0]))) < 1e-9:
            raise Skip
        raise Violation(f"the promised yield {mu!r} does not solve its equation; {float(x[0])!r} does")
    want = ref_model(c, w, H, mu)
    for nm, x in zip(("Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt"), out):
        if want[nm] is not None:
            same(nm, x, want[nm], rtol=1e-7, atol=1e-6 if nm.startswith("sig") else 1e-9)
