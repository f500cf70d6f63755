"""C35: the modified Merton simulation on the real library (the tables of the benchmarks are stand-ins)."""
import contextlib
import io
import math
import os
import re
import sys
import tempfile
import numpy as np
from .harness import ENV, check, need, Violation, Skip
from .p_measures import cdf
from .p_merton import MM, ref_bs

NAMES = ("Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt")
R, D_, Y, T, H, BOOK, RHO, LTV, SIG, G, N = 0.01, 0.005, 0.002, 10, 5, 0.66, 0.5, 0.66, 0.2, 0.5, 10
BOOKD = 0.63 * sum(math.exp(R * t) for t in range(1, 11)) / 10
DEBT = BOOKD * math.exp(R * H)
PARAM = [R, T, BOOK, H, DEBT, RHO, LTV, SIG, D_, Y, G]
UNIT = SIG * math.sqrt(0.5) * math.sqrt(10)
FS = np.array([(-80 + 5 * i) / 100 for i in range(33)]) / UNIT
SFS = np.array([(-260 + 5 * i) / 100 for i in range(69)]) / UNIT
LOANS = np.array([(40 + i) / 100 for i in range(105)])


def equity_of(A, s):
    """What merton_solution makes equity worth, and its volatility."""
    C, _, d1 = ref_bs(A, DEBT, R, H, s, Y)
    E = C + A * (1 - math.exp(-Y * H))
    return E, (math.exp(-Y * H) * cdf(d1) + 1 - math.exp(-Y * H)) * (A / E) * s


def converges(E, v, A, s):
    from scipy.optimize import fsolve

    def f(b):
        e, u = equity_of(float(b[0]), float(b[1])) if min(b) > 0 else (9e9, 9e9)
        return E - e, v - u
    with np.errstate(all="ignore"):
        try:
            x, _, ok, _ = fsolve(f, (E + DEBT * math.exp(-R * H), v / 2), full_output=True)
        except (ValueError, OverflowError, ZeroDivisionError):
            return False
    return ok == 1 and abs(x[0] - A) < 1e-6 and abs(x[1] - s) < 1e-6


def gen(rng, i):
    mode = rng.pick(["fit", "fit", "solver", "real"]) if i else "fit"
    default = mode == "fit" and rng.chance(0.2)
    return dict(mode=mode, default=default, seed=int(rng.integers(1 << 31)), K=33, sims=10000 if default else int(rng.pick([40, 80, 120])) if mode == "real" else int(rng.integers(1, 40)),
                j0=int(rng.integers(8, 25)), where=rng.pick(["given", "cwd"]), positional=bool(rng.chance(0.5)))


def results(c):
    """Sixteen results of the computation for the 33 states."""
    rng = np.random.default_rng(c["seed"])
    K, S = c["K"], c["sims"]
    o = {nm: rng.uniform(0.2, 1.4, (S, K) if nm in ("LH", "BH", "EH", "default", "face", "FH") else K) for nm in NAMES if nm not in ("mu", "F")}
    o["mu"], o["F"] = 0.02, 0.8
    target = math.exp(R * T / 2)
    o["mFt"] = target + rng.permutation(np.r_[rng.uniform(0.05, 0.8, K)]) * rng.choice([-1, 1], K)
    o["mFt"][c["j0"]] = target + rng.uniform(-0.04, 0.04)
    o["mdef"] = rng.random(K)
    o["Bt"] = rng.uniform(0.3, 0.62, K)
    o["sigLt"] = rng.uniform(0.02, 0.3, K)
    fits = []
    while len(fits) < K:
        A, s = rng.uniform(0.45, 1.1), rng.uniform(0.03, 0.35)
        E, v = equity_of(A, s)
        if c["mode"] == "solver" or E > 0.02 and converges(E, v, A, s):
            fits.append((A, s, E if E > 0.01 else rng.uniform(0.01, 0.02), v))
    o["Et"], o["sigEt"] = np.array([f[2] for f in fits]), np.array([f[3] for f in fits])
    if c["mode"] == "solver":
        s = rng.uniform(0.02, 0.3, K)
        low = rng.random(K) < 0.3
        low[[c["j0"], c["j0"] + 8]] |= rng.random(2) < 0.3
        s[low] = rng.choice([-0.3, -1e-5, 0.0, 5e-5, 2e-4, 5e-4], K)[low]
        # at low volatilities, asset values at which default is not certain
        edge = lambda x: DEBT * math.exp(-(R - Y - x * x / 2) * H + rng.normal() * x * math.sqrt(H))
        fits = [(edge(max(x, 1e-4)) if lo else rng.uniform(0.45, 1.1), float(x)) for x, lo in zip(s, low)]
    return tuple(o[nm] for nm in NAMES), [f[:2] for f in fits]


def tables(tag, args, shape):
    """Stand-in of the benchmark tables: numbers that depend on everything they are asked for."""
    key = [tag] + [round(float(x) * 1e7) for a in args for x in (np.ravel(a)[[0, -1]] if np.ndim(a) else [a])] + list(shape)
    import zlib
    rng = np.random.default_rng(zlib.crc32(repr(key).encode()))
    return tuple(rng.uniform(-0.2, 6.0 if nm == "sigEt" else 1.2, shape) for nm in ("Lt", "Bt", "Et", "mFt", "mdef", "sigEt"))


def benchmark(rho, sig, Et, sigEt, sims):
    from scipy.interpolate import griddata
    x = np.meshgrid(SFS, sig, R, LOANS, indexing="ij")
    t = tables("single", (D_, Y, 5, H, BOOKD, rho, LTV, *[x[i] for i in (0, 2, 3, 1)], N, sims), x[0].shape)
    return griddata((t[2].ravel(), t[5].ravel()), t[4].ravel(), (Et, sigEt), method="cubic")


@contextlib.contextmanager
def replaced(*what):
    """Attributes replaced wherever the name is bound."""
    old = []
    try:
        for mods, nm, f in what:
            for m in mods:
                if hasattr(m, nm) and callable(getattr(m, nm)) and not isinstance(getattr(m, nm), type(sys)):
                    old.append((m, nm, getattr(m, nm)))
                    setattr(m, nm, f)
        yield
    finally:
        for m, nm, f in reversed(old):
            setattr(m, nm, f)


def drawn(fig):
    out = []
    for ax in fig.axes:
        for col in ax.collections:
            a = np.ma.filled(np.ma.asarray(col.get_offsets(), float), np.nan)
            out.append(a)
        for ln in ax.lines:
            out.append(np.ma.filled(np.ma.asarray(ln.get_xydata(), float), np.nan))
    return [a for a in out if len(a) > 2 or len(a) == 1]


def simulate(c):
    os.environ["MPLBACKEND"] = "Agg"
    try:
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
    except ImportError:
        raise Skip
    sim = ENV.mod(MM + "mod_merton_simulation")
    mods = {nm: ENV.mod(MM + nm) for nm in ("mod_merton_computation", "mod_merton_create_lookup", "mod_single_merton_create_lookup", "mod_single_cohort_computation")}
    real = mods["mod_merton_computation"].mod_merton_computation
    calls, saved, fits = [], [], None
    K, S = c["K"], c["sims"]
    if c["mode"] != "real":
        result, fits = results(c)

    def comp(fs, param, N, Nsim2, w=None, random_seed=1):
        calls.append((np.array(fs, float).ravel(), [float(x) for x in param], int(N), int(Nsim2), w, random_seed))
        if c["mode"] == "real":
            c["result"] = real(fs, param, N, Nsim2, w, random_seed)
            return c["result"]
        return tuple(np.copy(x) if np.ndim(x) else x for x in result)

    def look(tag):
        def f(d, y, T, H, bookD, rho, ltv, xfs, xr, xF, xsig, N, Nsim2):
            return tables(tag, (d, y, T, H, bookD, rho, ltv, xfs, xr, xF, xsig, N, Nsim2), np.shape(xfs))
        return f

    def solver(func, x0, args=(), full_output=0, **kw):
        E = float(x0[0]) - DEBT * math.exp(-R * H)
        k = int(np.argmin(np.abs(result[2] - E)))
        if abs(result[2][k] - E) > 1e-9:
            raise Skip
        x = np.array(fits[k])
        return (x, dict(fvec=np.zeros(2)), 1, "") if full_output else x

    def savefig(self, fname, *a, **k):
        saved.append((os.path.abspath(os.fspath(fname)), drawn(self)))

    out = io.StringIO()
    here = os.getcwd()
    old, env = Figure.savefig, ENV.load(ENV.mode)
    mine = {k: v for k, v in sys.modules.items() if k == "frds" or k.startswith("frds.")}
    patches = [((sim, mods["mod_merton_computation"], mods["mod_merton_create_lookup"]), "mod_merton_computation", comp),
               ((sim, mods["mod_merton_create_lookup"]), "mod_merton_create_lookup", look("double")),
               ((sim, mods["mod_single_merton_create_lookup"]), "mod_single_merton_create_lookup", look("single"))]
    if c["mode"] == "solver":
        if not callable(getattr(sim, "fsolve", None)):
            raise Skip
        patches.append(((sim,), "fsolve", solver))
    with tempfile.TemporaryDirectory() as tmp:
        tmp = os.path.realpath(tmp)
        try:
            sys.modules.update({k: v for k, v in env.items() if v is not None})
            os.chdir(tmp)
            Figure.savefig = savefig
            import warnings
            with replaced(*patches), contextlib.redirect_stdout(out), np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                where = os.path.join(tmp, "figures")
                if c["default"]:
                    sim.simulate() if c["where"] == "cwd" else sim.simulate(direc=where)
                    where = tmp if c["where"] == "cwd" else where
                elif c["where"] == "cwd":
                    sim.simulate(S) if c["positional"] else sim.simulate(Nsim=S)
                    where = tmp
                elif c["positional"]:
                    sim.simulate(S, where)
                else:
                    sim.simulate(direc=where, Nsim=S)
        finally:
            Figure.savefig = old
            os.chdir(here)
            for k in [k for k in sys.modules if k == "frds" or k.startswith("frds.")]:
                del sys.modules[k]
            sys.modules.update(mine)
            plt.close("all")
    if c["mode"] == "real":
        need("result" in c, "the model is not computed")
        result = c.pop("result")
    return calls, dict(zip(NAMES, result)), fits, out.getvalue(), {os.path.relpath(p, where): s for p, s in saved}


def close(a, b, tol):
    return a == b or math.isnan(a) and math.isnan(b) or abs(a - b) <= tol * max(1.0, abs(b))


def sets(nm, got, want):
    """The figure shows exactly these series."""
    left = list(got)
    for what, x, y, tol in want:
        w = np.column_stack([np.ravel(x), np.ravel(y)])
        w[np.isinf(w)] = np.nan
        hit = None
        for s in left:
            v = np.where(np.isinf(s), np.nan, s)
            if v.shape == w.shape and np.allclose(np.nan_to_num(v, nan=-77.0), np.nan_to_num(w, nan=-77.0), rtol=tol, atol=tol):
                hit = s
                break
        if hit is None:
            raise Violation(f"{nm} does not show the {what} ({len(got)} series drawn)")
        left = [s for s in left if s is not hit]
    need(not left, f"{nm} shows {len(left)} more series than it should")


ROWS = ("Agg. Borrower Asset Value", "Bank Asset Value", "Bank Market Equity/Market Assets", "Bank 5Y RN Default Prob.", "Bank Credit Spread (%)",
        "Merton 5Y RN Default Prob.", "Merton Credit Spread (%)")


@check("C35", "simulate", gen, 12, thorough=90)
def run(c):
    calls, o, fits, text, saved = simulate(dict(c))
    need(len(calls) >= 1, "the model is not computed")
    fs, param, n, sims, w, seed = calls[0]
    need(len(fs) == 33 and np.allclose(fs, FS, rtol=1e-9, atol=1e-12), "the states of the factor are not the published ones")
    need(len(param) == 11, "eleven parameters")
    for nm, x, v in zip(("interest rate", "loan maturity", "loan amount", "bank debt maturity", "bank debt", "correlation", "loan to value", "volatility", "depreciation", "payout", "bailout probability"), param, PARAM):
        if not close(x, v, 1e-9):
            raise Violation(f"calibration: {nm} {x!r}, expected {v!r}")
    need(n == N, f"calibration: {n} cohorts")
    need(sims == c["sims"], f"{sims} paths simulated, {c['sims']} asked for")
    need(w is not None or seed == 1, f"the draws' seed is {seed}")
    K = len(o["mFt"])
    near = np.abs(o["mFt"] - math.exp(R * T / 2))
    j0 = int(np.argmin(near))
    if j0 < 8 or j0 + 8 >= K or np.sum(near < near[j0] + 1e-9) > 1:
        raise Skip
    safe = DEBT * math.exp(-R * H)
    if fits is None:
        fits = [(math.nan, math.nan)] * K

    def merton(A, s):
        s = max(s, 1e-4)
        if not (A > 0):
            return math.nan, math.nan
        dd = (math.log(A) - math.log(DEBT) + (R - Y - s * s / 2) * H) / (s * math.sqrt(H))
        P = ref_bs(A, DEBT, R, H, s, Y)[1]
        return cdf(-dd), 100 / H * math.log(safe / (safe - P))
    mert = [merton(*f) for f in fits]
    with np.errstate(all="ignore"):
        equity, spread = o["Et"] / (o["Et"] + o["Bt"]), 100 / H * np.log(safe / o["Bt"])
    cols = (o["mFt"], o["Lt"], equity, o["mdef"], spread, [m[0] for m in mert], [m[1] for m in mert])
    for label, v in zip(ROWS, cols):
        ln = [x.split(label, 1)[1] for x in text.split("\n") if label in x]
        need(len(ln) == 1, f"the table has {len(ln)} rows named {label!r}")
        got = re.findall(r"[-+]?(?:\d+\.\d+|nan|inf)", ln[0])
        need(len(got) == 3, f"the table's row {label!r} reads {ln[0]!r}")
        for col, g, j in zip(("no shock", "+ve shock", "-ve shock"), got, (j0, j0 + 8, j0 - 8)):
            x = float(v[j])
            if not math.isfinite(x):
                continue
            need(len(g.split(".")[-1]) == 2, f"the table's {label}, {col} is printed as {g}")
            if abs(float(g) - x) > 0.005 + 2e-5:
                raise Violation(f"the table's {label}, {col}, is {g}: the model's value is {x:.4f}")
    for nm in ("figure2_PayoffsAtDMat.pdf", "figure3_mVe.pdf", "figure4_mdef.pdf", "figure5_panel_a_mdefsingles.pdf", "figure5_panel_b_mertalt.pdf"):
        need(nm in saved, f"{nm} is not saved in the directory {'given' if c['where'] == 'given' else 'one is in'} but {sorted(saved)} are")
    paths = [("bank asset value of the paths", o["FH"][:, j0], o["LH"][:, j0] + o["face"][:, j0] * (math.exp(Y * H) - 1), 1e-9),
             ("bank equity of the paths", o["FH"][:, j0], o["EH"][:, j0], 1e-9), ("bank debt of the paths", o["FH"][:, j0], o["BH"][:, j0], 1e-9)]
    if c["sims"] > 2:
        sets("figure 2", saved["figure2_PayoffsAtDMat.pdf"], paths)
    sets("figure 3", saved["figure3_mVe.pdf"], [("bank equity value against the borrowers' assets", o["mFt"], o["Et"], 1e-9)])
    if c["mode"] == "real":
        return
    actual = ("default probability", o["mFt"], o["mdef"], 1e-9)
    fitted = ("default probability of the fitted Merton model", o["mFt"], [m[0] for m in mert], 1e-5)
    sets("figure 4", saved["figure4_mdef.pdf"], [actual, fitted])
    at = [merton(a, s)[0] for a, s in zip(o["Lt"], o["sigLt"])]
    sets("figure 5 (b)", saved["figure5_panel_b_mertalt.pdf"], [actual, fitted, ("Merton default probability at the model's asset value and volatility", o["mFt"], at, 1e-9)])
    sets("figure 5 (a)", saved["figure5_panel_a_mdefsingles.pdf"], [
        actual, fitted, ("default probability with a single cohort", o["mFt"], benchmark(RHO, SIG, o["Et"], o["sigEt"], c["sims"]), 1e-3),
        ("default probability with a single borrower", o["mFt"], benchmark(0.99, SIG * math.sqrt(0.5), o["Et"], o["sigEt"], c["sims"]), 1e-3)])
