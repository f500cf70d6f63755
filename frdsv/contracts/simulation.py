"""C35: the simulation of Nagel and Purnanandam's Table 1 and figures."""
import os
import re
import types
from ..contract import *
from .. import models as M, hooks as H
from ..values import Arr
from .merton import MM, C28, NAMES, MS

KEY = MM + "mod_merton_simulation:simulate"
LOOK1 = MM + "mod_merton_create_lookup:mod_merton_create_lookup"
LOOK2 = MM + "mod_single_merton_create_lookup:mod_single_merton_create_lookup"
TABLES = ("Lt", "Bt", "Et", "mFt", "mdef", "sigEt")
ROWS = ("Agg. Borrower Asset Value", "Bank Asset Value", "Bank Market Equity/Market Assets", "Bank 5Y RN Default Prob.", "Bank Credit Spread (%)",
        "Merton 5Y RN Default Prob.", "Merton Credit Spread (%)")
K = None


class Canvas:
    """matplotlib.pyplot, as far as what is drawn goes: the series of every figure, by the name it is saved under."""
    inert = set("xlim ylim title xlabel ylabel legend tight_layout grid close set_size_inches set_xlim set_ylim set_title set_xlabel set_ylabel set subplots_adjust "
                "suptitle ioff rcParams".split())

    def __init__(self):
        self.saved, self.series = [], []

    def module(self):
        return types.SimpleNamespace(**{k: getattr(self, k) for k in ("figure", "subplot", "subplots", "gcf", "gca", "scatter", "plot", "savefig", "clf", *self.inert)})

    def __getattr__(self, k):
        if k in self.inert:
            return lambda *a, **kw: None
        if k.startswith("__") or k == "contract_loop":
            raise AttributeError(k)
        raise Unsupported("matplotlib: " + k)

    def figure(self, num=None, *a, **k):
        if num is not None:
            raise Unsupported("figures by number")
        self.series = []
        return self

    clf = figure

    def subplot(self, *a, **k):
        return self

    gcf = gca = add_subplot = subplot

    def subplots(self, nrows=1, ncols=1, **k):
        self.series = []
        n = int(poly(nrows).const()) * int(poly(ncols).const())
        return self, (self if n == 1 else V.SList([self] * n))

    def scatter(self, x, y, *a, **k):
        self.series.append((x, y))

    def plot(self, *a, **k):
        a = [x for x in a if not isinstance(x, str)]
        if len(a) % 2 or not a:
            raise Unsupported("plot")
        for i in range(0, len(a), 2):
            self.series.append((a[i], a[i + 1]))

    def savefig(self, path, *a, **k):
        if not isinstance(path, (str, os.PathLike)):
            raise Unsupported("savefig")
        self.saved.append((os.fspath(path), list(self.series)))


def mean_growth(r, n):
    s = ZERO
    for t in range(1, n + 1):
        s = s + T.exp(r * const(t))
    return s * const(T.F(1, n))


def simulation(where):
    def thunk(c):
        RT.assume_note("matplotlib", "what figures look like is not modelled, only the series drawn and the names they are saved under")
        k = integer("szfs")
        j0 = None
        paths = T.Var("Nsim", isint=True, pos=True)
        sims = paths if where == "given" else const(10000)
        F_ = lambda a, b=1: const(T.F(a, b))
        r, ltv, sig, d, y, g, rho = F_(1, 100), F_(66, 100), F_(2, 10), F_(5, 1000), F_(2, 1000), F_(5, 10), F_(5, 10)
        Tm, H_ = F_(10), F_(5)
        book = F_(66, 100)
        bookD = F_(63, 100) * mean_growth(r, 10)
        D = bookD * T.exp(r * H_)
        given = [r, Tm, book, H_, D, rho, ltv, sig, d, y, g]
        unit = F_(2, 10) * T.sqrt(F_(1, 2)) * T.sqrt(F_(10))
        st = {}

        # the computation, by contract (C28, C34): the results for the states it is given
        def comp(f, fs, param, N=None, Nsim2=None, w=None, random_seed=1):
            if st.get("calls") or w is not None:
                raise Unsupported("the computation is called in another way")
            st.update(calls=1, text="", canvas=Canvas(), marks=[], fs=V.as_arr(fs).snapshot(), n=N, sims=Nsim2, seed=random_seed,
                      param=[param[i] for i in range(len(param) if isinstance(param, (list, tuple)) else int(V.pconst(V.as_arr(param)._shape[0])))])
            out = []
            for nm in NAMES:
                shape = () if nm in ("mu", "F") else (V.dim(paths), k) if nm in ("LH", "BH", "EH", "default", "face", "FH") else (k,)
                out.append(Arr.new(shape, lambda i, nm=nm: T.Read(nm, *i), V.F8) if shape else Num(T.Var(nm)))
            return tuple(out)
        RT.contracts[C28[0]] = comp

        def other(*a, **kw):
            raise Unsupported("the single-cohort computation is called")
        RT.contracts[C28[1]] = other

        # the tables, by contract (C32)
        def lookup(tag):
            def look(f, *a, **kw):
                if len(a) != 13 or kw:
                    raise Unsupported("the tables are called in another way")
                (d_, y_, T_, H1, bD, rho_, ltv_), xs, (n_, s_) = a[:7], [V.as_arr(x).snapshot() for x in a[7:11]], a[11:]
                return look_(tag, [poly(x) for x in (d_, y_, T_, H1, bD, rho_, ltv_, n_, s_)], xs)
            return look

        def look_(tag, ps, xs):
            shape = xs[0]._shape
            if len(shape) != 4:
                raise Unsupported("the tables are called in another way")
            L = [N.lam_of(x) for x in xs]
            return tuple(Arr.new(shape, lambda i, nm=nm: T.App(f"{tag}.{nm}", *L, *ps, *i), V.F8) for nm in TABLES)
        RT.contracts[LOOK1], RT.contracts[LOOK2] = lookup("table"), lookup("single_table")

        def interpolate(points, values, xi, method="linear", fill_value=None, rescale=False):
            if fill_value is not None or rescale:
                raise Unsupported("griddata")
            if isinstance(points, (tuple, list)):
                p = [V.as_arr(x).snapshot() for x in points]
            else:
                a = V.as_arr(points)
                p = [a[:, 0].snapshot(), a[:, 1].snapshot()]
            v = V.as_arr(values).snapshot()
            if isinstance(xi, (tuple, list)):
                x0, x1 = [V.as_arr(x).snapshot() for x in xi]
            else:
                a = V.as_arr(xi)
                x0, x1 = a[:, 0].snapshot(), a[:, 1].snapshot()
            if len(p) != 2 or any(x.ndim != 1 for x in p + [v, x0, x1]):
                raise Unsupported("griddata")
            Ls = [N.lam_of(x) for x in p + [v]]
            return Arr.new(x0._shape, lambda i: T.App(f"griddata.{method}", *Ls, as_poly(x0.at(i)), as_poly(x1.at(i))), V.F8)
        c.L.std["scipy.interpolate"].griddata = interpolate

        # the solver, by contract: a root of the two equations of merton_solution (C27), a function of these equations
        RT.contracts[MS] = lambda f, x, E, D=None, r=None, d=None, T_=None, sigE=None, **kw: tuple(
            Num(T.App(nm, *[poly(z) for z in (x[0], x[1], E, D, r, d, kw.get("T", T_), sigE)])) for nm in ("merton.value", "merton.vol"))

        def solver(func, x0, args, full, kw):
            a, b = T.fresh("A"), T.fresh("s")
            e = func(V.as_arr([Num(a), Num(b)]), *args)
            ps = [poly(x) for x in (e if isinstance(e, tuple) else [V.as_arr(e)[i] for i in range(2)])]
            at = [p.atom() for p in ps]
            if any(x is None or x.kind != "app" or not str(x.args[0]).startswith("merton.") for x in at):
                raise Unsupported("equations given to fsolve")
            rest = [tuple(x.args[1:]) for x in at]
            if rest[0] != rest[1] or {str(x.args[0]) for x in at} != {"merton.value", "merton.vol"} or tuple(as_poly(z) for z in rest[0][:2]) != (a, b):
                raise Unsupported("equations given to fsolve")
            return V.as_arr([Num(T.App("fit.A", *rest[0][2:])), Num(T.App("fit.s", *rest[0][2:]))])
        RT.ext["fsolve"] = solver
        RT.assume_note("fsolve", "fsolve returns a root of the equations it is given; the fitted (A, s) is a function of these equations")
        T.FUN_PROPS["fit.A"] = dict(pos=True)

        # what is printed
        def fmt(x, spec):
            st.setdefault("marks", []).append((poly(x), spec))
            return "\u27e6%d\u27e7" % (len(st["marks"]) - 1)
        RT.ext["format"] = fmt

        def show(*a, sep=" ", end="\n", **kw):
            if any(not isinstance(x, (str, Num, int, float)) for x in a):
                raise Unsupported("print")
            st["text"] = st.get("text", "") + sep.join(format(x, "") for x in a) + end
        RT.ext["print"] = show

        pl = c.L.std["matplotlib.pyplot"]

        def draw(nm):
            def f(*a, **kw):
                if "canvas" not in st:
                    raise Unsupported("figures drawn before the computation")
                return getattr(st["canvas"], nm)(*a, **kw)
            return f
        for nm in ("figure", "subplot", "subplots", "gcf", "gca", "scatter", "plot", "savefig", "clf", *Canvas.inert):
            setattr(pl, nm, draw(nm))
        c.L.std["os"].getcwd = lambda: "/current directory"

        RD = lambda nm, *i: T.Read(nm, *[as_poly(x) for x in i])
        A_ = lambda nm: vec(nm, k)
        near = N.absolute(A_("mFt") - Num(T.exp(r * Tm * F_(1, 2))))
        j0 = integer("j0")
        nearest = N.lam_of(near)

        def argmin(a):
            a = V.as_arr(a)
            if a.ndim != 1 or N.lam_of(a) != nearest:
                raise Unsupported("the state nearest to the expected one is found in another way")
            return Num(j0, "int")
        RT.ext["argmin"] = argmin
        RT.assume_note("argmin", "the index of the least distance, j0; the states j0 - 8 and j0 + 8 exist")
        for b in (T.gt(k), T.ge(j0 - const(8)), T.gt(k - j0 - const(8))):
            FACTS.push(b)                      # the table's three states exist

        def dd(A, s):
            return (T.log(A) - T.log(D) + (r - y - s * s * F_(1, 2)) * H_) / (s * T.sqrt(H_))

        def fit(i):
            a = (RD("Et", i), D, r, y, H_, RD("sigEt", i))
            return T.App("fit.A", *a), core.ite(T.ge(T.App("fit.s", *a) - F_(1, 10000)), T.App("fit.s", *a), F_(1, 10000))

        def merton_default(i):
            return T.cdf(-dd(*fit(i)))

        def bs_put(A, s):
            d1 = (T.log(A / D) + (r - y + s * s * F_(1, 2)) * H_) / (s * T.sqrt(H_))
            d2 = d1 - s * T.sqrt(H_)
            return D * T.exp(-r * H_) * T.cdf(-d2) - A * T.exp(-y * H_) * T.cdf(-d1)
        safe = D * T.exp(-r * H_)
        rows = dict(zip(ROWS, (
            lambda i: RD("mFt", i), lambda i: RD("Lt", i), lambda i: RD("Et", i) / (RD("Et", i) + RD("Bt", i)), lambda i: RD("mdef", i),
            lambda i: const(100) * T.log(safe / RD("Bt", i)) / H_, merton_default,
            lambda i: const(100) * T.log(safe / (safe - bs_put(*fit(i)))) / H_)))

        def grid():
            fs = Arr.new((69,), lambda i: (F_(-26, 10) + F_(5, 100) * i[0]) / unit, V.F8)
            Fs = Arr.new((105,), lambda i: F_(4, 10) + F_(1, 100) * i[0], V.F8)
            return fs, Fs

        def benchmark(rho_, sig_):
            fs, Fs = grid()
            xfs, xsig, xr, xF = list.__iter__(N.meshgrid(fs, Num(sig_), Num(r), Fs, indexing="ij"))
            X = dict(zip(TABLES, look_("single_table", [d, y, F_(5), H_, bookD, rho_, ltv, const(10), sims], [xfs, xr, xF, xsig])))
            fl = lambda nm: N.METHODS["ravel"](N.squeeze(X[nm]))
            G = interpolate((fl("Et"), fl("sigEt")), fl("mdef"), (A_("Et"), A_("sigEt")), method="cubic")
            return lambda i: as_poly(G.at((i,)))
        implied = lambda i: T.cdf(-dd(RD("Lt", i), RD("sigLt", i)))
        aggregate = lambda i: RD("mFt", i)
        by = lambda nm: (lambda i: RD(nm, i))
        column = lambda nm: (lambda i: RD(nm, i, j0))
        figures = {
            "figure2_PayoffsAtDMat.pdf": (paths, [
                ("bank asset value of a path", column("FH"), lambda i: RD("LH", i, j0) + RD("face", i, j0) * (T.exp(y * H_) - ONE)),
                ("bank equity of a path", column("FH"), column("EH")), ("bank debt of a path", column("FH"), column("BH"))]),
            "figure3_mVe.pdf": (k, [("bank equity value", aggregate, by("Et"))]),
            "figure4_mdef.pdf": (k, [("default probability", aggregate, by("mdef")), ("Merton default probability", aggregate, merton_default)]),
            "figure5_panel_a_mdefsingles.pdf": (k, [
                ("default probability", aggregate, by("mdef")), ("default probability with a single cohort", aggregate, benchmark(rho, sig)),
                ("default probability with a single borrower", aggregate, benchmark(F_(99, 100), sig * T.sqrt(F_(1, 2)))),
                ("Merton default probability", aggregate, merton_default)]),
            "figure5_panel_b_mertalt.pdf": (k, [
                ("default probability", aggregate, by("mdef")), ("Merton default probability at the model's asset value and volatility", aggregate, implied),
                ("Merton default probability", aggregate, merton_default)])}

        def post(v):
            if not st.get("calls"):
                raise Unsupported("the computation is not called")
            st["calls"] = 0
            i = integer("i")
            # the calibration
            c.eq("eleven parameters", const(len(st["param"])), const(11))
            for nm, x, w in zip(("interest rate", "loan maturity", "loan amount", "bank debt maturity", "bank debt", "correlation", "loan to value", "volatility", "depreciation", "payout", "bailout probability"), st["param"], given):
                c.eq(f"calibration: {nm}", x, w)
            c.eq("calibration: cohorts", st["n"], const(10))
            c.eq("the number of simulated paths asked for", st["sims"], sims)
            c.eq("the published draws", st["seed"], const(1))
            fs = st["fs"]
            fs = N.METHODS["ravel"](fs) if fs.ndim > 1 else fs
            c.prove("33 states of the factor", T.eq(as_poly(fs._shape[0]) - const(33)))
            c.eq("the states of the factor", el(fs, i), (F_(-8, 10) + F_(5, 100) * i) / unit, [T.gt(const(33) - i)])
            # the table
            text, marks = st["text"], st["marks"]
            for label, w in rows.items():
                got = [ln.split(label, 1)[1] for ln in text.split("\n") if label in ln]
                if len(got) != 1:
                    raise Unsupported("the table's row " + label)
                ms = re.findall("\u27e6(\\d+)\u27e7", got[0])
                if len(ms) != 3:
                    raise Unsupported("the table's row " + label)
                for col, m, j in zip(("no shock", "positive shock", "negative shock"), ms, (j0, j0 + const(8), j0 - const(8))):
                    x, spec = marks[int(m)]
                    c.eq(f"table: {label}, {col}", x, w(j))
                    if spec != ".2f":
                        c.fail(f"table: {label}, {col}: two decimals", spec)
            # the figures
            saved = dict(st["canvas"].saved)
            out = "/current directory" if where == "cwd" else "/figures"
            for nm, (n, want) in figures.items():
                if os.path.join(out, nm) not in saved:
                    c.fail(f"{nm} is saved in the directory" + (" given" if where != "cwd" else " one is in"), ", ".join(p for p in saved) or "none")
                    continue
                got = [(V.as_arr(x), V.as_arr(z)) for x, z in saved[os.path.join(out, nm)]]
                got = [(x, z) for x, z in got if not (x.ndim == 1 and V.pconst(x._shape[0]) == 2)]          # lines of two points are guides
                got = [(N.METHODS["ravel"](x), N.METHODS["ravel"](z)) for x, z in got]
                if len(got) != len(want):
                    c.fail(f"{nm} shows {len(want)} series", str(len(got)))
                    continue
                with_i = T.gt(as_poly(n) - i)
                FACTS.push(with_i)
                try:
                    left = list(got)
                    picked = []
                    for what, X, Z in want:
                        fx, fz = X(i), Z(i)
                        hit = next((s for s in left if FACTS.decide(T.conj(T.eq(el(s[0], i) - fx), T.eq(el(s[1], i) - fz))) is True), None)
                        if hit is not None:
                            left = [s for s in left if s is not hit]
                        picked.append(hit)
                    for (what, X, Z), s in zip(want, picked):
                        if s is None:
                            s = left.pop(0)
                        c.prove(f"{nm}: {what}, its points", T.conj(*[T.eq(as_poly(a._shape[0]) - as_poly(n)) for a in s]))
                        c.eq(f"{nm}: {what}, against", el(s[0], i), X(i))
                        c.eq(f"{nm}: {what}", el(s[1], i), Z(i))
                finally:
                    FACTS.stack.remove(with_i)

        fn = c.fn(KEY)

        def call():
            st.clear()
            return fn(Num(sims, "int"), "/figures") if where == "given" else fn()
        c.histories = False
        c.each(call, post, KEY)
        c.frame()
    return thunk


GROUPS = {"C35": [Group("simulate (figures in a given directory)", [KEY], simulation("given")), Group("simulate (by default)", [KEY], simulation("cwd"))]}
