"""C05: the library with and without its compiled extensions, on the same inputs."""
import math
import numpy as np
from .harness import ENV, check, same, need, layout, LAYOUTS, Violation, Skip
from .p_garch import gen_var, gen_r, gen_guard
from .p_fits import gen_dcc, dcc_model
from .p_lrmes import gen_path, gen_estimate, prepared, ref_path, model


def both(f, c):
    r = []
    for m in ("ext", "pure"):
        try:
            r.append(f(dict(c, mode=m)))
        except (ValueError, TypeError, IndexError, ZeroDivisionError, OverflowError, RuntimeError) as e:
            r.append(e)
    x, y = r
    if isinstance(x, Exception) or isinstance(y, Exception):
        if isinstance(x, Exception) and isinstance(y, Exception):
            raise Skip
        raise Violation("only the %s code raised %r" % (("compiled", x) if isinstance(x, Exception) else ("pure-Python", y)))
    return x, y


def run_var(cls):
    def run(c):
        def f(c):
            A = getattr(ENV.alg(c["mode"]), cls)
            return A.compute_variance(list(c["params"]) if c["aslist"] else np.array(c["params"]), layout(c["resids"], c["layout"]), c["backcast"], layout(c["bounds"], c["vlayout"]))
        x, y = both(f, c)
        same("variance, compiled and not", x, y, rtol=1e-9)
    return run


check("C05", "GARCH variances", gen_var("garch"), 80)(run_var("GARCHModel"))
check("C05", "GJR-GARCH variances", gen_var("gjr"), 80)(run_var("GJRGARCHModel"))


@check("C05", "EWMA", gen_r, 80)
def run_ewma(c):
    def f(c):
        a = [layout(c["resids"], c["layout"]), c["s0"]] + ([] if c["default"] else [c["lam"]])
        return getattr(ENV.alg(c["mode"]), c["cls"]).ewma(*a)
    x, y = both(f, c)
    same("EWMA, compiled and not", x, y, rtol=1e-9)


@check("C05", "variance bounds and backcast", gen_r, 40)
def run_vb(c):
    A = lambda c: getattr(ENV.alg(c["mode"]), c["cls"])
    x, y = both(lambda c: A(c).variance_bounds(layout(c["resids"], c["layout"])), c)
    same("variance bounds, compiled and not", x, y, rtol=1e-9)
    x, y = both(lambda c: A(c).backcast(layout(c["resids"], c["layout"])), c)
    same("backcast, compiled and not", x, y, rtol=1e-9)


@check("C05", "variance guard", gen_guard, 200)
def run_guard(c):
    def f(c):
        b = [c["lo"], c["hi"]]
        return getattr(ENV.alg(c["mode"]), c["cls"]).bounds_check(c["v"], b if c["layout"] == "list" else layout(b, c["layout"]))
    x, y = both(f, c)
    same("guard, compiled and not", x, y, rtol=1e-12)


@check("C05", "DCC correlations", gen_dcc, 120)
def run_dcc(c):
    x, y = both(lambda c: dcc_model(c).conditional_correlations(c["a"], c["b"]), c)
    same("conditional correlations, compiled and not", x, y, rtol=1e-7, atol=1e-9)


@check("C05", "simulated path", gen_path, 300)
def run_path(c):
    ref_path(np.array(c["innov"]).tolist(), c["C"], c["fv"], c["mv"], c["fr"], c["mr"], c["a"], c["b"], c["rho"], c["qbar"], c["mi"], c["mm"])     # outside the domain: Skip

    def f(c):
        args = [layout(np.array(c["innov"]), c["layout"]), c["C"], c["fv"], c["mv"], c["fr"], c["mr"], c["a"], c["b"], c["rho"], np.array([[1.0, c["qbar"]], [c["qbar"], 1.0]])]
        return ENV.mod("frds.measures.measures_ext", "ext").simulation(*args, *c["mi"], *c["mm"]) if c["mode"] == "ext" else model(c).simulation(*args)
    x, y = both(f, c)
    need(bool(x[1]) == bool(y[1]), "systemic event in one of them only")
    same("firm return, compiled and not", x[0], y[0], rtol=1e-7, atol=1e-9)


@check("C05", "LRMES from given estimates", gen_estimate, 30)
def run_estimate(c):
    x, y = both(lambda c: prepared(c).estimate(h=c["h"], S=c["S"], C=c["C"], random_seed=c["seed"]), c)
    same("LRMES, compiled and not", x, y, rtol=1e-6, atol=1e-9)
