"""Runs the real code on generated inputs and compares it with the contract's executable form.

Used (1) to replay a failed obligation on the real code, (2) to validate the trusted part of the
verifier (the extraction, the contracts assumed of numpy) on concrete runs, and (3) as the bounded
stand-in for functions outside the verifier's reach.  Runs under the interpreter the library is
installed for, on sources and extensions built from /repo's current tree.
"""
import argparse
import importlib
import json
import os
import random
import re
import sys
import time
import traceback
import warnings
import numpy as np

EXTS = ("frds.algorithms.utils.utils_ext", "frds.measures.measures_ext")


class Violation(Exception):
    pass


class Skip(Exception):
    """The drawn input is outside the precondition."""


# ------------------------------------------------------------------ the two builds of the library
class Env:
    """`ext`: with the compiled extensions; `pure`: with the Python fallbacks."""

    def __init__(self):
        self.cache = {}
        self.mode = "ext"

    def load(self, mode):
        if mode in self.cache:
            return self.cache[mode]
        saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "frds" or k.startswith("frds.")}
        try:
            if mode == "pure":
                for e in EXTS:
                    sys.modules[e] = None
            for m in ("frds", "frds.algorithms", "frds.measures", "frds.measures.spread", "frds.measures.price_impact",
                      "frds.measures.lob_slope", "frds.algorithms.isolation_forest",
                      "frds.measures.modified_merton.loan_payoff", "frds.measures.modified_merton.find_face_value_indiv",
                      "frds.measures.modified_merton.merton_solution", "frds.measures.modified_merton.mod_merton_computation",
                      "frds.measures.modified_merton.mod_single_cohort_computation"):
                try:
                    importlib.import_module(m)
                except Exception as e:      # a module of another property may be broken
                    self.errors = getattr(self, "errors", {})
                    self.errors[(mode, m)] = repr(e)
            mods = {k: v for k, v in sys.modules.items() if k == "frds" or k.startswith("frds.")}
        finally:
            for k in [k for k in sys.modules if k == "frds" or k.startswith("frds.")]:
                del sys.modules[k]
            sys.modules.update(saved)
        self.cache[mode] = mods
        return mods

    def mod(self, name, mode=None):
        mods = self.load(mode or self.mode)
        if name not in mods or mods[name] is None:
            saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "frds" or k.startswith("frds.")}
            try:
                sys.modules.update(mods)
                importlib.import_module(name)
                mods.update({k: v for k, v in sys.modules.items() if k == "frds" or k.startswith("frds.")})
            finally:
                for k in [k for k in sys.modules if k == "frds" or k.startswith("frds.")]:
                    del sys.modules[k]
                sys.modules.update(saved)
        return mods[name]

    def alg(self, mode=None):
        return self.mod("frds.algorithms", mode)

    def meas(self, mode=None):
        return self.mod("frds.measures", mode)


ENV = Env()


# ------------------------------------------------------------------ comparing
def close(a, b, rtol=1e-8, atol=1e-10):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    return bool(np.all(ok))


def short(x):
    s = np.array2string(np.asarray(x), threshold=12, precision=10) if isinstance(x, np.ndarray) else repr(x)
    return s if len(s) < 400 else s[:400] + "..."


def same(what, got, want, rtol=1e-8, atol=1e-10):
    try:
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    except Exception:
        raise Violation(f"{what}: not numeric: {short(got)}")
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if not close(g, w, rtol, atol):
        if g.ndim:
            with np.errstate(all="ignore"):
                bad = np.argwhere(~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
            i = tuple(int(v) for v in bad[0])
            raise Violation(f"{what}: at {i} got {g[i]!r}, expected {w[i]!r}")
        raise Violation(f"{what}: got {float(g)!r}, expected {float(w)!r}")


def need(cond, what):
    if not cond:
        raise Violation(what)


# ------------------------------------------------------------------ inputs
LAYOUTS = ("plain", "strided", "reversed", "f32", "int", "readonly", "fortran")


def layout(x, kind):
    """The same numbers in another memory layout / dtype (integers are rounded)."""
    x = np.array(x, dtype=float)
    if kind == "strided":
        big = np.full((x.shape[0] * 2,) + x.shape[1:], 7.7)
        big[::2] = x
        return big[::2]
    if kind == "reversed":
        return x[::-1].copy()[::-1]
    if kind == "f32":
        return x.astype(np.float32)
    if kind == "int":
        return np.round(x * 3).astype(np.int64)
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if kind == "fortran" and x.ndim == 2:
        return np.asfortranarray(x)
    if kind == "column":
        big = np.full(x.shape + (3,), -3.3)
        big[..., 1] = x
        return big[..., 1]
    return x


def enc(x):
    if isinstance(x, np.ndarray):
        return {"__nd__": x.tolist(), "dtype": str(x.dtype), "shape": list(x.shape)}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    return x


def dec(x):
    if isinstance(x, dict):
        if "__nd__" in x:
            return np.array(x["__nd__"], dtype=x["dtype"]).reshape(x["shape"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


class Rng(np.random.Generator):
    def pick(self, seq):
        return seq[int(self.integers(len(seq)))]

    def chance(self, p):
        return bool(self.random() < p)

    def size(self, seq, cap=2500, p=0.15):
        """One of the sizes in `seq`; sometimes a larger one, up to `cap`: just past (or a few times) an
        integer written in the sources of the property (a fuzzer's dictionary), or an arbitrary one."""
        if not self.chance(p):
            return int(self.pick(seq))
        known = [k for k in dictionary() if k < cap]
        if cap >= 2500:
            known += narrow()
            cap = max([cap] + [2 * k for k in narrow()])
        if known and self.chance(0.7):
            k = self.pick(known)
            return int(min(cap, k * self.pick([1, 1, 1, 2]) + self.pick([0, 1, 1, 2, int(self.integers(0, 60))])))
        return int(min(cap, self.pick([130, 257, 400, 700, 1025, 2100, 4100]) + int(self.integers(0, 40))))


PID = None
_dictionary = {}


def dictionary():
    """The integer constants (16..6000) in the source files the property is anchored in."""
    if PID not in _dictionary:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        src = os.path.dirname(os.environ.get("FRDSV_SRC", "/repo/src"))
        files = []
        for ln in open(os.path.join(here, "properties.jsonl")):
            r = json.loads(ln)
            if r["id"] == PID:
                files = r["anchors"]["files"]
        out, small = set(), set()
        for f in files:
            try:
                text = open(os.path.join(src, f), encoding="utf-8", errors="replace").read()
            except OSError:
                continue
            for m in re.findall(r"(?<![\w.])(\d[\d_']*)(?:[eE]\+?(\d))?(?![\w.])", text):
                try:
                    out.add(int(m[0].replace("_", "").replace("'", "")) * 10 ** int(m[1] or 0))
                except ValueError:
                    pass
            small |= {128, 256} if re.search(r"\b(u?int8(_t)?|char)\b", re.sub(r"char\s*\*", "", text)) else set()
            small |= {32768, 65536} if re.search(r"\b(u?int16(_t)?|short)\b", re.sub(r"[\"'#].*|//.*", "", text)) else set()
        _dictionary[PID] = sorted(k for k in out | small if 16 <= k <= 6000)
        _dictionary[PID, "narrow"] = sorted(k for k in small if k > 6000)
    return _dictionary[PID]


def narrow():
    """Limits of the narrow integer types the sources name: lengths past them wrap around."""
    dictionary()
    return [k for k in _dictionary[PID, "narrow"]]


# ------------------------------------------------------------------ checks
CHECKS = {}


def check(pid, name, gen, n=20, thorough=None, special=()):
    """Registers run(inputs) with gen(rng, i) -> inputs."""
    def deco(run):
        CHECKS.setdefault(pid, []).append(dict(name=name, gen=gen, run=run, n=n, thorough=thorough or n * 8, special=special))
        return run
    return deco


def call_check(c, inputs):
    """None if fine, a message if violated."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                c["run"](inputs)
    except Violation as e:
        return str(e)
    except Skip:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if "/frds/" in f.filename or f.filename.endswith(".so")]
        where = inrepo[-1] if inrepo else tb[-1]
        if not inrepo and "frdsv_rt" in tb[-1].filename and not isinstance(e, (TypeError, AttributeError, ImportError, KeyError, ValueError, IndexError)):
            raise
        return f"raised {type(e).__name__}: {e} ({os.path.basename(where.filename)}:{where.lineno} in {where.name})"
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--replay")
    ap.add_argument("--progress")
    ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--extra", type=float, default=15)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    global PID
    from . import load_all
    load_all()
    from . import harness
    PID = harness.PID = a.pid                     # this module may be running as __main__
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, skipped=0, violations=[], samples=[], checks={}, truncated=False)
    if a.replay:
        r = json.load(open(a.replay))
        c = [c for c in CHECKS[a.pid] if c["name"] == r["check"]][0]
        msg = call_check(c, dec(r["inputs"]))
        res["evaluations"] = 1
        if msg:
            res["violations"].append(dict(check=c["name"], inputs=r["inputs"], message=msg))
        json.dump(res, open(a.out, "w"))
        return
    seen = set()
    limits = {c["name"]: int((c["thorough"] if a.tier == "thorough" else c["n"]) * a.scale) for c in CHECKS.get(a.pid, [])}
    # the second round draws further inputs of the cheap checks, within a time of its own
    for rnd, until in ((0, a.budget), (1, min(a.budget, a.extra))):
        for c in CHECKS.get(a.pid, []):
            n = limits[c["name"]]
            start, end = (-len(c["special"]), n) if rnd == 0 else (n, 4 * n)
            if c["name"] in [v["check"] for v in res["violations"]]:
                continue
            t1 = time.time()
            for i in range(start, end):
                now = time.time()
                if now - t0 > a.budget:
                    res["truncated"] = True
                    break
                if rnd == 1 and (now - t0 > until or now - t1 > until / len(limits)):
                    break
                rng = Rng(np.random.PCG64([a.seed, int.from_bytes(c["name"].encode(), "little") % (2 ** 31), i + 1000]))
                inputs = c["special"][i + len(c["special"])] if i < 0 else c["gen"](rng, i)
                e = enc(inputs)
                if a.progress:
                    json.dump(dict(check=c["name"], inputs=e), open(a.progress, "w"))
                try:
                    msg = call_check(c, inputs)
                except Skip:
                    res["skipped"] += 1
                    continue
                res["evaluations"] += 1
                res["checks"][c["name"]] = res["checks"].get(c["name"], 0) + 1
                key = hash(c["name"] + json.dumps(e, sort_keys=True, default=str))
                if key not in seen:
                    seen.add(key)
                    res["distinct"] += 1
                    if res["checks"][c["name"]] == 1 and len(res["samples"]) < 4:
                        s = json.dumps(e, default=str)
                        res["samples"].append(dict(check=c["name"], inputs=e if len(s) < 1500 else s[:1500]))
                if msg:
                    res["violations"].append(dict(check=c["name"], inputs=e, message=msg))
                    break
    res["wall_s"] = time.time() - t0
    json.dump(res, open(a.out, "w"))


if __name__ == "__main__":
    main()
