"""C26: isolation forest scores on the real library."""
import itertools
import math
import os
import numpy as np
from .harness import ENV, check, same, need, Violation, Skip, LAYOUTS

IF = "frds.algorithms.isolation_forest"
GAMMA = 0.57721566490153286


def c(n):
    return 2 * (math.log(n - 1) + GAMMA) - 2 * (n - 1) / n


def anomaly(data, *a, **k):
    return ENV.mod(IF, "ext").anomaly_scores(data, *a, **k)


def frame(cols, index=None):
    """cols: [[name, kind, values]]; None stands for a missing number."""
    import pandas as pd
    d = {}
    for name, kind, vals in cols:
        if kind == "s":
            d[name] = pd.Series(list(vals), dtype=object)
        elif kind == "i":
            d[name] = pd.Series([int(v) for v in vals], dtype="int64")
        else:
            d[name] = pd.Series([math.nan if v is None else v for v in vals], dtype="float64")
    f = pd.DataFrame(d)
    if index is not None:
        f.index = index
    return f


TEXTS = ["a", "b", "ab", "ba", "abc", "abd", "", "aba", "zz", "c"]


def gen_cols(rng, n, k, few=False):
    cols = []
    for j in range(k):
        kind = rng.pick(["f", "f", "f", "s", "i"])
        if kind == "s":
            pre = rng.pick(["", "", "", "customer of the southern branch, number "])
            v = [pre + str(rng.pick(TEXTS)) for _ in range(n)]
        elif kind == "i":
            at = rng.pick([0, 0, 0, 2 ** 40])
            v = [at + int(x) for x in rng.integers(-3, 4 if few else 1000, n)]
        else:
            v = [float(x) for x in (rng.integers(0, 3, n) if few and rng.chance(0.5) else np.round(rng.normal(0, 2, n), 3))]
            u = rng.pick([1.0, 1.0, 1.0, 1e-12, 1e15])
            v = [x * u for x in v]
            if rng.chance(0.4):
                v = [None if rng.chance(0.3) else x for x in v]
        cols.append([f"c{j}", kind, v])
    return cols


def less(kind, v, split):
    if kind == "s":
        a, b = v.encode(), split.encode()
        return (len(a), a) < (len(b), b)
    if split is None:
        return v is None
    return v is None or v < split


def vectors(cols, n, ts, limit=60000):
    """All vectors of path lengths that one tree can give the rows."""
    top = math.ceil(math.log2(ts))
    memo = {}

    def grow(sample, h, rows):
        key = (sample, h, rows)
        if key in memo:
            return memo[key]
        m = len(sample)
        if m <= 1 or h >= top:
            v = h + (c(m) if m > 1 else 0.0)
            r = {tuple((i, v) for i in rows)}
        else:
            r = set()
            for _, kind, vals in cols:
                for s in {vals[i] for i in sample}:
                    L = [tuple(i for i in xs if less(kind, vals[i], s)) for xs in (sample, rows)]
                    R = [tuple(i for i in xs if not less(kind, vals[i], s)) for xs in (sample, rows)]
                    for a in grow(L[0], h + 1, L[1]):
                        for b in grow(R[0], h + 1, R[1]):
                            r.add(tuple(sorted(a + b)))
                            if len(r) > limit:
                                raise Skip
        memo[key] = r
        return r
    out = set()
    for sample in itertools.combinations(range(n), min(n, ts)):
        for v in grow(sample, 0, tuple(range(n))):
            out.add(tuple(x for _, x in v))
    return out


def paths(scores, ts):
    s = np.asarray(scores, dtype=float)
    need(bool(np.all((s > 0) & (s <= 1))), f"scores are not in (0, 1]: {s}")
    return -np.log2(s) * c(ts)


def gen_tree(rng, i):
    n = int(rng.integers(1, 6))
    return dict(cols=gen_cols(rng, n, int(rng.integers(1, 4)), True), n=n, ts=int(rng.integers(2, 8)), F=int(rng.pick([1, 1, 2])), seed=int(rng.integers(0, 50)))


@check("C26", "scores of one tree or two: among those the trees can give", gen_tree, 150, thorough=1500)
def run_tree(k):
    if not k["cols"]:
        raise Skip
    V = vectors(k["cols"], k["n"], k["ts"])
    if k["F"] == 2 and len(V) > 3000:
        raise Skip
    got = anomaly(frame(k["cols"]), k["F"], k["ts"], random_seed=k["seed"])
    need(got.shape == (k["n"], 1), f"shape {got.shape}")
    p = paths(got.to_numpy()[:, 0], k["ts"]) * k["F"]
    A = np.array(sorted(V))
    if k["F"] == 1:
        ok = bool(np.any(np.all(np.abs(A - p) < 1e-7, axis=1)))
    else:
        key = {tuple(np.round(v, 5)) for v in A}
        near = lambda v: tuple(np.round(v, 5) + 0.0)
        ok = any(near(p - a) in key for a in A) or any(np.any(np.all(np.abs(A - (p - a)) < 1e-7, axis=1)) for a in A)
    need(ok, f"path lengths {p.tolist()} of {k['F']} tree(s) of size {k['ts']} are none that growing and scoring can give")


def gen_alike(rng, i):
    n = rng.size([1, 2, 3, 5, 7, 8, 9, 15, 17, 40, 100], 600)
    cols = [[nm, kind, [v[0]] * n] for nm, kind, v in gen_cols(rng, 1, int(rng.integers(1, 4)))]
    return dict(cols=cols, n=n, ts=rng.size([2, 3, 4, 5, 8, 16, 31, 256], 600), F=rng.size([1, 2, 3, 7, 8, 9, 16, 33], 150), seed=int(rng.integers(0, 2000)))


@check("C26", "rows that are all alike: the score is known", gen_alike, 100, thorough=1000)
def run_alike(k):
    m, H = min(k["n"], k["ts"]), math.ceil(math.log2(k["ts"]))
    want = 2 ** (-(H + c(m) if m > 1 else 0.0) / c(k["ts"]))
    got = anomaly(frame(k["cols"]), k["F"], k["ts"], random_seed=k["seed"]).to_numpy()[:, 0]
    same("scores of identical rows", got, np.full(k["n"], want))


def gen_meta(rng, i):
    n = rng.size([2, 3, 6, 8, 9, 12, 20, 37, 60], 400)
    cols = gen_cols(rng, n, int(rng.integers(1, 5)), rng.chance(0.5))
    # some rows are copies of others
    for _ in range(n // 3):
        a, b = int(rng.integers(n)), int(rng.integers(n))
        for x in cols:
            x[2][a] = x[2][b]
    return dict(cols=cols, extra=[["x" + nm, kind, v] for nm, kind, v in gen_cols(rng, n, int(rng.integers(1, 3)))], n=n,
                ts=rng.size([2, 3, 4, 8, 16, 64, 256], 400), F=rng.size([1, 3, 8, 10, 25], 120), seed=int(rng.integers(0, 2000)),
                index=rng.pick(["default", "text", "repeated", "shifted"]), first=rng.chance(0.5), cpus=int(rng.integers(1, 6)))


def bent(vals):
    """The values, changed by a transformation that increases strictly (it acts on the ranks)."""
    rank = {v: r for r, v in enumerate(sorted({v for v in vals if v is not None}))}
    return [None if v is None else math.atan(rank[v] / 5 - 3) for v in vals]


@check("C26", "same rows, same seed, columns left out, order and index", gen_meta, 150, thorough=1500)
def run_meta(k):
    import pandas as pd
    n = k["n"]
    ix = {"default": None, "text": [f"r{n - i}" for i in range(n)], "repeated": [i // 2 for i in range(n)], "shifted": list(range(7, 7 + n))}[k["index"]]
    f = frame(k["cols"], ix)
    keep = f.copy(deep=True)
    g = anomaly(f, k["F"], k["ts"], random_seed=k["seed"], name="S")
    need(f.equals(keep), "the caller's frame changed")
    need(list(g.columns) == ["S"] and g.index.equals(f.index) and len(g) == n, "index, order or column name")
    s = g["S"].to_numpy()
    p = paths(s, k["ts"])
    H = math.ceil(math.log2(k["ts"]))
    need(bool(np.all(p <= H + max(0.0, c(k["ts"])) + 1e-9)), "paths longer than the greatest height allows")
    again = anomaly(f, k["F"], k["ts"], random_seed=k["seed"])
    need(list(again.columns) == ["AnomalyScore"], "default column name")
    same("same seed, second call", again.to_numpy()[:, 0], s, rtol=0, atol=0)
    cpus = os.sched_getaffinity(0)
    try:
        os.sched_setaffinity(0, sorted(cpus)[:k["cpus"]])
        fewer = anomaly(f, k["F"], k["ts"], random_seed=k["seed"]).to_numpy()[:, 0]
    finally:
        os.sched_setaffinity(0, cpus)
    same("same seed, fewer processors", fewer, s, rtol=1e-12)
    rows = {}
    for i in range(n):
        key = repr([x[2][i] for x in k["cols"]])
        j = rows.setdefault(key, i)
        need(s[i] == s[j], f"rows {j} and {i} are identical, their scores are {s[j]!r} and {s[i]!r}")
    cols = k["extra"] + k["cols"] if k["first"] else k["cols"] + k["extra"]
    more = frame(cols, ix)
    out = anomaly(more, k["F"], k["ts"], [x[0] for x in k["extra"]], k["seed"]).to_numpy()[:, 0]
    same("columns that are left out have an influence", out, s, rtol=0, atol=0)
    # only the order of the numbers matters
    mono = [[nm, "f", bent(vals)] if kind != "s" else [nm, kind, vals] for nm, kind, vals in k["cols"]]
    same("scores after an increasing transformation of the numbers", anomaly(frame(mono, ix), k["F"], k["ts"], random_seed=k["seed"]).to_numpy()[:, 0], s, rtol=0, atol=0)


def gen_many(rng, i):
    return dict(values=[float(x) for x in rng.normal(0, 1, 64)], ts=int(rng.pick([8, 16])), F=int(rng.integers(20, 40)), seed=int(rng.integers(0, 2000)))


@check("C26", "every tree has draws of its own", gen_many, 10, thorough=60)
def run_many(k):
    f = frame([["x", "f", k["values"]]])
    p = paths(anomaly(f, k["F"], k["ts"], random_seed=k["seed"]).to_numpy()[:, 0], k["ts"])
    H = math.ceil(math.log2(k["ts"]))
    one = sorted({h + (c(m) if m > 1 else 0.0) for h in range(H + 1) for m in range(1, k["ts"] + 1)})
    need(not all(min(abs(x - y) for y in one) < 1e-9 for x in p), f"the {k['F']} trees are all the same")


def gen_threads(rng, i):
    n = rng.size([2, 5, 7, 8, 9, 15, 16, 17, 33, 64], 600)
    return dict(cols=gen_cols(rng, n, int(rng.integers(1, 4))), n=n, ts=rng.size([2, 4, 8, 16], 300), F=rng.size([1, 2, 5, 7, 8, 9, 12, 15, 16, 17, 30], 150), seed=int(rng.integers(0, 200)))


@check("C30", "scores under other numbers of processors, and again", gen_threads, 100, thorough=1000)
def run_threads(k):
    f = frame(k["cols"])
    s = None
    cpus = os.sched_getaffinity(0)
    try:
        for m in list(range(1, len(cpus) + 1)) + [len(cpus)] * 3:
            os.sched_setaffinity(0, sorted(cpus)[:m])
            x = anomaly(f, k["F"], k["ts"], random_seed=k["seed"]).to_numpy()[:, 0]
            if s is None:
                s = x
            same(f"scores with {m} processors, and with one", x, s, rtol=1e-12)
    finally:
        os.sched_setaffinity(0, cpus)


check("C30", "the trees are not all the same", gen_many, 10, thorough=60)(run_many)
