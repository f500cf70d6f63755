"""C31: the bundled stock returns on the real library."""
import csv
import datetime
import importlib
import io
import os
import sys
import tempfile
import zipfile
import numpy as np
from .harness import check, need, Violation

TICKERS = ["GOOGL", "GS", "JPM", "^GSPC"]
_file = {}


def fresh():
    """The package, imported anew."""
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "frds" or k.startswith("frds.")}
    try:
        m = importlib.import_module("frds.datasets")
        return m
    finally:
        for k in [k for k in sys.modules if k == "frds" or k.startswith("frds.")]:
            del sys.modules[k]
        sys.modules.update(saved)


def stored(m):
    """What the file contains, read without pandas."""
    p = os.path.join(os.path.dirname(m.__file__), "stocks_us.csv.zip")
    if p not in _file:
        with zipfile.ZipFile(p) as z:
            (nm,) = z.namelist()
            rows = list(csv.reader(io.TextIOWrapper(z.open(nm), newline="")))
        k = rows[0].index("Date")
        cols = rows[0][:k] + rows[0][k + 1:]
        dates = [datetime.datetime.fromisoformat(r[k]) for r in rows[1:]]
        vals = np.array([[float(x) for x in r[:k] + r[k + 1:]] for r in rows[1:]])
        _file[p] = cols, np.array(dates, dtype="datetime64[ns]"), vals
    return _file[p]


def matches(what, f, m):
    import pandas as pd
    cols, dates, vals = stored(m)
    need(isinstance(f, pd.DataFrame), f"{what}: not a DataFrame but {type(f).__name__}")
    need(list(f.columns) == cols, f"{what}: columns {list(f.columns)}, expected {cols}")
    need(f.index.name == "Date" and str(f.index.dtype).startswith("datetime64"), f"{what}: the index is {f.index.name!r} of {f.index.dtype}, expected dates")
    need(len(f) == len(dates), f"{what}: {len(f)} rows, expected {len(dates)}")
    need(bool((f.index.values == dates).all()), f"{what}: the dates are not the file's")
    x = f.to_numpy(dtype=float)
    bad = np.argwhere(~np.isclose(x, vals, rtol=1e-9, atol=1e-13))
    if len(bad):
        i, j = (int(v) for v in bad[0])
        raise Violation(f"{what}: {cols[j]} on {str(dates[i])[:10]} is {x[i, j]!r}, the file has {vals[i, j]!r}")


def scale(f):
    f *= 100


def add(f):
    f["excess"] = f.iloc[:, 0] - f.iloc[:, -1]


def drop(f):
    f.drop(columns=[f.columns[0]], inplace=True)


def order(f):
    f.sort_index(ascending=False, inplace=True)


def blank(f):
    f.iloc[:, :] = np.nan


def rename(f):
    f.columns = [c.strip("^").lower() for c in f.columns]


def reindex(f):
    f.reset_index(inplace=True)


def shorten(f):
    f.drop(index=f.index[:100], inplace=True)


def memory(f):
    for x in (f.to_numpy(), f.values, f.iloc[:, 0].to_numpy()):
        if x.flags.writeable:
            x[...] = 0.5


def index_name(f):
    f.index.name = "day"


EDITS = dict(scale=scale, add=add, drop=drop, order=order, blank=blank, rename=rename, reindex=reindex, shorten=shorten, memory=memory, index_name=index_name)


def gen(rng, i):
    names = sorted(EDITS)
    steps = []
    for _ in range(int(rng.integers(1, 5))):
        steps.append(str(rng.pick(["read", "edit", "edit", "instance", "elsewhere"])))
        if steps[-1] == "edit":
            steps[-1] = str(rng.pick(names))
    if i < len(names):
        steps.insert(0, names[i])
    first = str(rng.pick(names + ["read"] * 4 + ["elsewhere"] * 2))
    return dict(steps=steps, first=first)


@check("C31", "every access gives the bundled data", gen, 40, thorough=300)
def accesses(x):
    m = fresh()
    obj = m.StockReturns
    done = []
    if x["first"] == "elsewhere":
        here = os.getcwd()
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                f = obj.stocks_us
            finally:
                os.chdir(here)
    else:
        f = obj.stocks_us
    matches("first access", f, m)
    if x["first"] in EDITS:
        try:
            EDITS[x["first"]](f)
        except (ValueError, KeyError):
            pass
        done.append(x["first"] + " of the first frame")
    for s in x["steps"]:
        if s == "instance":
            obj = type(m.StockReturns)()
        elif s == "elsewhere":
            here, m2 = os.getcwd(), fresh()
            with tempfile.TemporaryDirectory() as d:
                os.chdir(d)
                try:
                    matches("first access from another directory", m2.StockReturns.stocks_us, m)
                    matches("access from another directory", obj.stocks_us, m)
                finally:
                    os.chdir(here)
        elif s != "read":
            try:
                EDITS[s](obj.stocks_us)
            except (ValueError, KeyError):      # a read-only frame
                pass
        done.append(s)
        matches("access after " + ", ".join(done), obj.stocks_us, m)
        matches("access to the exported object after " + ", ".join(done), m.StockReturns.stocks_us, m)


@check("C31", "the file holds the documented series", lambda rng, i: dict(), 1, thorough=1)
def documented(x):
    cols, dates, vals = stored(fresh())
    need(sorted(cols) == sorted(TICKERS), f"tickers {cols}, documented {TICKERS}")
    need(bool((np.diff(dates).astype("int64") > 0).all()), "the dates are not increasing")
    need(str(dates[0])[:4] == "2010" and str(dates[-1])[:4] == "2022", f"from {str(dates[0])[:10]} to {str(dates[-1])[:10]}, documented 2010 to 2022")
    gaps = np.diff(dates).astype("timedelta64[D]").astype(int)
    need(int(gaps.max()) <= 5, f"{int(gaps.max())} days without a return")
    need(bool(np.isfinite(vals).all()) and float(np.abs(vals).max()) < 0.5 and float(vals.min()) > -1, "values that are no daily returns")
