"""C31: the bundled stock returns."""
import os
import types
from ..contract import *

DS = "frds.datasets._stocks"


class Store:
    """Memory of a frame: what it contains."""

    def __init__(self, content):
        self.content = content


class Frame:
    """A pandas DataFrame that was read from a file, by contract: its content and what it shares memory with."""

    def __init__(self, store):
        self.store = store

    def copy(self, deep=True):
        if deep not in (True, False):
            raise Unsupported("DataFrame.copy")
        return Frame(Store(self.store.content) if deep else self.store)

    def set_index(self, keys, drop=True, append=False, inplace=False, verify_integrity=False):
        tag, path, ix, dates = self.store.content
        if ix is not None or drop is not True or append or inplace:
            raise Unsupported("DataFrame.set_index")
        k = position(keys, self.columns_)
        return Frame(Store((tag, path, k[0] if isinstance(k, tuple) and len(k) == 1 else k, dates)))

    def __copy__(self):
        return Frame(self.store)

    def __deepcopy__(self, memo):
        return Frame(Store(self.store.content))

    def __len__(self):
        raise Unsupported("len of a DataFrame")

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")

    def __getattr__(self, k):
        if k.startswith("__") or k == "contract_loop":
            raise AttributeError(k)
        raise Unsupported("DataFrame." + k)

    def __setitem__(self, k, v):
        raise Unsupported("writing to a DataFrame")

    def __getitem__(self, k):
        raise Unsupported("selecting from a DataFrame")


def header(path):
    import zipfile
    with zipfile.ZipFile(path) as z:
        (name,) = z.namelist()
        with z.open(name) as f:
            return f.readline().decode().strip().split(",")


def position(x, cols):
    """Positions of columns named or numbered in the argument of read_csv."""
    if isinstance(x, Num):
        x = x.p.const() if x.p.const() is not None else x
        x = int(x) if x == int(x) else x
    if isinstance(x, (list, tuple)):
        return tuple(position(y, cols) for y in (list.__iter__(x) if isinstance(x, list) else x))
    if isinstance(x, str):
        if x not in cols:
            raise Unsupported("column " + x)
        return cols.index(x)
    if isinstance(x, int) and not isinstance(x, bool):
        return x % len(cols)
    raise Unsupported("columns given to read_csv")


def bundled(c):
    RT.assume_note("pandas", "read_csv(path, index_col=, parse_dates=) returns a new frame of the file's rows in order; copy() is one that shares nothing")
    here = os.path.join(c.L.src, "frds", "datasets")
    want = os.path.join(here, "stocks_us.csv.zip")
    cols = Frame.columns_ = header(want)
    if "Date" not in cols:
        raise Unsupported("the file has no column Date")
    date = cols.index("Date")

    def read_csv(filepath_or_buffer, index_col=None, parse_dates=None, **kw):
        inert = dict(sep=",", delimiter=None, header=("infer", 0), compression=("infer", "zip"), engine=("c", None), encoding=("utf-8", None), low_memory=(True, False),
                     memory_map=(True, False))
        for k, v in kw.items():
            ok = inert.get(k, ())
            v = int(v.p.const()) if isinstance(v, Num) and v.p.const() is not None else v
            if not (v == ok or isinstance(ok, tuple) and v in ok):
                raise Unsupported("read_csv(%s=)" % k)
        p = filepath_or_buffer
        if not isinstance(p, (str, os.PathLike)):
            raise Unsupported("path of the file")
        p = os.fspath(p)
        ix = None if index_col is None or index_col is False else position(index_col, cols)
        if isinstance(ix, tuple) and len(ix) == 1:
            ix, = ix
        if parse_dates is True:
            dates = (ix,) if isinstance(ix, int) else ix or ()
        elif parse_dates is False or parse_dates is None:
            dates = ()
        else:
            dates = position(parse_dates, cols)
            if not isinstance(dates, tuple) or not all(isinstance(x, int) for x in dates):
                raise Unsupported("read_csv(parse_dates=)")
        return Frame(Store(("file", os.path.normpath(p) if os.path.isabs(p) else "relative to the working directory: " + p, ix, tuple(sorted(dates)))))

    c.histories = False      # every history is examined here
    c.L.std["pandas"].read_csv = read_csv
    good = ("file", os.path.normpath(want), date, (date,))
    K = DS + ":_StockReturns.stocks_us"

    def state():
        """What the module and its objects hold of frames."""
        m = c.L.mods[DS]
        out, seen = [], set()

        def go(v, nm, d):
            if isinstance(v, Frame):
                out.append((nm, v.store))
            elif d < 5 and isinstance(v, (dict, list, tuple)):
                if id(v) not in seen:
                    seen.add(id(v))
                    for k, x in (dict.items(v) if isinstance(v, dict) else enumerate(list.__iter__(v) if isinstance(v, list) else v)):
                        go(x, f"{nm}.{k}", d + 1)
            elif d < 5 and (getattr(type(v), "_frds_class", False) or isinstance(v, type) and getattr(v, "_frds_class", False)) and id(v) not in seen:
                seen.add(id(v))
                for k, x in dict(v.__dict__).items():
                    go(x, f"{nm}.{k}", d + 1)
        for k, x in m.__dict__.items():
            if not k.startswith("__") and k != "_rt_":
                go(x, k, 0)
        return out

    def call():
        obj = c.fn(DS + ":StockReturns")
        got = []
        states = []
        for turn in range(6):
            fr = obj.stocks_us
            if not isinstance(fr, Frame):
                raise Unsupported("what stocks_us returns")
            got.append(fr.store.content)
            fr.store.content = "whatever the caller left in it"
            now = tuple((nm, st.content) for nm, st in state())
            if now in states:
                break
            states.append(now)
        else:
            raise Unsupported("the state of the data set never recurs")
        return tuple(got)

    def post(v):
        c.prove("the first access reads the bundled file, indexed by its dates", TRUE if v[0] == good else FALSE)
        c.prove("every later access gives the same data, whatever callers did to the frames they got", TRUE if all(x == good for x in v[1:]) else FALSE)

    c.each(call, post, K)

    def other():
        obj = c.fn(DS + ":StockReturns")
        obj.stocks_us.store.content = "whatever the caller left in it"
        new = type(obj)()
        first = new.stocks_us
        a = first.store.content
        first.store.content = "whatever the caller left in it"
        return a, obj.stocks_us.store.content

    def post2(v):
        c.prove("another instance gives the same data", TRUE if v[0] == good else FALSE)
        c.prove("and so does the first one afterwards", TRUE if v[1] == good else FALSE)
    c.each(other, post2, K)


GROUPS = {"C31": [Group("stocks_us", [DS + ":_StockReturns.stocks_us", DS + ":SingletonMeta.__call__"], bundled)]}
