"""C26: the isolation forest."""
import os
import types
from ..contract import *
from .. import cppclass as X
from ..cppclass import Machine, Program, Vec, D, Obj, Grown, Ref, NULL, Engine

CPP = "frds/algorithms/isolation_forest/iforest_module.cpp"
IF = "frds.algorithms.isolation_forest"
EULER = const(T.F(repr(0.57721566490153286)))
T.FUN_PROPS["path"] = {"nonneg": True}       # lemma "path lengths are not negative"


def average(n):
    return const(2) * (T.log(n - ONE) + EULER) - const(2) * (n - ONE) / n


def setting(c):
    p, q, n, F, ts, seed = [integer(x) for x in ("n_numeric", "n_character", "n_rows", "forest_size", "tree_size", "random_seed")]
    for b in (T.gt(p + q), T.gt(F), T.gt(ts - ONE), T.gt(n)):
        FACTS.push(b)
    RT.assume_note("isolation forest", "at least one column and one row, forest_size >= 1, tree_size >= 2, random_seed >= 0")
    for x in (F, ts - ONE, n):
        T.CTX.add_pos(x)
    num, char, out = X.Arr("num", (p, n), "double"), X.Arr("char", (q, n), "char"), X.Arr("out", (n,), "double")
    path = os.path.join(c.L.src, CPP)
    prog = Program(path)
    d = os.path.dirname(path)
    import hashlib
    for f in sorted(os.listdir(d)):
        if f.endswith((".cpp", ".hpp", ".h")):
            c.L.hashes["isolation_forest/" + f] = hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()[:16]
    rec = [prog.defs[i] for i in prog.recursive()]
    grow = [d for d in rec if d["type"]["qualType"].startswith("void ")]
    path = [d for d in rec if d["type"]["qualType"].startswith("double ")]
    if len(grow) != 1 or len(path) != 1 or len(rec) != 2 or list(prog.tables) != ["iforest"]:
        raise Unsupported("one recursive function that grows nodes and one that measures paths expected")
    return types.SimpleNamespace(p=p, q=q, n=n, F=F, ts=ts, seed=seed, num=num, char=char, out=out, prog=prog, grow=grow[0], path=path[0])


def roles(d, want):
    """Positions of the parameters of these types."""
    out = {}
    for i, x in enumerate(X.params(d)):
        t = X.qt(x)
        k = "vec" if "vector<" in t else "node" if "unique_ptr<" in t or "Node" in t else "engine" if "mt19937" in t else "int" if X.INT.match(X.tname(t)) else t
        if k == "int" and k in out:
            k = "int2"
        if k in out:
            raise Unsupported(f"parameters of {d.get('name')}")
        out[k] = i
    if set(out) != set(want):
        raise Unsupported(f"parameters of {d.get('name')}")
    return out


def rows_in_range(M, s, c, v):
    """Every element of the container is a row of the data."""
    k = T.fresh("k", isint=True, nonneg=True)
    if v.picked:
        kk, lo, hi, cases = v.picked
        vals = [(x, [cond, T.ge(kk - lo), T.gt(hi - kk)]) for cond, p in cases for x in p]
    else:
        with core.under(T.gt(v.n - k)):
            n0 = len(FACTS.stack)
            x = M.element(v, k)
            vals = [(x, [T.gt(v.n - k)] + FACTS.stack[n0:])]
            del FACTS.stack[n0:]
    for x, h in vals:
        c.prove("a sample consists of rows of the data", T.conj(T.ge(x), T.gt(s.n - x)), h)


def contracts(c, s, M, calls):
    """The two recursive functions by contract; `calls` records their calls."""
    gr, pr = roles(s.grow, {"vec", "node", "int", "engine"}), roles(s.path, {"int", "node", "int2"})

    def grow(M, d, this, a):
        if len(a) != 4 or not isinstance(a[gr["node"]], Ref):
            raise Unsupported("call of the function that grows nodes")
        v, h, e = M.val(a[gr["vec"]]), M.val(a[gr["int"]]), M.val(a[gr["engine"]])
        rows_in_range(M, s, c, v)
        c.prove("heights are not negative", T.ge(h))
        t = T.App("grown", v.term, h, e.seed, const(e.pos)) if v.term is not None else T.Var(f"child{len(calls['grow'])}")
        calls["grow"].append(types.SimpleNamespace(this=this, vec=v, height=h, engine=e, loc=a[gr["node"]].loc, term=t, mem=dict(M.mem)))
        M.store(a[gr["node"]].loc, Grown(t))
        return X.VOID

    def path(M, d, this, a):
        if len(a) != 3:
            raise Unsupported("call of the function that measures paths")
        ob, node, l = M.val(a[pr["int"]]), M.val(a[pr["node"]]), M.val(a[pr["int2"]])
        if not isinstance(node, Grown):
            if node is NULL:
                c.prove("only trees that were grown are scored", FALSE)
            raise Unsupported("path through a node that was not grown")
        c.prove("rows scored are rows of the data", T.conj(T.ge(ob), T.gt(s.n - ob)))
        calls["path"].append(types.SimpleNamespace(this=this, ob=ob, node=node, length=l))
        return D(l + T.App("path", ob, node.term))
    M.contracts = {s.prog.first[s.grow["id"]]: grow, s.prog.first[s.path["id"]]: path}
    return gr, pr


def wrapper(c, s):
    M = Machine(s.prog, c)
    M.given = [s.num, s.char, s.out, s.F, s.ts, s.seed]
    calls = dict(grow=[], path=[])
    contracts(c, s, M, calls)
    d = s.prog.definition(s.prog.tables["iforest"])
    outs = M.explore(lambda: M.call(d, None, [NULL, NULL]))
    return M, calls, outs


def scores(c):
    s = setting(c)
    M, calls, outs = wrapper(c, s)
    g = calls["grow"]
    if not g:
        raise Unsupported("no tree is grown")
    g = g[-1]
    ks = [a for a in T.free_atoms(g.term) if a.kind == "var" and str(a.args[0]).startswith("k!")]
    if len(ks) != 1:
        raise Unsupported("trees that do not depend on their index alone")
    tree = lambda t: T.subst(g.term, {ks[0]: as_poly(t)})
    c.eq("trees are grown from height 0", g.height, ZERO)
    if g.vec.term is None:
        raise Unsupported("sample of a tree")
    want = T.App("sample", g.engine.seed, const(0), s.ts, T.lam(s.n, lambda j: as_poly(j)))
    a, b = integer("tree"), integer("other tree")
    c.prove("every tree has a random state of its own", T.neg(T.eq(T.subst(g.engine.seed, {ks[0]: a}) - T.subst(g.engine.seed, {ks[0]: b}))), [T.neg(T.eq(a - b))])
    c.prove("a tree is grown on tree_size rows drawn from all rows without replacement", TRUE if g.vec.term == want else FALSE)
    for pc, mem, r, running in outs:
        M.mem, M.running = mem, running
        with core.under(*pc):
            c.prove("the threads have ended when the function returns", FALSE if running else TRUE)
            v = mem.get(("a", "out"))
            if v is None:
                c.prove("the scores are written", FALSE)
                continue
            k = integer("row")
            with core.under(T.gt(s.n - k)):
                x = M.written(v, k)
                spec = T.exp(-T.log(const(2)) * T.Sum(s.F, lambda t: T.App("path", k, tree(t))) / s.F / average(s.ts))
                c.lemma("c(tree_size) is positive", T.gt(average(s.ts)))
                c.eq("score of a row: 2^(-average path length / c(tree_size))", x.p, spec)
                c.prove("a score is a number", T.neg(x.nan))
                c.prove("scores lie in (0, 1]", T.conj(T.gt(x.p), T.ge(ONE - x.p)))
                free = {a.args[0] for a in X.atoms(x) if a.kind == "var"}
                c.prove("scores do not depend on the number of threads", FALSE if "hardware_concurrency" in free else TRUE)


def schedule(c):
    """Threads of disjoint footprints: what the scores depend on besides the rows, sizes and seed.

    Each thread's body is executed once, for an arbitrary thread; its writes are elements of its own range,
    the ranges are shown to be disjoint and to cover the container, it writes nothing else that was there when
    it was made, reads nothing that is written while it runs, keeps no reference to a variable that goes before
    it, and is joined before what it wrote is read.  By the rule for disjoint parallel composition every
    interleaving ends in the state that the execution in order ends in."""
    keep = ("the threads", "every element is written", "scores do not depend", "every tree has a random state", "what is written")
    try:
        scores(c)
    finally:
        for log in (c.obs, RT.obligations):
            log[:] = [o for o in log if o.kind == "structure" or o.name.startswith(keep)]


def less(a, b):
    """Order of texts: shorter ones first, of equal length by their bytes."""
    size = T.Var("itemsize", isint=True, nonneg=True)
    la, lb = T.App("strnlen", a, size), T.App("strnlen", b, size)
    return T.disj(T.gt(lb - la), T.conj(T.eq(la - lb), T.gt(-T.App("memcmp", a, b, la))))


def trees(c):
    s = setting(c)
    M, calls, outs = wrapper(c, s)
    if not calls["grow"]:
        raise Unsupported("no tree is grown")
    g0 = calls["grow"][-1]
    del c.obs[:], RT.obligations[:]
    H = as_poly(V.sceil(T.log(s.ts) / T.log(const(2))))
    m, h, L, ob = integer("sample_size"), integer("height"), integer("length"), integer("row")
    FACTS.push(T.gt(s.n - ob))

    def at(k):
        x = T.Read("sample", k, isint=True, nonneg=True)
        M.assume(T.ge(x), T.gt(s.n - x))
        return x
    M = Machine(s.prog, c)
    M.mem = {l: v for l, v in g0.mem.items() if l[0] == "f" and l[1] == g0.this.id}
    M.n = 10 ** 6
    calls = dict(grow=[], path=[])
    gr, pr = contracts(c, s, M, calls)
    gdef, pdef = s.prog.first[s.grow["id"]], s.prog.first[s.path["id"]]
    cg, cp = M.contracts[gdef], M.contracts[pdef]
    nloc = M.new(NULL)
    sloc = M.new(Vec(m, at, term=T.Var("sample_term")))

    def entry(key, d, a):
        """The body of a function under contract; calls from it by contract."""
        con = M.contracts.pop(key)
        orig = dict(M.contracts)
        M.contracts = orig
        first = [True]

        def shield(M_, d_, this_, a_):
            return con(M_, d_, this_, a_)
        # the entry itself is executed, inner calls use the contract
        dd = s.prog.definition(d["id"])
        saved = M.env, M.this
        M.env, M.this = {}, g0.this
        M.contracts[key] = shield
        try:
            M.bind(X.params(dd), a)
            try:
                M.block(X.body(dd))
            except X.Return as r:
                return r.v
            return X.VOID
        finally:
            M.env, M.this = saved
    ga = [None] * 4
    ga[gr["vec"]], ga[gr["node"]], ga[gr["int"]], ga[gr["engine"]] = Ref(sloc), Ref(nloc), h, Engine(T.Var("rng"))
    made = []

    def body_():
        calls["grow"].clear()
        entry(gdef, s.grow, ga)
        made.append(list(calls["grow"]))
    for (pc, mem, _, _), kids in zip(M.explore(body_), made):
        M.mem = mem
        n0 = len(FACTS.stack)
        for b in pc:
            FACTS.push(b)
        node = mem[nloc]
        stop = T.disj(T.ge(ONE - m), T.ge(h - H))
        if not isinstance(node, Obj):
            c.prove("a node is made", FALSE)
            del FACTS.stack[n0:]
            continue
        pa = [None] * 3
        pa[pr["int"]], pa[pr["node"]], pa[pr["int2"]] = ob, Ref(nloc), L
        seen = []

        def score():
            calls["path"].clear()
            v = entry(pdef, s.path, pa)
            seen.append(list(calls["path"]))
            return v
        if len(kids) == 0:
            c.prove("a leaf holds one row at most, or stands at the greatest height", stop)
            seen.clear()
            for pc2, _, v, _ in M.explore(score):
                with core.under(*pc2):
                    v = X.dbl_of(v)
                    c.prove("the path length is a number", T.neg(v.nan))
                    c.eq("path to a leaf of n rows: its depth, and c(n) if n > 1", v.p, T.ite(T.ge(ONE - m), L, L + average(m)))
                    c.prove("a path is as long as its depth at least", T.ge(v.p - L))
            if any(seen):
                c.prove("a path ends at a leaf", FALSE)
        elif len(kids) == 2:
            c.prove("a split separates two rows or more, below the greatest height", T.neg(stop))
            split(c, s, M, m, h, L, ob, kids, score, seen)
        else:
            c.prove("a node has two children or none", FALSE)
        del FACTS.stack[n0:]


def split(c, s, M, m, h, L, ob, kids, score, seen):
    if len({k.loc for k in kids}) != 2:
        c.prove("the children are two", FALSE)
        return
    member = []
    for kid in kids:
        c.eq("children stand one level deeper", kid.height, h + ONE)
        if kid.vec.picked is None:
            if kid.vec.n == ZERO:
                member.append(FALSE)
                continue
            raise Unsupported("rows of a child")
        k, lo, hi, cases = kid.vec.picked
        c.prove("every row of the sample is considered", T.conj(T.eq(lo), T.eq(hi - m)))
        row = T.Read("sample", k, isint=True, nonneg=True)
        goes = FALSE
        for cond, p in cases:
            if len(p) > 1 or any(x != row for x in p):
                c.prove("a row goes to a child once", FALSE)
            goes = T.disj(goes, cond) if p else goes
        r = T.fresh("r", isint=True, nonneg=True)
        goes = T.subst(goes, {row.atom(): ob})
        if T.depends(goes, k.atom()):
            raise Unsupported("rows sent to a child by their position")
        member.append(goes)
    # the split: its column and the row whose value it takes
    num, txt = {}, {}
    for b in member:
        for a in T.free_atoms(b):
            if a.kind == "read" and a.args[0] == "num":
                num[a.args[1:]] = 1
            if a.kind == "app" and a.args[0] == "text.char":
                txt[a.args[1:]] = 1
        for a in apps(b, "nan.num"):
            num[a] = 1
    src = num or txt
    if bool(num) == bool(txt) or not src:
        raise Unsupported("split of this form")
    cols = {i[0] for i in src}
    other = {i[1] for i in src if i[1] != ob}
    if len(cols) != 1 or len(other) != 1:
        raise Unsupported("split of this form")
    (col,), (o,) = cols, other
    att = o.atom() if o.d and len(o.d) == 1 else None
    if att is None or att.kind != "read" or att.args[0] != "sample":
        raise Unsupported("row of the split value")
    draw = (col if num else col + s.p)
    da = draw.atom() if len(draw.d) == 1 else None
    if da is None or da.kind != "app" or da.args[0] != "draw":
        raise Unsupported("column of the split")
    c.prove("the column of a split is drawn from all columns", T.conj(T.eq(da.args[3]), T.eq(da.args[4] - (s.p + s.q - ONE))))
    if num:
        x, v = T.Read("num", col, ob), T.Read("num", col, o)
        nx, nv = T.BApp("nan.num", col, ob), T.BApp("nan.num", col, o)
        left = T.disj(T.conj(nv, nx), T.conj(T.neg(nv), T.disj(nx, T.gt(v - x))))
        what = "the rows on the left: those below the split value, missing values below every number"
    else:
        left = less(T.App("text.char", col, ob), T.App("text.char", col, o))
        what = "the rows on the left: those before the split text, shorter ones first"
    iff = lambda a, b: T.conj(T.disj(a, T.neg(b)), T.disj(b, T.neg(a)))
    # which child is the left one is the code's choice
    for j in (0, 1):
        if member[j].kind != "false":
            break
    order = None
    pairs = [(left, T.neg(left)), (T.neg(left), left)]
    for pr in pairs:
        if all(FACTS.implied(iff(x, y)) or iff(x, y).kind == "true" for x, y in zip(member, pr)):
            order = pr
            break
    order = order or pairs[0]
    for x, y in zip(member, order):
        c.prove(what, iff(x, y))
    # rows alike go the same way
    twin = integer("twin")
    if num:
        alike = T.conj(iff(nx, T.BApp("nan.num", col, twin)), T.disj(nx, T.eq(T.Read("num", col, ob) - T.Read("num", col, twin))))
        to = {ob.atom(): twin}
        for j, b in enumerate(member):
            c.prove("rows with equal values go to the same child", iff(b, T.subst(b, to)), [T.gt(s.n - twin), alike])
    # scoring goes where growing went
    seen.clear()
    for pc2, _, v, _ in M.explore(score):
        ps = seen.pop(0)
        with core.under(*pc2):
            v = X.dbl_of(v)
            if len(ps) != 1:
                c.prove("scoring follows one child", FALSE)
                continue
            p, = ps
            js = [j for j, kid in enumerate(kids) if kid.term == p.node.term]
            if len(js) != 1:
                c.prove("scoring follows a child of the node", FALSE)
                continue
            c.prove("scoring sends a row to the child it would have grown in", member[js[0]])
            c.prove("the path length is a number", T.neg(v.nan))
            c.eq("scoring goes on with the same row", p.ob, ob)
            c.eq("a split adds one to the path", v.p, L + ONE + T.App("path", ob, p.node.term))
            c.prove("a path is as long as its depth at least", T.ge(v.p - L))


def apps(b, name):
    """Arguments of the boolean applications `name` in b."""
    out = []

    def go(x):
        if isinstance(x, T.Bool):
            if x.kind == "app" and x.args[0] == name:
                out.append(tuple(x.args[1:]))
            for y in x.args:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(b)
    return out


# ---------------------------------------------------------------- the Python function
class Frame:
    """A pandas DataFrame, by contract of what anomaly_scores may ask of it."""

    def __init__(self, s, drop=(), kind=None):
        self.s, self.dropped, self.kind = s, drop, kind
        self.index = Index(s)

    def drop(self, labels=None, axis=0, index=None, columns=None, level=None, inplace=False, errors="raise"):
        if columns is None and axis in (1, "columns"):
            columns = labels
        elif labels is not None or axis not in (0, "index", 1, "columns"):
            raise Unsupported("DataFrame.drop")
        if columns is None or index is not None or level is not None or errors != "raise" or self.kind:
            raise Unsupported("DataFrame.drop")
        if inplace is not False:
            self.s.c.prove("the caller's frame keeps its columns", FALSE)
            raise Unsupported("DataFrame.drop in place")
        return Frame(self.s, self.dropped + (labels_of(columns),))

    def copy(self, deep=True):
        return Frame(self.s, self.dropped, self.kind)

    def select_dtypes(self, include=None, exclude=None):
        i = list(include) if isinstance(include, (list, tuple)) else [include]
        x = [] if exclude is None else list(exclude) if isinstance(exclude, (list, tuple)) else [exclude]
        if self.kind or x or len(i) != 1:
            raise Unsupported("DataFrame.select_dtypes")
        k = "num" if i[0] in ("number", "numeric") else "char" if i[0] in (object, "object", "O") or getattr(i[0], "__name__", "") == "object" else None
        if k is None:
            raise Unsupported("DataFrame.select_dtypes")
        return Frame(self.s, self.dropped, k)

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        ok = {"num": ("float64", V.F8, float), "char": ("bytes",)}.get(self.kind, ())
        if na_value is not None or dtype not in ok and V_dtype(dtype) not in ok:
            raise Unsupported("DataFrame.to_numpy")
        return self.s.array(self.kind, self.dropped)

    @property
    def shape(self):
        return (self.symlen(), Num(integer("columns"), "int"))

    def symlen(self):
        return Num(self.s.n, "int")

    def __len__(self):
        raise Unsupported("len of a DataFrame")


def V_dtype(x):
    try:
        return V.dtype_of(x)
    except Exception:
        return None


class Index:
    def __init__(self, s):
        self.s = s

    def symlen(self):
        return Num(self.s.n, "int")

    @property
    def shape(self):
        return (self.symlen(),)

    @property
    def size(self):
        return self.symlen()


def labels_of(x):
    if x is EXCLUDED:
        return "excluded"
    x = list(x)
    if x:
        raise Unsupported("columns left out")
    return None


EXCLUDED = types.SimpleNamespace(name="exclude_cols")


def function(c):
    n, F, ts, seed = integer("n_rows"), integer("forest_size"), integer("tree_size"), integer("random_seed")
    for b in (T.gt(n), T.gt(F), T.gt(ts - ONE)):
        FACTS.push(b)
    RT.assume_note("pandas", "drop(columns=), select_dtypes, to_numpy, index and the DataFrame constructor behave as documented")
    s = types.SimpleNamespace(c=c, n=n)
    arrays = {}

    def array(kind, dropped):
        left = tuple(sorted({d for d in dropped if d}))
        nm = f"{kind}{'-' + left[0] if left else ''}"
        a = vec(nm, n, integer("columns." + nm))
        arrays[nm] = a
        return a
    s.array = array
    made, sent = [], []

    def frame(data=None, index=None, columns=None, dtype=None, copy=None):
        made.append((data, index, columns, dtype))
        if isinstance(data, dict) and columns is None and len(data) == 1:
            (k, data), = data.items()
            made[-1] = (data, index, [k], dtype)
        return made[-1]
    c.L.std["pandas"].DataFrame = frame

    def iforest(*a):
        if len(a) != 6:
            raise Unsupported("call of the extension")
        num, char, out, f, t, sd = a
        sent.append((num, char, out, poly(f), poly(t), poly(sd)))
        if not isinstance(out, Arr) or len(out._shape) != 1:
            raise Unsupported("array of the scores")
        out[:] = Arr.new(out._shape, lambda i: T.Read("score", *i), V.F8)
        return None
    RT.ext_iforest = iforest
    K = IF + ":anomaly_scores"
    name = "score"
    for how, kw, drop in (("", dict(), ""), ("no column left out, ", dict(exclude_cols=[]), ""), ("columns left out, ", dict(exclude_cols=EXCLUDED), "-excluded"),
                          ("columns left out, name given, ", dict(exclude_cols=EXCLUDED, name="S"), "-excluded")):
        data = Frame(s)

        def post(v, how=how, drop=drop, kw=kw, data=data):
            if len(sent) != 1:
                c.prove(how + "one forest is grown", FALSE)
                return
            (num, char, out, f, t, sd), = sent
            c.eq(how + "forest_size is the number of trees", f, F)
            c.eq(how + "tree_size is the size of a sample", t, ts)
            c.eq(how + "the seed is the caller's", sd, seed)
            for what, nm, a in (("numeric", "num" + drop, num), ("character", "char" + drop, char)):
                p = integer("columns." + nm)
                if not isinstance(a, Arr) or len(a._shape) != 2:
                    raise Unsupported("arrays of the extension")
                j, i = integer("j"), integer("i")
                c.prove(how + f"all {what} columns that are kept, one row each", T.conj(T.eq(a._shape[0] - p), T.eq(a._shape[1] - n)))
                with under(T.gt(p - j), T.gt(n - i)):
                    c.eq(how + f"the {what} values, by column and row", el(a, j, i), T.Read(nm, i, j))
            if not isinstance(v, tuple) or v not in made or v[3] is not None:
                raise Unsupported("the frame returned")
            d, ix, cols, _ = v
            if not isinstance(d, Arr) or not isinstance(ix, Index) or not isinstance(cols, (list, tuple)):
                raise Unsupported("the frame returned")
            c.prove(how + "one score per row", T.eq(length(d) - n))
            i = integer("i")
            with under(T.gt(n - i)):
                c.eq(how + "scores in the order of the rows", el(d, i) if len(d._shape) == 1 else el(d, i, ZERO), T.Read("score", i))
            c.prove(how + "the scores have the index of the data", TRUE if ix.s is s else FALSE)
            c.prove(how + "the column has the name asked for", TRUE if list(cols) == [kw.get("name", "AnomalyScore")] else FALSE)

        def call(kw=kw, data=data):
            sent.clear()
            made.clear()
            return c.fn(K)(data, Num(F, "int"), Num(ts, "int"), random_seed=Num(seed, "int"), **kw)
        c.each(call, post, K)
    made.clear()
    sent.clear()


def ext():
    return {"frds.algorithms.isolation_forest.iforest_ext": lambda L: types.SimpleNamespace(iforest=lambda *a: RT.ext_iforest(*a))}


GROUPS = {"C26": [
    Group("anomaly_scores", [IF + ":anomaly_scores"], function, ext),
    Group("iforest: scores from the trees", [IF + ".iforest_ext:iforest", "IsolationForest::IsolationForest", "IsolationForest::grow", "IsolationForest::calAnomalyScores", "IsolationForest::calculateAnomalyScores", "IsolationForest::anomalyScore", "IsolationForest::averagePathLength"], scores),
    Group("iforest: growing and scoring agree at every node", ["IsolationForest::growTree", "IsolationForest::pathLength", "IsolationForest::compareStrings", "IsolationForest::averagePathLength"], trees),
], "C30": [
    Group("iforest: threads", ["IsolationForest::grow", "IsolationForest::calAnomalyScores", "IsolationForest::calculateAnomalyScores", IF + ".iforest_ext:iforest"], schedule),
]}
