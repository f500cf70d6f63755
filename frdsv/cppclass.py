"""Classes of the C++ extensions (the isolation forest), from their current source.

clang's syntax tree is executed symbolically, path by path; nothing is transcribed by hand. A loop is
executed once for an arbitrary iteration: what it may change is an accumulator (its value is the sum of the
increments), appending to a container, or writing elements (the ranges written are kept, and reading a
container back obliges the ranges to cover it exactly once). A recursive function is replaced, where it is
called, by its contract. Threads run where they are made; what they write may only be read after a join, and
no two of them may write the same element. Dropped: integer widths (a subtraction of unsigned values obliges
the result not to be negative), capacity, destruction. Anything else is `Unsupported`.
"""
from __future__ import annotations
import json
import os
import re
import subprocess
from . import core, terms as T, values as V
from .core import RT, FACTS, Unsupported
from .cpp import STUBS, qt, inner, walk, INT
from .terms import as_poly, const, ZERO, ONE, TRUE, FALSE

UNSIGNED = re.compile(r"\bunsigned\b|size_t|size_type|uint\d+_t")
FLOAT = re.compile(r"^(const )?(double|float|DataType|npy_double)( const)?$")


class D:
    """A double: its value, and whether it is NaN."""
    __slots__ = ("p", "nan")

    def __init__(self, p, nan=FALSE):
        self.p, self.nan = as_poly(p), nan


class Obj:
    __slots__ = ("id", "cls")

    def __init__(self, i, cls):
        self.id, self.cls = i, cls


class Snap:
    """An object that was moved into a container: its fields."""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Grown:
    """A node given by the contract of the function that grows nodes."""

    def __init__(self, term):
        self.term = as_poly(term)


class Null:
    pass


NULL = Null()
THREAD = type("Thread", (), {})()
VOID = type("Void", (), {})()


class Dist:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Engine:
    def __init__(self, seed, pos=0):
        self.seed, self.pos = as_poly(seed), pos


class Arr:
    def __init__(self, name, dims, dtype):
        self.name, self.dims, self.dtype = name, dims, dtype


class Addr:
    """Address of an element of an array."""

    def __init__(self, arr, idx):
        self.arr, self.idx = arr, tuple(as_poly(i) for i in idx)

    def content(self):
        return T.App("text." + self.arr.name, *self.idx)


class Lam:
    def __init__(self, node, env, byref, own):
        self.node, self.env, self.byref, self.own = node, env, byref, own      # variables by reference, copies


class Iter:
    def __init__(self, loc, off):
        self.loc, self.off = loc, off


class Inserter:
    def __init__(self, loc):
        self.loc = loc


class Ref:
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Write:
    """For every (variable, from, to) of `vars` where `cond`: element `idx` becomes `val`."""

    def __init__(self, vars, idx, val, cond, thread):
        self.vars, self.idx, self.val, self.cond, self.thread = vars, idx, val, cond, thread


class Vec:
    """A container: n elements, at(k); `pushes` on top of `base`; `writes` over it; `picked`: what a loop appended, by case."""

    def __init__(self, n, at, base=None, push=None, writes=(), picked=None, term=None):
        self.n, self.at, self.base, self.push, self.writes, self.picked, self.term = as_poly(n), at, base, push, tuple(writes), picked, term

    def plus(self, v):
        return Vec(self.n + ONE, lambda k: self.opaque(), base=self, push=v)

    def opaque(self):
        raise Unsupported("element of a container built element by element")

    def wrote(self, w):
        return Vec(self.n, self.at, self.base, self.push, self.writes + (w,), self.picked, self.term)


EMPTY = Vec(ZERO, None)


def opaque_at(k):
    raise Unsupported("element of this container")


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


def subst(v, mp):
    if isinstance(v, T.Poly) or isinstance(v, T.Bool):
        return T.subst(v, mp)
    if isinstance(v, D):
        return D(T.subst(v.p, mp), T.subst(v.nan, mp))
    if isinstance(v, Grown):
        return Grown(T.subst(v.term, mp))
    if isinstance(v, Snap):
        return Snap(v.cls, {k: subst(x, mp) for k, x in v.fields.items()})
    if isinstance(v, Addr):
        return Addr(v.arr, [T.subst(i, mp) for i in v.idx])
    if isinstance(v, Dist):
        return Dist(T.subst(v.lo, mp), T.subst(v.hi, mp))
    if v is NULL or v is THREAD or v is VOID:
        return v
    raise Unsupported(f"value {type(v).__name__} kept in a container")


def atoms(v):
    """Free variables, reads and calls a value depends on."""
    if isinstance(v, (T.Poly, T.Bool)):
        return set(T.free_atoms(v))
    if isinstance(v, D):
        return set(T.free_atoms(v.p)) | set(T.free_atoms(v.nan))
    if isinstance(v, Grown):
        return set(T.free_atoms(v.term))
    if isinstance(v, Snap):
        return set().union(*[atoms(x) for x in v.fields.values()]) if v.fields else set()
    if isinstance(v, Addr):
        return set().union(*[set(T.free_atoms(i)) for i in v.idx])
    return set()


def same(a, b):
    """Syntactically the same value."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (T.Poly, T.Bool)):
        return a == b
    if isinstance(a, D):
        return a.p == b.p and a.nan == b.nan
    if isinstance(a, Obj):
        return a.id == b.id
    if isinstance(a, Grown):
        return a.term == b.term
    if isinstance(a, Engine):
        return a.seed == b.seed and a.pos == b.pos
    if isinstance(a, Snap):
        return a.cls == b.cls and a.fields.keys() == b.fields.keys() and all(same(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, Addr):
        return a.arr is b.arr and a.idx == b.idx
    if isinstance(a, Dist):
        return same(a.lo, b.lo) and same(a.hi, b.hi)
    return False


def bool_of(v):
    if isinstance(v, T.Bool):
        return v
    if isinstance(v, T.Poly):
        return T.ne(v)
    if isinstance(v, D):
        return T.disj(v.nan, T.ne(v.p))
    if v is NULL:
        return FALSE
    if isinstance(v, (Obj, Grown, Arr, Addr, Snap)):
        return TRUE
    raise Unsupported(f"{type(v).__name__} as a condition")


def int_of(v):
    if isinstance(v, T.Bool):
        return T.ite(v, ONE, ZERO)
    if isinstance(v, T.Poly):
        return v
    raise Unsupported(f"{type(v).__name__} as an integer")


def dbl_of(v):
    if isinstance(v, D):
        return v
    return D(int_of(v))


class Program:
    """One translation unit."""

    def __init__(self, path):
        self.path = path
        p = subprocess.run(["clang++", "-std=c++17", "-nostdinc", "-nostdinc++", "-isystem", STUBS, "-fsyntax-only", "-Wno-everything", "-Xclang", "-ast-dump=json", path],
                           capture_output=True, text=True, timeout=60)
        if p.returncode:
            raise Unsupported("clang: " + (p.stderr.strip().splitlines() or ["failed"])[0])
        self.fns = {}        # id -> definition
        self.first = {}      # id of any declaration -> id of the definition
        self.classes = {}    # name -> list of fields (in order)
        self.ctors = {}      # class -> constructors
        self.methods = {}    # (class, name) -> ids
        self.tables = {}
        self.globals = {}
        self.decls = {}
        self.prev = {}
        self.collect(json.loads(p.stdout), None)
        for i, d in list(self.decls.items()):
            j, seen = i, set()
            while j in self.prev and j not in seen:
                seen.add(j)
                j = self.prev[j]
            self.first[i] = j
        defs = {}
        for i, d in self.decls.items():
            if any(x.get("kind") == "CompoundStmt" for x in inner(d)):
                defs[self.first[i]] = d
        self.defs = defs

    def collect(self, node, cls):
        for d in node.get("inner", ()):
            k = d.get("kind")
            if k == "NamespaceDecl":
                if d.get("name") != "std":
                    self.collect(d, cls)
            elif k in ("LinkageSpecDecl",):
                self.collect(d, cls)
            elif k == "CXXRecordDecl" and d.get("completeDefinition"):
                nm = d.get("name")
                self.classes[nm] = [f for f in inner(d) if f["kind"] == "FieldDecl"]
                self.ctors.setdefault(nm, [])
                self.collect(d, nm)
            elif k == "CXXConstructorDecl":
                self.decl(d)
                self.ctors.setdefault(d.get("name"), []).append(d)
            elif k in ("CXXMethodDecl", "FunctionDecl"):
                self.decl(d)
            elif k == "VarDecl":
                self.globals[d["id"]] = d
                if "PyMethodDef" in qt(d):
                    for e in walk(d, "InitListExpr"):
                        s = list(walk(e, "StringLiteral"))
                        f = [x for x in walk(e, "DeclRefExpr") if x.get("referencedDecl", {}).get("kind") == "FunctionDecl"]
                        if s and len(f) == 1 and not [x for x in inner(e) if x.get("kind") == "InitListExpr"]:
                            self.tables[json.loads(s[0]["value"])] = f[0]["referencedDecl"]["id"]

    def decl(self, d):
        self.decls[d["id"]] = d
        if d.get("previousDecl"):
            self.prev[d["id"]] = d["previousDecl"]

    def definition(self, i):
        return self.defs.get(self.first.get(i, i))

    def recursive(self):
        """Definitions that (directly or not) call themselves."""
        graph = {}
        for f, d in self.defs.items():
            s = set()
            for x in walk(d):
                j = x.get("referencedMemberDecl") or (x.get("referencedDecl") or {}).get("id")
                if j in self.first and self.first[j] in self.defs:
                    s.add(self.first[j])
            graph[f] = s
        out = []
        for f in graph:
            seen, todo = set(), list(graph[f])
            while todo:
                g = todo.pop()
                if g == f:
                    out.append(f)
                    break
                if g not in seen:
                    seen.add(g)
                    todo += list(graph[g])
        return out


def params(d):
    return [x for x in inner(d) if x["kind"] == "ParmVarDecl"]


def body(d):
    return [x for x in inner(d) if x["kind"] == "CompoundStmt"][0]


PASS = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultArgExpr")


def strip(n):
    while n["kind"] in PASS or n["kind"] == "ImplicitCastExpr":
        n = inner(n)[0]
    return n


def tname(t):
    return re.sub(r"\b(const|struct|class)\b", "", t).replace("&", "").strip()


class Machine:
    def __init__(self, prog, c):
        self.P = prog
        self.prove = c.prove
        self.logs = [RT.obligations, c.obs]
        self.mem = {}
        self.n = 0
        self.contracts = {}         # definition id -> function(values of the arguments)
        self.this = None
        self.env = {}
        self.threads = 0            # nesting of thread bodies
        self.running = False        # threads not joined
        self.alone = 0              # how many of them, 2: any number
        self.joins = []             # elements of containers that are joined
        self.epoch = 1              # threads made up to the last join belong to earlier ones
        self.shared = frozenset()   # variables there were when the thread that is executed was made
        self.refs = []              # (variable, epoch): variables a thread refers to
        self.read_by = {}           # variable -> epoch of the last thread that reads it
        self.axioms = []            # what holds of random draws, rows of a sample, quotients
        self.covered = {}
        self.depth = 0

    # ---------------------------------------------------------------- memory
    def new(self, v=None):
        self.n += 1
        loc = ("v", self.n)
        if v is not None:
            self.mem[loc] = v
        return loc

    def alloc(self, cls):
        self.n += 1
        return Obj(self.n, cls)

    def load(self, loc):
        k = loc[0]
        if k == "e":
            v = self.load(loc[1])
            if not isinstance(v, Vec):
                raise Unsupported("subscript of this value")
            return self.element(v, loc[2])
        if k == "n":
            return self.cell(loc[1], loc[2])
        if loc not in self.mem:
            raise Unsupported("value of an uninitialised variable")
        if self.threads and loc in self.shared:
            self.read_by[loc] = self.epoch
        return self.mem[loc]

    def store(self, loc, v):
        if loc[0] == "e":
            base = self.load(loc[1])
            if not isinstance(base, Vec):
                raise Unsupported("write to this container")
            self.inside(loc[2], base.n)
            self.mem[self.root(loc[1])] = base.wrote(Write((), loc[2], self.frozen(v), TRUE, self.epoch if self.threads else 0))
        elif loc[0] == "n":
            self.address(loc[1], loc[2])
            arr = ("a", loc[1].name)
            if len(loc[2]) != 1 or loc[1].dtype != "double":
                raise Unsupported("write to an array of this kind")
            self.mem[arr] = self.mem.get(arr, Vec(loc[1].dims[0], opaque_at)).wrote(Write((), loc[2][0], dbl_of(v), TRUE, self.epoch if self.threads else 0))
        else:
            if self.threads and loc in self.shared:
                self.prove("a thread changes nothing it shares but its own elements", FALSE, kind="structure")
            elif not self.threads and self.used_by_threads(loc):
                self.prove("what the threads read does not change while they run", FALSE, kind="structure")
            self.mem[loc] = v

    def used_by_threads(self, loc):
        return self.running and (self.read_by.get(loc, 0) >= self.epoch and loc[0] == "f" or any(l == loc and e >= self.epoch for l, e in self.refs))

    def left(self, n, own=None):
        """The variables made after the n-th, and `own`, go out of scope."""
        if any(e >= self.epoch and (l == own or l[0] == "v" and l[1] > n) for l, e in self.refs):
            self.prove("a thread keeps no reference to a variable that has gone", FALSE, kind="structure")

    def thread(self, v, args):
        """The body of a thread, executed where it is made: what it does is shown not to meet what others do."""
        self.refs = self.refs + [(l, self.epoch) for l in v.byref]
        saved = self.shared
        self.threads += 1
        if self.threads == 1:
            self.shared = frozenset(self.mem) - v.own
        self.lam(v, args)
        self.threads -= 1
        self.shared = saved
        self.alone = 1 if not self.running else 2
        self.running = True
        return THREAD

    def ended(self):
        self.running = False
        self.epoch += 1
        self.alone = 0

    def root(self, loc):
        if loc[0] in ("v", "f"):
            return loc
        raise Unsupported("nested container")

    def frozen(self, v):
        if isinstance(v, Obj):
            return Snap(v.cls, {l[2]: self.frozen(x) for l, x in self.mem.items() if l[0] == "f" and l[1] == v.id})
        return v

    def inside(self, i, n):
        RT.oblige(T.ge(i), "index", "index not below the container")
        RT.oblige(T.gt(n - i), "index", "index inside the container")

    def element(self, v, k):
        k = as_poly(k)
        self.inside(k, v.n)
        if v.writes:
            return self.written(v, k)
        if v.at is None:
            raise Unsupported("element of an empty container")
        return v.at(k)

    def written(self, v, k):
        """An element of a container filled by a loop (or by the threads of a loop)."""
        ws = v.writes
        if len(ws) == 1 and not ws[0].vars and ws[0].cond.kind == "true" and as_poly(ws[0].idx) == k:
            return ws[0].val
        if len(ws) != 1:
            raise Unsupported("container written in several places")
        w, = ws
        if w.thread and w.thread >= self.epoch:
            self.prove("the threads have ended before what they write is read", FALSE, kind="structure")
        self.cover(v, w)
        a = as_poly(w.idx).atom()
        return subst(w.val, {a: k})

    def cover(self, v, w):
        key = id(w), tuple(FACTS.stack), tuple(b for x in RT.explorers for b in x.pc)
        if key in self.covered:
            return
        self.covered[key] = w
        what = "every element is written, by one iteration"
        if w.cond.kind != "true":
            raise Unsupported("conditional write of elements")
        if not w.vars or as_poly(w.idx) != w.vars[-1][0]:
            raise Unsupported("index of the elements written")
        x, lo, hi = w.vars[-1]
        outer = w.vars[:-1]
        av = atoms(w.val)
        if len(outer) == 0:
            if not ((lo - ZERO) == ZERO and v.n == hi):
                self.prove(what, T.conj(T.eq(lo), T.eq(hi - v.n)))
        elif len(outer) == 1:
            y, olo, ohi = outer[0]
            if y.atom() in av:
                self.prove("what is written does not depend on the thread that writes it", FALSE, kind="structure")
            at = lambda p, i: T.subst(p, {y.atom(): i})
            j = T.fresh("worker", isint=True, nonneg=True)
            inr = [T.ge(j - olo), T.gt(ohi - j)]
            name = "the threads' ranges " if w.thread else "the ranges "
            self.prove(name + "do not run backwards", T.ge(at(hi, j) - at(lo, j)), inr)
            self.prove(name + "begin at the first element", T.eq(at(lo, olo)))
            self.prove(name + "follow each other without gap or overlap", T.eq(at(hi, j) - at(lo, j + ONE)), [T.ge(j - olo), T.gt(ohi - j - ONE)])
            self.prove(name + "end at the last element", T.eq(at(hi, ohi - ONE) - v.n))
            self.prove(name + "exist", T.gt(ohi - olo))
        else:
            raise Unsupported("elements written by nested loops")

    def address(self, arr, idx):
        if len(idx) != len(arr.dims):
            raise Unsupported("element address of an array of another dimension")
        for i, n in zip(idx, arr.dims):
            RT.oblige(T.ge(i), "index", f"index not below the array ({arr.name})")
            RT.oblige(T.gt(n - i), "index", f"index inside the array ({arr.name})")

    def cell(self, arr, idx):
        self.address(arr, idx)
        if arr.dtype != "double":
            raise Unsupported("character data read as a value")
        if arr.name == "out":
            raise Unsupported("the output array is read")
        return D(T.Read(arr.name, *idx), T.BApp("nan." + arr.name, *idx))

    def assume(self, *bs):
        for b in bs:
            FACTS.push(b)
            self.axioms.append(b)

    # ---------------------------------------------------------------- calls
    def call(self, d, this, args, env=None):
        """args: values, or Ref for what is passed by reference."""
        key = self.P.first.get(d["id"], d["id"])
        if key in self.contracts:
            return self.contracts[key](self, d, this, args)
        d = self.P.definition(d["id"]) or d
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion without a contract")
        saved = self.env, self.this
        self.env, self.this = dict(env or {}), this
        n0 = self.n
        try:
            self.bind(params(d), args)
            if d["kind"] == "CXXConstructorDecl":
                self.initialise(d)
            try:
                self.block(body(d))
            except Return as r:
                self.left(n0)
                return r.v
            self.left(n0)
            return VOID
        finally:
            self.env, self.this = saved
            self.depth -= 1

    def bind(self, ps, args):
        if len(args) > len(ps):
            raise Unsupported("number of arguments")
        for p, a in zip(ps, args):
            t = qt(p)
            if t.rstrip().endswith("&"):
                self.env[p["id"]] = a.loc if isinstance(a, Ref) else self.new(self.convert(a, t))
            else:
                self.env[p["id"]] = self.new(self.convert(self.val(a), t))
        for p in ps[len(args):]:
            x = inner(p)
            if not x:
                raise Unsupported("number of arguments")
            self.env[p["id"]] = self.new(self.convert(self.val(self.ev(x[0])), qt(p)))

    def convert(self, v, t):
        t = tname(t)
        if FLOAT.match(t):
            return dbl_of(v)
        if t == "bool":
            return bool_of(v)
        if INT.match(t) and isinstance(v, T.Bool):
            return int_of(v)
        if INT.match(t) and isinstance(v, D):
            return self.truncate(v)
        return v

    def truncate(self, v):
        if v.nan.kind != "false":
            RT.oblige(T.neg(v.nan), "index", "NaN is not converted to an integer")
        return as_poly(V.strunc(v.p))

    def construct(self, cls, args):
        o = self.alloc(cls)
        cs = [c for c in self.P.ctors.get(cls, ()) if self.P.definition(c["id"]) and len([p for p in params(c) if not inner(p)]) <= len(args) <= len(params(c))]
        cs = list({self.P.first[c["id"]]: self.P.definition(c["id"]) for c in cs}.values())
        # in-class initialisers and defaults of the fields a constructor leaves alone
        if not cs and not args:
            self.fields(o, {})
            return o
        if len(cs) != 1:
            raise Unsupported(f"constructor of {cls}")
        d, = cs
        # defaults are on the declaration in the class
        full = list(args)
        decl = [c for c in self.P.ctors[cls] if self.P.first[c["id"]] == self.P.first[d["id"]]]
        for k in range(len(args), len(params(d))):
            x = [inner(params(c)[k]) for c in decl if inner(params(c)[k])]
            if not x:
                raise Unsupported("number of arguments")
            full.append(self.ev(x[0][0]))
        saved = self.env, self.this
        self.env, self.this = {}, o
        try:
            self.bind(params(d), full)
            done = {}
            for x in inner(d):
                if x["kind"] == "CXXCtorInitializer":
                    if "anyInit" not in x:
                        raise Unsupported("base class")
                    done[x["anyInit"]["name"]] = x
            self.fields(o, done)
            try:
                self.block(body(d))
            except Return:
                pass
        finally:
            self.env, self.this = saved
        return o

    def fields(self, o, given):
        for f in self.P.classes[o.cls]:
            nm = f["name"]
            loc = ("f", o.id, nm)
            x = inner(given[nm]) if nm in given else inner(f)
            if x and x[0]["kind"] == "CXXDefaultInitExpr":
                x = inner(f)
            if x:
                v = self.val(self.ev(x[0]))
                self.mem[loc] = self.convert(v, qt(f))
            else:
                v = self.default(qt(f))
                if v is not None:
                    self.mem[loc] = v

    def initialise(self, d):
        raise Unsupported("constructor called as a function")

    def default(self, t):
        t = tname(t)
        if "vector<" in t:
            return EMPTY
        if "unique_ptr<" in t or "shared_ptr<" in t:
            return NULL
        if "uniform_int_distribution" in t:
            return Dist(ZERO, None)
        if "mt19937" in t:
            return Engine(const(5489))
        if t in ("std::thread", "thread"):
            return NULL
        m = re.split(r"::", t)[-1]
        if m in self.P.classes and not INT.match(t):
            return self.construct(m, [])
        return None

    # ---------------------------------------------------------------- paths and loops
    def explore(self, thunk):
        """(path condition, memory, result) of every path of thunk; memory restored."""
        ex = core.Explorer()
        out = []
        state0 = self.mem, self.running, self.env, self.this, self.threads, self.depth, self.epoch, self.refs, self.shared, self.alone, self.joins
        mem0, run0, env0, this0, th0, dp0, ep0, rf0, sh0, al0, jo0 = state0
        ax0 = len(self.axioms)
        while ex.more():
            self.mem, self.running, self.env, self.this, self.threads, self.depth, self.epoch, self.refs, self.shared, self.alone, self.joins = dict(mem0), run0, dict(env0), this0, th0, dp0, ep0, rf0, sh0, al0, jo0
            ex.start()
            RT.explorers.append(ex)
            depth = len(RT.explorers)
            try:
                try:
                    r = thunk()
                    out.append((list(ex.pc), self.mem, r, self.running))
                except core.PathEnd:
                    pass
            finally:
                del RT.explorers[depth - 1:]
                ex.stop()
                self.mem, self.running, self.env, self.this, self.threads, self.depth, self.epoch, self.refs, self.shared, self.alone, self.joins = state0
        for b in dict.fromkeys(self.axioms[ax0:]):
            FACTS.push(b)
        return out

    def loop(self, lo, hi, bind, run, own=None):
        """The iterations lo <= k < hi; bind(k) sets the loop's own variables."""
        lo, hi = as_poly(lo), as_poly(hi)
        d = (hi - lo).const()
        if d is not None and d <= 0:
            return
        k = T.fresh("k", isint=True, nonneg=True)
        base = self.mem

        seen, refs, joins, ends = set(), set(), [], []

        def once():
            n0 = self.n
            self.joins = []
            bind(k)
            try:
                run()
            except Continue:
                pass
            except (Return, Break):
                raise Unsupported("loop that is left early")
            joins.append(self.joins)
            ends.append(self.epoch)
            self.left(n0, own)
            refs.update(r for r in self.refs if r[0][0] != "v" or r[0][1] <= n0 and r[0] != own)
            seen.update(l for l, e in self.refs if e >= self.epoch)
            seen.update(l for l, e in self.read_by.items() if e >= self.epoch and l[0] == "f")
        with core.under(T.ge(k - lo), T.gt(hi - k)):
            mark = [len(x) for x in self.logs]
            outs = self.explore(once)
            changed = [l for l in base if any(m.get(l) is not base[l] and not same(m.get(l), base[l]) for _, m, _, _ in outs)]
            arrays = {l for _, m, _, _ in outs for l in m if l[0] == "a" and l not in base}
            scal = [l for l in changed if isinstance(base[l], (T.Poly, D))]
            if any(r for _, _, _, r in outs) and any(l in seen and (l in scal or not isinstance(base[l], Vec)) for l in changed):
                self.prove("what the threads read does not change while they run", FALSE, kind="structure")
            acc = {}
            if scal:
                for l in scal:
                    acc[l] = T.fresh("acc", isint=isinstance(base[l], T.Poly))
                self.mem = dict(base)
                for l in scal:
                    self.mem[l] = acc[l] if isinstance(base[l], T.Poly) else D(acc[l])
                self.covered.clear()
                for x, m in zip(self.logs, mark):      # made again, for an arbitrary value of the accumulators
                    del x[m:]
                base2 = self.mem
                outs = self.explore(once)
                late = [o for x, m in zip(self.logs, mark) for o in x[m:]]
                self.mem = base
            else:
                base2, late = base, []
            delta = {}
            accs = {a.atom() for a in acc.values()}
            for l in scal:
                d = None
                for pc, m, _, _ in reversed(outs):
                    if any(accs & set(T.free_atoms(b)) for b in pc):
                        raise Unsupported("loop whose course depends on what it accumulates")
                    v = m[l]
                    if isinstance(v, D):
                        if v.nan.kind != "false":
                            raise Unsupported("accumulator that may be NaN")
                        v = v.p
                    x = v - acc[l]
                    if accs & set(T.free_atoms(x)):
                        raise Unsupported("loop that is not a sum")
                    d = x if d is None else T.ite(T.conj(*pc), x, d)
                delta[l] = d
        if not outs:
            return

        def upto(l, i):
            b = base[l] if isinstance(base[l], T.Poly) else base[l].p
            return b + T.Sum(i - lo, lambda j: T.subst(delta[l], {k.atom(): lo + j}))
        mp = {acc[l].atom(): upto(l, k) for l in scal}
        for ob in late:      # what must hold in an iteration, for the accumulator's value there
            ob.hyps = [T.subst(h, mp) for h in ob.hyps]
            ob.goal = T.subst(ob.goal, mp)
        count = hi - lo
        if not FACTS.implied(T.ge(count)):
            count = T.ite(T.ge(count), count, ZERO)
        new = dict(base)
        for l in scal:
            v = upto(l, lo + count)
            new[l] = v if isinstance(base[l], T.Poly) else D(v)
        for l in list(changed) + sorted(arrays):
            if l in acc:
                continue
            old = base2.get(l)
            if l in arrays:
                old = None
            elif not isinstance(base[l], Vec):
                raise Unsupported("loop that changes " + ("an engine of random numbers" if isinstance(base[l], Engine) else "this kind of variable"))
            new[l] = self.after(l, old, outs, k, lo, hi, count, mp)
        self.mem = new
        self.refs = sorted(refs | set(self.refs))
        self.running = any(r for _, _, _, r in outs)
        self.joins = []
        self.epoch = min(ends)
        if self.running:
            self.alone = 2
            for l, i in joins[0]:
                v = base.get(l)
                if i == k and isinstance(v, Vec) and all((l, i) in j for j in joins) and FACTS.implied(T.eq(lo)) and FACTS.implied(T.eq(hi - v.n)):
                    self.ended()
                    break

    def after(self, l, old, outs, k, lo, hi, count, mp):
        vs = [(T.conj(*pc), m.get(l)) for pc, m, _, _ in outs]
        # appended elements
        pushed = []
        for c, v in vs:
            p = []
            while isinstance(v, Vec) and v is not old and v.base is not None:
                if v.writes:
                    raise Unsupported("loop that appends and writes")
                p.append(v.push)
                v = v.base
            pushed.append((c, p[::-1], v))
        if any(p for _, p, _ in pushed):
            if any(v is not old for _, _, v in pushed):
                raise Unsupported("loop that appends to another container")
            if not (old.n == ZERO and not old.writes and old.picked is None):
                raise Unsupported("loop that appends to a container that is not empty")
            cases = [(T.subst(c, mp), [subst(self.frozen(x), mp) for x in p]) for c, p, _ in pushed]
            picked = (k, lo, hi, cases)
            if all(len(p) == 1 for _, p in cases):
                if all(p[0] is THREAD for _, p in cases):
                    return Vec(count, lambda i: THREAD)
                if len(cases) == 1:
                    x = cases[0][1][0]
                    return Vec(count, lambda i: subst(x, {k.atom(): lo + as_poly(i)}), picked=picked)
            n = None
            for c, p in reversed(cases):
                n = const(len(p)) if n is None else T.ite(c, const(len(p)), n)
            return Vec(T.Sum(count, lambda j: T.subst(n, {k.atom(): lo + j})), opaque_at, picked=picked)
        # written elements
        res = None
        for c, v in vs:
            if v is None or v is old:
                raise Unsupported("loop that writes elements on some paths only")
            if old is not None and (v.n != old.n or v.writes[:len(old.writes)] != old.writes):
                raise Unsupported("loop that replaces a container")
            ws = v.writes[len(old.writes) if old is not None else 0:]
            if len(ws) != 1:
                raise Unsupported("loop that writes several elements")
            w, = ws
            vars_ = [(x, T.subst(a, mp), T.subst(b, mp)) for x, a, b in w.vars]
            w = Write(vars_, T.subst(as_poly(w.idx), mp), subst(w.val, mp), T.subst(w.cond, mp), w.thread)
            if res is None:
                res = w
            else:       # the same elements on another path, over another range
                if len(w.vars) != len(res.vars) or w.cond != res.cond:
                    raise Unsupported("paths that write different elements")
                ren = {a[0].atom(): b[0] for a, b in zip(w.vars, res.vars)}
                if T.subst(w.idx, ren) != res.idx or not same(subst(w.val, ren), res.val):
                    raise Unsupported("paths that write different values")
                cc = T.subst(c, mp)
                res = Write([(y, T.ite(cc, T.subst(a, ren), ya), T.ite(cc, T.subst(b, ren), yb)) for (x, a, b), (y, ya, yb) in zip(w.vars, res.vars)],
                            res.idx, res.val, res.cond, w.thread or res.thread)
        w = Write([(k, lo, hi)] + list(res.vars), res.idx, res.val, res.cond, res.thread)
        if old is None:
            v = vs[0][1]
            return Vec(v.n, v.at, writes=[w])
        return Vec(old.n, old.at, old.base, old.push, old.writes + (w,), old.picked, old.term)

    # ---------------------------------------------------------------- statements
    def block(self, n):
        for s in inner(n):
            self.stmt(s)

    def stmt(self, n):
        m = getattr(self, "s_" + n["kind"], None)
        if m:
            m(n)
        else:
            self.ev(n)

    s_CompoundStmt = block

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for v in inner(n):
            if v["kind"] == "VarDecl":
                self.var(v)
            elif v["kind"] not in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl"):
                raise Unsupported(f"C++ declaration {v['kind']}")

    def var(self, v):
        t = qt(v)
        if v.get("storageClass") == "static" and not t.startswith("const"):
            raise Unsupported("static local variable")
        init = inner(v)
        if t.rstrip().endswith("&"):
            r = self.ev(init[0])
            self.env[v["id"]] = r.loc if isinstance(r, Ref) else self.new(r)
            return
        loc = self.new()
        self.env[v["id"]] = loc
        if not init:
            x = self.default(t)
            if x is not None:
                self.mem[loc] = x
            return
        self.mem[loc] = self.convert(self.val(self.ev(init[0])), t)

    def s_ReturnStmt(self, n):
        x = inner(n)
        raise Return(self.val(self.ev(x[0])) if x else VOID)

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    def s_IfStmt(self, n):
        if n.get("hasInit") or n.get("hasVar"):
            kids = inner(n)
            self.stmt(kids[0])
            kids = kids[1:]
        else:
            kids = inner(n)
        if core.decide(bool_of(self.val(self.ev(kids[0])))):
            self.stmt(kids[1])
        elif len(kids) > 2:
            self.stmt(kids[2])

    def s_ForStmt(self, n):
        raw = n["inner"]
        init, _, cond, inc, bod = (raw + [{}] * 5)[:5]
        if not init or init.get("kind") != "DeclStmt" or len(inner(init)) != 1 or not cond or not inc:
            raise Unsupported("for loop of this form")
        v = inner(init)[0]
        self.var(v)
        vid = v["id"]
        lo = self.mem[self.env[vid]]
        if not isinstance(lo, T.Poly):
            raise Unsupported("for loop over this type")
        i = strip(inc)
        ok = i["kind"] == "UnaryOperator" and i["opcode"] == "++" and self.is_var(inner(i)[0], vid)
        if i["kind"] == "CompoundAssignOperator" and i["opcode"] == "+=" and self.is_var(inner(i)[0], vid):
            s = self.val(self.ev(inner(i)[1]))
            ok = isinstance(s, T.Poly) and s == ONE
        c = strip(cond)
        if not ok or c["kind"] != "BinaryOperator":
            raise Unsupported("for loop of this form")
        a, b = inner(c)
        op = c["opcode"]
        if self.is_var(b, vid):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}.get(op)
        if not self.is_var(a, vid) or any(self.is_var(x, vid) for x in walk(b)) or op not in ("<", "<=", "!="):
            raise Unsupported("for loop of this form")
        assigned = {json.dumps(sorted(strip(inner(x)[0]).get("referencedDecl", {}).items()), default=str) for x in walk(bod) if x.get("kind") in ("CompoundAssignOperator",) or x.get("kind") == "BinaryOperator" and x.get("opcode") == "=" or x.get("kind") == "UnaryOperator" and x.get("opcode") in ("++", "--")}
        hi = self.val(self.ev(b))
        if not isinstance(hi, T.Poly):
            raise Unsupported("for loop over this type")
        for x in walk(b, "DeclRefExpr"):
            if json.dumps(sorted(x.get("referencedDecl", {}).items()), default=str) in assigned:
                raise Unsupported("for loop whose bound changes")
        if op == "<=":
            hi = hi + ONE
        if op == "!=":
            RT.oblige(T.ge(hi - lo), "index", "a loop that ends at a value does not begin above it")
        loc = self.env[vid]
        self.mem.pop(loc)
        outer = getattr(self, "cur_k", None)

        def bind(k):
            self.cur_k = k
            self.mem[loc] = k

        def run():
            k = self.cur_k
            try:
                self.stmt(bod)
            finally:
                self.cur_k = k
            if not same(self.mem[loc], k):
                raise Unsupported("for loop that changes its variable")
        self.loop(lo, hi, bind, run, loc)
        self.cur_k = outer

    def is_var(self, n, vid):
        n = strip(n)
        return n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("id") == vid

    def s_CXXForRangeStmt(self, n):
        raw = [x for x in n["inner"] if x]
        rng = [v for s in raw for v in (inner(s) if s["kind"] == "DeclStmt" else ()) if v.get("name", "").startswith("__range")][0]
        var = inner(raw[-2])[0]
        bod = raw[-1]
        r = self.ev(inner(rng)[0])
        if not isinstance(r, Ref):
            raise Unsupported("loop over a temporary")
        v = self.load(r.loc)
        if not isinstance(v, Vec):
            raise Unsupported("loop over this value")
        byref = qt(var).rstrip().endswith("&")

        def bind(k):
            e = ("e", r.loc, k)
            self.env[var["id"]] = e if byref else self.new(self.load(e))

        def run():
            self.stmt(bod)
        self.loop(ZERO, v.n, bind, run)

    # ---------------------------------------------------------------- expressions
    def val(self, x):
        return self.load(x.loc) if isinstance(x, Ref) else x

    def ev(self, n):
        k = n["kind"]
        if k in PASS:
            x = inner(n)
            if not x:
                raise Unsupported(f"C++ {k}")
            return self.ev(x[0])
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported(f"C++ {k}")
        return m(n)

    def e_IntegerLiteral(self, n):
        return const(int(n["value"]))

    def e_FloatingLiteral(self, n):
        from fractions import Fraction
        return D(const(Fraction(repr(float(n["value"])))))

    def e_CXXBoolLiteralExpr(self, n):
        return TRUE if n["value"] in (True, "true") else FALSE

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_GNUNullExpr(self, n):
        return NULL

    def e_CXXThisExpr(self, n):
        return self.this

    def e_DeclRefExpr(self, n):
        i = n["referencedDecl"]["id"]
        if i in self.env:
            return Ref(self.env[i])
        g = self.P.globals.get(i)
        if g is not None:
            if qt(g).startswith("const") and inner(g):
                return self.convert(self.val(self.ev(inner(g)[0])), qt(g))
            return NULL if g.get("name") == "Py_None" else self.unsup("global variable")
        if n["referencedDecl"].get("name") in ("Py_None", "Py_True", "Py_False"):
            return NULL
        raise Unsupported(f"C++ name {n['referencedDecl'].get('name')}")

    def unsup(self, s):
        raise Unsupported(s)

    def e_MemberExpr(self, n):
        o = self.val(self.ev(inner(n)[0]))
        return self.member(o, n["name"])

    def member(self, o, nm):
        if isinstance(o, Obj):
            return Ref(("f", o.id, nm))
        if isinstance(o, Snap):
            if nm not in o.fields:
                raise Unsupported(f"field {nm}")
            return o.fields[nm]
        if o is NULL:
            self.prove("no null pointer is followed", FALSE)
            raise Unsupported("null pointer")
        raise Unsupported(f"field {nm} of this value")

    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    def e_CStyleCastExpr(self, n):
        return self.cast(n)

    e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr

    def cast(self, n):
        ck = n.get("castKind")
        x = inner(n)[0]
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ArrayToPointerDecay", "BitCast", "ConstructorConversion", "UserDefinedConversion", "ToVoid", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "Dependent"):
            v = self.ev(x)
            return v
        v = self.val(self.ev(x))
        if ck == "LValueToRValue":
            return v
        if ck == "NullToPointer":
            return NULL
        if ck in ("IntegralCast",):
            return int_of(v)
        if ck == "IntegralToFloating":
            return dbl_of(int_of(v))
        if ck == "FloatingCast":
            return v
        if ck == "FloatingToIntegral":
            return self.truncate(v)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return bool_of(v)
        raise Unsupported(f"C++ conversion {ck}")

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        x = self.ev(inner(n)[0])
        if op == "*":
            v = self.val(x)
            if isinstance(v, Addr):
                return Ref(("n", v.arr, v.idx))
            if isinstance(v, Iter):
                return Ref(("e", v.loc, v.off))
            if isinstance(v, Obj):
                return v
            raise Unsupported("dereference")
        if op == "&":
            return x
        if op in ("++", "--"):
            if not isinstance(x, Ref):
                raise Unsupported("increment")
            v = self.load(x.loc)
            if not isinstance(v, T.Poly):
                raise Unsupported("increment of this value")
            w = v + ONE if op == "++" else v - ONE
            self.store(x.loc, w)
            return v if n.get("isPostfix") else x
        v = self.val(x)
        if op == "!":
            return T.neg(bool_of(v))
        if op == "-":
            return D(-v.p, v.nan) if isinstance(v, D) else -int_of(v)
        if op == "+":
            return v
        raise Unsupported(f"C++ operator {op}")

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = inner(n)
        if op == "=":
            r = self.ev(a)
            v = self.val(self.ev(b))
            if not isinstance(r, Ref):
                raise Unsupported("assignment")
            self.store(r.loc, self.convert(v, qt(a)))
            return r
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op in ("&&", "||"):
            x = bool_of(self.val(self.ev(a)))
            if x.kind in ("true", "false"):
                if (x.kind == "true") == (op == "||"):
                    return x
                return bool_of(self.val(self.ev(b)))
            with core.under(x if op == "&&" else T.neg(x)):
                y = self.pure(b)
            if y is not None:
                y = bool_of(y)
                return T.conj(x, y) if op == "&&" else T.disj(x, y)
            if core.decide(x):
                return TRUE if op == "||" else bool_of(self.val(self.ev(b)))
            return FALSE if op == "&&" else bool_of(self.val(self.ev(b)))
        x, y = self.val(self.ev(a)), self.val(self.ev(b))
        return self.binary(op, x, y, qt(n), qt(a))

    def pure(self, n):
        """Value of an expression without effects, or None."""
        for x in [n] + list(walk(n)):
            if x.get("kind") in ("CallExpr",) and self.callee(x) not in ("isnan", "isinf", "PyArray_GETPTR2", "PyArray_GETPTR1", "strnlen", "memcmp", "log", "sqrt", "fabs"):
                return None
            if x.get("kind") in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CompoundAssignOperator", "LambdaExpr", "CXXConstructExpr") or x.get("kind") == "BinaryOperator" and x["opcode"] == "=" or x.get("kind") == "UnaryOperator" and x["opcode"] in ("++", "--"):
                return None
        return self.val(self.ev(n))

    def binary(self, op, x, y, t, ta=""):
        if op in ("==", "!=") and (x is NULL or y is NULL):
            o = y if x is NULL else x
            r = TRUE if o is NULL else FALSE
            if not (o is NULL or isinstance(o, (Obj, Snap, Grown, Arr, Addr))):
                raise Unsupported("comparison with a null pointer")
            return r if op == "==" else T.neg(r)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if isinstance(x, T.Bool) and isinstance(y, T.Bool) and op in ("==", "!="):
                e = T.disj(T.conj(x, y), T.conj(T.neg(x), T.neg(y)))
                return e if op == "==" else T.neg(e)
            if isinstance(x, D) or isinstance(y, D):
                x, y = dbl_of(x), dbl_of(y)
                ok = T.conj(T.neg(x.nan), T.neg(y.nan))
                d = x.p - y.p
                if op == "!=":
                    return T.disj(T.neg(ok), T.ne(d))
                return T.conj(ok, {"<": T.gt(-d), "<=": T.ge(-d), ">": T.gt(d), ">=": T.ge(d), "==": T.eq(d)}[op])
            d = int_of(x) - int_of(y)
            return {"<": T.gt(-d), "<=": T.ge(-d), ">": T.gt(d), ">=": T.ge(d), "==": T.eq(d), "!=": T.ne(d)}[op]
        if isinstance(x, D) or isinstance(y, D):
            x, y = dbl_of(x), dbl_of(y)
            nan = T.disj(x.nan, y.nan)
            if op == "+":
                return D(x.p + y.p, nan)
            if op == "-":
                return D(x.p - y.p, nan)
            if op == "*":
                return D(x.p * y.p, nan)
            if op == "/":
                if y.p.const() is None:
                    RT.oblige(T.ne(y.p), "index", "no division by zero")
                elif y.p.const() == 0:
                    RT.oblige(FALSE, "index", "no division by zero")
                return D(x.p / y.p, nan)
            raise Unsupported(f"C++ operator {op}")
        x, y = int_of(x), int_of(y)
        if op == "+":
            return x + y
        if op == "-":
            r = x - y
            if UNSIGNED.search(t):
                RT.oblige(T.ge(r), "index", "a subtraction of unsigned values does not wrap around")
            return r
        if op == "*":
            return x * y
        if op in ("/", "%"):
            RT.oblige(T.ge(x), "index", "operands of an integer division are not negative")
            RT.oblige(T.gt(y), "index", "operands of an integer division are positive")
            q = as_poly(V.sfloor(x / y))
            if q.const() is None:
                self.assume(T.ge(q), T.ge(x - q * y), T.gt(q * y + y - x))
            return q if op == "/" else x - q * y
        raise Unsupported(f"C++ operator {op}")

    def e_CompoundAssignOperator(self, n):
        a, b = inner(n)
        r = self.ev(a)
        if not isinstance(r, Ref):
            raise Unsupported("assignment")
        x, y = self.load(r.loc), self.val(self.ev(b))
        v = self.binary(n["opcode"][:-1], x, y, qt(n))
        self.store(r.loc, self.convert(v, qt(a)))
        return r

    def e_ConditionalOperator(self, n):
        c, a, b = inner(n)
        c = bool_of(self.val(self.ev(c)))
        d = FACTS.decide(c)
        if d is None:
            with core.under(c):
                x = self.pure(a)
            with core.under(T.neg(c)):
                y = self.pure(b)
            if x is not None and y is not None:
                if isinstance(x, T.Bool) and isinstance(y, T.Bool):
                    return T.disj(T.conj(c, x), T.conj(T.neg(c), y))
                if isinstance(x, D) or isinstance(y, D):
                    x, y = dbl_of(x), dbl_of(y)
                    return D(T.ite(c, x.p, y.p), T.disj(T.conj(c, x.nan), T.conj(T.neg(c), y.nan)))
                if isinstance(x, T.Poly) and isinstance(y, T.Poly):
                    return T.ite(c, x, y)
            d = core.decide(c)
        return self.ev(a if d else b)

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported("default initialiser")

    def e_StringLiteral(self, n):
        return ("str", json.loads(n["value"]))

    def e_InitListExpr(self, n):
        raise Unsupported("initialiser list")

    def e_ArraySubscriptExpr(self, n):
        a, b = inner(n)
        x, i = self.val(self.ev(a)), self.val(self.ev(b))
        if isinstance(x, Addr) and len(x.arr.dims) == 1:
            return Ref(("n", x.arr, (x.idx[0] + int_of(i),)))
        raise Unsupported("subscript of a pointer")

    def e_CXXConstructExpr(self, n):
        t = tname(qt(n))
        args = inner(n)
        m = re.split(r"::", re.sub(r"<.*>", "", t))[-1].strip()
        if m in self.P.classes:
            return self.construct(m, [self.ev(a) for a in args])
        vals = [self.ev(a) for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if "vector<" in t:
            if not vals:
                return EMPTY
            v = self.val(vals[0])
            if len(vals) == 1 and isinstance(v, Vec):
                return v
            if len(vals) <= 2 and isinstance(v, T.Poly):
                x = self.val(vals[1]) if len(vals) == 2 else self.zero(t)
                return Vec(v, lambda k: x)
            if len(vals) == 2 and isinstance(v, Iter):
                return self.range(v, self.val(vals[1]))
            raise Unsupported("construction of a container")
        if "uniform_int_distribution" in t:
            v = [self.val(x) for x in vals]
            if len(v) == 1 and isinstance(v[0], Dist):
                return v[0]
            if len(v) == 2:
                RT.oblige(T.ge(int_of(v[1]) - int_of(v[0])), "index", "a distribution's range is not empty")
                return Dist(int_of(v[0]), int_of(v[1]))
            if not v:
                return Dist(ZERO, None)
        if "mt19937" in t:
            v = [self.val(x) for x in vals]
            if len(v) == 1:
                return v[0] if isinstance(v[0], Engine) else Engine(int_of(v[0]))
            if not v:
                return Engine(const(5489))
        if t.endswith("thread"):
            if not vals:
                return NULL
            v = self.val(vals[0])
            if v is THREAD or v is NULL:
                return v
            if isinstance(v, Lam):
                return self.thread(v, [self.val(x) for x in vals[1:]])
        if ("unique_ptr" in t or "shared_ptr" in t or "string" not in t) and len(vals) == 1:
            return vals[0]
        if not vals:
            d = self.default(qt(n))
            if d is not None:
                return d
        raise Unsupported(f"construction of {t}")

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        return self.ev(inner(n)[0])

    def e_CXXScalarValueInitExpr(self, n):
        return self.zero(qt(n))

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def zero(self, t):
        return D(ZERO) if re.search(r"double|DataType", t) else (NULL if "unique_ptr" in t or "*" in t else ZERO)

    def range(self, a, b):
        if not isinstance(a, Iter) or not isinstance(b, Iter) or a.loc != b.loc:
            raise Unsupported("iterator range")
        v = self.load(a.loc)
        if a.off == ZERO and b.off == v.n:
            return v
        RT.oblige(T.ge(a.off), "index", "an iterator range lies inside the container")
        RT.oblige(T.ge(b.off - a.off), "index", "an iterator range is not reversed")
        RT.oblige(T.ge(v.n - b.off), "index", "an iterator range lies inside the container")
        return Vec(b.off - a.off, lambda k: self.element(v, a.off + as_poly(k)))

    def e_LambdaExpr(self, n):
        recs = [x for x in n["inner"] if x.get("kind") == "CXXRecordDecl"]
        m = [x for x in walk(recs[0], "CXXMethodDecl") if x.get("name") == "operator()"]
        m = [x for x in m if any(y["kind"] == "CompoundStmt" for y in inner(x))]
        if not m:
            raise Unsupported("lambda")
        m = m[0]
        fs = [f for f in inner(recs[0]) if f["kind"] == "FieldDecl"]
        env = dict(self.env)
        used = list(dict.fromkeys(x["referencedDecl"]["id"] for x in walk(body(m), "DeclRefExpr") if x.get("referencedDecl", {}).get("id") in env))
        caps = [x for x in n["inner"] if x.get("kind") != "CXXRecordDecl" and x.get("kind") != "CompoundStmt"]
        refs, own = [], set()
        for f, x in zip(fs, caps):
            ids = [y["referencedDecl"]["id"] for y in walk({"inner": [x]}, "DeclRefExpr") if y.get("referencedDecl", {}).get("id") in env]
            ids = list(dict.fromkeys(ids))
            if len(ids) != 1:
                if ids:
                    raise Unsupported("capture of this form")
                continue
            i, = ids
            if i in used:
                used.remove(i)
            if qt(f).rstrip().endswith("&"):
                refs.append(env[i])
            else:
                env[i] = self.new(self.load(env[i]))
                own.add(env[i])
        if used and len(fs) != len(caps):
            raise Unsupported("captures of a lambda")
        return Lam(m, (env, self.this), refs, own)

    def lam(self, f, args):
        env, this = f.env
        saved = self.env, self.this
        self.env, self.this = dict(env), this
        try:
            self.bind(params(f.node), args)
            try:
                self.block(body(f.node))
            except Return as r:
                return r.v
            return VOID
        finally:
            self.env, self.this = saved

    # ---- calls
    def callee(self, n):
        f = strip(inner(n)[0])
        return f.get("referencedDecl", {}).get("name", f.get("name", ""))

    def e_CXXOperatorCallExpr(self, n):
        op = self.callee(n)
        a = inner(n)[1:]
        if op == "operator[]":
            r = self.ev(a[0])
            i = int_of(self.val(self.ev(a[1])))
            if not isinstance(r, Ref):
                raise Unsupported("subscript of a temporary")
            return Ref(("e", r.loc, i))
        if op == "operator->":
            return self.val(self.ev(a[0]))
        if op == "operator*":
            v = self.val(self.ev(a[0]))
            if isinstance(v, Iter):
                return Ref(("e", v.loc, v.off))
            return v
        if op == "operator=":
            r = self.ev(a[0])
            v = self.val(self.ev(a[1]))
            if not isinstance(r, Ref):
                raise Unsupported("assignment")
            self.store(r.loc, v)
            return r
        if op == "operator()":
            f = self.ev(a[0])
            fv = self.val(f)
            if isinstance(fv, Lam):
                return self.lam(fv, [self.ev(x) for x in a[1:]])
            if isinstance(fv, Dist):
                g = self.ev(a[1])
                e = self.val(g)
                if not isinstance(e, Engine) or not isinstance(g, Ref) or fv.hi is None:
                    raise Unsupported("draw of a random number")
                self.store(g.loc, Engine(e.seed, e.pos + 1))
                x = T.App("draw", e.seed, const(e.pos), fv.lo, fv.hi)
                self.assume(T.ge(x - fv.lo), T.ge(fv.hi - x))
                return x
        if op in ("operator==", "operator!="):
            return self.binary(op[8:], self.val(self.ev(a[0])), self.val(self.ev(a[1])), "")
        if op == "operator bool":
            return bool_of(self.val(self.ev(a[0])))
        raise Unsupported(f"C++ {op}")

    def e_CXXMemberCallExpr(self, n):
        me = strip(inner(n)[0])
        nm = me.get("name", "")
        d = self.P.definition(me.get("referencedMemberDecl"))
        args = inner(n)[1:]
        r = self.ev(inner(me)[0])
        if d is not None:
            o = self.val(r)
            vals = [self.ev(a) for a in args if a["kind"] != "CXXDefaultArgExpr"]
            decls = [self.P.decls[i] for i, j in self.P.first.items() if j == self.P.first[d["id"]]]
            ps = params(d)
            for k in range(len(vals), len(ps)):
                x = [inner(params(c)[k]) for c in decls if inner(params(c)[k])]
                if not x:
                    raise Unsupported("number of arguments")
                vals.append(self.ev(x[0][0]))
            return self.call(d, o, vals)
        o = self.val(r)
        if isinstance(o, Vec):
            return self.vector(r, o, nm, args)
        if o is THREAD or o is NULL:
            if nm == "joinable":
                return TRUE if o is THREAD else FALSE
            if nm == "join" and o is THREAD:
                loc = r.loc if isinstance(r, Ref) else None
                if loc and loc[0] == "e":
                    self.joins.append((loc[1], as_poly(loc[2])))
                elif self.alone == 1:
                    self.ended()
                return VOID
            if nm == "detach" and o is THREAD:
                return VOID
        if nm == "get":
            return o
        if nm == "reset" and not args and isinstance(r, Ref):
            self.store(r.loc, NULL)
            return VOID
        if nm == "operator bool":
            return bool_of(o)
        if isinstance(o, Lam) and nm == "operator()":
            return self.lam(o, [self.ev(a) for a in args])
        raise Unsupported(f"C++ member {nm}")

    def vector(self, r, o, nm, args):
        loc = r.loc if isinstance(r, Ref) else None
        if nm == "size":
            return o.n
        if nm == "empty":
            return T.eq(o.n)
        if nm in ("reserve", "shrink_to_fit"):
            for a in args:
                self.ev(a)
            return VOID
        if nm in ("begin", "cbegin", "end", "cend", "data"):
            if loc is None:
                raise Unsupported("iterator of a temporary")
            return Iter(loc, o.n if "end" in nm else ZERO)
        if nm in ("push_back", "emplace_back"):
            v = self.val(self.ev(args[0]))
            if isinstance(v, Obj):
                v = self.frozen(v)
            if isinstance(v, Lam):      # ts.emplace_back([..]{..})
                v = self.e_thread(v)
            self.store(loc, o.plus(v))
            return VOID
        if nm in ("resize", "assign"):
            k = int_of(self.val(self.ev(args[0])))
            x = [self.val(self.ev(a)) for a in args[1:] if a["kind"] != "CXXDefaultArgExpr"]
            if nm == "resize" and not (o.n == ZERO and not o.writes):
                raise Unsupported("resize of a container that is not empty")
            t = "double" if loc in self.doubles() else "unique_ptr"
            z = x[0] if x else None
            self.store(loc, Vec(k, (lambda i: z) if z is not None else opaque_at))
            return VOID
        if nm == "clear":
            self.store(loc, EMPTY)
            return VOID
        if nm == "at":
            return Ref(("e", loc, int_of(self.val(self.ev(args[0])))))
        if nm == "front":
            return Ref(("e", loc, ZERO))
        if nm == "back":
            return Ref(("e", loc, o.n - ONE))
        raise Unsupported(f"C++ vector {nm}")

    def doubles(self):
        return ()

    def e_thread(self, v):
        return self.thread(v, [])

    def e_CallExpr(self, n):
        f = strip(inner(n)[0])
        if f["kind"] != "DeclRefExpr":
            v = self.val(self.ev(inner(n)[0]))
            if isinstance(v, Lam):
                return self.lam(v, [self.ev(x) for x in inner(n)[1:]])
            raise Unsupported("C++ call")
        rd = f["referencedDecl"]
        c = rd.get("name", "")
        args = [a for a in inner(n)[1:] if a["kind"] != "CXXDefaultArgExpr"]
        d = self.P.definition(rd["id"])
        if d is not None:
            return self.call(d, None, [self.ev(a) for a in args])
        if c in ("move", "forward", "ref", "cref"):
            return self.ev(args[0])
        if c in ("make_unique", "make_shared"):
            t = tname(qt(n))
            m = re.search(r"<\s*(?:const )?([\w:]+)\s*>", t)
            cls = m and m.group(1).split("::")[-1]
            if cls not in self.P.classes:
                raise Unsupported(f"make_unique of {t}")
            return self.construct(cls, [self.ev(a) for a in args])
        if c == "PyArg_ParseTuple":
            return self.parse(args)
        if c in ("Py_DECREF", "Py_XDECREF", "Py_INCREF", "Py_XINCREF", "import_array"):
            return VOID
        v = [self.val(self.ev(a)) for a in args]
        if c in ("isnan",):
            return v[0].nan
        if c in ("__builtin_nan", "quiet_NaN", "nan"):
            return D(ZERO, TRUE)
        if c in ("log", "sqrt", "exp", "log2", "fabs", "ceil", "floor"):
            x = dbl_of(v[0])
            if c == "log":
                RT.oblige(T.gt(x.p), "index", "logarithm of a positive number")
            if c == "log2":
                RT.oblige(T.gt(x.p), "index", "logarithm of a positive number")
            r = {"log": T.log, "sqrt": T.sqrt, "exp": T.exp, "log2": lambda p: T.log(p) / T.log(const(2)), "fabs": T.absolute, "ceil": V.sceil, "floor": V.sfloor}[c](x.p)
            return D(r, x.nan)
        if c in ("pow", "exp2"):
            x, y = (dbl_of(v[0]), dbl_of(v[1])) if c == "pow" else (D(const(2)), dbl_of(v[0]))
            b = x.p.const()
            if b is not None and b > 0:
                return D(T.exp(T.log(x.p) * y.p), T.disj(x.nan, y.nan))
            if y.p.const() is not None:
                return D(T.power(x.p, y.p.const()), T.disj(x.nan, y.nan))
            raise Unsupported("pow")
        if c in ("max", "min") and len(v) == 2:
            x, y = int_of(v[0]), int_of(v[1])
            return T.ite(T.gt(y - x), y, x) if c == "max" else T.ite(T.gt(x - y), y, x)
        if c == "PyArray_FROM_OTF":
            if not isinstance(v[0], Arr):
                raise Unsupported("array argument")
            want = {12: "double", 18: "char"}.get(int(v[1].const()))
            RT.oblige(TRUE if want == v[0].dtype else FALSE, "memory", "an array is taken as the type it has")
            return v[0]
        if c == "PyArray_DIM":
            return v[0].dims[int(v[1].const())]
        if c == "PyArray_SIZE" and len(v[0].dims) == 1:
            return v[0].dims[0]
        if c == "PyArray_ITEMSIZE":
            if v[0].dtype == "double":
                return const(8)
            return T.Var("itemsize", isint=True, nonneg=True)
        if c in ("PyArray_GETPTR1", "PyArray_GETPTR2"):
            return Addr(v[0], v[1:])
        if c == "PyArray_DATA" and len(v[0].dims) == 1:
            return Addr(v[0], [ZERO])
        if c in ("PyFloat_FromDouble", "PyFloat_AsDouble"):
            return v[0]
        if c == "PyArray_SETITEM":
            if not isinstance(v[1], Addr) or v[1].arr is not v[0]:
                raise Unsupported("PyArray_SETITEM")
            self.store(("n", v[0], v[1].idx), v[2])
            return ZERO
        if c in ("strnlen", "memcmp", "strncmp"):
            return self.text(c, v)
        if c in ("strlen", "strcmp", "strcoll"):
            RT.oblige(FALSE, "memory", "text is not read past the size of an element")
            raise Unsupported("text that need not be terminated")
        if c == "iota":
            a, b, x = v
            w = self.range(a, b)
            if w is not self.load(a.loc):
                raise Unsupported("iota of part of a container")
            x = int_of(x)
            self.store(a.loc, Vec(w.n, lambda k: x + as_poly(k)))
            return VOID
        if c == "back_inserter":
            r = self.ev(args[0])
            return Inserter(r.loc)
        if c == "sample":
            return self.sample(v, args)
        if c == "hardware_concurrency":
            x = T.Var("hardware_concurrency", isint=True, nonneg=True)
            self.assume(T.gt(x))
            RT.assume_note("threads", "std::thread::hardware_concurrency() is at least 1")
            return x
        if c == "copy" and len(v) == 3:
            w = self.range(v[0], v[1])
            if isinstance(v[2], Inserter):
                o = self.load(v[2].loc)
                if o.n == ZERO and not o.writes and o.picked is None and o.push is None:
                    self.store(v[2].loc, w)
                    return VOID
            if isinstance(v[2], Addr) and len(v[2].arr.dims) == 1:
                k = T.fresh("k", isint=True, nonneg=True)
                i = v[2].idx[0]
                with core.under(T.gt(w.n - k)):
                    self.address(v[2].arr, (i + k,))
                    val = self.element(w, k)
                if i != ZERO:
                    raise Unsupported("std::copy to part of an array")
                self.mem[("a", v[2].arr.name)] = Vec(v[2].arr.dims[0], opaque_at, writes=[Write([(k, ZERO, w.n)], k, val, TRUE, False)])
                return VOID
            raise Unsupported("std::copy")
        raise Unsupported(f"C++ call of {c}")

    def text(self, c, v):
        a = [x for x in v if isinstance(x, Addr)]
        size = T.Var("itemsize", isint=True, nonneg=True)
        n = int_of(v[-1])
        if len(a) != len(v) - 1 or any(x.arr.dtype != "char" for x in a):
            raise Unsupported(f"{c} of other memory")
        RT.oblige(T.ge(size - n), "memory", "text is not read past the size of an element")
        for x in a:
            self.address(x.arr, x.idx)
        if c != "strnlen":       # texts of the same length n, both without zero bytes before it
            ls = [T.App("strnlen", x.content(), size) for x in a]
            if all(FACTS.implied(T.eq(n - l)) for l in ls):
                c, n = "memcmp", ls[0]
        t = T.App(c, *[x.content() for x in a], n)
        if c == "strnlen":
            self.assume(T.ge(t), T.ge(n - t))
        return t

    def sample(self, v, args):
        a, b, out, k = v[:4]
        g = self.ev(args[4])
        e = self.val(g)
        if not isinstance(out, Inserter) or not isinstance(e, Engine) or not isinstance(g, Ref):
            raise Unsupported("std::sample")
        src = self.range(a, b)
        o = self.load(out.loc)
        if not (o.n == ZERO and not o.writes and o.push is None and o.picked is None):
            raise Unsupported("std::sample into a container that is not empty")
        k = int_of(k)
        n = T.ite(T.ge(src.n - k), k, src.n)
        self.store(g.loc, Engine(e.seed, e.pos + 1))

        def at(i):
            p = T.App("sampled", e.seed, const(e.pos), src.n, k, as_poly(i))
            self.assume(T.ge(p), T.gt(src.n - p))
            return self.element(src, p)
        i = T.fresh("k", isint=True, nonneg=True)
        with core.under(T.gt(n - i)):
            n0 = len(FACTS.stack)
            x = at(i)
            del FACTS.stack[n0:]
        if not isinstance(x, T.Poly):
            raise Unsupported("std::sample of other values")
        self.store(out.loc, Vec(n, at, term=T.App("sample", e.seed, const(e.pos), k, T.lam(src.n, lambda j: T.subst(x, {T.App("sampled", e.seed, const(e.pos), src.n, k, i).atom(): j})))))
        return VOID

    def parse(self, args):
        fmt = self.ev(args[1])
        if not (isinstance(fmt, tuple) and fmt[0] == "str"):
            raise Unsupported("argument format")
        outs = [self.ev(a) for a in args[2:]]
        f = fmt[1].split(":")[0]
        if len(f) != len(outs) or len(self.given) != len(outs):
            raise Unsupported("argument format")
        for ch, r, v in zip(f, outs, self.given):
            ok = ch == "O" and isinstance(v, Arr) or ch in "ikln" and isinstance(v, T.Poly)
            if not ok or not isinstance(r, Ref):
                self.prove("arguments are read as what the caller passes", FALSE)
                raise Unsupported("argument format")
            self.store(r.loc, v)
        return ONE
