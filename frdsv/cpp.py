"""The C++ extension modules, from their current source.

clang parses the extension sources (`-ast-dump=json`, with declarations-only stand-ins for the C++, Python
and numpy headers) and every function the module exports is translated, statement by statement, into the
Python fragment that `xform.py`/`hooks.py` execute. Dropped: types (arithmetic is mathematical, conversions
between integer types oblige the value to be representable where it matters: unsigned values are not
negative), reference counts, docstrings. Not translated (`Unsupported`): whatever is not named below.
"""
from __future__ import annotations
import ast
import functools
import hashlib
import json
import os
import re
import subprocess
import types
from fractions import Fraction
from . import core, terms as T, values as V, npmodel as N, hooks as H, xform
from .core import RT, FACTS, Unsupported
from .terms import as_poly, const, ZERO, ONE, TRUE, FALSE
from .values import Arr, Num, SBool, SList, poly, is_num, tonum, pconst

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, "cppstubs")
MODULES = {"frds.algorithms.utils.utils_ext": ["frds/algorithms/utils/utils_module.cpp"],
           "frds.measures.measures_ext": ["frds/measures/measures_module.cpp"]}


# ------------------------------------------------------------------------------------- run-time helpers
class Ptr:
    """A pointer or iterator: a position in the memory of an array or vector."""

    def __init__(self, a, off=0):
        self.a, self.off = a, off

    def idx(self, k):
        i = poly(self.off) + poly(k)
        c = i.const()
        RT_index(i)
        return int(c) if c is not None else Num(i, "int")

    def __getitem__(self, k):
        return self.a[self.idx(k)]

    def __setitem__(self, k, v):
        self.a[self.idx(k)] = v

    def __add__(self, k):
        return Ptr(self.a, Num(poly(self.off) + poly(k), "int"))

    def __sub__(self, k):
        if isinstance(k, Ptr):
            if k.a is not self.a:
                raise Unsupported("difference of pointers into different arrays")
            return Num(poly(self.off) - poly(k.off), "int")
        return Ptr(self.a, Num(poly(self.off) - poly(k), "int"))


class Flat:
    """A contiguous two-dimensional array seen as a flat sequence (the real memory, not a copy)."""

    def __init__(self, a):
        self.arr = a
        self.m = a._shape[1]

    def split(self, k):
        p = poly(k)
        n = as_poly(self.m)
        q = N.idiv(p, n)
        c = (p - q * n).const()
        q = Num(q, "int") if q.const() is None else int(q.const())
        return q, int(c) if c is not None else Num(p - poly(q) * n, "int")

    def __getitem__(self, k):
        return self.arr[self.split(k)]

    def __setitem__(self, k, v):
        self.arr[self.split(k)] = v


def RT_index(i):
    if i.const() is None:
        RT.oblige(T.ge(i), "index", "a C++ index is not negative")
    elif i.const() < 0:
        RT.oblige(FALSE, "index", "a C++ index is not negative")


def nat(x):
    """A value converted to an unsigned type or used as an index."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, SBool):
        return toint(x)
    if not isinstance(x, int):
        RT_index(poly(x))
    elif x < 0:
        RT.oblige(FALSE, "index", "a C++ index is not negative")
    return x


def ix(x):
    c = pconst(x)
    if c is not None and c < 0:
        RT.oblige(FALSE, "index", "a C++ index is not negative")
    return x        # the lower bound of a symbolic index is an obligation of the subscript itself


def toint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, SBool):
        return Num(core.ite(x.b, ONE, ZERO), "int")
    return x


def todouble(x):
    if isinstance(x, (bool, SBool)):
        return toint(x)
    if isinstance(x, int):
        return Num(const(x))
    if isinstance(x, Num) and x.t == "int":
        return Num(x.p, "float", x.special)
    return x


def tobool(x):
    if isinstance(x, (bool, SBool)):
        return x
    if x is None:
        return False
    if is_num(x):
        return SBool(T.neg(T.eq(poly(x))))
    return True


def trunc(x):
    return V.wrap(V.strunc(poly(x))) if not isinstance(x, int) else x


def intdiv(a, b):
    ca, cb = pconst(a), pconst(b)
    if ca is not None and cb is not None:
        if cb == 0:
            raise Unsupported("integer division by zero")
        return int(abs(ca) // abs(cb)) * (1 if ca * cb >= 0 else -1)
    RT.oblige(T.ge(poly(a)), "index", "operands of an integer division are not negative")
    RT.oblige(T.gt(poly(b)), "index", "operands of an integer division are not negative")
    if not (FACTS.implied(T.ge(poly(a))) and FACTS.implied(T.gt(poly(b)))):
        raise Unsupported("integer division of values that may be negative")
    return H.fdiv(a, b)


def intmod(a, b):
    return a - intdiv(a, b) * b


def vcopy(v):
    if isinstance(v, Arr):
        return v.copy()
    if isinstance(v, list):
        return SList(v)
    raise Unsupported("copy of a C++ container")


def vec(n, x=0):
    return N.full((n,), todouble(x))


def listed(*xs):
    return SList(xs)


def vlen(v):
    if isinstance(v, Arr):
        return v.shape[0]
    return H.symlen(v)


def isarr(a):
    if not isinstance(a, Arr):
        RT.oblige(FALSE, "shape", "an array is passed where the extension expects one")
        raise Unsupported("not an array")
    return a


def doubles(a):
    RT.oblige(TRUE if a._dtype.name == "float64" else FALSE, "memory", "memory read as double holds doubles")


def data(a):
    isarr(a)
    doubles(a)
    RT.oblige(TRUE if a.contig else FALSE, "memory", "memory read with unit stride is contiguous")
    if a.ndim == 1:
        return Ptr(a)
    if a.ndim == 2:
        return Ptr(Flat(a))
    raise Unsupported("data of an array of this dimension")


class Loc:
    def __init__(self, a, idx):
        self.a, self.i = a, idx

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported("offset from an element address")
        return self.a[self.i]

    def __setitem__(self, k, v):
        if k != 0:
            raise Unsupported("offset from an element address")
        self.a[self.i] = v


def getptr(a, *idx):
    isarr(a)
    doubles(a)
    if len(idx) != a.ndim:
        raise Unsupported("element address of an array of another dimension")
    idx = tuple(ix(i) for i in idx)
    return Loc(a, idx if len(idx) > 1 else idx[0])


def deref(p):
    return p[0]


def dimension(a, k):
    isarr(a)
    if not isinstance(k, int):
        k = int(pconst(k))
    if k >= a.ndim:
        raise Unsupported("dimension of an array")
    return a.shape[k]


def dims(a):
    return SList(list(isarr(a).shape))


def ndim(a):
    return isarr(a).ndim


def size(a):
    return isarr(a).size


def new(fill):
    def f(nd, dims, typ, *fortran):
        if int(pconst(nd)) != 1 or int(pconst(typ)) != 12 or any(int(pconst(x)) for x in fortran):
            raise Unsupported("new array of this kind")
        n = dims[0]
        return N.zeros((n,)) if fill else N.empty((n,))
    return f


def parse(args, fmt, *old):
    """PyArg_ParseTuple."""
    if fmt.strip().split(":")[0] != fmt.strip():
        fmt = fmt.split(":")[0]
    out, i, opt, k, n = [], 0, False, 0, 0
    specs = []
    while k < len(fmt):
        ch = fmt[k]
        if ch == "|":
            opt = True
            k += 1
            continue
        if fmt[k:k + 2] == "O!":
            specs.append(("O!", opt))
            k += 2
            continue
        specs.append((ch, opt))
        k += 1
    need = sum(1 for s, o in specs if not o)
    if not need <= len(args) <= len(specs):
        raise TypeError("function takes another number of arguments")
    for i, (s, o) in enumerate(specs):
        if i >= len(args):
            if i >= len(old):
                raise Unsupported("optional argument without a default")
            out.append(old[i])
            continue
        a = args[i]
        if s == "O":
            out.append(a)
        elif s == "O!":
            if not isinstance(a, Arr):
                raise TypeError("argument must be numpy.ndarray")
            out.append(a)
        elif s == "d":
            out.append(asdouble(a))
        elif s in "iln":
            if not isinstance(a, int) and not (isinstance(a, Num) and a.t == "int"):
                raise Unsupported("integer argument of an extension function")
            out.append(a)
        elif s == "p":
            out.append(tobool(a))
        else:
            raise Unsupported(f"argument format {s}")
    return tuple(out) if len(out) != 1 else out[0]


def asdouble(a):
    if isinstance(a, Arr):
        if a.ndim and not all(pconst(s) == 1 for s in a.shape):
            raise Unsupported("array where the extension expects a number")
        return Num(poly(a))
    if isinstance(a, (bool, SBool, int)):
        return todouble(a)
    if isinstance(a, Num):
        return Num(a.p, "float", a.special)
    if isinstance(a, float):
        return a
    raise Unsupported(f"{type(a).__name__} where the extension expects a number")


def build(fmt, *xs):
    out = []
    if len(fmt) != len(xs):
        raise Unsupported("Py_BuildValue")
    for f, x in zip(fmt, xs):
        if f in "bBhHiIlkLn":
            out.append(toint(x))
        elif f in "df":
            out.append(asdouble(x))
        elif f in "ON":
            out.append(x)
        else:
            raise Unsupported("Py_BuildValue")
    return tuple(out) if len(out) != 1 else out[0]


def cmax(a, b):
    return V.wrap(core.ite(T.gt(poly(b) - poly(a)), poly(b), poly(a)))


def cmin(a, b):
    return V.wrap(core.ite(T.gt(poly(a) - poly(b)), poly(b), poly(a)))


def span(a, b):
    """The elements between two iterators, as a view."""
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.a is not b.a:
        raise Unsupported("iterator range")
    if isinstance(a.a, Flat):
        raise Unsupported("iterator range of a two-dimensional array")
    if isinstance(a.a, list):
        if pconst(a.off) != 0 or pconst(b.off) != len(a.a):
            raise Unsupported("iterator range")
        return N.asarray(a.a)
    n = a.a.shape[0]
    if pconst(a.off) == 0 and poly(b.off) == poly(n):
        return a.a
    RT_index(poly(a.off))
    RT.oblige(T.ge(poly(b.off) - poly(a.off)), "index", "an iterator range is not reversed")
    RT.oblige(T.ge(poly(n) - poly(b.off)), "index", "an iterator range lies inside the array")
    return a.a[a.off:b.off]


def copy(a, b, out):
    s = span(a, b)
    n = s.shape[0]
    if not isinstance(out, Ptr) or not isinstance(out.a, Arr):
        raise Unsupported("std::copy destination")
    m = out.a.shape[0]
    RT_index(poly(out.off))
    RT.oblige(T.ge(poly(m) - poly(out.off) - poly(n)), "index", "std::copy stays inside its destination")
    if pconst(out.off) == 0 and poly(m) == poly(n):
        out.a[:] = s
    else:
        out.a[out.off:out.off + n] = s
    return out + n


def fill(a, b, x):
    span(a, b)[:] = todouble(x)


def accumulate(a, b, init):
    return N.sum_(span(a, b)) + init


def inner(a, b, c, init):
    s = span(a, b)
    if not isinstance(c, Ptr):
        raise Unsupported("std::inner_product")
    t = span(c, c + s.shape[0])
    return N.sum_(s * t) + init


def assign(dst, src):
    """Assignment between C++ containers (same size only: the memory is then overwritten)."""
    raise Unsupported("assignment of containers")


HELP = types.SimpleNamespace(ix=ix, nat=nat, toint=toint, todouble=todouble, tobool=tobool, trunc=trunc, intdiv=intdiv, intmod=intmod, vcopy=vcopy,
                             vec=vec, listed=listed, vlen=vlen, data=data, getptr=getptr, deref=deref, dimension=dimension, dims=dims, ndim=ndim,
                             size=size, simplenew=new(False), zeros=new(True), parse=parse, asdouble=asdouble, build=build, max=cmax, min=cmin,
                             copy=copy, fill=fill, accumulate=accumulate, inner=inner, Ptr=Ptr)


# ------------------------------------------------------------------------------------- the translation
class Cpp:
    def __init__(self, path, src):
        self.path = path
        self.root = src
        p = subprocess.run(["clang++", "-std=c++17", "-nostdinc", "-nostdinc++", "-isystem", STUBS, "-fsyntax-only", "-Wno-everything", "-Xclang", "-ast-dump=json", path],
                           capture_output=True, text=True, timeout=60)
        if p.returncode:
            raise Unsupported("clang: " + (p.stderr.strip().splitlines() or ["failed"])[0])
        self.tu = json.loads(p.stdout)
        self.fns = {}        # id -> FunctionDecl with a body
        self.byname = {}     # mangled name -> id of the definition
        self.alias = {}      # id of any redeclaration -> mangled name
        self.globals = {}    # id -> VarDecl
        self.tables = {}
        self.names = {}
        self.taken = set()
        self.code = []
        self.done = {}
        self.collect(self.tu)

    def collect(self, node):
        for d in node.get("inner", ()):
            k = d.get("kind")
            if k == "NamespaceDecl":
                if d.get("name") != "std":
                    self.collect(d)
            elif k == "LinkageSpecDecl":
                self.collect(d)
            elif k == "FunctionTemplateDecl":
                self.collect(d)
            elif k == "FunctionDecl":
                m = d.get("mangledName", d.get("name"))
                self.alias[d["id"]] = m
                self.fns[d["id"]] = d
                if any(x.get("kind") == "CompoundStmt" for x in d.get("inner", ())):
                    self.byname[m] = d["id"]
            elif k == "VarDecl":
                self.globals[d["id"]] = d
                self.table(d)

    def table(self, d):
        if "PyMethodDef" not in d.get("type", {}).get("qualType", ""):
            return
        for entry in walk(d, "InitListExpr"):
            s = [x for x in walk(entry, "StringLiteral")]
            f = [x for x in walk(entry, "DeclRefExpr") if x.get("referencedDecl", {}).get("kind") == "FunctionDecl"]
            if s and len(f) == 1 and not [x for x in entry.get("inner", ()) if x.get("kind") == "InitListExpr"]:
                self.tables[json.loads(s[0]["value"])] = f[0]["referencedDecl"]["id"]

    def definition(self, fid):
        m = self.alias.get(fid)
        return self.byname.get(m)

    def function(self, fid):
        """Python name of a translated function (translated on first use)."""
        d = self.definition(fid)
        if d is None:
            return None
        if d not in self.done:
            n = self.unique(self.fns[d].get("name", "f"))
            self.done[d] = n
            self.code.append(Fn(self, self.fns[d], n).text())
        return self.done[d]

    def unique(self, n):
        n = re.sub(r"\W", "_", n)
        k, i = n, 1
        while k in self.taken or k in RESERVED:
            i += 1
            k = f"{n}_{i}"
        self.taken.add(k)
        return k

    def source(self):
        exports = {}
        for nm, fid in self.tables.items():
            try:
                exports[nm] = self.function(fid)
            except Unsupported as e:
                exports[nm] = ("unsupported", str(e))
        if not exports:
            raise Unsupported("no method table found")
        return "\n".join(self.code), exports


RESERVED = {"np", "_cpp_", "_rt_", "None", "True", "False", "and", "or", "not", "is", "in", "lambda", "def", "pass", "del", "from", "global", "with", "as", "yield", "try", "raise", "assert", "except", "finally", "elif", "import", "nonlocal", "async", "await", "print", "range", "len", "max", "min", "abs", "float", "int"}


def walk(n, kind=None):
    for x in n.get("inner", ()):
        if not isinstance(x, dict) or not x:
            continue
        if kind is None or x.get("kind") == kind:
            yield x
        yield from walk(x, kind)


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))


def inner(n):
    return [x for x in n.get("inner", ()) if x and x.get("kind") not in ("FullComment",) and not x.get("kind", "").endswith("Comment")]


INT = re.compile(r"^(const )?(unsigned |signed )?(int|long|short|char|long long|long int|unsigned|npy_intp|size_t)( int)?$|^(const )?(size_type|std::size_t|Py_ssize_t|ssize_t|int64_t|uint64_t|ptrdiff_t)$")
UNS = re.compile(r"unsigned|size_t$|size_type|uint64_t")


def is_vector(t):
    return re.match(r"^(const )?(std::)?vector<double>( const)?$", t.strip()) is not None


def is_ref(t):
    return t.rstrip().endswith("&")


def is_fp(t):
    return re.sub(r"\bconst\b", "", t).strip() == "double"


class Scope(Unsupported):
    pass


MATH = {"sqrt": "np.sqrt", "exp": "np.exp", "log": "np.log", "log2": "np.log2", "log1p": "np.log1p", "expm1": "np.expm1", "fabs": "np.abs", "floor": "np.floor",
        "ceil": "np.ceil", "isinf": "np.isinf", "isnan": "np.isnan", "isfinite": "np.isfinite", "log10": "np.log10", "tanh": "np.tanh", "round": None, "abs": "abs",
        "fmax": None, "fmin": None, "hypot": None}


class Fn:
    """One function definition."""

    def __init__(self, cpp, d, name):
        self.cpp, self.d, self.name = cpp, d, name
        self.vars = {}       # decl id -> Python expression
        self.taken = set()
        self.lines = []
        self.ind = 1
        self.pre = True      # statements may be hoisted before the current one
        self.outs = []
        self.tmp = 0
        self.loops = []

    # ---- names
    def fresh(self, n):
        n = re.sub(r"\W", "_", n or "_u")
        k, i = n, 1
        while k in self.taken or k in RESERVED or k in self.cpp.taken:
            i += 1
            k = f"{n}_{i}"
        self.taken.add(k)
        return k

    def temp(self):
        self.tmp += 1
        return self.fresh(f"_t{self.tmp}")

    def emit(self, s):
        self.lines.append("    " * self.ind + s)

    # ---- function
    def text(self):
        d = self.d
        ps = [x for x in inner(d) if x["kind"] == "ParmVarDecl"]
        body = [x for x in inner(d) if x["kind"] == "CompoundStmt"][0]
        names = []
        entry = []
        pyc = [p for p in ps if "PyObject *" in qt(p)]
        wrapper = d["id"] in [self.cpp.definition(i) for i in self.cpp.tables.values()]
        for p in ps:
            n = self.fresh(p.get("name"))
            self.vars[p["id"]] = n
            names.append(n)
            t = qt(p)
            if is_ref(t):
                base = t.rstrip(" &").strip()
                if is_fp(base) or INT.match(base) or base == "bool":
                    if not base.startswith("const"):
                        self.outs.append(n)
                elif not is_vector(base):
                    raise Unsupported(f"parameter of type {t}")
            elif is_vector(t):
                entry.append(f"{n} = _cpp_.vcopy({n})")
            elif is_fp(t) or INT.match(t) or t == "bool" or t.endswith("*") or t.endswith("]"):
                if t.endswith("*") and not re.match(r"^(const )?(double|PyObject|PyArrayObject|_object|_arr|struct _object|struct _arr) (const )?\*( ?const)?$", t):
                    raise Unsupported(f"parameter of type {t}")
            else:
                raise Unsupported(f"parameter of type {t}")
        self.wrapper = wrapper
        if wrapper:
            if len(names) != 2:
                raise Unsupported("signature of an exported function")
            self.emit_head = f"def {self.name}(*{names[1]}):"
            self.emit(f"{names[0]} = None")
        else:
            self.emit_head = f"def {self.name}({', '.join(names)}):"
        for e in entry:
            self.emit(e)
        n0 = len(self.lines)
        self.block(body)
        if len(self.lines) == n0:
            self.emit("pass")
        if self.outs:
            self.emit(f"return (None, {', '.join(self.outs)},)")
        return self.emit_head + "\n" + "\n".join(self.lines) + "\n"

    def block(self, n):
        for s in inner(n):
            self.stmt(s)

    def nested(self, n):
        self.ind += 1
        k = len(self.lines)
        if n["kind"] == "CompoundStmt":
            self.block(n)
        else:
            self.stmt(n)
        if len(self.lines) == k:
            self.emit("pass")
        self.ind -= 1

    # ---- statements
    def stmt(self, n):
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n)
        self.exprstmt(n)

    def s_CompoundStmt(self, n):
        self.block(n)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for v in inner(n):
            if v["kind"] == "VarDecl":
                self.vardecl(v)
            elif v["kind"] == "DecompositionDecl":
                self.decomposition(v)
            elif v["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl", "UsingDecl", "StaticAssertDecl"):
                pass
            else:
                raise Unsupported(f"C++ declaration {v['kind']}")

    def decomposition(self, v):
        kids = inner(v)
        if is_ref(v["type"]["qualType"]):
            raise Unsupported("structured binding by reference")
        init = [x for x in kids if x["kind"] != "BindingDecl"]
        bs = [x for x in kids if x["kind"] == "BindingDecl"]
        e = self.expr(init[0])
        ns = []
        for b in bs:
            nm = self.fresh(b.get("name"))
            self.vars[b["id"]] = nm
            ns.append(nm)
        self.emit(", ".join(ns) + " = " + e)

    def vardecl(self, v):
        t = qt(v)
        init = inner(v)
        if v.get("storageClass") == "static":
            raise Unsupported("static local variable")
        if is_ref(t):
            e = strip(init[0])
            if e["kind"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr"):
                a, i = self.subscript(e)
                k = self.temp()
                self.emit(f"{k} = {i}")
                self.vars[v["id"]] = f"{a}[{k}]"
                return
            if e["kind"] == "DeclRefExpr":
                self.vars[v["id"]] = self.expr(e)
                return
            if "const" in t or "&&" in t:
                nm = self.fresh(v.get("name"))
                self.emit(f"{nm} = {self.expr(init[0])}")
                self.vars[v["id"]] = nm
                return
            raise Unsupported("reference variable")
        nm = self.fresh(v.get("name"))
        if not init:
            self.vars[v["id"]] = nm
            if t.endswith("]") or is_vector(t) or t.startswith("std::tuple"):
                raise Unsupported(f"uninitialised {t}")
            return
        if t.endswith("]"):
            e = strip(init[0])
            if e["kind"] != "InitListExpr":
                raise Unsupported("array initialiser")
            size = int(re.search(r"\[(\d+)\]", t).group(1))
            xs = [self.expr(x) for x in inner(e) if x["kind"] not in ("ImplicitValueInitExpr",)]
            if len(xs) != size:
                raise Unsupported("array initialiser")
            e = f"_cpp_.listed({', '.join(xs)})"
        else:
            x = strip(init[0])
            if x["kind"] == "LambdaExpr":
                self.lam(x, nm)
                self.vars[v["id"]] = nm
                return
            e = self.value(init[0])
        self.vars[v["id"]] = nm
        self.emit(f"{nm} = {e}")

    def lam(self, x, nm):
        ms = [m for m in walk(x, "CXXMethodDecl") if m.get("name") == "operator()" and any(y["kind"] == "CompoundStmt" for y in inner(m))]
        if not ms:
            raise Unsupported("lambda")
        m = ms[0]
        ps = [p for p in inner(m) if p["kind"] == "ParmVarDecl"]
        body = [y for y in inner(m) if y["kind"] == "CompoundStmt"][0]
        declared = {y["id"] for y in walk(m) if y.get("kind") in ("VarDecl", "ParmVarDecl")}
        for y in walk(body):
            tgt = None
            if y.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and y.get("opcode", "").endswith("=") and y["opcode"] not in ("==", "!=", "<=", ">="):
                tgt = strip(inner(y)[0])
            if y.get("kind") == "UnaryOperator" and y.get("opcode") in ("++", "--"):
                tgt = strip(inner(y)[0])
            if tgt is not None and tgt.get("kind") == "DeclRefExpr" and tgt["referencedDecl"]["id"] not in declared:
                raise Unsupported("lambda that assigns a captured variable")
        # a copy captured by value is taken when the lambda is made: require captured scalars not to change afterwards (checked by mutation count)
        caps = {y["referencedDecl"]["id"] for y in walk(body, "DeclRefExpr") if y.get("referencedDecl", {}).get("kind") == "VarDecl" and y["referencedDecl"]["id"] not in declared}
        for c in caps:
            if self.assigned(self.d, c) > 0 and not self.byref(x):
                raise Unsupported("lambda capturing a changing variable by value")
        names = []
        for p in ps:
            if is_ref(qt(p)) and not qt(p).startswith("const") and not is_vector(qt(p).rstrip(" &")):
                raise Unsupported("lambda parameter by reference")
            q = self.fresh(p.get("name"))
            self.vars[p["id"]] = q
            names.append(q)
        self.emit(f"def {nm}({', '.join(names)}):")
        outs, self.outs = self.outs, []
        w, self.wrapper = self.wrapper, False
        self.nested(body)
        self.outs, self.wrapper = outs, w

    def byref(self, x):
        recs = [y for y in inner(x) if y["kind"] == "CXXRecordDecl"]
        return bool(recs) and all(is_ref(qt(f)) for f in inner(recs[0]) if f["kind"] == "FieldDecl")

    def assigned(self, n, vid):
        c = 0
        for y in walk(n):
            if y.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and y.get("opcode", "").endswith("=") and y["opcode"] not in ("==", "!=", "<=", ">=") \
                    or y.get("kind") == "UnaryOperator" and y.get("opcode") in ("++", "--", "&"):
                t = strip(inner(y)[0])
                if t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == vid:
                    c += 1
            if y.get("kind") == "CallExpr":
                for a in inner(y)[1:]:
                    if a.get("kind") == "DeclRefExpr" and a.get("referencedDecl", {}).get("id") == vid:
                        c += 1          # passed by reference (no lvalue-to-rvalue conversion)
            if y.get("kind") == "CXXMemberCallExpr":
                me = strip(inner(y)[0])
                if me.get("kind") == "MemberExpr" and me.get("name") in ("push_back", "resize", "clear", "pop_back", "assign", "emplace_back"):
                    o = strip(inner(me)[0])
                    if o.get("kind") == "DeclRefExpr" and o["referencedDecl"]["id"] == vid:
                        c += 1
        return c

    def s_IfStmt(self, n):
        kids = inner(n)
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with an initialiser")
        c, then = kids[0], kids[1]
        els = kids[2] if len(kids) > 2 else None
        p = self.parse_call(c)
        if p is not None:
            # if (!PyArg_ParseTuple(...)) return NULL;
            if els is not None:
                raise Unsupported("PyArg_ParseTuple with an else branch")
            self.emit(p)
            return
        self.emit(f"if {self.cond(c)}:")
        self.nested(then)
        if els is not None:
            self.emit("else:")
            self.nested(els)

    def parse_call(self, c):
        e = strip(c)
        neg = False
        if e["kind"] == "UnaryOperator" and e.get("opcode") == "!":
            neg = True
            e = strip(inner(e)[0])
        elif e["kind"] == "BinaryOperator" and e.get("opcode") == "==":
            neg = True
            e = strip(inner(e)[0])
        if e["kind"] != "CallExpr" or self.callee(e) != "PyArg_ParseTuple":
            return None
        if not neg:
            raise Unsupported("use of PyArg_ParseTuple")
        a = inner(e)[1:]
        fmt = json.loads(strip(a[1])["value"])
        tgts = []
        rest = a[2:]
        i = 0
        specs = re.findall(r"O!|[A-Za-z]", fmt.split(":")[0].replace("|", ""))
        for s in specs:
            if s == "O!":
                i += 1          # the type object
            t = strip(rest[i])
            if t["kind"] != "UnaryOperator" or t.get("opcode") != "&":
                raise Unsupported("PyArg_ParseTuple target")
            tgts.append(self.expr(inner(t)[0]))
            i += 1
        if i != len(rest):
            raise Unsupported("PyArg_ParseTuple arguments")
        old = ""
        if "|" in fmt:
            old = ", " + ", ".join(t if j >= fmt.split("|")[0].replace("!", "").__len__() else "None" for j, t in enumerate(tgts))
        return f"{', '.join(tgts)} = _cpp_.parse({self.expr(a[0])}, {fmt!r}{old})"

    def s_ReturnStmt(self, n):
        kids = inner(n)
        if not kids:
            self.emit(f"return (None, {', '.join(self.outs)},)" if self.outs else "return None")
            return
        x = strip(kids[0])
        if x["kind"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr") or x["kind"] == "IntegerLiteral" and "PyObject" in qt(kids[0]):
            if self.wrapper:
                self.emit("raise SystemError('error return without exception set')")
            else:
                self.emit("return None")
            return
        v = self.value(kids[0])
        self.emit(f"return ({v}, {', '.join(self.outs)},)" if self.outs else f"return {v}")

    def s_ForStmt(self, n):
        kids = n.get("inner", [])
        init, cv, c, inc, body = kids[0], kids[1], kids[2], kids[3], kids[4]
        r = self.canonical(init, c, inc, body)
        if r is not None:
            var, rng = r
            self.emit(f"for {var} in {rng}:")
            self.nested(body)
            return
        if init:
            self.stmt(init)
        if any(x.get("kind") == "ContinueStmt" for x in walk(body)):
            raise Unsupported("continue in a general for loop")
        with_pre, self.pre = self.pre, False
        cc = self.cond(c) if c else "True"
        self.pre = with_pre
        self.emit(f"while {cc}:")
        self.ind += 1
        if body.get("kind") == "CompoundStmt":
            self.block(body)
        else:
            self.stmt(body)
        if inc:
            self.stmt(inc)
        self.ind -= 1

    def canonical(self, init, c, inc, body):
        if not init or init.get("kind") != "DeclStmt" or not c or not inc:
            return None
        vs = inner(init)
        if not vs or vs[0]["kind"] != "VarDecl" or not INT.match(qt(vs[0])) or not inner(vs[0]):
            return None
        v = vs[0]
        # further variables declared alongside (a cached bound)
        for w in vs[1:]:
            if w["kind"] != "VarDecl" or not inner(w) or not INT.match(qt(w)) or self.assigned(body, w["id"]):
                return None
        c, inc = strip(c), strip(inc)
        if c["kind"] != "BinaryOperator" or c["opcode"] not in ("<", "<=", ">", ">=", "!="):
            return None
        op = c["opcode"]
        l, r = (strip(x) for x in inner(c))
        if l.get("kind") != "DeclRefExpr" or l["referencedDecl"]["id"] != v["id"]:
            if r.get("kind") == "DeclRefExpr" and r["referencedDecl"]["id"] == v["id"]:
                l, r = r, l
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}[op]
            else:
                return None
        step = 0
        if inc["kind"] == "UnaryOperator" and inc["opcode"] in ("++", "--"):
            t = strip(inner(inc)[0])
            step = 1 if inc["opcode"] == "++" else -1
        elif inc["kind"] == "CompoundAssignOperator" and inc["opcode"] in ("+=", "-="):
            t = strip(inner(inc)[0])
            q = strip(inner(inc)[1])
            if q["kind"] != "IntegerLiteral" or q["value"] != "1":
                return None
            step = 1 if inc["opcode"] == "+=" else -1
        else:
            return None
        if t.get("kind") != "DeclRefExpr" or t["referencedDecl"]["id"] != v["id"]:
            return None
        if step > 0 and op not in ("<", "<=", "!=") or step < 0 and op not in (">", ">="):
            return None
        if step < 0 and UNS.search(qt(v)):
            return None
        if self.assigned(body, v["id"]):
            return None
        for x in [r] + list(walk(r)):
            if x.get("kind") == "DeclRefExpr" and x["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl") and self.assigned(body, x["referencedDecl"]["id"]):
                return None
            if x.get("kind") in ("CallExpr", "CXXMemberCallExpr") and self.callee(x) not in ("size", "PyArray_DIM", "PyArray_SIZE", "PyArray_NDIM"):
                return None
            if x.get("kind") in ("ArraySubscriptExpr", "CXXOperatorCallExpr"):
                return None
        a = self.expr(inner(v)[0])
        for w in vs[1:]:
            self.vardecl(w)
        b = self.expr(r)
        nm = self.fresh(v.get("name"))
        self.vars[v["id"]] = nm
        if step > 0:
            if op == "!=":
                # terminates at the bound only when it starts below it
                self.emit(f"_cpp_.nat(({b}) - ({a}))")
            return nm, f"range({a}, {b})" if op != "<=" else f"range({a}, ({b}) + 1)"
        return nm, f"range({a}, {b}, -1)" if op == ">" else f"range({a}, ({b}) - 1, -1)"

    def s_WhileStmt(self, n):
        kids = inner(n)
        c, body = kids[0], kids[1]
        it = self.iteration(c)
        if it is not None:
            item, src = it
            self.emit(f"for {item} in {src}:")
            self.nested(body)
            return
        with_pre, self.pre = self.pre, False
        cc = self.cond(c)
        self.pre = with_pre
        self.emit(f"while {cc}:")
        self.nested(body)

    def iteration(self, c):
        """while ((item = PyIter_Next(iter)))"""
        e = strip(c)
        if e["kind"] == "BinaryOperator" and e.get("opcode") == "!=":
            e = strip(inner(e)[0])
        if e["kind"] != "BinaryOperator" or e.get("opcode") != "=":
            return None
        r = strip(inner(e)[1])
        if r["kind"] != "CallExpr" or self.callee(r) != "PyIter_Next":
            return None
        return self.expr(inner(e)[0]), self.expr(inner(r)[1])

    def s_DoStmt(self, n):
        raise Unsupported("do loop")

    def s_SwitchStmt(self, n):
        raise Unsupported("switch")

    def s_BreakStmt(self, n):
        self.emit("break")

    def s_ContinueStmt(self, n):
        self.emit("continue")

    def s_CXXForRangeStmt(self, n):
        kids = n.get("inner", [])
        decls = [x for x in kids if x and x.get("kind") == "DeclStmt"]
        body = kids[-1]
        rng = inner(decls[0])[0]
        var = inner(decls[-1])[0]
        src = self.expr(inner(rng)[0])
        t = qt(var)
        k = self.temp()
        if not re.match(r"^\w+$", src):
            s = self.temp()
            self.emit(f"{s} = {src}")
            src = s
        self.emit(f"for {k} in range(_cpp_.vlen({src})):")
        if is_ref(var["type"]["qualType"]) or is_ref(t):
            self.vars[var["id"]] = f"{src}[{k}]"
            self.nested(body)
        else:
            nm = self.fresh(var.get("name"))
            self.vars[var["id"]] = nm
            self.ind += 1
            self.emit(f"{nm} = {src}[{k}]")
            self.ind -= 1
            self.nested(body)

    # expression statements
    def exprstmt(self, n):
        e = strip(n)
        k = e["kind"]
        if k in ("BinaryOperator",) and e["opcode"] == "=":
            return self.assignment(e)
        if k == "CompoundAssignOperator":
            l, r = inner(e)
            tgt = self.lvalue(l)
            v = self.expr(r)
            op = e["opcode"][:-1]
            self.emit(f"{tgt} = {self.arith(op, tgt, v, e.get('computeResultType', e['type']), e['type'])}")
            return
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            tgt = self.lvalue(inner(e)[0])
            self.emit(f"{tgt} = {self.arith(e['opcode'][0], tgt, '1', e['type'], e['type'])}")
            return
        if k == "BinaryOperator" and e["opcode"] == ",":
            for x in inner(e):
                self.exprstmt(x)
            return
        if k == "CXXOperatorCallExpr" and self.callee(e) == "operator=":
            l, r = inner(e)[1:]
            l = strip(l)
            if l["kind"] == "CallExpr" and self.callee(l) == "tie":
                tg = [self.lvalue(x) for x in inner(l)[1:]]
                self.emit(f"{', '.join(tg)} = {self.value(r)}")
                return
            if l["kind"] == "DeclRefExpr" and is_vector(qt(l)):
                self.emit(f"{self.expr(l)} = {self.value(r)}")
                return
            raise Unsupported("assignment operator")
        if k == "CStyleCastExpr" and qt(e) == "void":
            return
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            c = self.callee(e)
            if c in ("Py_DECREF", "Py_XDECREF", "Py_INCREF", "import_array", "reserve"):
                return
            if c == "PyErr_SetString":
                a = inner(e)[1:]
                x = strip(a[0])
                nm = x.get("referencedDecl", {}).get("name", "")
                if not nm.startswith("PyExc_"):
                    raise Unsupported("PyErr_SetString")
                self.emit(f"raise {nm[6:]}('error')")
                return
            if c == "tie":
                raise Unsupported("tie")
            v = self.expr(e)
            if v and not re.match(r"^\w+$", v):
                self.emit(v)
            return
        if k in ("IntegerLiteral", "DeclRefExpr", "GNUNullExpr", "StringLiteral"):
            return
        raise Unsupported(f"C++ statement {k}")

    def assignment(self, e):
        l, r = inner(e)
        x = strip(r)
        if x["kind"] == "BinaryOperator" and x.get("opcode") == "=":
            self.assignment(x)
            self.emit(f"{self.lvalue(l)} = {self.lvalue(inner(x)[0])}")
            return
        v = self.value(r)
        self.emit(f"{self.lvalue(l)} = {v}")

    def lvalue(self, n):
        e = strip(n)
        if e["kind"] == "DeclRefExpr":
            return self.expr(e)
        if e["kind"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr"):
            a, i = self.subscript(e)
            return f"{a}[{i}]"
        if e["kind"] == "UnaryOperator" and e["opcode"] == "*":
            return f"{self.pointee(inner(e)[0])}[0]"
        raise Unsupported(f"C++ assignment target {e['kind']}")

    # ---- expressions
    def cond(self, n):
        return self.expr(n)

    def value(self, n):
        """An expression whose result is stored: containers are copied unless they are moved or fresh."""
        e = strip(n, keep=("CXXConstructExpr",))
        if is_vector(qt(e)) and e["kind"] == "CXXConstructExpr":
            return self.expr(e)
        if e["kind"] == "DeclRefExpr" and is_vector(qt(e)):
            return f"_cpp_.vcopy({self.expr(e)})"
        return self.expr(n)

    def expr(self, n):
        k = n["kind"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported(f"C++ expression {k}")
        return m(n)

    def through(self, n):
        return self.expr(inner(n)[0])

    x_ParenExpr = x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ConstantExpr = through

    def x_SubstNonTypeTemplateParmExpr(self, n):
        return self.expr(inner(n)[-1])

    def x_IntegerLiteral(self, n):
        return n["value"]

    def x_FloatingLiteral(self, n):
        if qt(n) != "double":
            raise Unsupported("single precision literal")
        return repr(float(n["value"]))

    def x_CXXBoolLiteralExpr(self, n):
        return "True" if n["value"] else "False"

    def x_GNUNullExpr(self, n):
        return "None"

    def x_CXXNullPtrLiteralExpr(self, n):
        return "None"

    def x_StringLiteral(self, n):
        return repr(json.loads(n["value"]))

    def x_CharacterLiteral(self, n):
        return str(n["value"])

    def x_DeclRefExpr(self, n):
        r = n["referencedDecl"]
        if r["id"] in self.vars:
            return self.vars[r["id"]]
        if r["kind"] in ("VarDecl",) and r["id"] in self.cpp.globals:
            g = self.cpp.globals[r["id"]]
            if not g.get("constexpr") and not qt(g).startswith("const"):
                raise Unsupported(f"global variable {r.get('name')}")
            if not inner(g):
                raise Unsupported(f"global variable {r.get('name')}")
            return "(" + self.expr(inner(g)[0]) + ")"
        if r["kind"] == "FunctionDecl":
            f = self.cpp.function(r["id"])
            if f:
                return f
        raise Unsupported(f"C++ name {r.get('name')}")

    def cast(self, n):
        c = n.get("castKind")
        x = inner(n)[0]
        t, s = qt(n), qt(x)
        if c in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "UserDefinedConversion", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase"):
            if c == "ArrayToPointerDecay":
                return self.expr(x)
            return self.expr(x)
        if c == "NullToPointer":
            return "None"
        if c == "IntegralCast":
            e = self.expr(x)
            if s.replace("const ", "") == "bool":
                return f"_cpp_.toint({e})"
            if re.search(r"\b(char|short)\b", t):
                raise Unsupported(f"conversion to {t}")
            y = strip(x)
            if UNS.search(t) and not UNS.search(s) and y["kind"] != "IntegerLiteral":
                return f"_cpp_.nat({e})"
            return e
        if c in ("IntegralToFloating",):
            if "float" in t:
                raise Unsupported("single precision")
            y = strip(x)
            e = self.expr(x)
            if y["kind"] == "IntegerLiteral":
                return e
            return f"_cpp_.todouble({e})"
        if c == "FloatingCast":
            if t.replace("const ", "") != "double":
                raise Unsupported("single precision")
            raise Unsupported("single precision")
        if c == "FloatingToIntegral":
            return f"_cpp_.trunc({self.expr(x)})"
        if c in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return f"_cpp_.tobool({self.expr(x)})"
        if c == "BitCast":
            base = t.replace("const ", "").strip()
            if base in ("PyArrayObject *", "PyObject *", "struct _arr *", "struct _object *", "_arr *", "_object *"):
                return self.expr(x)
            if base == "double *" and s.replace("const ", "").strip() in ("void *", "double *"):
                return self.expr(x)
            if base == "void *":
                return self.expr(x)
            raise Unsupported(f"pointer conversion to {t}")
        if c == "ToVoid":
            return self.expr(x)
        raise Unsupported(f"C++ conversion {c}")

    x_ImplicitCastExpr = x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = cast

    def x_UnaryOperator(self, n):
        o = n["opcode"]
        x = inner(n)[0]
        if o == "-":
            return f"(-{self.expr(x)})"
        if o == "+":
            return self.expr(x)
        if o == "!":
            return f"(not {self.expr(x)})"
        if o == "*":
            return f"{self.pointee(x)}[0]"
        if o == "&":
            y = strip(x)
            if y["kind"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr"):
                a, i = self.subscript(y)
                return f"_cpp_.Ptr({a}, {i})" if not self.is_pointer(y) else f"({a} + {i})"
        raise Unsupported(f"C++ operator {o}")

    def is_pointer(self, y):
        b = inner(y)[0 if y["kind"] == "ArraySubscriptExpr" else 1]
        b = strip(b)
        return y["kind"] == "ArraySubscriptExpr" and qt(b).endswith("*")

    def pointee(self, x):
        return self.expr(x)

    def arith(self, op, a, b, restype, lhstype=None):
        t = restype.get("desugaredQualType", restype.get("qualType"))
        if op in ("/", "%") and not is_fp(t):
            return f"_cpp_.{'intdiv' if op == '/' else 'intmod'}({a}, {b})"
        if op not in ("+", "-", "*", "/"):
            raise Unsupported(f"C++ operator {op}")
        r = f"({a} {op} {b})"
        if op == "-" and UNS.search(t):
            r = f"_cpp_.nat({r})"
        if lhstype is not None:
            lt = lhstype.get("desugaredQualType", lhstype.get("qualType"))
            if INT.match(lt) and is_fp(t):
                r = f"_cpp_.trunc({r})"
        return r

    def x_BinaryOperator(self, n):
        o = n["opcode"]
        l, r = inner(n)
        if o in ("&&", "||"):
            a = self.expr(l)
            p, self.pre = self.pre, False
            b = self.expr(r)
            self.pre = p
            return f"({a} {'and' if o == '&&' else 'or'} {b})"
        if o == "=":
            if not self.pre:
                raise Unsupported("assignment inside an expression")
            self.assignment(n)
            return self.lvalue(l)
        a, b = self.expr(l), self.expr(r)
        if o in ("==", "!="):
            if a == "None" or b == "None":
                return f"({a if b == 'None' else b} {'is' if o == '==' else 'is not'} None)"
            return f"({a} {o} {b})"
        if o in ("<", "<=", ">", ">="):
            return f"({a} {o} {b})"
        return self.arith(o, a, b, n["type"])

    def x_CompoundAssignOperator(self, n):
        if not self.pre:
            raise Unsupported("assignment inside an expression")
        self.exprstmt(n)
        return self.lvalue(inner(n)[0])

    def x_ConditionalOperator(self, n):
        c, a, b = inner(n)
        cc = self.expr(c)
        p, self.pre = self.pre, False
        r = f"({self.expr(a)} if {cc} else {self.expr(b)})"
        self.pre = p
        return r

    def subscript(self, n):
        """(container, index) texts of a subscript."""
        if n["kind"] == "ArraySubscriptExpr":
            a, i = inner(n)
        else:
            if self.callee(n) != "operator[]":
                raise Unsupported("C++ operator call")
            a, i = inner(n)[1:]
        return self.expr(a), f"_cpp_.ix({self.expr(deunsign(i))})"

    def x_ArraySubscriptExpr(self, n):
        a, i = self.subscript(n)
        return f"{a}[{i}]"

    def x_CXXOperatorCallExpr(self, n):
        c = self.callee(n)
        if c == "operator[]":
            a, i = self.subscript(n)
            return f"{a}[{i}]"
        if c == "operator()":
            kids = inner(n)
            f = strip(kids[1])
            if f["kind"] == "DeclRefExpr" and f["referencedDecl"]["id"] in self.vars:
                return f"{self.vars[f['referencedDecl']['id']]}({', '.join(self.value(x) for x in kids[2:])})"
        raise Unsupported(f"C++ operator call {c}")

    def x_CXXConstructExpr(self, n):
        t = qt(n)
        a = inner(n)
        if is_vector(t):
            a = [x for x in a if x["kind"] != "CXXDefaultArgExpr"]
            if not a:
                return "_cpp_.listed()"
            if len(a) == 1 and INT.match(qt(a[0])):
                return f"_cpp_.vec({self.expr(a[0])})"
            if len(a) == 2 and INT.match(qt(a[0])):
                return f"_cpp_.vec({self.expr(a[0])}, {self.expr(a[1])})"
            if len(a) == 1:
                x = strip(a[0], keep=("CXXConstructExpr",))
                if n.get("elidable") or x["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
                    return self.expr(a[0])
                if is_vector(qt(x)):
                    if x["kind"] in ("CallExpr",) and not is_ref(self.rettype(x)):
                        return self.expr(a[0])
                    if x.get("valueCategory") == "xvalue":
                        return self.expr(a[0])
                    return f"_cpp_.vcopy({self.expr(a[0])})"
                if x["kind"] == "CXXStdInitializerListExpr":
                    return self.expr(x)
            raise Unsupported("vector construction")
        if t.startswith("std::tuple<") or t.startswith("tuple<"):
            if len(a) == 1 and "tuple<" in qt(a[0]):
                return self.expr(a[0])
            if a:
                return "(" + "".join(self.expr(x) + ", " for x in a) + ")"
        if len(a) == 1 and n.get("elidable"):
            return self.expr(a[0])
        raise Unsupported(f"construction of {t}")

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXStdInitializerListExpr(self, n):
        il = [x for x in walk(n, "InitListExpr")]
        if len(il) != 1:
            raise Unsupported("initialiser list")
        return f"_cpp_.listed({', '.join(self.expr(x) for x in inner(il[0]))})"

    def x_InitListExpr(self, n):
        xs = inner(n)
        if len(xs) == 1 and (is_fp(qt(n)) or INT.match(qt(n))):
            return self.expr(xs[0])
        raise Unsupported("initialiser list")

    def x_ImplicitValueInitExpr(self, n):
        return "0"

    def x_CXXScalarValueInitExpr(self, n):
        return "0.0" if is_fp(qt(n)) else "0"

    def callee(self, n):
        f = strip(inner(n)[0])
        if f["kind"] == "MemberExpr":
            return f.get("name", "").lstrip(".->")
        return f.get("referencedDecl", {}).get("name")

    def rettype(self, n):
        f = strip(inner(n)[0])
        t = f.get("referencedDecl", {}).get("type", {}).get("qualType", "")
        return t.split("(")[0].strip()

    def args(self, n):
        fid = strip(inner(n)[0]).get("referencedDecl", {}).get("id")
        d = self.cpp.definition(fid) if fid in self.cpp.alias else None
        ps = [x for x in inner(self.cpp.fns[d])if x["kind"] == "ParmVarDecl"] if d else []
        psd = [x for x in inner(self.cpp.fns[fid]) if x["kind"] == "ParmVarDecl"] if d else []
        out = []
        for i, x in enumerate(inner(n)[1:]):
            if x["kind"] == "CXXDefaultArgExpr":
                init = inner(x) or (inner(psd[i]) if i < len(psd) else []) or (inner(ps[i]) if i < len(ps) else [])
                if not init:
                    raise Unsupported("default argument")
                out.append(self.expr(init[0]))
            elif i < len(ps) and is_ref(qt(ps[i])):
                out.append(self.expr(strip(x)) if not is_vector(qt(ps[i]).rstrip(" &")) else self.expr(x))
            else:
                out.append(self.expr(x))
        return out, ps

    def x_CallExpr(self, n):
        c = self.callee(n)
        f = strip(inner(n)[0])
        rd = f.get("referencedDecl", {})
        if rd.get("id") in self.cpp.alias and self.cpp.definition(rd["id"]):
            nm = self.cpp.function(rd["id"])
            a, ps = self.args(n)
            outs = [(x, p) for x, p in zip(inner(n)[1:], ps) if is_ref(qt(p)) and not qt(p).startswith("const") and not is_vector(qt(p).rstrip(" &"))]
            if outs:
                if not self.pre:
                    raise Unsupported("call with output parameters inside an expression")
                r = self.temp()
                self.emit(f"{r} = {nm}({', '.join(a)})")
                for j, (x, p) in enumerate(outs):
                    self.emit(f"{self.lvalue(x)} = {r}[{j + 1}]")
                return f"{r}[0]" if "void" not in rd.get("type", {}).get("qualType", "").split("(")[0] else r
            return f"{nm}({', '.join(a)})"
        if rd.get("id") in self.vars:
            return f"{self.vars[rd['id']]}({', '.join(self.expr(x) for x in inner(n)[1:])})"
        a = [self.expr(x) for x in inner(n)[1:] if x["kind"] != "CXXDefaultArgExpr"] if c not in ("get",) else []
        kids = inner(n)[1:]
        if c == "abs" or c == "fabs":
            return f"np.abs({a[0]})"
        if c in MATH and MATH[c]:
            return f"{MATH[c]}({a[0]})"
        if c == "pow":
            return f"({a[0]} ** {a[1]})"
        if c in ("max", "min") and len(a) == 2:
            return f"_cpp_.{c}({a[0]}, {a[1]})"
        if c == "fma" and len(a) == 3:
            return f"({a[0]} * {a[1]} + {a[2]})"
        if c in ("make_tuple", "make_pair"):
            return "(" + "".join(x + ", " for x in a) + ")"
        if c in ("move", "forward"):
            return a[0]
        if c == "clamp" and len(a) == 3:
            return f"({a[1]} if {a[0]} < {a[1]} else ({a[2]} if {a[2]} < {a[0]} else {a[0]}))"
        if c == "infinity":
            return "np.inf"
        if c == "quiet_NaN" or c == "__builtin_nan":
            return "np.nan"
        if c == "__builtin_inf":
            return "np.inf"
        if c == "copy" and len(a) == 3:
            return f"_cpp_.copy({', '.join(a)})"
        if c == "fill" and len(a) == 3:
            return f"_cpp_.fill({', '.join(a)})"
        if c == "accumulate" and len(a) == 3:
            if not is_fp(qt(kids[2])):
                raise Unsupported("accumulate with an integer start")
            return f"_cpp_.accumulate({', '.join(a)})"
        if c == "inner_product" and len(a) == 4:
            if not is_fp(qt(kids[3])):
                raise Unsupported("inner_product with an integer start")
            return f"_cpp_.inner({', '.join(a)})"
        if c == "PyArray_DATA" or c == "PyArray_BYTES":
            return f"_cpp_.data({a[0]})"
        if c in ("PyArray_GETPTR1", "PyArray_GETPTR2"):
            return f"_cpp_.getptr({', '.join(a)})"
        if c == "PyArray_DIM":
            return f"_cpp_.dimension({a[0]}, {a[1]})"
        if c == "PyArray_DIMS":
            return f"_cpp_.dims({a[0]})"
        if c == "PyArray_NDIM":
            return f"_cpp_.ndim({a[0]})"
        if c == "PyArray_SIZE":
            return f"_cpp_.size({a[0]})"
        if c in ("PyArray_SimpleNew", "PyArray_EMPTY"):
            return f"_cpp_.simplenew({', '.join(a)})"
        if c == "PyArray_ZEROS":
            return f"_cpp_.zeros({', '.join(a)})"
        if c == "PyFloat_FromDouble" or c == "PyFloat_AsDouble":
            return f"_cpp_.asdouble({a[0]})"
        if c == "Py_BuildValue":
            return f"_cpp_.build({', '.join(a)})"
        if c == "PyTuple_Pack":
            return "(" + "".join(x + ", " for x in a[1:]) + ")"
        if c == "PyBool_FromLong":
            return f"_cpp_.tobool({a[0]})"
        if c == "PyObject_GetIter":
            return a[0]
        if c in ("PySequence_Size", "PySequence_Length"):
            return f"_cpp_.vlen({a[0]})"
        if c == "PySequence_GetItem":
            return f"{a[0]}[_cpp_.ix({a[1]})]"
        if c == "PyErr_Occurred":
            return "None"
        raise Unsupported(f"C++ call of {c}")

    def x_CXXMemberCallExpr(self, n):
        me = strip(inner(n)[0])
        nm = me.get("name", "")
        ob = inner(me)[0]
        o = self.expr(ob)
        t = qt(strip(ob)).rstrip(" &")
        if not is_vector(t):
            raise Unsupported(f"C++ member {nm} of {t}")
        a = [self.expr(x) for x in inner(n)[1:]]
        if nm == "size":
            return f"_cpp_.vlen({o})"
        if nm == "empty":
            return f"(_cpp_.vlen({o}) == 0)"
        if nm in ("push_back", "emplace_back"):
            return f"{o}.append({a[0]})"
        if nm == "at":
            return f"{o}[_cpp_.ix({self.expr(deunsign(inner(n)[1]))})]"
        if nm in ("begin", "cbegin", "data"):
            return f"_cpp_.Ptr({o})"
        if nm in ("end", "cend"):
            return f"_cpp_.Ptr({o}, _cpp_.vlen({o}))"
        if nm == "front":
            return f"{o}[0]"
        if nm == "back":
            return f"{o}[-1]"
        raise Unsupported(f"C++ member {nm}")


def deunsign(n):
    """The operand of a conversion to an unsigned index type (the subscript obliges it to be an index)."""
    if n["kind"] == "ImplicitCastExpr" and n.get("castKind") == "IntegralCast" and UNS.search(qt(n)) and qt(inner(n)[0]).replace("const ", "") != "bool":
        return deunsign(inner(n)[0])
    if n["kind"] == "ImplicitCastExpr" and n.get("castKind") in ("LValueToRValue",):
        return n
    return n


STRIP = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXConstructExpr")


def strip(n, keep=()):
    """Without parentheses, implicit conversions that keep the value, temporaries."""
    while True:
        k = n["kind"]
        if k in keep:
            return n
        if k in STRIP and k != "CXXConstructExpr":
            n = inner(n)[0]
        elif k == "ImplicitCastExpr" and n.get("castKind") in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "NullToPointer", "PointerToBoolean", "IntegralToBoolean", "IntegralCast", "BitCast"):
            n = inner(n)[0]
        elif k == "CXXConstructExpr" and n.get("elidable") and len(inner(n)) == 1:
            n = inner(n)[0]
        else:
            return n


@functools.lru_cache(maxsize=None)
def translate(path):
    c = Cpp(path, None)
    return c.source()


def load(loader, name, rels):
    path = os.path.join(loader.src, rels[0])
    d = os.path.dirname(path)
    for f in sorted(os.listdir(d)):
        if f.endswith((".cpp", ".hpp", ".h")):
            loader.hashes[name + "/" + f] = hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()[:16]
    src, exports = translate(path)
    m = types.ModuleType(name)
    ns = m.__dict__
    from .loader import RTNS
    ns["__builtins__"] = loader.builtins
    ns["_rt_"], ns["_cpp_"], ns["np"] = RTNS, HELP, loader.np
    tree = xform.transform(src, name, path)
    exec(compile(tree, path, "exec"), ns)
    pub = types.ModuleType(name)
    for k, v in exports.items():
        pub.__dict__[k] = ns[v] if isinstance(v, str) else H.Poison(f"{name}.{k} ({v[1] if v else 'no definition'})")
    return pub


def extensions():
    return {name: functools.partial(load, name=name, rels=rels) for name, rels in MODULES.items()}
