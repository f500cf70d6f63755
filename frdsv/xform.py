"""Mechanical rewriting of the repository's Python source before it is executed symbolically.

Only control flow and operators that CPython would decide by itself are rewritten, so that they
report to the runtime (`hooks.py`): if / for / while / and / or / not / comparisons chains /
conditional expressions / assert / raise / division / float literals / comprehensions / yield.
Nothing of the text is dropped except docstrings, annotations and `if __name__ == "__main__"`.
"""
from __future__ import annotations
import ast

RTN = "_rt_"


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def attr(k):
    return ast.Attribute(value=name(RTN), attr=k, ctx=ast.Load())


def call(k, *args, **kw):
    return ast.Call(func=attr(k), args=list(args), keywords=[ast.keyword(arg=a, value=v) for a, v in kw.items()])


def cst(v):
    return ast.Constant(value=v)


def args_of(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


def lam(body, *names):
    return ast.Lambda(args=args_of(names), body=body)


class Bound(ast.NodeVisitor):
    """Names bound by statements (not inside nested scopes)."""

    def __init__(self):
        self.names = []
        self.has = set()

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        self.visit(n.generators[0].iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def bound_names(stmts):
    b = Bound()
    for s in stmts:
        b.visit(s)
    return b.names


class Jumps(ast.NodeVisitor):
    def __init__(self):
        self.found = set()
        self.loop = 0

    def visit_Return(self, n):
        self.found.add("return")

    def visit_Break(self, n):
        if not self.loop:
            self.found.add("break")

    def visit_Continue(self, n):
        if not self.loop:
            self.found.add("continue")

    def visit_Raise(self, n):
        self.found.add("raise")

    def visit_Yield(self, n):
        self.found.add("yield")
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def visit_Global(self, n):
        self.found.add("scope")

    visit_Nonlocal = visit_Global

    def visit_For(self, n):
        self.visit(n.iter)
        self.loop += 1
        for s in n.body:
            self.visit(s)
        self.loop -= 1
        for s in n.orelse:
            self.visit(s)

    def visit_While(self, n):
        self.visit(n.test)
        self.loop += 1
        for s in n.body:
            self.visit(s)
        self.loop -= 1

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef


def jumps(stmts):
    j = Jumps()
    for s in stmts:
        j.visit(s)
    return j.found


def has_yield(fn):
    class Y(ast.NodeVisitor):
        y = False

        def visit_Yield(self, n):
            self.y = True

        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            if n is fn:
                self.generic_visit(n)

        def visit_Lambda(self, n):
            pass
    v = Y()
    v.visit(fn)
    return v.y


class Transform(ast.NodeTransformer):
    def __init__(self, src, modname):
        self.src, self.modname = src, modname
        self.scope = []       # qualname parts
        self.kinds = []       # "class" / "fn" / "branch" / "loop"
        self.counter = 0
        self.globals_ = [set()]
        self.gen = []
        self.loops = [None]   # names handed back by the enclosing loop body

    def fresh(self, p):
        self.counter += 1
        return f"_{p}_{self.counter}_"

    # ---- literals and operators
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            seg = ast.get_source_segment(self.src, n) if self.src else None
            try:
                from fractions import Fraction
                Fraction(seg.replace("_", ""))
                s = seg.replace("_", "")
            except Exception:
                s = repr(n.value)
            return ast.copy_location(call("lit", cst(s)), n)
        if isinstance(n.value, complex):
            return ast.copy_location(call("unsupported", cst("complex literal")), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        op = {ast.Div: "div", ast.Pow: "pow", ast.FloorDiv: "fdiv", ast.Mod: "mod"}.get(type(n.op))
        if op:
            return ast.copy_location(call(op, n.left, n.right), n)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        k = "and_" if isinstance(n.op, ast.And) else "or_"
        return ast.copy_location(call(k, *[lam(v) for v in n.values]), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(call("not_", n.operand), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)

        def one(op, a, b):
            if isinstance(op, (ast.In, ast.NotIn)):
                r = call("in_", a, b)
                return call("not_", r) if isinstance(op, ast.NotIn) else r
            return ast.Compare(left=a, ops=[op], comparators=[b])
        if len(n.ops) == 1:
            return ast.copy_location(one(n.ops[0], n.left, n.comparators[0]), n)
        vals = [n.left] + n.comparators
        parts = []
        # middle operands are evaluated once
        nm = [None] + [self.fresh("c") for _ in n.comparators[:-1]] + [None]
        for i, op in enumerate(n.ops):
            a = vals[i] if nm[i] is None else name(nm[i])
            b = vals[i + 1] if nm[i + 1] is None else ast.NamedExpr(target=name(nm[i + 1], ast.Store()), value=vals[i + 1])
            parts.append(one(op, a, b))
        # evaluated eagerly: chain operands are free of side effects in the supported fragment
        return ast.copy_location(call("chain", *parts), n)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("ifexp", n.test, lam(n.body), lam(n.orelse)), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        op = {ast.Div: "idiv", ast.Pow: "ipow", ast.FloorDiv: "ifdiv", ast.Mod: "imod"}.get(type(n.op))
        t = n.target
        if isinstance(t, ast.Name) and op:
            v = call(op, name(t.id), n.value)
            return ast.copy_location(ast.Assign(targets=[name(t.id, ast.Store())], value=v), n)
        if isinstance(t, ast.Subscript) and not any(isinstance(x, (ast.Slice, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for y in (t.slice, n.value) for x in ast.walk(y)):
            return ast.copy_location(ast.Expr(call("augitem", cst(type(n.op).__name__), t.value, t.slice, lam(n.value))), n)
        return n

    def visit_AnnAssign(self, n):
        if self.kinds and self.kinds[-1] == "class":
            # keep annotations of class bodies (dataclasses), without evaluating them
            if n.value is not None:
                n.value = self.visit(n.value)
            n.annotation = cst("any")
            return n
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        self.generic_visit(n)
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)

    def visit_Assert(self, n):
        self.generic_visit(n)
        a = [n.test] + ([lam(n.msg)] if n.msg else [])
        return ast.copy_location(ast.Expr(call("assert_", *a)), n)

    def visit_Raise(self, n):
        self.generic_visit(n)
        if n.exc is not None:
            n.exc = call("exc", n.exc)
        n.cause = None
        return n

    def visit_Try(self, n):
        self.generic_visit(n)
        for h in n.handlers:
            h.body.insert(0, ast.Expr(call("chk")))
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("slist", n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("sdict", n), n)

    # ---- comprehensions
    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen")

    def visit_SetComp(self, n):
        return self.comp(n, "set")

    def comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) != 1:
            for g in n.generators:
                g.iter = call("it", g.iter)
                g.ifs = [call("truth", c) for c in g.ifs]
            return n
        g = n.generators[0]

        def fn(body):
            if isinstance(g.target, ast.Name):
                return lam(body, g.target.id)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = lam(body, *[e.id for e in g.target.elts])
                return lam(ast.Call(func=inner, args=[ast.Starred(value=name("_e_"), ctx=ast.Load())], keywords=[]), "_e_")
            # nested pattern: (i, (a, b))
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            inner = lam(body, *names)
            flat = call("flatten_like", name("_e_"), cst(self.pattern(g.target)))
            return lam(ast.Call(func=inner, args=[ast.Starred(value=flat, ctx=ast.Load())], keywords=[]), "_e_")
        cond = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else call("and_", *[lam(v) for v in g.ifs])
            cond = fn(c)
        return ast.copy_location(call("comp", cst(kind), g.iter, fn(n.elt), cond or cst(None)), n)

    def pattern(self, t):
        if isinstance(t, ast.Name):
            return "n"
        return "(" + "".join(self.pattern(e) for e in t.elts) + ")"

    def visit_DictComp(self, n):
        self.generic_visit(n)
        for g in n.generators:
            g.iter = call("it", g.iter)
            g.ifs = [call("truth", c) for c in g.ifs]
        return n

    # ---- definitions
    def visit_FunctionDef(self, n):
        qual = ".".join([s for s in self.scope] + [n.name])
        for i, d in enumerate(n.decorator_list):
            n.decorator_list[i] = self.visit(d)
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        n.returns = None
        params = a.posonlyargs + a.args
        if params and self.kinds and self.kinds[-1] == "class":
            for s in ast.walk(n):      # blocks become functions of their own
                if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == "super" and not s.args and not s.keywords:
                    s.args = [name("__class__"), name(params[0].arg)]
        self.scope.append(n.name)
        self.kinds.append("fn")
        g = set()
        for s in ast.walk(n):
            if isinstance(s, ast.Global):
                g |= set(s.names)
        self.globals_.append(g)
        gen = has_yield(n)
        self.gen.append("_gen_" if gen else None)
        self.loops.append(None)
        n.body = self.block(n.body)
        if gen:
            n.body = [ast.Assign(targets=[name("_gen_", ast.Store())], value=call("Gen"))] + self.genreturns(n.body) + [ast.Return(call("gendone", name("_gen_")))]
        if not n.body:
            n.body = [ast.Pass()]
        self.loops.pop()
        self.gen.pop()
        self.globals_.pop()
        self.kinds.pop()
        self.scope.pop()
        n.decorator_list = n.decorator_list + [call("fn", cst(self.modname), cst(qual), cst(getattr(n, "lineno", 0)))]
        return n

    visit_AsyncFunctionDef = None

    def genreturns(self, body):
        class R(ast.NodeTransformer):
            def visit_Return(s, n):
                if n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None:
                    return ast.copy_location(ast.Return(call("gendone", name("_gen_"))), n)
                return n

            def visit_FunctionDef(s, n):
                return n

            visit_Lambda = visit_FunctionDef
        return [R().visit(s) for s in body]

    def visit_Yield(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("emit", name("_gen_"), n.value or cst(None)), n)

    def visit_YieldFrom(self, n):
        self.generic_visit(n)
        return ast.copy_location(call("emitall", name("_gen_"), n.value), n)

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        self.kinds.append("class")
        n.body = [self.visit(s) for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        n.body = [s for s in n.body if s is not None] or [ast.Pass()]
        n.bases = [self.visit(b) for b in n.bases]
        self.kinds.pop()
        self.scope.pop()
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.decorator_list = [call("cls", cst(self.modname), cst(".".join(self.scope + [n.name])))] + n.decorator_list
        return n

    # ---- statements
    def block(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out

    def infn(self):
        return bool(self.kinds) and self.kinds[-1] != "class"

    def visit_Module(self, n):
        n.body = self.block(n.body)
        return n

    def visit_Global(self, n):
        return None

    def visit_Assign(self, n):
        self.generic_visit(n)
        gl = self.globals_[-1]
        if gl and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in gl:
            return ast.copy_location(ast.Expr(call("gset", ast.Call(func=name("globals"), args=[], keywords=[]), cst(n.targets[0].id), n.value)), n)
        return n

    def is_main(self, n):
        t = n.test
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"

    def locs(self, names):
        """Current values of local names, MISSING when unbound."""
        return call("loc", ast.Call(func=name("locals"), args=[], keywords=[]), *[cst(x) for x in names])

    def visit_If(self, n):
        if not self.infn():
            if self.is_main(n):
                return None
            n.test = call("truth", self.visit(n.test))
            n.body = self.block(n.body) or [ast.Pass()]
            n.orelse = self.block(n.orelse)
            return n
        j = jumps(n.body) | jumps(n.orelse)
        bn = bound_names(n.body + n.orelse)
        simple = not j and not (set(bn) & self.globals_[-1]) and not any(isinstance(x, (ast.Import, ast.ImportFrom)) for s in n.body + n.orelse for x in ast.walk(s))
        test = self.visit(n.test)
        if not simple:
            n.test = call("truth", test)
            n.body = self.block(n.body) or [ast.Pass()]
            n.orelse = self.block(n.orelse)
            return n
        self.kinds.append("branch")
        a, b = self.block(n.body), self.block(n.orelse)
        self.kinds.pop()
        fa, fb = self.fresh("then"), self.fresh("else")
        res = ast.Return(ast.Tuple(elts=[call("cur", ast.Call(func=name("locals"), args=[], keywords=[]), cst(x)) for x in bn], ctx=ast.Load()))

        def mk(f, body):
            return ast.FunctionDef(name=f, args=args_of(bn), body=body + [res], decorator_list=[], returns=None, type_params=[])
        ret = call("If", test, name(fa), name(fb), self.locs(bn))
        out = [mk(fa, a), mk(fb, b)]
        return self.located(out + self.assign_locs(bn, ret), n)

    def assign_locs(self, names, value):
        if not names:
            return [ast.Expr(value)]
        t = self.fresh("v")
        out = [ast.Assign(targets=[ast.Tuple(elts=[name(x, ast.Store()) for x in names], ctx=ast.Store())], value=value)]
        # names that stay unbound are unbound again
        out.append(ast.If(test=call("anymissing", ast.Tuple(elts=[name(x) for x in names], ctx=ast.Load())),
                          body=[ast.If(test=call("missing", name(x)), body=[ast.Delete(targets=[name(x, ast.Del())])], orelse=[]) for x in names], orelse=[]))
        return out

    def located(self, stmts, n):
        for s in stmts:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return stmts

    def visit_For(self, n):
        if not self.infn():
            n.iter = call("it", self.visit(n.iter))
            n.body = self.block(n.body) or [ast.Pass()]
            return n
        if n.orelse:
            return [ast.copy_location(ast.Expr(call("unsupported", cst("for/else"))), n)]
        j = jumps(n.body)
        it = self.visit(n.iter)
        bn = bound_names(n.body)
        tn = [x for x in bound_names([n.target]) if x not in bn]
        names = bn + tn
        target = n.target
        body = self.loopbody(n.body, names, pre=[ast.Assign(targets=[target], value=name("_elem_"))], params=["_elem_"])
        f = self.fresh("body")
        fd = ast.FunctionDef(name=f, args=args_of(["_elem_"] + names), body=body, decorator_list=[], returns=None, type_params=[])
        ret = call("For", it, name(f), self.locs(names), ast.Tuple(elts=[cst(x) for x in names], ctx=ast.Load()), cst(getattr(n, "lineno", 0)))
        return self.located([fd] + self.loopresult(names, ret, j), n)

    def visit_While(self, n):
        if not self.infn() or n.orelse:
            return [ast.copy_location(ast.Expr(call("unsupported", cst("while"))), n)]
        j = jumps(n.body)
        names = bound_names(n.body + [ast.Expr(n.test)])
        test = self.visit(n.test)
        body = self.loopbody(n.body, names, pre=[], params=[])
        f, c = self.fresh("body"), self.fresh("cond")
        fd = ast.FunctionDef(name=f, args=args_of(names), body=body, decorator_list=[], returns=None, type_params=[])
        fc = ast.FunctionDef(name=c, args=args_of(names), body=[ast.Return(test)], decorator_list=[], returns=None, type_params=[])
        ret = call("While", name(c), name(f), self.locs(names), ast.Tuple(elts=[cst(x) for x in names], ctx=ast.Load()), cst(getattr(n, "lineno", 0)))
        return self.located([fd, fc] + self.loopresult(names, ret, j), n)

    def loopbody(self, stmts, names, pre, params):
        def tup():
            return ast.Tuple(elts=[call("cur", ast.Call(func=name("locals"), args=[], keywords=[]), cst(x)) for x in names], ctx=ast.Load())

        class J(ast.NodeTransformer):
            def visit_Break(s, n):
                return ast.copy_location(ast.Return(ast.Tuple(elts=[cst("break"), cst(None), tup()], ctx=ast.Load())), n)

            def visit_Continue(s, n):
                return ast.copy_location(ast.Return(ast.Tuple(elts=[cst("next"), cst(None), tup()], ctx=ast.Load())), n)

            def visit_Return(s, n):
                return ast.copy_location(ast.Return(ast.Tuple(elts=[cst("return"), n.value or cst(None), tup()], ctx=ast.Load())), n)

            def visit_For(s, n):
                n.body = [K().visit(x) for x in n.body]
                return n

            visit_While = visit_For

            def visit_FunctionDef(s, n):
                return n

            visit_Lambda = visit_ClassDef = visit_FunctionDef

        class K(J):
            """inside an inner loop: only return leaves this loop"""

            def visit_Break(s, n):
                return n

            visit_Continue = visit_Break

            def visit_Return(s, n):
                n._outer = True
                return n
        # inner loops are rewritten first (self.block), their markers are handled by loopresult
        self.kinds.append("loop")
        body = [J().visit(s) for s in stmts]
        self.loops.append(names)
        body = self.block(body)
        self.loops.pop()
        self.kinds.pop()
        return pre + body + [ast.Return(ast.Tuple(elts=[cst("next"), cst(None), tup()], ctx=ast.Load()))]

    def loopresult(self, names, ret, j):
        r = self.fresh("r")
        out = [ast.Assign(targets=[name(r, ast.Store())], value=ret)]
        out += self.assign_locs(names, ast.Subscript(value=name(r), slice=cst(2), ctx=ast.Load()))
        if "return" in j:
            v = ast.Subscript(value=name(r), slice=cst(1), ctx=ast.Load())
            if self.loops[-1] is not None:
                lc = [call("cur", ast.Call(func=name("locals"), args=[], keywords=[]), cst(x)) for x in self.loops[-1]]
                v = ast.Tuple(elts=[cst("return"), v, ast.Tuple(elts=lc, ctx=ast.Load())], ctx=ast.Load())
            out.append(ast.If(test=ast.Compare(left=ast.Subscript(value=name(r), slice=cst(0), ctx=ast.Load()), ops=[ast.Eq()], comparators=[cst("return")]),
                              body=[ast.Return(v)], orelse=[]))
        return out


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Transform(src, modname).visit(tree)
    # annotations of module level were removed; names injected by the loader
    ast.fix_missing_locations(tree)
    return tree
