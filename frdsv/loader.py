"""Loads the repository's modules, from their current source, in rewritten form."""
from __future__ import annotations
import ast
import hashlib
import os
import sys
import types
from . import core, values as V, npmodel as N, hooks as H, models as M, xform
from .core import RT, Unsupported

SRC = os.environ.get("FRDSV_SRC", "/repo/src")

RTNS = types.SimpleNamespace(
    lit=H.lit, unsupported=H.unsupported, div=H.div, pow=H.pow_, fdiv=H.fdiv, mod=H.mod, idiv=H.idiv, augitem=H.augitem, ipow=H.ipow, ifdiv=H.fdiv, imod=H.mod,
    and_=H.and_, or_=H.or_, not_=H.not_, chain=H.chain, in_=H.in_, truth=H.truth, ifexp=H.ifexp, If=H.If, For=H.For, While=H.While,
    assert_=H.assert_, exc=H.exc, chk=H.chk, loc=H.loc, cur=H.cur, missing=H.missing, anymissing=H.anymissing, gset=H.gset, it=H.it,
    flatten_like=H.flatten_like, Gen=H.Gen, emit=H.emit, emitall=H.emitall, gendone=H.gendone, comp=H.comp, fn=H.fn, cls=H.cls,
    slist=V.SList, sdict=V.SDict)


class Broken(types.ModuleType):
    """A module that could not be loaded: using it is unsupported, importing it is not."""

    def __init__(self, name, err):
        super().__init__(name)
        self.__dict__["_err"] = err

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return H.Poison(f"{self.__name__}.{k} ({self._err})")


class Loader:
    def __init__(self, src=None, ext=None):
        self.src = src or SRC
        self.np = N.build()
        self.std = M.std_modules(self.np)
        self.mods = {}
        self.ext = ext or {}
        self.builtins = M.build_builtins(self.import_)
        self.hashes = {}
        self.errors = {}

    def path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.ext:
            m = self.ext[name]
            if m is None:
                raise ImportError(name)
            if callable(m):
                try:
                    m = m(self)
                except (Unsupported, core.CannotMerge) as e:
                    self.errors[name] = str(e)
                    m = Broken(name, str(e))
            self.mods[name] = m
            return m
        p, pkg = self.path(name)
        if p is None:
            raise ImportError(f"No module named {name}")
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if pkg else name.rpartition(".")[0]
        self.mods[name] = m
        src = open(p).read()
        self.hashes[name] = hashlib.sha256(src.encode()).hexdigest()[:16]
        try:
            tree = xform.transform(src, name, p)
            ns = m.__dict__
            ns["__builtins__"] = self.builtins
            ns["_rt_"] = RTNS
            exec(compile(tree, p, "exec"), ns)
        except (Unsupported, core.CannotMerge) as e:
            self.errors[name] = str(e)
            b = Broken(name, str(e))
            for k, v in m.__dict__.items():
                if not k.startswith("__"):
                    b.__dict__[k] = v
            self.mods[name] = b
        return self.mods[name]

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or (globals or {}).get("__name__", "").rpartition(".")[0]
            parts = pkg.split(".")
            base = ".".join(parts[: len(parts) - level + 1])
            name = base + ("." + name if name else "")
        if name in self.std:
            return self.std[name] if fromlist else self.std[name.split(".")[0]]
        if name.split(".")[0] == "frds":
            parts = name.split(".")
            mod = None
            for i in range(1, len(parts) + 1):
                nm = ".".join(parts[:i])
                sub = self.get(nm)
                if mod is not None:
                    mod.__dict__[parts[i - 1]] = sub
                mod = sub
            for f in fromlist or ():
                if f not in mod.__dict__ and f != "*":
                    try:
                        mod.__dict__[f] = self.get(name + "." + f)
                    except ImportError:
                        pass
            return mod if fromlist else self.mods["frds"]
        if name.split(".")[0] in ("typing", "__future__", "abc", "enum", "types", "collections", "string", "numbers", "operator"):
            return __import__(name, globals, locals, fromlist, 0)
        if name.split(".")[0] in sys.stdlib_module_names or name.split(".")[0] in ("numpy", "scipy", "pandas"):
            return M.StdNS()
        raise ImportError(f"No module named {name}")

    def fn(self, key):
        """module:Qual.name -> the loaded object."""
        mod, q = key.split(":")
        self.import_(mod, None, None, ("x",), 0)
        o = self.mods[mod]
        for part in q.split("."):
            o = getattr(o, part)
        return o
