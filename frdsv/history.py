"""What a call leaves behind for later ones: attributes of objects that existed before it, module globals, containers and
buffers they hold. The contract is proved again from any such state, each location that depends on more than the object's
own data holding an arbitrary value."""
from __future__ import annotations
import types
from . import terms as T, core, values as V, npmodel as N
from .core import MISSING, Unsupported
from .values import Num, Arr, SBool
from .terms import as_poly


def symbols(x):
    """Symbols a term depends on."""
    out = set()
    for a in T.free_atoms(x):
        if a.kind in ("var", "read"):
            out.add(a.args[0])
    return out


def deps(v, depth=0):
    """Symbols a value depends on; None: unknown."""
    if v is None or v is MISSING or isinstance(v, (bool, int, float, str, bytes, type)) or callable(v) and not isinstance(v, (Arr, Num)):
        return set()
    if isinstance(v, Num):
        return set() if v.special else symbols(v.p)
    if isinstance(v, SBool):
        return symbols(V.to_bool(v))
    if isinstance(v, T.Poly):
        return symbols(v)
    if isinstance(v, Arr):
        ix = tuple(T.Var(f"history.{i}", isint=True, nonneg=True) for i in range(len(v._shape)))
        s = symbols(as_poly(v.at(ix))) - {f"history.{i}" for i in range(len(ix))}
        for d in v._shape:
            s |= symbols(as_poly(d))
        return s
    if isinstance(v, (list, tuple)) or isinstance(v, dict):
        s = set()
        for y in (list(dict.keys(v)) + list(dict.values(v)) if isinstance(v, dict) else list.__iter__(v) if isinstance(v, list) else v):
            d = deps(y, depth + 1)
            if d is None:
                return None
            s |= d
        return s
    if depth < 4 and hasattr(v, "__dict__"):
        s = set()
        for y in v.__dict__.values():
            d = deps(y, depth + 1)
            if d is None:
                return None
            s |= d
        return s
    return None


def reachable(roots):
    """Ids of the objects (and array storages) that exist before the call."""
    seen, todo, keep = set(), list(roots), []
    while todo:
        v = todo.pop()
        if v is None or isinstance(v, (bool, int, float, str, bytes, T.Poly, Num, SBool)) or id(v) in seen:
            continue
        if isinstance(v, types.ModuleType) and not v.__name__.startswith("frds"):
            continue
        seen.add(id(v))
        keep.append(v)
        if isinstance(v, Arr):
            seen.add(id(v.st))
        elif isinstance(v, dict):
            todo += list(dict.values(v))
        elif isinstance(v, (list, tuple, set)):
            todo += list(list.__iter__(v) if isinstance(v, list) else v)
        elif isinstance(v, types.FunctionType):
            for c in v.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:      # not bound yet
                    pass
            todo += list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values())
        elif isinstance(v, types.MethodType):
            todo += [v.__self__, v.__func__]
        elif isinstance(v, types.ModuleType):
            todo += [x for k, x in v.__dict__.items() if not k.startswith("__")]
        elif hasattr(v, "__dict__") and (isinstance(v, type) and getattr(v, "_frds_class", False) or getattr(type(v), "_frds_class", False)):
            todo += list(v.__dict__.values())
    return seen


def arbitrary(v, name):
    """A value of the same kind about which nothing is known."""
    if v is None or isinstance(v, (bool, str, bytes)):
        return v
    if isinstance(v, SBool):
        return SBool(T.BApp("left behind: " + name))
    if isinstance(v, Num):
        return Num(T.fresh("left." + name, isint=v.t == "int"), v.t) if not v.special else v
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, Arr):
        shape = [d if isinstance(d, int) else T.fresh("left.n." + name, isint=True, nonneg=True) for d in v._shape]
        nm = f"left.{name}!{next(_count)}"
        return Arr.new(shape, lambda i: T.Read(nm, *i), v._dtype)
    raise Unsupported(f"{name}: state of type {type(v).__name__} is left behind for later calls")


def _counter():
    i = 0
    while True:
        yield i
        i += 1


_count = _counter()


def left_behind(outs, call, loader, born):
    """The heaps earlier calls may leave: lists of (location, value)."""
    old = None
    found = []
    for o in outs:
        for key, (loc, before, new) in o.writes.items():
            if loc[0] not in ("at", "gl", "ls", "di", "st") or new is MISSING:
                continue
            if old is None:
                old = reachable([call] + [m for nm, m in loader.mods.items()])
            if loc[0] != "gl" and id(loc[1]) not in old:
                continue
            if loc[0] == "st" and (loc[1].name is not None or loc[1].born > born):
                continue     # memory of the caller: the frame condition
            found.append((key, loc, new, o))
    if not found:
        return []
    res, seen = [], []
    for o in outs:
        state, tag = [], []
        for key, loc, new, oo in found:
            if oo is not o:
                continue
            own = set()
            if loc[0] == "at":
                own = deps({k: v for k, v in loc[1].__dict__.items()}) or set()
            if loc[0] == "st":
                raise Unsupported("a buffer kept between calls is written")
            everywhere = all(key in p.writes for p in outs)
            name = str(loc[2]) if len(loc) > 2 else loc[0]
            d = deps(new)
            if loc[0] == "at" and everywhere and d is not None and d <= own:
                state.append((loc, new))
                tag.append((key, "own"))
                continue
            v = arbitrary(new, name)
            state.append((loc, v))
            tag.append((key, v if v is None or isinstance(v, (bool, int, float, str, bytes)) else type(v).__name__))
        if state and tag not in seen:
            seen.append(tag)
            if any(t[1] != "own" for t in tag):
                res.append(state)
    return res
