"""Indexing of symbolic arrays (basic slices are views, masks and index arrays are copies)."""
from __future__ import annotations
from . import terms as T
from .terms import Poly, Bool, as_poly, const, ZERO, ONE, TRUE, FALSE
from . import core, values as V
from .core import FACTS, JOURNAL, RT, Unsupported, ite, under
from .values import Arr, FArr, Storage, Num, is_num, poly, dim, F8, I8, B1


def norm_index(k, n, oblige=True):
    """Index -> term in [0, n); obligations that it is in range."""
    p = poly(k)
    np_ = as_poly(n)
    c = p.const()
    if c is not None and c < 0:
        q = np_ + p
        if oblige:
            RT.oblige(T.ge(q), "index", f"index {int(c)} in range")
        return q
    if oblige:
        if c is None:
            RT.oblige(T.ge(p), "index", "index is not negative")
        RT.oblige(T.gt(np_ - p), "index", "index below the size")
    return p


def _clamp_hi(p, n):
    """min(p, n)"""
    d = FACTS.decide(T.gt(p - n))
    if d is None:
        return T.minimum(p, n)
    return n if d else p


def _clamp_lo(p):
    d = FACTS.decide(T.ge(p))
    if d is None:
        return T.maximum(p, ZERO)
    return p if d else ZERO


def norm_slice(s, n):
    """slice -> (start term, length term/int, step)."""
    step = 1 if s.step is None else int(s.step)
    n_ = as_poly(n)
    if isinstance(n, int) and all(x is None or V.pconst(x) is not None for x in (s.start, s.stop)):
        a, b, st = slice(None if s.start is None else int(V.pconst(s.start)), None if s.stop is None else int(V.pconst(s.stop)), step).indices(n)
        return const(a), len(range(a, b, st)), st
    if step == -1 and s.start is None and s.stop is None:
        return n_ - 1, n, -1
    if step < 1:
        raise Unsupported("negative slice step")

    def end(x, default):
        if x is None:
            return default
        p = poly(x)
        c = p.const()
        if c is not None and c < 0:
            return _clamp_lo(n_ + p)
        if c is None:
            d = FACTS.decide(T.ge(p))
            if d is False:
                return _clamp_lo(n_ + p)
            if d is None:
                p = ite(T.ge(p), p, T.maximum(n_ + p, ZERO))
        return _clamp_hi(p, n_)
    a = end(s.start, ZERO)
    b = end(s.stop, n_)
    ln = b - a
    if step != 1:
        ln = V.floordiv(ln + const(step - 1), const(step))
    ln = _clamp_lo(ln)
    return a, dim(ln), step


def is_mask(k):
    return isinstance(k, Arr) and k._dtype.kind == "b" and k.ndim > 0


def getitem(a, key):
    if isinstance(a, FArr):
        return get_filtered(a, key)
    if not isinstance(key, tuple):
        key = (key,)
    key = [k for k in key]
    # data-dependent keys
    if any(is_mask(k) for k in key):
        if len(key) == 1 and a.ndim == key[0].ndim == 1:
            m, s = key[0].snapshot(), a.snapshot()
            return FArr(a._shape[0], lambda k: T.as_bool(m.at((k,))), lambda k: s.at((k,)), a._dtype)
        return mask_get(a, key)
    if any(isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0) for k in key):
        return fancy_get(a, key)
    v = view(a, key)
    if v.ndim == 0:
        return v.get()
    return v


def view(a, key):
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if k is Ellipsis]:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + [slice(None)] * (a.ndim - nreal) + key[i + 1:]
    else:
        key = key + [slice(None)] * (a.ndim - nreal)
    if sum(1 for k in key if k is not None) > a.ndim:
        RT.oblige(FALSE, "index", "too many indices")
        raise Unsupported("too many indices")
    shape = []
    # per old view dim: ('f', p) or ('d', newdim, start, step)
    m = []
    d = 0
    full = True
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a._shape[d]
        if isinstance(k, slice):
            st, ln, step = norm_slice(k, n)
            m.append(("d", len(shape), st, step))
            if not (step == 1 and st == ZERO and (ln is n or ln == n)):
                full = False
            shape.append(ln)
        elif is_num(k) or (isinstance(k, Arr) and k.ndim == 0):
            m.append(("f", norm_index(k, n)))
            full = False
        else:
            raise Unsupported(f"index of type {type(k).__name__}")
        d += 1
    vm = []
    for e in a.vmap:
        if e[0] == "f":
            vm.append(e)
            continue
        _, dd, start, step = e
        x = m[dd]
        if x[0] == "f":
            vm.append(("f", start + x[1] * step))
        else:
            vm.append(("d", x[1], start + x[2] * step, step * x[3]))
    contig = a.contig and (full or _prefix_contig(key))
    return Arr(shape, a.st, vm, a._dtype, contig)


def _prefix_contig(key):
    """Leading integers (or one leading unit-step slice) followed by full slices keep C order."""
    seen = False
    for k in key:
        if k is None:
            continue
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return False
            if k.start is None and k.stop is None:
                seen = True
                continue
            if seen:
                return False
            seen = True
        elif seen:
            return False
    return True


def as_index_arr(k):
    if isinstance(k, list):
        return V.as_arr(k)
    return k


def fancy_get(a, key):
    nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + [slice(None)] * (a.ndim - nreal) + key[i + 1:]
    pos = [i for i, k in enumerate(key) if isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0)]
    if len(pos) > 1:
        raise Unsupported("several index arrays")
    i = pos[0]
    ix = as_index_arr(key[i])
    if isinstance(ix, FArr):
        if i != 0 or len(key) != 1 or a.ndim != 1:
            raise Unsupported("filtered index")
        s = a.snapshot()
        val = ix.val
        return FArr(ix.n, ix.cond, lambda k: s.at((as_poly(val(k)),)), a._dtype, ix._extra)
    key = key + [slice(None)] * (a.ndim - len([k for k in key if k is not None]))
    if any(k is None for k in key):
        raise Unsupported("newaxis with an index array")
    base = view(a, key[:i] + [slice(None)] + key[i + 1:])
    # position of the indexed dim in the view
    pre = sum(1 for k in key[:i] if isinstance(k, slice))
    if any(not isinstance(k, slice) for k in key[:i]) or any(not isinstance(k, slice) for k in key[i + 1:]):
        if pre:
            raise Unsupported("mixed index")
    s = base.snapshot()
    ixs = ix.snapshot()
    in_range(ix, base._shape[pre], False)
    nd = ix.ndim
    shape = base._shape[:pre] + ix._shape + base._shape[pre + 1:]

    def fn(idx):
        j = as_poly(ixs.at(idx[pre:pre + nd]))
        c = j.const()
        if c is not None and c < 0:
            j = as_poly(base._shape[pre]) + j
        return s.at(tuple(idx[:pre]) + (j,) + tuple(idx[pre + nd:]))
    return Arr.new(shape, fn, a._dtype)


def mask_get(a, key):
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].ndim == a.ndim:
        if any(V.same_dim(x, y) is not True for x, y in zip(key[0]._shape, a._shape)) or isinstance(a, V.FMat) or isinstance(key[0], (FArr, V.FMat)):
            raise Unsupported("mask of a matrix")
        s = a.snapshot()
        return V.FMat(key[0].snapshot(), lambda i: s.at(tuple(i)), a._dtype)
    # one mask along one dimension
    pos = [i for i, k in enumerate(key) if is_mask(k)]
    if len(pos) == 1 and key[pos[0]].ndim == 1:
        raise Unsupported("mask along one dimension")
    raise Unsupported("mask")


def get_filtered(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if all(k is None or k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in key):
        extra = tuple(1 for k in key if k is None) if key and key[0] is not None else ()
        return FArr(a.n, a.cond, a.val, a._dtype, a._extra + extra)
    if len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None) and a._extra == (1,) and V.pconst(key[1]) in (0, -1):
        return FArr(a.n, a.cond, a.val, a._dtype, ())
    if len(key) == 1 and is_mask(key[0]) and isinstance(key[0], FArr) and a.same_filter(key[0]):
        m = key[0]
        c0 = a.cond
        return FArr(a.n, lambda k: T.conj(c0(k), T.as_bool(m.val(k))), a.val, a._dtype, a._extra)
    raise Unsupported("indexing of a filtered array")


# ------------------------------------------------------------------------------------- assignment
def note_write(a):
    if a.st.name is not None:
        RT.frame_writes.append((a.st.name, RT.fn_stack[-1] if RT.fn_stack else "?"))


def setitem(a, key, value):
    if isinstance(a, FArr):
        raise Unsupported("write to a filtered array")
    if isinstance(a.st, V._Frozen):
        raise Unsupported("write to a snapshot")
    note_write(a)
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    if any(is_mask(k) for k in key):
        return mask_set(a, key, value)
    if any(isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0) for k in key):
        return fancy_set(a, key, value)
    v = view(a, key)
    write_view(v, value)


def broadcast_value(value, shape, dtype):
    """value as a function of an index of the given shape."""
    if isinstance(value, (FArr, V.FMat)):
        raise Unsupported("writing a filtered array")
    if is_num(value):
        if isinstance(value, (bool, V.SBool)):
            b = V.to_bool(value)
            if dtype.kind == "b":
                return lambda idx: b
            return lambda idx: T.ite(b, ONE, ZERO)
        n = V.tonum(value)
        p = poly(n)
        if dtype.kind in "iu" and n.t != "int":
            p = V.strunc(p)
        if dtype.kind == "b":
            p = T.ne(p)
        return lambda idx: p
    x = V.as_arr(value).snapshot()
    xs = list(x._shape)
    while len(xs) > len(shape) and xs[0] == 1:
        x = view(x, [0])
        xs = list(x._shape)
    if len(xs) > len(shape):
        RT.oblige(FALSE, "shape", "assignment of a larger array")
        raise Unsupported("assignment of a larger array")
    off = len(shape) - len(xs)
    sel = []
    for j, n in enumerate(xs):
        m = shape[off + j]
        if n == 1 and not (isinstance(m, int) and m == 1):
            sel.append(None)
        else:
            sd = V.same_dim(n, m)
            if sd is not True:
                RT.oblige(T.eq(as_poly(n) - as_poly(m)), "shape", "assigned array has the size of its target")
                if sd is False:
                    raise Unsupported("shape mismatch in assignment")
            sel.append(off + j)
    kind = x._dtype.kind

    def fn(idx):
        v = x.at(tuple(ZERO if d is None else idx[d] for d in sel))
        if dtype.kind == "b":
            return T.as_bool(v) if isinstance(v, Bool) else T.ne(v)
        v = as_poly(v)
        if dtype.kind in "iu" and kind == "f":
            v = V.strunc(v)
        return v
    return fn


def write_view(v, value):
    st = v.st
    val = broadcast_value(value, v._shape, v._dtype)
    old = st.fn
    vmap, shape = v.vmap, v._shape
    for e in vmap:
        if e[0] == "d" and e[3] not in (1, -1) :
            raise Unsupported("assignment to a strided slice")

    def fn(idx):
        conds = []
        vi = [ZERO] * len(shape)
        for d, e in enumerate(vmap):
            i = idx[d]
            if e[0] == "f":
                conds.append(T.eq(i - e[1]))
            else:
                _, vd, start, step = e
                j = (i - start) if step == 1 else (start - i)
                vi[vd] = j
                n = shape[vd]
                if not (start == ZERO and step == 1 and V.as_poly(n) == as_poly(st.shape[d])):
                    conds.append(T.ge(j))
                    conds.append(T.gt(as_poly(n) - j))
        c = TRUE
        for b in conds:
            b = FACTS.simp(b)
            c = T.conj(c, b)
        if c.kind == "false":
            return old(idx)
        new = val(tuple(vi))
        if c.kind == "true":
            return new
        return ite(c, new, old(idx))
    JOURNAL.write(("st", st), fn)


def mask_set(a, key, value):
    if len(key) != 1:
        raise Unsupported("mask with other indices")
    m = key[0]
    if m.ndim > a.ndim:
        raise Unsupported("mask shape")
    if isinstance(value, (FArr, V.FMat)) and type(m) is Arr and type(a) is Arr and m.ndim == a.ndim:
        # the selected entries of an array of the same shape, in the same order
        if all(V.same_dim(x, y) is True for x, y in zip(m._shape, a._shape)):
            if isinstance(value, V.FMat) and value.same_filter(V.FMat(m.snapshot(), None)):
                new = value.val
            elif isinstance(value, FArr) and m.ndim == 1 and not value._extra and value.same_filter(FArr(m._shape[0], lambda k, s=m.snapshot(): T.as_bool(s.at((k,))), None)):
                new = lambda i: value.val(i[0])
            else:
                raise Unsupported("assignment of an array through a mask")
            ms, old, kind = m.snapshot(), a.snapshot(), value._dtype.kind

            def fn(i):
                c = T.as_bool(ms.at(tuple(i)))
                with under(c):
                    v = new(tuple(i))
                if a._dtype.kind == "b":
                    v = v if isinstance(v, Bool) else T.ne(v)
                else:
                    v = as_poly(v)
                    if a._dtype.kind in "iu" and kind == "f":
                        v = V.strunc(v)
                return ite(c, v, old.at(tuple(i)))
            write_view(view(a, [Ellipsis]), Arr.new(a._shape, fn, a._dtype))
            return
    if not (is_num(value) or (isinstance(value, Arr) and value.ndim == 0)):
        raise Unsupported("assignment of an array through a mask")
    for x, y in zip(m._shape, a._shape):
        if V.same_dim(x, y) is not True:
            RT.oblige(T.eq(as_poly(x) - as_poly(y)), "shape", "mask has the size of the array")
    ms = m.snapshot()
    nd = m.ndim
    old = a.snapshot()
    val = broadcast_value(value, (), a._dtype)
    tmp = Arr.new(a._shape, lambda idx: ite(T.as_bool(ms.at(tuple(idx[:nd]))), val(()), old.at(idx)), a._dtype)
    write_view(view(a, [Ellipsis]), tmp)


def in_range(ix, n, opaque=True):
    """Obligations that every entry of an index array is an index of n entries (opaque: also of one that NumPy computed)."""
    s = ix.snapshot()
    js, cs = [], []
    for d in ix._shape:
        j = T.fresh("j", isint=True, nonneg=True)
        js.append(j)
        cs.append(T.gt(as_poly(d) - j))
    with under(T.conj(*cs)):
        p = as_poly(s.at(tuple(js)))
        if not opaque and any(a.kind not in ("var", "floor", "ceil", "mod", "ite") for a in T.free_atoms(p)):
            RT.assume_note("index-arrays", "entries of index arrays made by argsort, argwhere, choice and the like are in range")
            return
        norm_index(Num(p, "int"), n)


def accumulate_at(a, idx, v, f):
    """ufunc.at: a[i] = f(a[i], v) for every i of idx in turn, for addition."""
    ix = as_index_arr(idx)
    if a.ndim != 1 or isinstance(ix, FArr) or ix.ndim > 1 or isinstance(a, FArr):
        raise Unsupported("ufunc.at")
    if ix.ndim == 0:
        i = Num(as_poly(ix.at(())), "int")
        a[i] = f(a[i], v)
        return
    in_range(ix, a._shape[0])
    ixs = ix.snapshot()
    val = broadcast_value(v, ix._shape, a._dtype)
    old = a.snapshot()
    n = as_poly(ix._shape[0])

    def fn(i):
        def term(k):
            with under(T.gt(n - k)):
                return ite(T.eq(as_poly(ixs.at((k,))) - i[0]), as_poly(val((k,))), ZERO)
        return as_poly(old.at(i)) + T.Sum(n, term)
    write_view(view(a, [Ellipsis]), Arr.new(a._shape, fn, a._dtype))


def fancy_set(a, key, value):
    if len(key) != 1 or a.ndim != 1:
        raise Unsupported("assignment through an index array")
    ix = as_index_arr(key[0])
    if isinstance(ix, FArr) or ix.ndim != 1:
        raise Unsupported("assignment through an index array")
    ixs = ix.snapshot()
    in_range(ix, a._shape[0], False)
    val = broadcast_value(value, ix._shape, a._dtype)
    L = T.lam(as_poly(ix._shape[0]), lambda k: as_poly(ixs.at((k,))))
    old = a.snapshot()
    n = as_poly(ix._shape[0])

    def fn(idx):
        # a permutation of the target's positions hits each of them
        hit = TRUE if ixs.marked("permutation") and as_poly(a._shape[0]) == n else T.Exists(n, lambda k: T.eq(as_poly(ixs.at((k,))) - idx[0]))
        pos = T.App("lastpos", L, idx[0])
        return ite(hit, as_poly(val((pos,))), as_poly(old.at(idx)))
    tmp = Arr.new(a._shape, fn, a._dtype)
    write_view(view(a, [Ellipsis]), tmp)


T.FUN_PROPS["lastpos"] = dict(isint=True, nonneg=True)
