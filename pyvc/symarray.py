"""Symbolic n-dimensional arrays: buffers read through closures, numpy-like
views that alias their buffer, lazily evaluated element-wise results."""
import z3, math
import numpy as np
from . import core
from .core import (lift, cast, arith, unary, ite, SReal, SInt, SBool, SBV, SStr, Sym, SInf,
                   REAL, INT, BOOL, BV, And_, Or_, Not_, bz, kind_of_dtype, width_of_dtype,
                   canon, subst_scalar)

def E():
    return core.E

# --- integer expressions (python int or z3 Int term) ----------------------
def ie(x):
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, SInt):
        x = x.t
    elif isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    elif isinstance(x, SBV):
        x = z3.BV2Int(x.t)
    elif isinstance(x, np.ndarray) and x.ndim == 0:
        return ie(x.item())
    elif isinstance(x, (float, SReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if isinstance(x, z3.ArithRef):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        return x
    raise TypeError("bad index %r" % (type(x),))

def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x
def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return ie(zi(a) + zi(b))
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return ie(zi(a) - zi(b))
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    return ie(zi(a) * zi(b))
def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b): return True
    r = z3.simplify(zi(a) == zi(b))
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def ile(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    r = z3.simplify(zi(a) <= zi(b))
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    r = z3.simplify(zi(a) < zi(b))
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def wrapi(x):
    """index expression -> value handed to user code"""
    return x if isinstance(x, int) else SInt(x)
def sure(c):
    if isinstance(c, bool): return c
    return core.E.valid(c)
def decide(c):
    if isinstance(c, bool): return c
    return core.E.fork(c)
def dim_eq(a, b):
    c = ieq(a, b)
    if isinstance(c, bool): return c
    return core.E.fork(c)

_lane_cache = {}
def lane(depth, i):
    k = (depth, i)
    if k not in _lane_cache:
        _lane_cache[k] = z3.Int("lane!%d!%d" % k)
    return _lane_cache[k]

# --- buffers -----------------------------------------------------------------
class Buf:
    __slots__ = ("dims", "kind", "width", "fn", "memo", "keep", "birth", "owner", "base_fn", "__weakref__")
    def __init__(self, dims, kind, fn, width=None):
        e = core.E
        self.dims = list(dims)
        self.kind = kind
        self.width = width
        self.fn = fn
        self.memo = {}
        self.keep = []
        e.counter += 1
        self.birth = e.counter
        self.owner = frozenset(c.k.get_id() for c in e.active if c.k is not None)
        if any(True for c in e.active):
            pass
        e.all_bufs.append(self)
    def read(self, idx):
        return read_fn(self.fn, self.memo, self.keep, idx)
    def snapshot(self):
        """read closure for the present content"""
        fn, memo, keep = self.fn, self.memo, self.keep
        return lambda idx: read_fn(fn, memo, keep, idx)
    def set_fn(self, fn):
        self.fn = fn
        self.memo = {}
        self.keep = []

def read_fn(fn, memo, keep, idx):
    key = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
    r = memo.get(key)
    if r is None:
        r = fn(tuple(idx))
        memo[key] = r
        keep.append(idx)
    return r

_KDT = {REAL: np.dtype("float64"), INT: np.dtype("int64"), BOOL: np.dtype("bool"), BV: np.dtype("int64")}
_WDT = {8: np.dtype("uint8"), 16: np.dtype("uint16"), 32: np.dtype("uint32")}

class WIdx:
    """one component of np.where(mask): the list of d-th indices"""
    def __init__(self, mask, d):
        self.mask, self.d = mask, d
    def __len__(self):
        return mask_count(self.mask).__index__()
    @property
    def size(self): return mask_count(self.mask)
    @property
    def shape(self): return (mask_count(self.mask),)
    ndim = 1
    def __deepcopy__(self, memo): return self
    def __getitem__(self, k):
        core.E.unsupported("indexing the result of np.where")
    def __iter__(self):
        core.E.unsupported("iterating the result of np.where")

class WTuple(tuple):
    pass

def where_tuple(mask):
    mask = mask.copy()          # snapshot
    return WTuple(WIdx(mask, d) for d in range(mask.ndim))

class SArray:
    _is_sarray = True
    __array_priority__ = 2000
    __array_ufunc__ = None
    __hash__ = object.__hash__
    def __init__(self, buf, specs=None, shape=None):
        self.buf = buf
        if specs is None:
            specs = [("ax", i, 0, 1) for i in range(len(buf.dims))]
            shape = list(buf.dims)
        self.specs = specs
        self._shape = list(shape)

    # ---- attributes
    @property
    def shape(self): return tuple(wrapi(d) for d in self._shape)
    @shape.setter
    def shape(self, v):
        core.E.unsupported("assigning .shape")
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self):
        r = 1
        for d in self._shape: r = imul(r, d)
        return wrapi(r)
    @property
    def kind(self): return self.buf.kind
    @property
    def dtype(self):
        if self.buf.width in _WDT: return _WDT[self.buf.width]
        return _KDT[self.buf.kind]
    @property
    def T(self):
        n = self.ndim
        perm = {i: n - 1 - i for i in range(n)}
        specs = [s if s[0] == "fix" else ("ax", perm[s[1]], s[2], s[3]) for s in self.specs]
        return SArray(self.buf, specs, self._shape[::-1])
    @property
    def data(self): return self
    @property
    def filled_data(self): return self
    @property
    def flags(self): core.E.unsupported(".flags")
    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int): return d
        core.E.unsupported("len() of a symbolic array outside instrumented code")
    def __repr__(self): return "<SArray %s %s>" % (self.kind, self._shape)
    def __format__(self, spec): return "<SArray>"
    def __str__(self): return "<SArray>"

    # ---- reading
    def bidx(self, idx):
        out = []
        for s in self.specs:
            if s[0] == "fix": out.append(s[1])
            else:
                e = idx[s[1]]
                if s[3] != 1: e = imul(e, s[3])
                out.append(iadd(e, s[2]))
        return tuple(out)
    def at(self, *idx):
        """scalar at (in-range) indices"""
        return self.buf.read(self.bidx(idx))
    def reader(self):
        """immutable reader of the present content"""
        note_read(self)
        f = self.buf.snapshot()
        bidx = self.bidx
        return lambda idx: f(bidx(idx))

    # ---- writing
    def inv(self, bidx):
        g = []
        vidx = [0] * self.ndim
        for s, b, bd in zip(self.specs, bidx, self.buf.dims):
            if s[0] == "fix":
                g.append(bz(ieq(b, s[1])))
            else:
                _, ax, st, step = s
                n = self._shape[ax]
                if step == 1:
                    v = isub(b, st)
                    full = (isinstance(st, int) and st == 0 and ieq(n, bd) is True)
                    if not full:
                        g.append(bz(ile(st, b)))
                        g.append(bz(ilt(v, n)))
                    vidx[ax] = v
                elif step == -1:
                    v = isub(st, b)
                    g.append(bz(ile(0, v))); g.append(bz(ilt(v, n)))
                    vidx[ax] = v
                else:
                    v = ie(zi(isub(b, st)) / step)
                    g.append(bz(ile(st, b)))
                    g.append(zi(isub(b, st)) % step == 0)
                    g.append(bz(ilt(v, n)))
                    vidx[ax] = v
        return bz(And_(*g)), vidx
    def store(self, valfn, maskfn=None):
        """self[...] = valfn  (valfn: view index -> scalar)"""
        core.E.check_alive()
        buf = self.buf
        old = buf.snapshot()
        kind, width = buf.kind, buf.width
        inv = self.inv
        def fn(bidx):
            g, v = inv(bidx)
            g = z3.simplify(g)
            if z3.is_false(g):
                return old(bidx)
            val = cast(valfn(tuple(v)), kind, width)
            if maskfn is not None:
                m = cast(maskfn(tuple(v)), BOOL).t
                g = z3.simplify(bz(And_(g, m)))
                if z3.is_false(g):
                    return old(bidx)
            if z3.is_true(g):
                return val
            return ite(g, val, old(bidx))
        note_write(self)
        buf.set_fn(fn)

    # ---- indexing
    def _parse(self, key):
        if not isinstance(key, tuple) or isinstance(key, WTuple) :
            key = tuple(key) if isinstance(key, WTuple) else (key,)
        elif any(isinstance(k, WTuple) for k in key):
            flat = []
            for k in key:
                flat.extend(k) if isinstance(k, WTuple) else flat.append(k)
            key = tuple(flat)
        def ncons(k):
            if k is None or k is Ellipsis: return 0
            if isinstance(k, SArray) and k.kind == BOOL: return k.ndim
            if isinstance(k, np.ndarray) and k.dtype == bool: return k.ndim
            return 1
        used = sum(ncons(k) for k in key)
        if used > self.ndim:
            raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed" % (self.ndim, used))
        if not any(k is Ellipsis for k in key):
            key = key + (Ellipsis,)
        out = []
        for k in key:
            if k is Ellipsis:
                out.extend([slice(None)] * (self.ndim - used))
            else:
                out.append(k)
        return out
    def _index(self, key):
        """-> (sub view, mask or None, mask axes in sub view)"""
        key = self._parse(key)
        axmap = {}             # old axis -> ('fix', e) | ('ax', newaxis, start, step)
        newshape = []
        mask = None
        maskaxes = {}
        ax = 0
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            if isinstance(k, np.ndarray) and k.dtype == bool:
                k = to_sarray(k)
            if isinstance(k, SArray) and k.kind == BOOL and k.ndim > 0:
                if mask is not None: core.E.unsupported("two masks in one index")
                mask = k.copy()
                for d in range(k.ndim):
                    if not dim_eq(k._shape[d], self._shape[ax]):
                        raise IndexError("boolean index did not match indexed array")
                    axmap[ax] = ("ax", len(newshape), 0, 1)
                    maskaxes[d] = len(newshape)
                    newshape.append(self._shape[ax])
                    ax += 1
                continue
            if isinstance(k, WIdx):
                if mask is None: mask = k.mask
                elif mask is not k.mask: core.E.unsupported("mixed np.where results")
                if k.d in maskaxes: core.E.unsupported("repeated np.where component")
                # numpy only checks that the indices are in bounds
                md = k.mask._shape[k.d]
                if not sure(ile(md, self._shape[ax])):
                    core.E.unsupported("np.where index on a different extent")
                axmap[ax] = ("ax", len(newshape), 0, 1)
                maskaxes[k.d] = len(newshape)
                newshape.append(md)
                ax += 1
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                st, cnt, step = slice_geom(k, n)
                axmap[ax] = ("ax", len(newshape), st, step)
                newshape.append(cnt)
                ax += 1
                continue
            if isinstance(k, (list, SArray)) or (isinstance(k, np.ndarray) and k.ndim > 0):
                core.E.unsupported("fancy integer indexing")
            e = norm_index(k, n)
            axmap[ax] = ("fix", e)
            ax += 1
        specs = []
        for s in self.specs:
            if s[0] == "fix":
                specs.append(s); continue
            _, a, st, step = s
            m = axmap[a]
            if m[0] == "fix":
                specs.append(("fix", iadd(imul(m[1], step), st)))
            else:
                specs.append(("ax", m[1], iadd(imul(m[2], step), st), step * m[3]))
        sub = SArray(self.buf, specs, newshape)
        if mask is not None and len(maskaxes) != mask.ndim:
            # remaining components were fixed?  not supported
            core.E.unsupported("partial np.where index")
        return sub, mask, [maskaxes[d] for d in sorted(maskaxes)] if mask is not None else None
    def __getitem__(self, key):
        core.E.check_alive()
        if self.ndim == 0 and key == ():
            return self.at()
        if isinstance(key, str): core.E.unsupported("field access")
        g = gather(self, key)
        if g is not None: return g
        if isinstance(key, (list, np.ndarray)) and not (isinstance(key, np.ndarray) and key.dtype == bool) and not isinstance(key, WTuple):
            ks = [norm_index(k, self._shape[0]) for k in key]
            r = self.reader()
            rest = self._shape[1:]
            def fn(idx):
                out = None
                for j in range(len(ks) - 1, -1, -1):
                    v = r((ks[j],) + idx[1:])
                    out = v if out is None else ite(bz(ieq(idx[0], j)), v, out)
                return out
            return SArray(Buf([len(ks)] + rest, self.kind, fn, self.buf.width))
        sub, mask, maxes = self._index(key)
        if mask is not None:
            if sorted(maxes) != list(range(sub.ndim)):
                # a[:, mask]: as a multiset, the values of a where the mask repeated along the other axes holds
                mr, mx = mask.reader(), list(maxes)
                big = SArray(Buf(list(sub._shape), BOOL, lambda i: cast(mr(tuple(i[a] for a in mx)), BOOL)))
                big._partial = True
                return MaskVec(big, sub.reader(), self.kind, self.buf.width)
            r = sub.reader()
            def fn(midx):
                idx = [None] * sub.ndim
                for d, a in enumerate(maxes): idx[a] = midx[d]
                return r(tuple(idx))
            return MaskVec(mask, fn, self.kind, self.buf.width)
        if sub.ndim == 0:
            note_read(sub)
            return sub.at()
        return sub
    def __setitem__(self, key, value):
        core.E.check_alive()
        sub, mask, maxes = self._index(key)
        if mask is None:
            sub.store(broadcast_reader(value, sub._shape))
            return
        m = mask.reader()
        mf = lambda v: m(tuple(v[a] for a in maxes))
        if isinstance(value, MaskVec):
            check_same_mask(value.mask, mask)
            sub.store(lambda v: value.fn(tuple(v[a] for a in maxes)), mf)
        elif is_scalar(value):
            s = lift(value)
            sub.store(lambda v: s, mf)
        else:
            core.E.unsupported("masked assignment of an array")
    def __iter__(self):
        d = self._shape[0]
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        core.E.unsupported("iteration over a symbolic array outside instrumented code")

    # ---- copies
    def copy(self, order="C"):
        r = self.reader()
        return SArray(Buf(list(self._shape), self.kind, r, self.buf.width))
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo):
        b = memo.get(id(self.buf))
        return self.copy()
    def astype(self, dt, copy=True):
        k, w = kind_of_dtype(dt), width_of_dtype(dt)
        r = self.reader()
        if k == INT and self.kind == BV or (k == INT and w):
            k2 = BV
        else:
            k2 = k
        if k2 in (INT, BV) and np.dtype(dt).byteorder == ">" and np.dtype(dt).itemsize == 8:
            # only ever looked at as 64-bit words
            r2 = SArray(Buf(list(self._shape), BV, lambda idx: cast(r(idx), BV)))
            r2.big = True
            return r2
        return SArray(Buf(list(self._shape), k2, lambda idx: cast(r(idx), k2, w), w))
    def view(self, *a):
        if len(a) == 1 and self.kind == BV and not self.buf.width and np.dtype(a[0]) == np.uint8 and self._shape and self._shape[-1] == 1:
            return ByteView(self, getattr(self, "big", False))
        if a: core.E.unsupported("view with dtype")
        return SArray(self.buf, self.specs, self._shape)
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [ie(s) for s in shape]
        return reshape(self, shape)
    def ravel(self): return reshape(self, [-1])
    def flatten(self): return reshape(self.copy(), [-1])
    def squeeze(self, axis=None):
        keep = [i for i, d in enumerate(self._shape) if not (isinstance(d, int) and d == 1)]
        return reshape(self, [self._shape[i] for i in keep])
    def transpose(self, *axes):
        if axes and axes != (None,):
            if len(axes) == 1: axes = tuple(axes[0])
            inv = {a: i for i, a in enumerate(axes)}
            specs = [s if s[0] == "fix" else ("ax", inv[s[1]], s[2], s[3]) for s in self.specs]
            return SArray(self.buf, specs, [self._shape[a] for a in axes])
        return self.T
    def tolist(self): core.E.unsupported("tolist")
    def item(self): 
        return self.at(*([0] * self.ndim))
    def fill(self, v): self[...] = v
    def tobytes(self): return ("bytes", self)
    def nonzero(self): return where_tuple(to_bool(self))
    def sum(self, axis=None, **k): return reduce_("sum", self, axis, **k)
    def mean(self, axis=None, **k): return reduce_("mean", self, axis, **k)
    def std(self, axis=None, **k): return reduce_("std", self, axis, **k)
    def var(self, axis=None, **k): return reduce_("var", self, axis, **k)
    def min(self, axis=None, **k): return reduce_("min", self, axis, **k)
    def max(self, axis=None, **k): return reduce_("max", self, axis, **k)
    def any(self, axis=None, **k): return reduce_any(self, axis, **k)
    def all(self, axis=None, **k): return reduce_all(self, axis, **k)
    def argmax(self, *a, **k): core.E.unsupported("argmax")
    def round(self, *a, **k): return map1("round", self)
    def __bool__(self):
        n = 1
        for d in self._shape: n = imul(n, d)
        if isinstance(n, int) and n == 1:
            return bool(self.at(*([0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")
    def __contains__(self, v):
        core.E.unsupported("in array")
    def __float__(self): core.E.unsupported("float(array)")
    def __index__(self): core.E.unsupported("index(array)")

def _op(op):
    def f(self, o):
        if o is None or isinstance(o, str):
            if op == "eq": return False
            if op == "ne": return True
        return elementwise(op, self, o)
    return f
def _rop(op):
    return lambda self, o: elementwise(op, o, self)
def _iop(op):
    def f(self, o):
        core.E.check_alive()
        if op == "div" and self.kind != REAL:
            raise TypeError("Cannot cast ufunc 'divide' output from float64 to %s" % self.dtype)
        res = elementwise(op, self, o)
        if isinstance(res, SArray):
            if res.ndim > self.ndim:
                raise ValueError("non-broadcastable output operand")
            k = res.kind
            if self.kind in (INT, BV) and k == REAL or self.kind == BOOL and k != BOOL:
                raise TypeError("Cannot cast ufunc output from %s to %s" % (res.dtype, self.dtype))
            self.store(broadcast_reader(res, self._shape))
        else:
            self.store(lambda idx: lift(res))
        return self
    return f
for _n, _o in dict(add="add", sub="sub", mul="mul", truediv="div", floordiv="floordiv", mod="mod",
                   pow="pow", lt="lt", le="le", gt="gt", ge="ge", eq="eq", ne="ne"
                   ).items():
    setattr(SArray, "__%s__" % _n, _op(_o))
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(SArray, "__r%s__" % _n, _rop(_o))
        setattr(SArray, "__i%s__" % _n, _iop(_o))
for _n in ("and", "or", "xor", "lshift", "rshift"):
    setattr(SArray, "__%s__" % _n, _op(_n))
    setattr(SArray, "__r%s__" % _n, _rop(_n))
    setattr(SArray, "__i%s__" % _n, _iop(_n))
SArray.__neg__ = lambda self: map1("neg", self)
SArray.__pos__ = lambda self: self.copy()
SArray.__abs__ = lambda self: map1("abs", self)
SArray.__invert__ = lambda self: map1("invert", self)

class MaskVec:
    """a[mask]: the values of a at the places where mask holds (order of numpy)"""
    _is_sarray = True
    _is_maskvec = True
    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = object.__hash__
    def __init__(self, mask, fn, kind, width=None):
        self.mask, self.fn, self.kind, self.width = mask, fn, kind, width
    @property
    def partial(self): return getattr(self.mask, "_partial", False)     # only its values as a multiset are known
    @property
    def ndim(self):
        if self.partial: core.E.unsupported("mask does not cover the remaining axes")
        return 1
    @property
    def size(self): return mask_count(self.mask)
    @property
    def shape(self):
        if self.partial: core.E.unsupported("mask does not cover the remaining axes")
        return (self.size,)
    @property
    def dtype(self): return _KDT[self.kind]
    def __len__(self): core.E.unsupported("len of masked selection")
    def __iter__(self): core.E.unsupported("iterating a masked selection")
    def __getitem__(self, k): core.E.unsupported("indexing a masked selection")
    def copy(self): return self
    def __deepcopy__(self, m): return self
    def astype(self, dt, copy=True):
        k, w = kind_of_dtype(dt), width_of_dtype(dt)
        f = self.fn
        return MaskVec(self.mask, lambda i: cast(f(i), k, w), k, w)
    def _as_masked(self):
        r = self.mask.reader()
        dims = list(self.mask._shape)
        return dims, self.fn, (lambda i: cast(r(i), BOOL).t)
    def sum(self, axis=None, **k): return reduce_("sum", self, axis)
    def mean(self, axis=None, **k): return reduce_("mean", self, axis)
    def std(self, axis=None, **k): return reduce_("std", self, axis, **k)
    def min(self, axis=None, **k): return reduce_("min", self, axis)
    def max(self, axis=None, **k): return reduce_("max", self, axis)
    def any(self): return reduce_any(self, None)
    def all(self): return reduce_all(self, None)
for _n, _o in dict(add="add", sub="sub", mul="mul", truediv="div", floordiv="floordiv", mod="mod", pow="pow",
                   lt="lt", le="le", gt="gt", ge="ge", eq="eq", ne="ne").items():
    setattr(MaskVec, "__%s__" % _n, _op(_o))
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(MaskVec, "__r%s__" % _n, _rop(_o))
for _n in ("and", "or", "xor"):
    setattr(MaskVec, "__%s__" % _n, _op(_n))
    setattr(MaskVec, "__r%s__" % _n, _rop(_n))
MaskVec.__neg__ = lambda self: map1("neg", self)
MaskVec.__invert__ = lambda self: map1("invert", self)
MaskVec.__abs__ = lambda self: map1("abs", self)

class ByteView:
    """the eight bytes of 64-bit words whose last axis has length one"""
    _is_sarray = True
    __hash__ = object.__hash__
    def __init__(self, arr, big): self.arr, self.big = arr, big
    @property
    def shape(self): return tuple(self.arr.shape[:-1]) + (8,)

def bit_at(j, big, order):
    """position in the word of the j-th of its 64 unpacked bits"""
    byte, m = j // 8, j % 8
    return (8 * (7 - byte) if big else 8 * byte) + ((7 - m) if order == "big" else m)
def unpackbits(v, axis=None, bitorder="big", count=None):
    nd = v.arr.ndim
    if axis is None or axis % nd != nd - 1 or count is not None: core.E.unsupported("unpackbits along this axis")
    r = v.arr.reader()
    def fn(idx):
        w = cast(r(tuple(idx[:-1]) + (0,)), BV).t
        j = z3.simplify(zi(idx[-1]))
        one = z3.BitVecVal(1, 64)
        if z3.is_int_value(j):
            b = bit_at(j.as_long(), v.big, bitorder)
            return core.SBV(z3.ZeroExt(63, z3.Extract(b, b, w)))
        out = z3.BitVecVal(0, 64)
        for b in range(64): out = z3.If(j == b, z3.LShR(w, bit_at(b, v.big, bitorder)) & one, out)
        return core.SBV(out)
    return SArray(Buf(list(v.arr._shape[:-1]) + [64], BV, fn))
class PackedBits:
    """np.packbits of words of 64 bits along the last axis, before it is viewed as words"""
    _is_sarray = True
    __hash__ = object.__hash__
    def __init__(self, arr, order): self.arr, self.order = arr, order
    def view(self, dt):
        d = np.dtype(dt)
        if d.itemsize != 8 or d.kind not in "iu": core.E.unsupported("view of packed bits")
        big, order = d.byteorder == ">", self.order
        r = self.arr.reader()
        def fn(idx):
            bits = [None] * 64
            for j in range(64):
                x = r(tuple(idx[:-1]) + (j,))
                if isinstance(x, core.SBV) and x.t.decl().kind() == z3.Z3_OP_ZERO_EXT and x.t.arg(0).size() == 1: b = x.t.arg(0)
                else: b = z3.If(bz(cast(x, BOOL).t), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                bits[63 - bit_at(j, big, order)] = b
            return core.SBV(z3.simplify(z3.Concat(*bits)))
        return SArray(Buf(list(self.arr._shape[:-1]) + [1], BV, fn))
def packbits(a, axis=None, bitorder="big"):
    a = to_sarray_any(a)
    if axis is None or axis % a.ndim != a.ndim - 1 or a._shape[-1] != 64: core.E.unsupported("packbits along this axis")
    return PackedBits(a, bitorder)

class PickArr(MaskVec):
    ndim = shape = None
    """a with some axes indexed by compressed index lists (order of numpy);
    only its reductions over everything are available"""
    def __init__(self, dims, picked, fn, kind, width=None):
        self.dims, self.picked, self.pick_w = list(dims), picked, width
        def mk(idx):
            m = True
            for ax, r in picked.items(): m = And_(m, cast(r((idx[ax],)), BOOL).t)
            return SBool(m)
        MaskVec.__init__(self, SArray(Buf(self.dims, BOOL, mk)), fn, kind, width)
        self.ndim = len(self.dims)
    @property
    def shape(self):
        return tuple(count_fn([d], (lambda r: lambda l: cast(r(l), BOOL).t)(self.picked[ax])) if ax in self.picked else wrapi(d) for ax, d in enumerate(self.dims))
    def __getitem__(self, key):
        g = gather(self, key)
        if g is None: core.E.unsupported("indexing a masked selection")
        return g

def gather(a, key):
    """a[.., k, ..] with one integer index list k and full slices elsewhere; None if key is not of that form"""
    ks = key if isinstance(key, tuple) and not isinstance(key, WTuple) else (key,)
    def islist(k): return (isinstance(k, SArray) and k.kind == INT and k.ndim == 1) or (isinstance(k, MaskVec) and not isinstance(k, PickArr) and k.kind == INT and k.mask.ndim == 1)
    which = [j for j, k in enumerate(ks) if islist(k)]
    if len(which) != 1 or any(not (isinstance(k, slice) and k == slice(None)) for j, k in enumerate(ks) if j not in which): return None
    ax, k = which[0], ks[which[0]]
    if isinstance(a, PickArr):
        if ax in a.picked: return None
        dims, rd, picked = list(a.dims), a.fn, dict(a.picked)
    else:
        dims, rd, picked = list(a._shape), a.reader(), {}
    if ax >= len(dims): raise IndexError("too many indices for array")
    n = dims[ax]
    if isinstance(k, MaskVec):
        m, kf = k.mask.reader(), k.fn
        ext = k.mask._shape[0]
        picked[ax] = m
        valid = lambda l: cast(m(l), BOOL).t
    else:
        kf, ext = k.reader(), k._shape[0]
        valid = lambda l: True
    def at(l): return zi(cast(kf(l), INT).t)
    bad = any_fn([ext], lambda l: And_(valid(l), z3.Or(at(l) >= zi(n), at(l) < -zi(n))))
    if core.E.fork(bad.t): raise IndexError("index out of bounds")
    neg = not sure(Not_(any_fn([ext], lambda l: And_(valid(l), at(l) < 0)).t))
    def fn(idx):
        idx = list(idx)
        e = at((idx[ax],))
        idx[ax] = z3.If(e < 0, e + zi(n), e) if neg else e
        return rd(tuple(idx))
    dims[ax] = ext
    if picked: return PickArr(dims, picked, fn, a.kind, getattr(a, "width", None) if isinstance(a, MaskVec) else a.buf.width)
    return SArray(Buf(dims, a.kind, fn, a.buf.width))

def check_same_mask(a, b):
    if a is b: return
    if a.ndim != b.ndim: core.E.unsupported("different masks")
    idx = tuple(z3.Int(core.E.fresh_name("mi")) for _ in range(a.ndim))
    rng = [z3.And(i >= 0, i < zi(d)) for i, d in zip(idx, a._shape)]
    x, y = cast(a.at(*idx), BOOL).t, cast(b.at(*idx), BOOL).t
    x, y = bz(x), bz(y)
    if x.eq(y): return
    if sure(z3.Implies(z3.And(*rng), x == y)): return
    core.E.unsupported("assignment between different masks")

def is_scalar(x):
    return isinstance(x, (Sym, bool, int, float, np.generic)) or (isinstance(x, np.ndarray) and x.ndim == 0)

def norm_index(k, n):
    k = ie(k)
    e = core.E
    if isinstance(k, int):
        if k < 0:
            if not decide(ile(-k, n)): raise IndexError("index %d out of bounds" % k)
            return iadd(n, k)
        if not decide(ilt(k, n)): raise IndexError("index %d out of bounds" % k)
        return k
    if not sure(ile(0, k)):
        if decide(ilt(k, 0)):
            if not decide(ile(0, iadd(n, k))): raise IndexError("index out of bounds")
            return iadd(n, k)
    if not sure(ilt(k, n)):
        if not decide(ilt(k, n)): raise IndexError("index out of bounds")
    return k

def clampi(e, n):
    """python slice bound normalisation for step 1"""
    e = ie(e)
    if isinstance(e, int):
        if e < 0:
            if isinstance(n, int): return max(0, n + e)
            if sure(ile(-e, n)): return iadd(n, e)
            return ie(z3.If(zi(n) + e >= 0, zi(n) + e, z3.IntVal(0)))
        if isinstance(n, int): return min(e, n)
        if e == 0: return 0
        if sure(ile(e, n)): return e
        return ie(z3.If(z3.IntVal(e) <= n, z3.IntVal(e), zi(n)))
    if sure(ile(0, e)):
        if sure(ile(e, n)): return e
        return ie(z3.If(e <= zi(n), e, zi(n)))
    t = z3.If(e < 0, z3.If(e + zi(n) >= 0, e + zi(n), z3.IntVal(0)), z3.If(e <= zi(n), e, zi(n)))
    return ie(t)

def slice_geom(s, n):
    step = 1 if s.step is None else ie(s.step)
    if not isinstance(step, int): core.E.unsupported("symbolic slice step")
    if step == 1:
        st = 0 if s.start is None else clampi(s.start, n)
        en = n if s.stop is None else clampi(s.stop, n)
        if isinstance(st, int) and isinstance(en, int):
            return st, max(0, en - st), 1
        c = isub(en, st)
        if isinstance(c, int): return st, max(0, c), 1
        if sure(ile(0, c)): return st, c, 1
        return st, ie(z3.If(zi(c) >= 0, zi(c), z3.IntVal(0))), 1
    if step == -1 and s.start is None and s.stop is None:
        return isub(n, 1), n, -1
    if step > 1 and s.stop is None:
        st = 0 if s.start is None else clampi(s.start, n)
        c = ie((zi(isub(n, st)) + (step - 1)) / step)
        return st, c, step
    if isinstance(n, int) and all(isinstance(ie(x), int) for x in (s.start or 0, s.stop or 0)):
        a, b, c = slice(s.start, s.stop, step).indices(n)
        return a, len(range(a, b, c)), c
    core.E.unsupported("general stepped slice")

# --- construction ------------------------------------------------------------
def const_array(shape, value, kind=None, width=None):
    v = lift(value)
    if kind is None: kind = v.kind
    v = cast(v, kind, width)
    return SArray(Buf([ie(d) for d in shape], kind, lambda idx: v, width))

def from_numpy(a):
    a = np.array(a, copy=True)
    k = kind_of_dtype(a.dtype)
    w = width_of_dtype(a.dtype)
    dims = list(a.shape)
    if a.ndim == 0:
        return const_array((), a.item(), k, w)
    # constant arrays stay symbolic-index friendly
    if a.size and (a == a.flat[0]).all():
        return const_array(dims, a.flat[0].item(), k, w)
    sc = {}
    cache = {}
    def el(ix):
        if ix not in cache:
            cache[ix] = cast(lift(a[ix].item()), k, w)
        return cache[ix]
    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            return el(tuple(idx))
        if a.size > 4096:
            core.E.unsupported("symbolic index into a large concrete array")
        out = None
        for ix in np.ndindex(*a.shape):
            if any(isinstance(i, int) and i != j for i, j in zip(idx, ix)):
                continue
            g = And_(*[z3.BoolVal(True)] + [bz(ieq(i, j)) for i, j in zip(idx, ix)])
            v = el(ix)
            out = v if out is None else ite(bz(g), v, out)
        return out
    return SArray(Buf(dims, k, fn, w))

def to_sarray(x):
    if isinstance(x, SArray):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return stack_list(list(x))
        return from_numpy(x)
    if isinstance(x, (list, tuple)):
        return stack_list(x)
    return const_array((), x)

def symbolic(x, depth=0):
    """does x contain symbolic data?"""
    if isinstance(x, (Sym, SArray, MaskVec, WIdx, ByteView, PackedBits)):
        return True
    if hasattr(x, "_is_symlist") and x.runs is not None:
        return True
    if getattr(x, "_is_objarr", False):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(symbolic(y, depth + 1) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim > 0 and depth < 3:
        return any(symbolic(y, depth + 1) for y in x.flat)
    return False

def join_kind(ks):
    ks = set(ks)
    if REAL in ks: return REAL
    if BV in ks: return BV
    if INT in ks: return INT
    return BOOL

def stack_list(lst, axis=0):
    """np.array(list) for concrete-length lists"""
    lst = list(lst)
    if not lst:
        return from_numpy(np.array([]))
    items = [x if is_scalar(x) else to_sarray(x) for x in lst]
    if all(is_scalar(x) for x in items):
        vs = [lift(x) for x in items]
        if any(v.kind == "str" for v in vs):
            core.E.unsupported("array of strings")
        k = join_kind(v.kind for v in vs)
        vs = [cast(v, k) for v in vs]
        def fn(idx):
            i = idx[0]
            if isinstance(i, int): return vs[i]
            out = vs[-1]
            for j in range(len(vs) - 2, -1, -1):
                out = ite(bz(ieq(i, j)), vs[j], out)
            return out
        return SArray(Buf([len(vs)], k, fn))
    items = [const_array((), x) if is_scalar(x) else x for x in items]
    sh = items[0]._shape
    for it in items[1:]:
        if it.ndim != len(sh) or not all(dim_eq(a, b) for a, b in zip(sh, it._shape)):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    rs = [it.reader() for it in items]
    k = join_kind(it.kind for it in items)
    w = items[0].buf.width if all(it.buf.width == items[0].buf.width for it in items) else None
    def fn(idx):
        i, rest = idx[0], tuple(idx[1:])
        if isinstance(i, int): return cast(rs[i](rest), k, w)
        out = cast(rs[-1](rest), k, w)
        for j in range(len(rs) - 2, -1, -1):
            out = ite(bz(ieq(i, j)), cast(rs[j](rest), k, w), out)
        return out
    return SArray(Buf([len(items)] + list(sh), k, fn, w))

def uf_array(name, dims, kind=REAL, nan=False, width=None, extra=()):
    """array of unknown content: element = uninterpreted function of extra+indices"""
    n = len(extra) + len(dims)
    sorts = [z3.IntSort()] * n
    ex = [zi(x) for x in extra]
    if kind == REAL:
        f = core.uf(name, *(sorts + [z3.RealSort()])) if n else z3.Real(name)
        g = core.uf(name + "!nan", *(sorts + [z3.BoolSort()])) if n else z3.Bool(name + "!nan")
        def fn(idx):
            a = ex + [zi(i) for i in idx]
            if not a: return SReal(f, g if nan else False)
            return SReal(f(*a), g(*a) if nan else False)
    elif kind == BV:
        f = core.uf(name, *(sorts + [z3.BitVecSort(64)])) if n else z3.BitVec(name, 64)
        def fn(idx):
            a = ex + [zi(i) for i in idx]
            return SBV(f(*a) if a else f)
    elif kind == INT:
        f = core.uf(name, *(sorts + [z3.IntSort()])) if n else z3.Int(name)
        def fn(idx):
            a = ex + [zi(i) for i in idx]
            return SInt(f(*a) if a else f)
    else:
        f = core.uf(name, *(sorts + [z3.BoolSort()])) if n else z3.Bool(name)
        def fn(idx):
            a = ex + [zi(i) for i in idx]
            return SBool(f(*a) if a else f)
    return SArray(Buf([ie(d) for d in dims], kind, fn, width))

# --- broadcasting and maps --------------------------------------------------
def broadcast_shape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0: continue
            x = s[j]
            if isinstance(x, int) and x == 1: continue
            if isinstance(d, int) and d == 1:
                d = x; continue
            c = ieq(d, x)
            if c is True: continue
            if c is not False and sure(c): continue
            # symbolic extents that may be 1
            if not isinstance(x, int) and sure(ieq(x, 1)): continue
            if not isinstance(d, int) and sure(ieq(d, 1)):
                d = x; continue
            if c is not False and decide(c): continue
            if not isinstance(x, int) and decide(ieq(x, 1)): continue
            if not isinstance(d, int) and decide(ieq(d, 1)):
                d = x; continue
            raise ValueError("operands could not be broadcast together with shapes %s" % (shapes,))
        out.append(d)
    return out

def is_one(d):
    return (isinstance(d, int) and d == 1)

def broadcast_reader(x, shape):
    """reader of x broadcast to shape"""
    if is_scalar(x):
        s = lift(x)
        return lambda idx: s
    if isinstance(x, MaskVec):
        core.E.unsupported("broadcast of masked selection")
    x = to_sarray_any(x)
    sh = x._shape
    off = len(shape) - len(sh)
    lead = 0
    if off < 0:
        for d in sh[:-off]:
            if not is_one(d): raise ValueError("could not broadcast input array")
        lead = -off
        off = 0
    ones = []
    for i, d in enumerate(sh[lead:]):
        t = shape[off + i]
        c = ieq(d, t)
        if c is True: ones.append(False)
        elif is_one(d): ones.append(True)
        elif c is not False and sure(c): ones.append(False)
        elif not isinstance(d, int) and sure(ieq(d, 1)): ones.append(True)
        elif c is not False and decide(c): ones.append(False)
        elif not isinstance(d, int) and decide(ieq(d, 1)): ones.append(True)
        else:
            raise ValueError("could not broadcast input array from shape %s into shape %s" % (sh, shape))
    r = x.reader()
    def fn(idx):
        ii = [0] * lead
        for i, o in enumerate(ones):
            ii.append(0 if o else idx[off + i])
        return r(tuple(ii))
    return fn

def to_sarray_any(x):
    if isinstance(x, SArray): return x
    if hasattr(x, "_is_symlist") and x.runs is not None:
        return x.as_array()
    if isinstance(x, (np.ndarray, list, tuple)): return to_sarray(x)
    core.E.unsupported("not an array: %r" % (type(x),))

def result_kind(op, ka, kb):
    if op in core.CMP: return BOOL
    if op == "div": return REAL
    if op in ("and", "or", "xor"):
        return BOOL if ka == BOOL and kb == BOOL else BV
    if op in ("lshift", "rshift"): return BV
    if ka == REAL or kb == REAL: return REAL
    if ka == BV or kb == BV: return BV
    if ka == BOOL and kb == BOOL and op in ("add", "mul"): return BOOL
    return INT

def elementwise(op, a, b):
    core.E.check_alive()
    if isinstance(a, MaskVec) or isinstance(b, MaskVec):
        mv = a if isinstance(a, MaskVec) else b
        fa = a.fn if isinstance(a, MaskVec) else None
        fb = b.fn if isinstance(b, MaskVec) else None
        if fa and fb: check_same_mask(a.mask, b.mask)
        if fa is None:
            if not is_scalar(a): core.E.unsupported("array op masked selection")
            sa = lift(a); fa = lambda i: sa
            ka = sa.kind
        else: ka = a.kind
        if fb is None:
            if not is_scalar(b): core.E.unsupported("array op masked selection")
            sb = lift(b); fb = lambda i: sb
            kb = sb.kind
        else: kb = b.kind
        return MaskVec(mv.mask, lambda i: arith(op, fa(i), fb(i)), result_kind(op, ka, kb), mv.width)
    if not (is_scalar(a) or is_arrayish(a)) or not (is_scalar(b) or is_arrayish(b)):
        return NotImplemented
    if is_scalar(a) and is_scalar(b):
        return arith(op, lift(a), lift(b))
    A = None if is_scalar(a) else to_sarray_any(a)
    B = None if is_scalar(b) else to_sarray_any(b)
    shape = broadcast_shape([x._shape for x in (A, B) if x is not None])
    ra = broadcast_reader(a if A is None else A, shape)
    rb = broadcast_reader(b if B is None else B, shape)
    ka = A.kind if A is not None else lift(a).kind
    kb = B.kind if B is not None else lift(b).kind
    k = result_kind(op, ka, kb)
    w = None
    if k == BV:
        wa = A.buf.width if A is not None else None
        wb = B.buf.width if B is not None else None
        if A is not None and B is not None:
            w = max(wa, wb) if wa and wb else None
        else:
            w = wa or wb       # python scalars do not widen
    def fn(idx):
        return cast(arith(op, ra(idx), rb(idx)), k, w)
    res = SArray(Buf(shape, k, fn, w))
    if not shape:
        return res.at()
    return res

def is_arrayish(x):
    return isinstance(x, (SArray, MaskVec, np.ndarray, list, tuple))

def map1(op, a):
    core.E.check_alive()
    if is_scalar(a):
        return unary(op, lift(a))
    if isinstance(a, MaskVec):
        f = a.fn
        k = unary_kind(op, a.kind)
        return MaskVec(a.mask, lambda i: unary(op, f(i)), k, a.width)
    a = to_sarray_any(a)
    r = a.reader()
    k = unary_kind(op, a.kind)
    w = a.buf.width if k == BV else None
    def fn(idx):
        return cast(unary(op, cast(r(idx), a.kind)), k, w)
    return SArray(Buf(list(a._shape), k, fn, w))

def unary_kind(op, k):
    if op in ("isnan", "isfinite", "isinf", "logical_not"): return BOOL
    if op == "invert": return BOOL if k == BOOL else BV
    if op in ("abs", "neg", "square", "identity"): return k if k != BOOL else INT
    if op in ("round", "rint", "floor", "ceil") and k in (INT, BV): return k
    return REAL

def where3(c, a, b):
    if is_scalar(c) and is_scalar(a) and is_scalar(b):
        return ite(cast(lift(c), BOOL).t, a, b)
    arrs = [x for x in (c, a, b) if not is_scalar(x)]
    arrs = [to_sarray_any(x) for x in arrs]
    shape = broadcast_shape([x._shape for x in arrs])
    rc, ra, rb = (broadcast_reader(x, shape) for x in (c, a, b))
    ka = lift(a).kind if is_scalar(a) else to_sarray_any(a).kind
    kb = lift(b).kind if is_scalar(b) else to_sarray_any(b).kind
    k = join_kind([ka, kb])
    return SArray(Buf(shape, k, lambda i: cast(ite(cast(rc(i), BOOL).t, ra(i), rb(i)), k)))

def to_bool(a):
    if isinstance(a, SArray) and a.kind == BOOL: return a
    a = to_sarray_any(a)
    r = a.reader()
    return SArray(Buf(list(a._shape), BOOL, lambda i: cast(r(i), BOOL)))

def reshape(a, shape):
    if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1:
        if a.ndim == 1: return SArray(a.buf, a.specs, a._shape)
        return FlatView.make(a)
    # remove / add unit dimensions only
    src = [(i, d) for i, d in enumerate(a._shape) if not is_one(d)]
    dst = [(i, d) for i, d in enumerate(shape) if not is_one(d)]
    if len(src) == len(dst) and all(isinstance(d2, int) and d2 == -1 or sure(ieq(d1, d2)) for (_, d1), (_, d2) in zip(src, dst)):
        amap = {i: j for (i, _), (j, _) in zip(src, dst)}
        shape = list(shape)
        for (i, d1), (j, d2) in zip(src, dst):
            shape[j] = d1
        specs = []
        for s in a.specs:
            if s[0] == "fix": specs.append(s)
            elif s[1] in amap: specs.append(("ax", amap[s[1]], s[2], s[3]))
            else: specs.append(("fix", s[2]))
        return SArray(a.buf, specs, shape)
    fl = getattr(a, "_flat_of", None)
    if fl is not None and len(shape) == len(fl) and all((isinstance(x, int) and x == -1) or sure(ieq(x, y)) for x, y in zip(shape, fl)):
        # un-flattening of a flattened array: the element order is the original one
        r = a._nd
        return SArray(Buf(list(fl), a.kind, r, a.buf.width))
    core.E.unsupported("general reshape")

class FlatView:
    """a.ravel(): element f of the flat array is element unravel(f)"""
    @staticmethod
    def make(a):
        dims = list(a._shape)
        n = 1
        for d in dims: n = imul(n, d)
        r = a.reader()
        def fn(idx):
            f = idx[0]
            ii = []
            rem = f
            for d in reversed(dims[1:]):
                ii.append(ie(zi(rem) % zi(d)))
                rem = ie(zi(rem) / zi(d))
            ii.append(rem)
            return r(tuple(reversed(ii)))
        out = SArray(Buf([n], a.kind, fn, a.buf.width))
        out._flat_of = dims
        out._nd = r
        return out

# --- reductions -----------------------------------------------------------------
def norm_axis(axis, nd):
    if axis is None: return list(range(nd))
    if isinstance(axis, (tuple, list)): axs = [ie(x) for x in axis]
    else: axs = [ie(axis)]
    out = []
    for x in axs:
        if x < -nd or x >= nd:
            raise np.exceptions.AxisError(x, nd)
        out.append(x % nd)
    return sorted(out)

def bool_lambda(vars_, t):
    return z3.Lambda(vars_, z3.simplify(bz(t)))

def lanes(dims):
    e = core.E
    d = e.lane_depth
    return [lane(d, i) for i in range(len(dims))]

class lane_scope:
    def __enter__(self):
        core.E.lane_depth += 1
    def __exit__(self, *a):
        core.E.lane_depth -= 1

def red_uf(name, nd, out):
    dom = [z3.IntSort()] * nd
    return name, dom

def zlambda(vs, body):
    return z3.Lambda(list(vs), body)

def mask_count(mask):
    """number of True elements"""
    return count_fn([d for d in mask._shape], (lambda r: (lambda i: cast(r(i), BOOL).t))(mask.reader()))

EXPAND = 4
def small(dims):
    n = 1
    for d in dims:
        if not isinstance(d, int): return None
        n *= d
    return n if n <= EXPAND else None

def count_fn(dims, pred):
    """SInt number of index tuples with pred true"""
    n = small(dims)
    if n is not None:
        tot = 0
        for ix in np.ndindex(*dims):
            p = z3.simplify(bz(pred(tuple(int(x) for x in ix))))
            tot = iadd(tot, z3.If(p, z3.IntVal(1), z3.IntVal(0)) if not (z3.is_true(p) or z3.is_false(p)) else int(z3.is_true(p)))
        return SInt(zi(tot))
    core.E.lane_depth += 1
    vs = lanes(dims)
    b = z3.simplify(bz(pred(tuple(vs))))
    core.E.lane_depth -= 1
    return count_body(dims, vs, b)
def count_body(dims, vs, b):
    if z3.is_true(b):
        r = 1
        for d in dims: r = imul(r, d)
        return SInt(zi(r))
    if z3.is_false(b): return SInt(z3.IntVal(0))
    arr = z3.Lambda(vs, b)
    f = core.uf("red_count%d" % len(dims), arr.sort(), *([z3.IntSort()] * len(dims) + [z3.IntSort()]))
    return SInt(f(arr, *[zi(d) for d in dims]))

def any_fn(dims, pred):
    n = small(dims)
    if n is not None:
        return SBool(Or_(*[z3.simplify(bz(pred(tuple(int(x) for x in ix)))) for ix in np.ndindex(*dims)]) if n else False)
    core.E.lane_depth += 1
    vs = lanes(dims)
    b = z3.simplify(bz(pred(tuple(vs))))
    core.E.lane_depth -= 1
    if z3.is_false(b): return SBool(False)
    if z3.is_true(b):
        return SBool(And_(*[bz(ilt(0, d)) for d in dims]))
    arr = z3.Lambda(vs, b)
    f = core.uf("red_any%d" % len(dims), arr.sort(), *([z3.IntSort()] * len(dims) + [z3.BoolSort()]))
    return SBool(f(arr, *[zi(d) for d in dims]))

def red_apply(name, dims, valfn, validfn, params=()):
    """SReal: reduction `name` of the values whose valid flag holds.
    valfn: idx -> SReal, validfn: idx -> z3 Bool."""
    n = small(dims)
    if n is not None and name == "sum":
        tot = z3.RealVal(0)
        for ix in np.ndindex(*dims):
            ix = tuple(int(x) for x in ix)
            g = z3.simplify(bz(validfn(ix)))
            v = cast(valfn(ix), REAL).v
            tot = core._add(tot, v if z3.is_true(g) else z3.If(g, v, z3.RealVal(0)))
        return SReal(tot)
    if n == 1 and name in ("mean", "median", "min", "max"):
        return SReal(cast(valfn(tuple(0 for _ in dims)), REAL).v)
    core.E.lane_depth += 1
    vs = lanes(dims)
    g = z3.simplify(bz(validfn(tuple(vs))))
    v = cast(valfn(tuple(vs)), REAL).v
    core.E.lane_depth -= 1
    body = canon(v) if z3.is_true(g) else z3.If(g, canon(v), z3.RealVal(0))
    if name == "sum":
        # a sum of 0/1 values is a count
        c01 = zero_one(z3.simplify(v))
        if c01 is not None:
            return SReal(core.toreal(count_body(dims, vs, z3.simplify(z3.And(g, c01))).t))
        # constant (lane-free) values
        bs = z3.simplify(body)
        if z3.is_rational_value(bs):
            if core._zero(bs): return SReal(z3.RealVal(0))
        if z3.is_true(g) and not any(core.mentions(bs, x.get_id()) for x in vs):
            r = 1
            for d in dims: r = imul(r, d)
            return SReal(core._mul(z3.simplify(z3.ToReal(zi(r))), bs))
        # c * body with lane-free c is pulled out
        c, rest = split_const(canon(v), vs)
        if c is not None:
            inner = rest if z3.is_true(g) else z3.If(g, rest, z3.RealVal(0))
            return SReal(c * _redcall(name, dims, vs, inner, g, params))
    return SReal(_redcall(name, dims, vs, body, g, params))

def zero_one(t):
    """the condition c when t is a non-constant term that is 1 where c and 0 elsewhere"""
    def go(t):
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return go(t.arg(0))
        if core.is_numeral(t):
            return z3.BoolVal(core.num(t) == 1) if core.num(t) in (0, 1) else None
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            a, b = go(a), go(b)
            return None if a is None or b is None else z3.simplify(z3.If(c, a, b))
        if z3.is_mul(t):
            cs = [go(c) for c in t.children()]
            return None if any(c is None for c in cs) else z3.And(*cs)
        return None
    c = go(t)
    if c is None: return None
    c = z3.simplify(c)
    return None if z3.is_true(c) or z3.is_false(c) else c

def split_const(t, vs):
    """t == c*rest with c free of lane variables (or None)"""
    ids = [x.get_id() for x in vs]
    free = lambda x: not any(core.mentions(x, i) for i in ids)
    if z3.is_mul(t):
        cs = [c for c in t.children() if free(c)]
        rs = [c for c in t.children() if not free(c)]
        if cs and rs:
            c = cs[0]
            for x in cs[1:]: c = c * x
            r = rs[0]
            for x in rs[1:]: r = r * x
            return c, r
    return None, t

def _redcall(name, dims, vs, body, g, params):
    A = z3.Lambda(vs, body)
    G = z3.Lambda(vs, g)
    nd = len(dims)
    if name == "sum":
        f = core.uf("red_sum%d" % nd, A.sort(), *([z3.IntSort()] * nd + [z3.RealSort()]))
        return f(A, *[zi(d) for d in dims])
    f = core.uf("red_%s%d" % (name, nd), A.sort(), G.sort(), *([z3.RealSort()] * len(params) + [z3.IntSort()] * nd + [z3.RealSort()]))
    return f(A, G, *(list(params) + [zi(d) for d in dims]))

def masked_parts(a):
    """(dims, value reader, valid reader or None)"""
    if isinstance(a, MaskVec):
        return a._as_masked()
    if getattr(a, "_is_masked", False):
        r, m = a.arr.reader(), a.maskarr.reader()
        return list(a.arr._shape), r, (lambda i: bz(Not_(cast(m(i), BOOL).t)))
    a = to_sarray_any(a)
    return list(a._shape), a.reader(), None

def reduce_(name, a, axis=None, keepdims=False, skipnan=False, ddof=0, q=None, **kw):
    core.E.check_alive()
    for k, v in kw.items():
        if v is not None and k not in ("dtype",):
            core.E.unsupported("reduction keyword " + k)
    if is_scalar(a):
        a = const_array((1,), a); axis = 0
    if isinstance(a, MaskVec):
        if a.partial and axis is not None: core.E.unsupported("mask does not cover the remaining axes")
        axis = None
    dims, r, valid = masked_parts(a)
    nd = len(dims)
    axs = norm_axis(axis, nd)
    rest = [i for i in range(nd) if i not in axs]
    rdims = [dims[i] for i in axs]
    kind0 = a.kind if not getattr(a, "_is_masked", False) else a.arr.kind
    def combine(oidx, lidx):
        full = [None] * nd
        for i, x in zip(rest, oidx): full[i] = x
        for i, x in zip(axs, lidx): full[i] = x
        return tuple(full)
    def one(oidx):
        def val(l): return cast(r(combine(oidx, l)), REAL)
        def ok(l):
            g = True
            if valid is not None: g = valid(combine(oidx, l))
            if skipnan: g = And_(g, Not_(val(l).nan))
            return bz(g)
        def nanpred(l):
            x = val(l)
            return bz(And_(valid(combine(oidx, l)) if valid is not None else True, x.nan))
        nan = False
        if not skipnan:
            nan = any_fn(rdims, nanpred).t
            if z3.is_false(nan): nan = False
        if kind0 in (INT, BOOL) and name == "sum" and not skipnan:
            if kind0 == BOOL:
                return count_fn(rdims, lambda l: And_(cast(r(combine(oidx, l)), BOOL).t, ok(l)))
        if name in ("min", "max") and valid is None and not skipnan and q is None and all(isinstance(d, int) for d in rdims) and 1 <= np.prod(rdims) <= EXPAND:
            x = None
            for l in np.ndindex(*rdims):
                y = val(tuple(int(i) for i in l))
                x = y if x is None else SReal(ite((y.v < x.v) if name == "min" else (y.v > x.v), y, x).v)
            return SReal(x.v, nan)
        if name == "sum":
            x = red_apply("sum", rdims, val, ok)
            if kind0 in (INT, BV) : return SReal(x.v, nan)
            return SReal(x.v, nan)
        cnt = count_fn(rdims, ok)
        empty = z3.simplify(cnt.t <= 0)
        if name == "mean":
            s = red_apply("sum", rdims, val, ok)
            m = SReal(core._mul(s.v, core.mk_inv(core.toreal(cnt.t))))
            return SReal(m.v, Or_(nan, False if z3.is_false(empty) or sure(z3.Not(empty)) else empty))
        params = ()
        if name in ("std", "var"):
            x = red_apply("var", rdims, val, ok, params)
            v = x.v
            if ddof:
                v = v * core.toreal(cnt.t) * core.mk_inv(core.toreal(z3.simplify(cnt.t - int(ddof))))
            if name == "std": v = core.sqrt_f(canon(v))
        elif q is not None:
            qq = lift(q)
            v = red_apply(name, rdims, val, ok, (cast(qq, REAL).v,)).v
        else:
            v = red_apply(name, rdims, val, ok).v
        return SReal(v, Or_(nan, False if z3.is_false(empty) or sure(z3.Not(empty)) else empty))
    def shaped(oidx):
        return one(oidx)
    if not rest and not keepdims:
        x = one(())
        if kind0 in (INT, BV) and name in ("sum", "min", "max"):
            return SInt(core.real2int(x.v))
        return x
    odims = [dims[i] for i in rest]
    kind = REAL
    if kind0 == BOOL and name == "sum": kind = INT
    elif kind0 in (INT, BV) and name in ("sum", "min", "max"): kind = INT
    if keepdims:
        shape = [1 if i in axs else dims[i] for i in range(nd)]
        fn = lambda idx: cast(one(tuple(idx[i] for i in rest)), kind)
        res = SArray(Buf(shape, kind, fn))
    else:
        res = SArray(Buf(odims, kind, lambda idx: cast(one(tuple(idx)), kind)))
    if getattr(a, "_is_masked", False):
        # masked result: masked where nothing was valid
        def mfn(idx):
            o = tuple(idx) if not keepdims else tuple(idx[i] for i in rest)
            return SBool(Not_(any_fn(rdims, lambda l: valid(combine(o, l))).t))
        return SMasked(SArray(Buf(list(res._shape), kind, lambda idx: SReal(cast(res.at(*idx), REAL).v, False) if kind == REAL else res.at(*idx))), SArray(Buf(list(res._shape), BOOL, mfn)))
    return res

def reduce_any(a, axis=None, keepdims=False, neg=False, **kw):
    if is_scalar(a): return cast(lift(a), BOOL)
    if isinstance(a, MaskVec):
        if a.partial and axis is not None: core.E.unsupported("mask does not cover the remaining axes")
        axis = None
    dims, r, valid = masked_parts(a)
    nd = len(dims)
    axs = norm_axis(axis, nd)
    rest = [i for i in range(nd) if i not in axs]
    rdims = [dims[i] for i in axs]
    def one(oidx):
        def pred(l):
            full = [None] * nd
            for i, x in zip(rest, oidx): full[i] = x
            for i, x in zip(axs, l): full[i] = x
            t = cast(r(tuple(full)), BOOL).t
            if neg: t = Not_(t)
            return And_(t, valid(tuple(full)) if valid is not None else True)
        b = any_fn(rdims, pred)
        return SBool(Not_(b.t)) if neg else b
    if not rest: return one(())
    return SArray(Buf([dims[i] for i in rest], BOOL, lambda idx: one(tuple(idx))))
def reduce_all(a, axis=None, **kw):
    return reduce_any(a, axis, neg=True)

def reduce_bitor(a, axis=0):
    """np.bitwise_or.reduce: bit b of the result = any element has bit b.
    Represented bit-wise through an uninterpreted reduction with facts."""
    a = to_sarray_any(a)
    nd = a.ndim
    axs = norm_axis(axis, nd)
    if len(axs) != 1: core.E.unsupported("bitwise_or.reduce over several axes")
    ax = axs[0]
    r = a.reader()
    n = a._shape[ax]
    def one(oidx):
        def full(l):
            o = list(oidx); o.insert(ax, l); return tuple(o)
        if isinstance(n, int) and n <= EXPAND:
            x = cast(r(full(0)), BV)
            for j in range(1, n): x = arith("or", x, r(full(j)))
            return x
        core.E.lane_depth += 1
        v = lanes([n])[0]
        t = z3.simplify(cast(r(full(v)), BV).t)
        core.E.lane_depth -= 1
        A = z3.Lambda([v], t)
        f = core.uf("red_bor1", A.sort(), z3.IntSort(), z3.BitVecSort(64))
        return SBV(f(A, zi(n)))
    od = [d for i, d in enumerate(a._shape) if i != ax]
    if not od: return one(())
    return SArray(Buf(od, BV, lambda idx: one(tuple(idx)), a.buf.width))

# --- masked arrays ------------------------------------------------------------
class SMasked:
    _is_sarray = True
    _is_masked = True
    __array_ufunc__ = None
    __hash__ = object.__hash__
    def __init__(self, arr, maskarr):
        self.arr, self.maskarr = arr, maskarr
    @property
    def data(self): return self.arr
    @property
    def mask(self): return self.maskarr
    @property
    def shape(self): return self.arr.shape
    @property
    def ndim(self): return self.arr.ndim
    @property
    def kind(self): return self.arr.kind
    def mean(self, axis=None, **k): return ma_reduce("mean", self, axis, **k)
    def sum(self, axis=None, **k): return ma_reduce("sum", self, axis, **k)
    def std(self, axis=None, **k): return ma_reduce("std", self, axis, **k)
    def filled(self, v):
        return where3(self.maskarr, v, self.arr)
    def _b(self, op, o, rev=False):
        if isinstance(o, SMasked):
            m = elementwise("or", self.maskarr, o.maskarr); x = o.arr
        else:
            m, x = self.maskarr, o
        v = elementwise(op, x, self.arr) if rev else elementwise(op, self.arr, x)
        if op == "div":
            # numpy masks the points outside the domain of the division
            m = elementwise("or", m, map1("isnan", v))
            v = where3(m, x if rev else self.arr, v)
        return SMasked(v, m)
    def __getitem__(self, k):
        return SMasked(self.arr[k], self.maskarr[k])
    def copy(self): return SMasked(self.arr.copy(), self.maskarr.copy())
    def _ip(self, op, o):
        # numpy: the operand's mask is added to the mask (in place), then the
        # data are updated where the result is not masked
        if isinstance(o, SMasked):
            self.maskarr = elementwise("or", self.maskarr, o.maskarr)
            x = o.arr
        else: x = o
        v = elementwise(op, self.arr, x)
        self.arr[...] = where3(self.maskarr, self.arr, v)
        return self
    def __iadd__(self, o): return self._ip("add", o)
    def __isub__(self, o): return self._ip("sub", o)
    def __imul__(self, o): return self._ip("mul", o)
    def __iter__(self):
        d = self.arr._shape[0]
        if not isinstance(d, int): core.E.unsupported("iterating a symbolic masked array outside a loop")
        return iter([self[i] for i in range(d)])
for _n, _o in dict(add="add", sub="sub", mul="mul", truediv="div", pow="pow", lt="lt", le="le", gt="gt", ge="ge").items():
    setattr(SMasked, "__%s__" % _n, (lambda o: lambda self, x: self._b(o, x))(_o))
    if _n not in ("lt", "le", "gt", "ge"):
        setattr(SMasked, "__r%s__" % _n, (lambda o: lambda self, x: self._b(o, x, True))(_o))
SMasked.__abs__ = lambda self: SMasked(map1("abs", self.arr), self.maskarr)

def ma_reduce(name, a, axis=None, **k):
    return reduce_(name, a, axis, **k)

# --- loop bookkeeping -----------------------------------------------------------
def note_read(v):
    e = core.E
    for c in e.active:
        c.note_read(v)
def note_write(v):
    e = core.E
    for c in e.active:
        c.note_write(v)
