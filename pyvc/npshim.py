"""numpy / scipy / astropy.fits stand-ins used while the code under proof runs
on symbolic values.  With concrete arguments everything falls through to the
real library."""
import copy as _copy, math
import numpy as np
import z3
from . import core, symarray as sa, loops
from .core import lift, cast, ite, unary, arith, SReal, SInt, SBool, SBV, SStr, Sym, REAL, INT, BOOL, BV, bz, And_, Or_, Not_, kind_of_dtype, width_of_dtype
from .symarray import SArray, MaskVec, SMasked, Buf, WIdx, WTuple, symbolic, ie, zi, to_sarray_any, is_scalar, map1, elementwise, reduce_
from .loops import PList, ObjArr, family_array

T = {}
def reg(*names):
    def d(f):
        for n in names: T[n] = f
        return f
    return d

def anysym(a, k):
    return any(symbolic(x) for x in a) or any(symbolic(v) for v in k.values())

def shape_sym(s):
    if isinstance(s, Sym): return True
    return isinstance(s, (tuple, list)) and any(isinstance(x, Sym) for x in s)

def mkshape(s):
    if isinstance(s, (tuple, list)): return [ie(x) for x in s]
    return [ie(s)]

class Shim:
    def __init__(self, real, table, types_=()):
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["_wrapped"] = {}
    def __getattr__(self, name):
        if name in self._table: return self._table[name]
        v = getattr(self._real, name)
        if isinstance(v, type) or not callable(v): return v
        w = self._wrapped.get(name)
        if w is None:
            def w(*a, _v=v, _n=name, **k):
                if core.E is not None and (anysym(a, k) or any(shape_sym(x) for x in a)):
                    core.E.check_alive()
                    core.E.unsupported("library function %s on symbolic data" % _n)
                return _v(*a, **k)
            for at in ("reduce", "accumulate", "outer", "at"):
                if hasattr(v, at):
                    setattr(w, at, guard(getattr(v, at), name + "." + at))
            self._wrapped[name] = w
        return w
    def __setattr__(self, n, v):
        setattr(self._real, n, v)

def guard(f, name):
    def g(*a, **k):
        if core.E is not None and anysym(a, k):
            core.E.unsupported("library function %s on symbolic data" % name)
        return f(*a, **k)
    return g

def seq(x):
    """python list/tuple of array-likes, or a symbolic family"""
    return x

@reg("isrealobj")
def isrealobj(x): return True if symbolic(x) else np.isrealobj(x)
@reg("iscomplexobj")
def iscomplexobj(x): return False if symbolic(x) else np.iscomplexobj(x)

# ---- construction -----------------------------------------------------------
@reg("array", "asarray", "asanyarray", "ascontiguousarray")
def array(x, dtype=None, copy=True, **k):
    if isinstance(x, ObjArr): return ObjArr(x.fam)
    if isinstance(x, PList) and x.runs is not None:
        r = family_array(x.runs)
        if isinstance(r, ObjArr): return r
        return r.astype(dtype) if dtype is not None else r
    if isinstance(x, (WTuple,)) or (isinstance(x, (list, tuple)) and any(isinstance(y, WIdx) for y in x)):
        core.E.unsupported("array of np.where results")
    if not symbolic(x):
        if isinstance(x, PList): x = list(x)
        return np.array(x, dtype=dtype, **k) if dtype is not None else np.array(x, **k)
    if isinstance(x, MaskVec): return x.astype(dtype) if dtype is not None else x
    if isinstance(x, SArray):
        r = x.copy()
    elif isinstance(x, np.ndarray) and x.dtype == object and not all(symbolic(y) for y in x.flat):
        return np.array(x)
    elif is_scalar(x):
        r = sa.const_array((), x)
    else:
        x = list(x)
        if x and not isinstance(x[0], (Sym, SArray, list, tuple, np.ndarray, int, float, np.generic, bool, PList)):
            return np.array(x)
        if any(isinstance(y, PList) and y.runs is not None for y in x):
            x = [family_array(y.runs) if isinstance(y, PList) and y.runs is not None else y for y in x]
        r = sa.stack_list([array(y) if isinstance(y, (list, tuple)) else y for y in x])
    if dtype is not None: r = r.astype(dtype)
    return r
def asarray(x, dtype=None, **k):
    if isinstance(x, (SArray, MaskVec, ObjArr)) and dtype is None: return x
    return array(x, dtype)
T["asarray"] = T["asanyarray"] = T["ascontiguousarray"] = asarray

@reg("copy")
def copy_(x, **k):
    if isinstance(x, SArray): return x.copy()
    if not symbolic(x): return np.copy(x)
    return array(x)

@reg("atleast_1d")
def atleast_1d(x):
    if not symbolic(x): return np.atleast_1d(x)
    if is_scalar(x): return sa.const_array((1,), x)
    return asarray(x)

def filler(name, val):
    real = getattr(np, name)
    def f(shape, dtype=None, **k):
        if not shape_sym(shape): 
            if isinstance(shape, PList): shape = list(shape)
            if core.E is not None and core.E.sym_fill:
                pass
            else:
                return real(shape, **({} if dtype is None else dict(dtype=dtype)))
        kd = kind_of_dtype(dtype)
        return sa.const_array(mkshape(shape), val if kd != BOOL else bool(val), kd if kd != INT or not width_of_dtype(dtype) else BV, width_of_dtype(dtype))
    T[name] = f
filler("zeros", 0)
filler("ones", 1)
@reg("empty")
def empty(shape, dtype=None, **k):
    if not shape_sym(shape): return np.empty(shape, **({} if dtype is None else dict(dtype=dtype)))
    return sa.uf_array(core.E.fresh_name("empty"), mkshape(shape), kind_of_dtype(dtype), extra=[c.k for c in core.E.active])
@reg("full")
def full(shape, v, dtype=None, **k):
    if not shape_sym(shape) and not isinstance(v, Sym): return np.full(shape, v, **({} if dtype is None else dict(dtype=dtype)))
    kd = kind_of_dtype(dtype) if dtype is not None else lift(v).kind
    return sa.const_array(mkshape(shape), v, kd)
def filler_like(name, val):
    real = getattr(np, name)
    def f(a, dtype=None, **k):
        if not symbolic(a): return real(a, **({} if dtype is None else dict(dtype=dtype)))
        a = to_sarray_any(a)
        if dtype is None: kd, w = a.kind, a.buf.width
        else: kd, w = kind_of_dtype(dtype), width_of_dtype(dtype)
        return sa.const_array(a._shape, val if kd != BOOL else bool(val), kd, w)
    T[name] = f
filler_like("zeros_like", 0)
filler_like("ones_like", 1)
@reg("full_like")
def full_like(a, v, dtype=None, **k):
    if not symbolic(a) and not symbolic(v): return np.full_like(a, v, **({} if dtype is None else dict(dtype=dtype)))
    a = to_sarray_any(a)
    kd = a.kind if dtype is None else kind_of_dtype(dtype)
    if is_scalar(v): return sa.const_array(a._shape, v, kd)
    r = sa.broadcast_reader(v, a._shape)
    return SArray(Buf(list(a._shape), kd, lambda i: cast(r(i), kd)))
@reg("arange")
def arange(*a, **k):
    if not any(isinstance(x, Sym) for x in a): return np.arange(*a, **k)
    if len(a) == 1: st, en = 0, a[0]
    elif len(a) == 2: st, en = a
    else: core.E.unsupported("arange step")
    n = sa.isub(ie(en), ie(st)); s0 = ie(st)
    return SArray(Buf([n], INT, lambda i: SInt(zi(sa.iadd(s0, i[0])))))

# ---- element-wise --------------------------------------------------------------
def un(name, op=None):
    real = getattr(np, name)
    op = op or name
    def f(x, *a, **k):
        if isinstance(x, SMasked): return SMasked(map1(op, x.arr), x.maskarr)
        if not symbolic(x): return real(x, *a, **k)
        if a or any(kk != "dtype" for kk in k): core.E.unsupported("np.%s with out/where" % name)
        if isinstance(x, (list, tuple)): x = array(x)
        return map1(op, x)
    T[name] = f
for _n in ("sqrt", "exp", "log", "log10", "log2", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "isnan", "isfinite", "isinf",
           "square", "radians", "degrees", "floor", "ceil", "rint", "logical_not", "deg2rad", "rad2deg"):
    un(_n)
un("abs", "abs"); un("absolute", "abs"); un("fabs", "abs"); un("invert", "invert"); un("bitwise_not", "invert"); un("negative", "neg")
@reg("round", "around")
def round_(x, *a, **k):
    if not symbolic(x): return np.round(x, *a, **k)
    return map1("round", x)

def bi(name, op):
    real = getattr(np, name)
    def f(a, b, *r, out=None, where=True, **k):
        if isinstance(a, SMasked) or isinstance(b, SMasked):
            return a._b(op, b) if isinstance(a, SMasked) else b._b(op, a, True)
        if not symbolic(a) and not symbolic(b) and not symbolic(out) and not symbolic(where):
            kw = dict(k)
            if out is not None: kw["out"] = out
            if where is not True: kw["where"] = where
            return real(a, b, *r, **kw)
        if isinstance(a, (list, tuple)): a = array(a)
        if isinstance(b, (list, tuple)): b = array(b)
        res = elementwise(op, a, b) if not (is_scalar(a) and is_scalar(b)) else arith(op, lift(a), lift(b))
        if out is not None:
            if where is True: out[...] = res
            else:
                w = sa.to_bool(to_sarray_any(where)) if not is_scalar(where) else where
                out[...] = sa.where3(w, res, out.copy())
            return out
        if where is not True: core.E.unsupported("ufunc where= without out=")
        return res
    T[name] = f
    return f
for _n, _o in dict(add="add", subtract="sub", multiply="mul", divide="div", true_divide="div", power="pow", maximum="max",
                   minimum="min", less="lt", less_equal="le", greater="gt", greater_equal="ge", equal="eq", not_equal="ne",
                   floor_divide="floordiv", mod="mod", arctan2="arctan2", left_shift="lshift", right_shift="rshift").items():
    bi(_n, _o)
_bor = bi("bitwise_or", "or"); _band = bi("bitwise_and", "and"); _bxor = bi("bitwise_xor", "xor")
def _bor_reduce(a, axis=0, **k):
    if not symbolic(a): return np.bitwise_or.reduce(a, axis=axis, **k)
    return sa.reduce_bitor(a, axis)
_bor.reduce = _bor_reduce
def lg(name, f2):
    real = getattr(np, name)
    def f(a, b, **k):
        if not symbolic(a) and not symbolic(b): return real(a, b, **k)
        a = cast(lift(a), BOOL) if is_scalar(a) else sa.to_bool(a) if not isinstance(a, MaskVec) else a.astype(bool)
        b = cast(lift(b), BOOL) if is_scalar(b) else sa.to_bool(b) if not isinstance(b, MaskVec) else b.astype(bool)
        return elementwise(f2, a, b)
    f.reduce = guard(real.reduce, name)
    T[name] = f
lg("logical_and", "and"); lg("logical_or", "or"); lg("logical_xor", "xor")

@reg("unpackbits")
def unpackbits(a, axis=None, count=None, bitorder="big"):
    if isinstance(a, sa.ByteView): return sa.unpackbits(a, axis, bitorder, count)
    if symbolic(a): core.E.unsupported("unpackbits")
    return np.unpackbits(a, axis=axis, count=count, bitorder=bitorder)
@reg("packbits")
def packbits(a, axis=None, bitorder="big"):
    if not symbolic(a): return np.packbits(a, axis=axis, bitorder=bitorder)
    return sa.packbits(a, axis, bitorder)

@reg("where")
def where(c, *ab):
    if not symbolic(c) and not any(symbolic(x) for x in ab): return np.where(c, *ab)
    if not ab:
        if is_scalar(c): core.E.unsupported("np.where(scalar)")
        return sa.where_tuple(sa.to_bool(c))
    return sa.where3(c, *ab)
@reg("nonzero")
def nonzero(c):
    if not symbolic(c): return np.nonzero(c)
    return sa.where_tuple(sa.to_bool(c))
@reg("clip")
def clip(a, lo, hi, **k):
    if not anysym((a, lo, hi), k): return np.clip(a, lo, hi, **k)
    r = a
    if lo is not None: r = T["maximum"](r, lo)
    if hi is not None: r = T["minimum"](r, hi)
    return r
@reg("nan_to_num")
def nan_to_num(a, *r, **k):
    if not symbolic(a): return np.nan_to_num(a, *r, **k)
    core.E.unsupported("nan_to_num")
@reg("isclose", "allclose")
def isclose(*a, **k):
    if not anysym(a, k): return np.isclose(*a, **k)
    core.E.unsupported("isclose")
@reg("array_equal")
def array_equal(a, b, **k):
    if not anysym((a, b), k): return np.array_equal(a, b, **k)
    a, b = to_sarray_any(a), to_sarray_any(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a._shape, b._shape):
        if not sa.dim_eq(x, y): return False
    return sa.reduce_all(elementwise("eq", a, b))

# ---- shape ------------------------------------------------------------------
@reg("shape")
def shape(a):
    if hasattr(a, "shape") and symbolic(a): return a.shape
    if isinstance(a, ObjArr): return a.shape
    if symbolic(a): return array(a).shape
    return np.shape(a)
@reg("ndim")
def ndim(a):
    if hasattr(a, "ndim"): return a.ndim
    return np.ndim(a) if not symbolic(a) else array(a).ndim
@reg("size")
def size(a, axis=None):
    if isinstance(a, WTuple):
        if axis is not None: core.E.unsupported("size of np.where")
        n = a[0].size
        return n * len(a)
    if isinstance(a, (SArray, MaskVec, WIdx, ObjArr)):
        return a.size if axis is None else a.shape[axis]
    if symbolic(a): return array(a).size
    return np.size(a, axis)
@reg("reshape")
def reshape(a, s, **k):
    if not symbolic(a) and not shape_sym(s): return np.reshape(a, s, **k)
    return to_sarray_any(a).reshape(s)
@reg("ravel")
def ravel(a, **k):
    return np.ravel(a, **k) if not symbolic(a) else to_sarray_any(a).ravel()
@reg("transpose")
def transpose(a, axes=None):
    if not symbolic(a): return np.transpose(a, axes)
    if any(isinstance(x, WIdx) for x in (a if isinstance(a, (list, tuple)) else [])): core.E.unsupported("transpose of where")
    a = to_sarray_any(a)
    return a.T if axes is None else a.transpose(*axes)
@reg("squeeze")
def squeeze(a, **k):
    return np.squeeze(a, **k) if not symbolic(a) else a.squeeze()
@reg("expand_dims")
def expand_dims(a, axis):
    if not symbolic(a): return np.expand_dims(a, axis)
    a = to_sarray_any(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]
@reg("broadcast_to")
def broadcast_to(a, shp, **k):
    if not symbolic(a) and not shape_sym(shp): return np.broadcast_to(a, shp, **k)
    s = mkshape(shp)
    r = sa.broadcast_reader(a, s)
    kd = lift(a).kind if is_scalar(a) else to_sarray_any(a).kind
    return SArray(Buf(s, kd, r))
def _concat(arrs, axis):
    arrs = [to_sarray_any(a) for a in arrs]
    nd = arrs[0].ndim
    axis = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd: raise ValueError("all the input array dimensions must match")
        for i in range(nd):
            if i != axis and not sa.dim_eq(arrs[0]._shape[i], a._shape[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    rs = [a.reader() for a in arrs]
    offs, tot = [], 0
    for a in arrs:
        offs.append(tot)
        tot = sa.iadd(tot, a._shape[axis])
    kind = sa.join_kind(a.kind for a in arrs)
    w = arrs[0].buf.width
    def fn(idx):
        x = idx[axis]
        out = None
        for j in range(len(arrs) - 1, -1, -1):
            ii = list(idx); ii[axis] = sa.isub(x, offs[j])
            if out is None:
                out = lambda ii=ii, j=j: cast(rs[j](tuple(ii)), kind)
                continue
            c = sa.ilt(x, offs[j + 1])
            prev = out
            if c is True: out = lambda ii=ii, j=j: cast(rs[j](tuple(ii)), kind)
            elif c is False: pass
            else: out = lambda ii=ii, j=j, c=c, prev=prev: ite(c, cast(rs[j](tuple(ii)), kind), prev())
        return out()
    shp = list(arrs[0]._shape); shp[axis] = tot
    return SArray(Buf(shp, kind, fn, w))
@reg("concatenate")
def concatenate(arrs, axis=0, **k):
    if not symbolic(arrs): return np.concatenate(arrs, axis=axis, **k)
    if isinstance(arrs, PList) and arrs.runs is not None: core.E.unsupported("concatenate a family")
    arrs = list(arrs)
    if axis is None: core.E.unsupported("concatenate axis None")
    return _concat(arrs, axis)
@reg("append")
def append(a, b, axis=None):
    if not symbolic(a) and not symbolic(b):
        return np.append(a, list(b) if isinstance(b, PList) else b, axis=axis)
    if axis is None:
        a, b = (sa.const_array((1,), x) if is_scalar(x) else array(x) for x in (a, b))
        if a.ndim != 1: a = asarray(a).ravel()
        if b.ndim != 1: b = asarray(b).ravel()
        axis = 0
        if isinstance(a, np.ndarray) and a.size == 0: return asarray(b).copy()
        return _concat([a, b], 0)
    a = array(a) if isinstance(a, (list, tuple)) else a
    b = array(b) if isinstance(b, (list, tuple)) else b
    return _concat([a, b], axis)
@reg("stack")
def stack(arrs, axis=0, **k):
    if not symbolic(arrs): return np.stack(arrs, axis=axis, **k)
    r = array(arrs)
    if axis != 0:
        ax = list(range(1, r.ndim)); ax.insert(axis % r.ndim, 0)
        r = r.transpose(*ax)
    return r
@reg("vstack")
def vstack(arrs, **k):
    if not symbolic(arrs): return np.vstack(arrs, **k)
    return _concat([a if a.ndim > 1 else a[None] for a in map(to_sarray_any, list(arrs))], 0)
@reg("hstack")
def hstack(arrs, **k):
    if not symbolic(arrs): return np.hstack(arrs, **k)
    arrs = [to_sarray_any(a) for a in arrs]
    return _concat(arrs, 0 if arrs[0].ndim == 1 else 1)
@reg("split")
def split(a, n, axis=0):
    if not symbolic(a) and not isinstance(n, Sym): return np.split(a, n, axis)
    core.E.unsupported("np.split")
@reg("array_split")
def array_split(a, n, axis=0):
    if not symbolic(a): return np.array_split(a, n, axis)
    core.E.unsupported("np.array_split")
@reg("diff")
def diff(a, **k):
    if not symbolic(a): return np.diff(a, **k)
    a = to_sarray_any(a)
    return elementwise("sub", a[..., 1:], a[..., :-1])
@reg("outer")
def outer(a, b):
    if not anysym((a, b), {}): return np.outer(a, b)
    a, b = to_sarray_any(a), to_sarray_any(b)
    return elementwise("mul", a[:, None], b[None, :])

# ---- reductions ---------------------------------------------------------------
def red(name, rname, **fix):
    real = getattr(np, name)
    def f(a, axis=None, **k):
        if isinstance(a, SMasked): return reduce_(rname, a, axis, **fix, **k)
        if not symbolic(a): 
            if isinstance(a, PList): a = list(a)
            return real(a, axis=axis, **k)
        if isinstance(a, (list, tuple)): a = array(a)
        return reduce_(rname, a, axis, **fix, **k)
    T[name] = f
for _n in ("sum", "mean", "median", "std", "var", "min", "max"):
    red(_n, _n)
red("amin", "min"); red("amax", "max")
for _n in ("sum", "mean", "median", "std", "var", "min", "max"):
    red("nan" + _n, _n, skipnan=True)
def anyall(name, f1):
    real = getattr(np, name)
    def f(a, axis=None, **k):
        if not symbolic(a):
            if isinstance(a, PList): a = list(a)
            return real(a, axis=axis, **k)
        if isinstance(a, (list, tuple)): a = array(a)
        return f1(a, axis)
    T[name] = f
anyall("any", sa.reduce_any); anyall("all", sa.reduce_all)
@reg("percentile", "nanpercentile", "quantile")
def percentile(a, q, axis=None, **k):
    if not anysym((a, q), k): return np.percentile(a, q, axis=axis, **k)
    return reduce_("percentile", a, axis, q=q)
@reg("count_nonzero")
def count_nonzero(a, axis=None, **k):
    if not symbolic(a): return np.count_nonzero(a, axis=axis, **k)
    return reduce_("sum", sa.to_bool(a), axis)
@reg("unique")
def unique(a, **k):
    if not symbolic(a): return np.unique(list(a) if isinstance(a, PList) else a, **k)
    core.E.unsupported("np.unique")

# ---- masked arrays ------------------------------------------------------------
MA = {}
def masked_array(a, mask=None, **k):
    if not symbolic(a) and not symbolic(mask): return np.ma.masked_array(a, mask=mask, **k)
    a = to_sarray_any(a)
    if mask is None: m = sa.const_array(a._shape, False)
    else: m = sa.to_bool(mask)
    if m.ndim != a.ndim: core.E.unsupported("mask shape")
    return SMasked(a, m)
MA["masked_array"] = MA["array"] = masked_array
def ma_where(c, a):
    if not symbolic(c) and not symbolic(a): return np.ma.masked_where(c, a)
    return SMasked(to_sarray_any(a).copy(), sa.to_bool(c))
MA["masked_where"] = ma_where
def masked_invalid(a, **k):
    if not symbolic(a): return np.ma.masked_invalid(a, **k)
    return SMasked(a.copy(), map1("isnan", a))
MA["masked_invalid"] = masked_invalid
def ma_red(name):
    real = getattr(np.ma, name)
    def f(a, axis=None, **k):
        if isinstance(a, SMasked) or symbolic(a): return reduce_(name, a, axis, **k)
        return real(a, axis=axis, **k)
    MA[name] = f
for _n in ("mean", "median", "sum", "std", "min", "max"): ma_red(_n)
def ma_sqrt(a):
    if isinstance(a, SMasked): return SMasked(map1("sqrt", a.arr), a.maskarr)
    return np.ma.sqrt(a) if not symbolic(a) else map1("sqrt", a)
MA["sqrt"] = ma_sqrt
def getdata(a):
    if isinstance(a, SMasked): return a.arr
    return a if symbolic(a) else np.ma.getdata(a)
MA["getdata"] = getdata
def getmaskarray(a):
    if isinstance(a, SMasked): return a.maskarr
    if symbolic(a): return sa.const_array(a._shape, False)
    return np.ma.getmaskarray(a)
MA["getmask"] = MA["getmaskarray"] = getmaskarray
def ma_filled(a, v=None):
    if isinstance(a, SMasked): return a.filled(v)
    return np.ma.filled(a, v)
MA["filled"] = ma_filled

ma_shim = Shim(np.ma, MA)
T["ma"] = ma_shim

class _Err:
    pass
np_shim = Shim(np, T)

# ---- ndarray methods on concrete lists etc. need nothing ---------------------
