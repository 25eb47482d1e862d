"""Run-time entry points the instrumented code calls (name __pyvc__)."""
import builtins
import numpy as np
import z3
from . import core, symarray as sa, loops, fitsshim
from .core import lift, cast, ite, arith, unary, SInt, SReal, SBool, SBV, SStr, Sym, REAL, INT, BOOL, BV, bz
from .symarray import SArray, MaskVec, SMasked, WIdx, WTuple, ie, zi, symbolic, wrapi
from .loops import PList, PDict, ObjArr, SRange, SEnum, SZip, SIter, Loop, listcomp, attrw, as_symiter, Poison, Acc

def loop(it, key): return Loop(it, key)
def plist(x):
    return x if core.E is None else PList(x)
def pdict(x):
    return x if core.E is None else PDict(x)
def tick():
    e = core.E
    if e is None: return
    e.ticks += 1
    if e.ticks > 3000: e.unsupported("while loop runs long")
    e.check_alive()

def len_(x):
    if core.E is None: return builtins.len(x)
    core.E.check_alive()
    if isinstance(x, SArray): return wrapi(x._shape[0])
    if isinstance(x, SMasked): return wrapi(x.arr._shape[0])
    if isinstance(x, (MaskVec, WIdx)): return x.size
    if isinstance(x, ObjArr): return wrapi(x.fam.n)
    if isinstance(x, PList) and x.runs is not None: return wrapi(x.runs.n)
    if isinstance(x, SRange): return wrapi(x.n)
    if isinstance(x, SStr): return SInt(z3.Length(x.t))
    if core.E.reg.get(x) is not None and hasattr(type(x), "__len__"):
        return type(x).__len__(x)        # the instrumented __len__ may yield a symbolic length
    return builtins.len(x)
def range_(*a):
    if any(isinstance(x, Sym) for x in a):
        a = [ie(x) for x in a]
        if builtins.len(a) == 1: a = [0, a[0], 1]
        elif builtins.len(a) == 2: a = [a[0], a[1], 1]
        if not isinstance(a[2], int): core.E.unsupported("symbolic range step")
        if all(isinstance(x, int) for x in a): return builtins.range(*a)
        return SRange(*a)
    return builtins.range(*a)
def enumerate_(x, start=0):
    if core.E is not None and as_symiter(x) is not None: return SEnum(x, start)
    return builtins.enumerate(x, start)
def zip_(*a, **k):
    if core.E is not None and any(as_symiter(x) is not None for x in a): return SZip(a)
    return builtins.zip(*a, **k)
def reversed_(x):
    if core.E is not None and as_symiter(x) is not None: core.E.unsupported("reversed")
    return builtins.reversed(x)
def map_(f, *a):
    if core.E is not None and any(as_symiter(x) is not None for x in a): core.E.unsupported("map")
    return builtins.map(f, *a)
def int_(*a):
    if a and isinstance(a[0], Sym):
        x = a[0]
        if isinstance(x, SStr): core.E.unsupported("int of string")
        if isinstance(x, SReal):
            if core.E.fork(bz(x.nan)): raise ValueError("cannot convert float NaN to integer")
        return cast(x, INT)
    if a and isinstance(a[0], SArray): return cast(a[0].item(), INT)
    return builtins.int(*a)
def float_(*a):
    if a and isinstance(a[0], Sym):
        if isinstance(a[0], SStr): core.E.unsupported("float of string")
        return cast(a[0], REAL)
    if a and isinstance(a[0], SArray): return cast(a[0].item(), REAL)
    return builtins.float(*a)
def bool_(*a):
    if a and isinstance(a[0], Sym) and not isinstance(a[0], SStr): return cast(a[0], BOOL)
    return builtins.bool(*a)
def _mm(op, a, k):
    if builtins.len(a) == 1:
        x = a[0]
        if isinstance(x, SArray): return sa.reduce_(op, x)
        if isinstance(x, PList) and x.runs is not None: return sa.reduce_(op, x.as_array())
        xs = builtins.list(x) if isinstance(x, (builtins.list, builtins.tuple)) else None
        if xs is None or not any(isinstance(y, Sym) for y in xs): return getattr(builtins, op)(x, **k)
        a = xs
    if any(isinstance(x, Sym) for x in a):
        if k: core.E.unsupported("min/max keywords")
        r = lift(a[0])
        for x in a[1:]: r = arith(op, r, lift(x))
        return r
    return getattr(builtins, op)(*a, **k)
def min_(*a, **k): return _mm("min", a, k)
def max_(*a, **k): return _mm("max", a, k)
def sum_(x, start=0):
    if isinstance(x, SArray): return sa.reduce_("sum", x, 0) + start
    if isinstance(x, MaskVec): return sa.reduce_("sum", x) + start
    if isinstance(x, PList) and x.runs is not None: return sa.reduce_("sum", x.as_array(), 0) + start
    return builtins.sum(x, start)
def abs_(x): return abs(x)
def round_(x, *a):
    if isinstance(x, Sym): return cast(unary("round", x), INT) if not a else unary("round", x)
    return builtins.round(x, *a)
def str_(*a, **k):
    if a and isinstance(a[0], SStr): return a[0]
    if a and isinstance(a[0], Sym): return core.token(a[0])
    return builtins.str(*a, **k)
def list_(*a):
    if core.E is None: return builtins.list(*a)
    if a:
        x = a[0]
        if isinstance(x, PList): return x.copy()
        if isinstance(x, ObjArr): return x.tolist()
        if as_symiter(x) is not None: return listcomp(lambda y: y, x, "list()", False)
        return PList(x)
    return PList()
def tuple_(*a):
    if core.E is not None and a and as_symiter(a[0]) is not None: core.E.unsupported("tuple of a symbolic sequence")
    return builtins.tuple(*a)
class PSet(builtins.set):
    def __init__(self, *a):
        builtins.set.__init__(self, *a)
        e = core.E
        e.counter += 1
        self.birth = e.counter
        self.owner = frozenset(c.k.get_id() for c in e.active)
    def _m(self):
        for c in core.E.active:
            if isinstance(c, loops.LoopCtx): c.check_mut("a set", self.birth, self.owner)
    def _dup(self, x):
        """equal to an element already there?"""
        for y in self:
            if isinstance(x, Sym) or isinstance(y, Sym):
                if x is y: return True
                r = (x == y)
                if isinstance(r, SBool):
                    if core.E.fork(r.t): return True
                elif r: return True
        return False
    def add(self, x):
        self._m()
        if any(isinstance(y, Sym) for y in self) or isinstance(x, Sym):
            if self._dup(x): return
        builtins.set.add(self, x)
    def update(self, *xs):
        self._m()
        for x in xs:
            for y in x: self.add(y)
    def __contains__(self, x):
        if isinstance(x, Sym) or any(isinstance(y, Sym) for y in self): return self._dup(x)
        return builtins.set.__contains__(self, x)
def set_(*a):
    if core.E is None: return builtins.set(*a)
    if a and as_symiter(a[0]) is not None: core.E.unsupported("set of a symbolic sequence")
    s = PSet()
    if a:
        for x in a[0]: s.add(x)
    return s
def dict_(*a, **k):
    if core.E is None: return builtins.dict(*a, **k)
    return PDict(*a, **k)
def any_(x):
    if isinstance(x, (SArray, MaskVec)): return sa.reduce_any(x)
    if core.E is not None and as_symiter(x) is not None:
        return sa.reduce_any(x.as_array())
    return builtins.any(x)
def all_(x):
    if isinstance(x, (SArray, MaskVec)): return sa.reduce_all(x)
    if core.E is not None and as_symiter(x) is not None:
        return sa.reduce_all(x.as_array())
    return builtins.all(x)
def sorted_(x, **k):
    if core.E is not None and symbolic(x): core.E.unsupported("sorting symbolic values")
    return builtins.sorted(x, **k)
def print_(*a, **k):
    return None
_ND = (np.ndarray,)
def isinstance_(x, t):
    if core.E is not None and isinstance(x, (Sym, SArray, MaskVec, SMasked, fitsshim.SymHeader, ObjArr, fitsshim.SHDUList)):
        ts = t if isinstance(t, builtins.tuple) else (t,)
        def names():
            for c in ts:
                if isinstance(c, builtins.tuple): yield from c
                else: yield c
        for c in names():
            if c is object: return True
            if isinstance(x, (SArray, MaskVec, ObjArr)) and c in (np.ndarray,): return True
            if isinstance(x, SMasked) and c in (np.ndarray, np.ma.MaskedArray): return True
            if isinstance(x, SReal) and c in (builtins.float, np.floating, np.float64, np.number): return True
            if isinstance(x, (SInt, SBV)) and c in (builtins.int, np.integer, np.int64, np.number): return True
            if isinstance(x, SBool) and c in (builtins.bool, np.bool_, builtins.int): return True
            if isinstance(x, SStr) and c is builtins.str: return True
            import numbers
            if isinstance(x, (SReal, SInt)) and c in (numbers.Number, numbers.Real): return True
            if isinstance(x, SInt) and c is numbers.Integral: return True
            import astropy.io.fits as fits
            if isinstance(x, fitsshim.SymHeader) and c is fits.Header: return True
            if isinstance(x, fitsshim.SHDUList) and c in (fits.HDUList, builtins.list): return True
            if c is fitsshim.Header and isinstance(x, fitsshim.SymHeader): return True
        return False
    if not isinstance(t, (type, builtins.tuple)) and t in (fitsshim.Header,):
        return False
    return isinstance(x, t)
def type_(x, *a):
    if a or core.E is None: return builtins.type(x, *a)
    if isinstance(x, (SArray, MaskVec, ObjArr)): return np.ndarray
    if isinstance(x, SMasked): return np.ma.MaskedArray
    if isinstance(x, SReal): return builtins.float
    if isinstance(x, (SInt, SBV)): return builtins.int
    if isinstance(x, SBool): return builtins.bool
    if isinstance(x, SStr): return builtins.str
    if isinstance(x, fitsshim.SymHeader):
        import astropy.io.fits as fits
        return fits.Header
    t = builtins.type(x)
    return {PList: builtins.list, PDict: builtins.dict, PSet: builtins.set}.get(t, t)
def contains(x, seq):
    if isinstance(x, Sym):
        if isinstance(seq, SStr):
            return builtins.bool(SBool(z3.Contains(seq.t, x.t)))
        if isinstance(seq, builtins.str):
            return builtins.bool(SBool(z3.Contains(z3.StringVal(seq), x.t)))
        if isinstance(seq, (builtins.list, builtins.tuple, builtins.set, builtins.dict)) and not (isinstance(seq, PList) and seq.runs is not None):
            if isinstance(seq, PSet): return x in seq
            for y in seq:
                r = (x == y)
                if isinstance(r, SBool):
                    if core.E.fork(r.t): return True
                elif r: return True
            return False
        if isinstance(seq, builtins.range):
            a = ie(x)
            core.E.unsupported("symbolic in range")
        core.E.unsupported("symbolic containment in %r" % type(seq))
    if isinstance(seq, SStr):
        return seq.__contains__(x)
    if isinstance(seq, PList) and seq.runs is not None:
        core.E.unsupported("containment in a symbolic list")
    if isinstance(seq, (builtins.list, builtins.tuple)) and any(isinstance(y, Sym) for y in seq):
        for y in seq:
            r = (y == x)
            if isinstance(r, SBool):
                if core.E.fork(r.t): return True
            elif r: return True
        return False
    return x in seq
