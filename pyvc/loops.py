"""Loop rule, symbolic sequences and element objects.

A loop over a symbolic extent n is executed once for a generic index k
(0 <= k < n).  When the body is done everything it wrote is generalised from
index k to all indices:  arrays that are only touched at [k] get the
per-index content, lists that received exactly one item become families, and
anything else is refused (Unsupported), never guessed."""
import copy, weakref, types
import z3
import numpy as np
from . import core
from .core import (lift, cast, ite, SInt, SBool, SReal, SStr, Sym, Unsupported, Restart, subst_scalar,
                   REAL, INT, BOOL, BV, bz, arith)
from . import symarray as sa
from .symarray import SArray, Buf, ie, zi, ieq, WIdx, MaskVec, wrapi, iadd, isub

# --- tracked python objects (instances of classes of the code under proof) ---
class Reg:
    def __init__(self):
        self.d = {}
    def add(self, obj, birth, owner):
        self.d[id(obj)] = (obj, birth, owner)       # keeps obj alive for the path
    def get(self, obj):
        r = self.d.get(id(obj))
        return r[1:] if r is not None else None

def track(obj):
    e = core.E
    if e is None: return
    e.counter += 1
    e.reg.add(obj, e.counter, frozenset(c.k.get_id() for c in e.active))

# --- ghosts: the element at another index ------------------------------------
def subst_int(x, k, i):
    if isinstance(x, int): return x
    return ie(z3.substitute(x, (k, zi(i))))

def subst_buf_fn(fn_read, nd, k, i):
    """closure b -> fn_read(b)[k := i], capture free"""
    cache = {}
    ph = [z3.Int("ph!%d" % j) for j in range(nd)]
    def fn(bidx):
        if "t" not in cache:
            cache["t"] = fn_read(tuple(ph))
        t = cache["t"]
        return subst_multi(t, [(k, zi(i))] + [(p, zi(b)) for p, b in zip(ph, bidx)])
    return fn

def subst_multi(s, pairs):
    if isinstance(s, core.SInf): return s
    if isinstance(s, SReal):
        nan = s.nan
        if not isinstance(nan, bool):
            nan = z3.simplify(z3.substitute(nan, *pairs))
        return SReal(z3.simplify(z3.substitute(s.v, *pairs)), nan)
    return type(s)(z3.simplify(z3.substitute(s.t, *pairs)))

def ghost(v, k, i, memo=None):
    """value v (a function of index k) at index i"""
    if memo is None: memo = {}
    if isinstance(v, (str, bytes, int, float, bool, type(None), np.generic, type, types.FunctionType, types.ModuleType)):
        return v
    if isinstance(v, Sym):
        return subst_multi(v, [(k, zi(i))])
    if id(v) in memo: return memo[id(v)][0]
    def done(r):
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, Buf):
        if k.get_id() not in v.owner:
            return done(v)
        nb = Buf([subst_int(d, k, i) for d in v.dims], v.kind, subst_buf_fn(v.snapshot(), len(v.dims), k, i), v.width)
        nb.owner = (v.owner - {k.get_id()}) | owners_of(i)
        core.E.ghost_bufs.append((nb, nb.fn))
        return done(nb)
    if isinstance(v, SArray):
        nb = ghost(v.buf, k, i, memo)
        specs = [(s[0], subst_int(s[1], k, i)) if s[0] == "fix" else ("ax", s[1], subst_int(s[2], k, i), s[3]) for s in v.specs]
        r = SArray(nb, specs, [subst_int(d, k, i) for d in v._shape])
        return done(r)
    if isinstance(v, MaskVec):
        f = v.fn
        m = ghost(v.mask, k, i, memo)
        return done(MaskVec(m, subst_buf_fn(f, m.ndim, k, i), v.kind, v.width))
    if isinstance(v, np.ndarray):
        if v.dtype != object: return v
        r = v.copy()
        for ix in np.ndindex(*v.shape): r[ix] = ghost(v[ix], k, i, memo)
        return done(r)
    if isinstance(v, Family):
        f = Family(subst_int(v.n, k, i), ghost(v.elem, k, i, memo), v.k, v.uniform)
        if v.merged is not None: f.merged = lambda j: ghost(v.merged(j), k, i)
        return done(f)
    if isinstance(v, ObjArr):
        return done(ObjArr(ghost(v.fam, k, i, memo)))
    if isinstance(v, PList):
        r = PList([ghost(x, k, i, memo) for x in list.__iter__(v)])
        if v.runs is not None: r.runs = ghost(v.runs, k, i, memo)
        return done(r)
    if isinstance(v, (list, tuple, set, frozenset)) and type(v) in (list, tuple, set, frozenset):
        return done(type(v)([ghost(x, k, i, memo) for x in v]))
    if isinstance(v, PDict) or type(v) is dict:
        r = type(v)()
        for kk, x in dict.items(v): dict.__setitem__(r, kk, ghost(x, k, i, memo))
        if isinstance(v, PDict): r.fam = {a: (b, ghost(c, k, i, memo)) for a, (b, c) in v.fam.items()}
        return done(r)
    if hasattr(v, "_vc_ghost"):
        return done(v._vc_ghost(k, i, memo))
    reg = core.E.reg.get(v)
    if reg is not None:
        if k.get_id() not in reg[1]:
            return done(v)
        cls = type(v)
        r = object.__new__(cls)
        core.E.counter += 1
        core.E.reg.add(r, core.E.counter, (reg[1] - {k.get_id()}) | owners_of(i))
        memo[id(v)] = (r, v)
        if (id(v), k.get_id()) in core.E.dirty:
            for a in v.__dict__: r.__dict__[a] = Poison("object changed by a loop with index-dependent branches, at another index")
            return r
        for a, x in v.__dict__.items():
            r.__dict__[a] = ghost(x, k, i, memo)
        core.E.ghosts.append((r, dict(r.__dict__), v, i))
        return r
    return v

def owners_of(i):
    """focus variables the index expression mentions"""
    if isinstance(i, int): return frozenset()
    out = set()
    for c in core.E.focus_all:
        if core.mentions(i, c.get_id()): out.add(c.get_id())
    return frozenset(out)

# --- families ---------------------------------------------------------------
class Family:
    """n elements; element j is `elem` with k := j.  If not uniform, only
    element k itself is known."""
    def __init__(self, n, elem, k, uniform=True):
        self.n, self.elem, self.k, self.uniform = n, elem, k, uniform
    merged = None
    def at(self, j):
        j = ie(j)
        if not isinstance(j, int) and j.eq(self.k):
            return self.elem
        if not self.uniform and self.merged is not None:
            return self.merged(j)
        if not self.uniform:
            if isinstance(self.elem, (Sym, SArray)):
                return havoc_like(self.elem, "fam", [j], self.k)
            core.E.unsupported("element of a non-uniform family")
        g = core.E.ghost_cache
        key = (id(self), j if isinstance(j, int) else j.get_id())
        if key not in g:
            g[key] = (ghost(self.elem, self.k, j), self, j, state_stamp())
        elif g[key][3] != state_stamp():
            g[key] = (ghost(self.elem, self.k, j), self, j, state_stamp())
        return g[key][0]

def state_stamp():
    return core.E.counter

def havoc_like(v, base, args, k=None):
    e = core.E
    name = e.fresh_name("havoc_" + base)
    ex = list(args) + [c.k for c in e.active]
    if isinstance(v, SArray):
        return sa.uf_array(name, v._shape, v.kind, nan=True, extra=ex)
    if isinstance(v, SStr):
        return SStr(z3.String(name))
    return sa.uf_array(name, [], v.kind, nan=True, extra=ex).at()

class ObjArr:
    """array of python objects with a symbolic length"""
    _is_objarr = True
    def __init__(self, fam):
        self.fam = fam
    @property
    def n(self): return self.fam.n
    @property
    def shape(self): return (wrapi(self.fam.n),)
    @property
    def size(self): return wrapi(self.fam.n)
    ndim = 1
    dtype = np.dtype(object)
    def __len__(self):
        if isinstance(self.n, int): return self.n
        core.E.unsupported("len() of symbolic object array outside instrumented code")
    def __iter__(self):
        return SIter(self)
    def __getitem__(self, key):
        e = core.E
        e.check_alive()
        fam = self.fam
        if isinstance(key, tuple) and len(key) == 1: key = key[0]
        if isinstance(key, slice):
            st, cnt, step = sa.slice_geom(key, fam.n)
            if ieq(st, 0) is True and ieq(cnt, fam.n) is True and step == 1:
                return ObjArr(fam)
            if isinstance(cnt, int) and cnt <= 4:
                out = np.empty(cnt, dtype=object)
                for j in range(cnt): out[j] = fam.at(iadd(st, sa.imul(j, step)))
                return out
            j = e.focus_var(cnt)
            if not e.is_active(j): e.assume_focus(j, cnt)
            with scoped(j):
                el = ghost(fam.elem, fam.k, iadd(st, sa.imul(j, step)))
            if not fam.uniform: e.unsupported("slice of a non-uniform family")
            return ObjArr(Family(cnt, el, j, True))
        if isinstance(key, WIdx) or isinstance(key, MaskVec):
            return select(self, key)
        if isinstance(key, SArray):
            if key.kind == BOOL:
                return select(self, sa.where_tuple(key)[0])
            if isinstance(key._shape[0], int) and key._shape[0] <= 4:
                key = [key[j] for j in range(key._shape[0])]
            else:
                e.unsupported("symbolic fancy index on objects")
        if isinstance(key, np.ndarray) and key.ndim == 1: key = list(key)
        if isinstance(key, list):
            out = np.empty(len(key), dtype=object)
            for j, kk in enumerate(key): out[j] = fam.at(sa.norm_index(kk, fam.n))
            return out
        return fam.at(sa.norm_index(key, fam.n))
    def __setitem__(self, key, v):
        core.E.unsupported("assignment into a symbolic object array")
    def copy(self): return ObjArr(self.fam)
    def __deepcopy__(self, memo): core.E.unsupported("deepcopy of a symbolic object array")
    def tolist(self):
        p = PList(); p.runs = self.fam
        return p

class scoped:
    """temporarily make focus j an owner (objects made inside depend on j)"""
    def __init__(self, j): self.j = j
    def __enter__(self):
        self.c = PseudoCtx(self.j)
        core.E.active.append(self.c)
    def __exit__(self, *a):
        core.E.active.remove(self.c)
class PseudoCtx:
    sym = False
    birth = 0
    def __init__(self, k): self.k = k
    def note_read(self, v): pass
    def note_write(self, v): pass

def sel_index(mask):
    """(number of positions, function j -> j-th position) where a 1-d mask holds"""
    e = core.E
    cnt = ie(sa.mask_count(mask))
    nm = "sel!%d" % mask_id(mask)
    f = core.uf(nm, z3.IntSort(), z3.IntSort())
    n = mask._shape[0]
    if nm not in e.pre_axioms:
        mread = mask.reader()
        def facts(x):
            s = f(x)
            return z3.Implies(z3.And(x >= 0, x < zi(cnt)),
                              z3.And(s >= 0, s < zi(n), bz(cast(mread((s,)), BOOL).t)))
        e.pre_axioms[nm] = lambda x: facts(x)
        e.selections.append(dict(fn=f, name=nm, n=n, cnt=cnt, mask=mread))
    return cnt, f

def select(arr, w):
    """objects at the positions where a 1-d mask holds, in order"""
    e = core.E
    mask = w.mask
    if mask.ndim != 1: e.unsupported("selection by an n-d mask")
    fam = arr.fam
    if not fam.uniform: e.unsupported("selection from a non-uniform family")
    cnt = ie(sa.mask_count(mask))
    if isinstance(cnt, int) and cnt == 0:
        return np.empty(0, dtype=object)
    cnt, f = sel_index(mask)
    j = e.focus_var(cnt)
    if not e.is_active(j): e.assume_focus(j, cnt)
    with scoped(j):
        el = ghost(fam.elem, fam.k, f(j))
    return ObjArr(Family(cnt, el, j, True))

_mids = {}
def mask_id(mask):
    e = core.E
    c = ie(sa.mask_count(mask))
    key = c if isinstance(c, int) else c.get_id()
    e.mask_ids.setdefault(key, len(e.mask_ids))
    e.keepalive.append(c)
    return e.mask_ids[key]

class SIter:
    def __init__(self, src): self.src = src
    def __iter__(self): return self
    def __next__(self):
        core.E.unsupported("native iteration over a symbolic sequence")

class SRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
    @property
    def n(self):
        if self.step == 1: c = isub(self.stop, self.start)
        elif self.step == -1: c = isub(self.start, self.stop)
        elif self.step > 1:
            c = ie((zi(isub(self.stop, self.start)) + (self.step - 1)) / self.step)
        else: core.E.unsupported("range step")
        if isinstance(c, int): return max(0, c)
        if sa.sure(sa.ile(0, c)): return c
        if sa.decide(sa.ile(0, c)): return c
        return 0
    def item(self, j): return wrapi(iadd(self.start, sa.imul(j, self.step)))
    def __iter__(self): return SIter(self)
    def __getitem__(self, j): return self.item(sa.norm_index(j, self.n))
    def __len__(self): core.E.unsupported("len(range)")
class SEnum:
    def __init__(self, src, start=0): self.src, self.start = src, start
    def __iter__(self): return SIter(self)
class SZip:
    def __init__(self, srcs): self.srcs = srcs
    def __iter__(self): return SIter(self)

def as_symiter(it):
    """-> (n, item function j->value) if `it` must be handled by the loop rule,
    else None"""
    if isinstance(it, SIter): it = it.src
    if isinstance(it, SRange):
        return it.n, it.item
    if isinstance(it, range):
        if len(it) > core.E.UNROLL:
            return len(it), lambda j: wrapi(iadd(it.start, sa.imul(j, it.step)))
        return None
    if isinstance(it, SEnum):
        r = as_symiter(it.src)
        if r is None: return None
        n, f = r
        st = it.start
        return n, lambda j: (wrapi(iadd(ie(st), j)), f(j))
    if isinstance(it, SZip):
        rs = [as_symiter(s) for s in it.srcs]
        if all(r is None for r in rs): return None
        ns, fs = [], []
        for s, r in zip(it.srcs, rs):
            if r is None:
                core.E.unsupported("zip of symbolic and concrete sequences")
            ns.append(r[0]); fs.append(r[1])
        for x in ns[1:]:
            if not sa.sure(ieq(ns[0], x)): core.E.unsupported("zip of different extents")
        return ns[0], lambda j: tuple(f(j) for f in fs)
    if isinstance(it, ObjArr):
        return it.fam.n, it.fam.at
    if isinstance(it, PList):
        if it.runs is not None: return it.runs.n, it.runs.at
        return None
    if isinstance(it, SArray):
        d = it._shape[0]
        if isinstance(d, int) and d <= core.E.UNROLL: return None
        return d, lambda j: it[wrapi(j)]
    if isinstance(it, sa.SMasked):
        d = it.arr._shape[0]
        if isinstance(d, int) and d <= core.E.UNROLL: return None
        return d, lambda j: it[wrapi(j)]
    if isinstance(it, (list, tuple, dict, str, np.ndarray, set)): return None
    if isinstance(it, WIdx) and it.mask.ndim == 1:
        cnt, f = sel_index(it.mask)
        return cnt, lambda j: wrapi(f(zi(j)))
    if hasattr(type(it), "__iter__") and core.E.reg.get(it) is not None:
        r = iter(it)
        if isinstance(r, SIter): return as_symiter(r)
    return None

class Poison:
    """a variable whose value after / at the start of an iteration is not known"""
    def __init__(self, why): object.__setattr__(self, "_why", why)
    def _bad(self, *a, **k):
        core.E.unsupported(self._why)
def _pz(n):
    def f(self, *a, **k): self._bad()
    return f
for _n in ("add radd sub rsub mul rmul truediv rtruediv pow rpow neg abs lt le gt ge eq ne getitem setitem len iter "
           "call bool index float int contains and rand or ror iadd isub imul str format").split():
    setattr(Poison, "__%s__" % _n, _pz(_n))
Poison.__getattr__ = lambda self, a: self._bad()
Poison.__hash__ = object.__hash__

class Acc:
    """value of a carried accumulator inside the generic iteration: start + terms"""
    def __init__(self, name, terms=()):
        self.name, self.terms = name, tuple(terms)
    def __add__(self, o): return Acc(self.name, self.terms + (o,))
    __radd__ = __add__
    __iadd__ = __add__
    def __format__(self, s): return "<acc>"
    __array_ufunc__ = None
    __array_priority__ = 3000
    def __getattr__(self, a):
        if a.startswith("__"): raise AttributeError(a)
        core.E.unsupported("use of a loop-carried value (%s)" % self.name)
for _n in ("sub rsub mul rmul truediv rtruediv pow lt le gt ge eq ne getitem setitem len iter bool index float int").split():
    setattr(Acc, "__%s__" % _n, _pz(_n))
    Acc._bad = lambda self, *a: core.E.unsupported("use of a loop-carried value")
Acc.__hash__ = object.__hash__

class LoopCtx:
    def __init__(self, n, key):
        e = core.E
        self.n, self.key = n, key
        self.k = e.focus_var(n)
        e.counter += 1
        self.birth = e.counter
        self.reads = {}
        self.writes = {}
        self.appends = {}
        self.t0, self.f0 = len(e.trace), len(e.fork_facts)
        self.taint = False        # did the body use facts special to index k?
        self.muts = []
    def note_read(self, v):
        b = v.buf
        if b.birth < self.birth:
            self.reads.setdefault(id(b), (b, []))[1].append(v.specs)
    def note_write(self, v):
        b = v.buf
        if b.birth < self.birth and self.k.get_id() not in b.owner:
            if id(b) not in self.writes:
                self.writes[id(b)] = (b, [], b.snapshot())
            self.writes[id(b)][1].append(v.specs)
    def note_append(self, lst, item):
        self.appends.setdefault(id(lst), (lst, []))[1].append(item)
    def check_mut(self, what, birth, owner):
        if birth < self.birth and self.k.get_id() not in owner:
            core.E.unsupported("%s shared between iterations is modified in a loop" % what)

    def raised(self):
        """an exception left the loop in the generic iteration: remember under
        which condition, so that normal completion tells about every iteration"""
        e = core.E
        key = (self.key, tuple(e.trace[:self.t0]))
        c = z3.simplify(z3.And(*e.fork_facts[self.f0:])) if len(e.fork_facts) > self.f0 else z3.BoolVal(True)
        if not core.mentions(c, self.k.get_id()): return
        r = e.raises.setdefault(key, {})
        if c.hash() not in r:
            r[c.hash()] = (c, self.k)
            if key in e.completed: e.need_restart = True
    def finish(self):
        e = core.E
        rkey = (self.key, tuple(e.trace[:self.t0]))
        e.completed.add(rkey)
        for c, kk in e.raises.get(rkey, {}).values():
            e.assume(z3.Not(bz(sa.any_fn([self.n], lambda i: z3.substitute(c, (kk, zi(i[0])))).t)))
        k, n = self.k, self.n
        if self.taint and e.raises.get(rkey): self.untaint()
        tainted = self.taint
        merged = None
        if tainted: merged = self.merge_table(rkey)
        if tainted:
            done = set()
            for o, key in self.muts:
                if merged is not None and id(o) in merged.hobj: continue
                e.dirty.setdefault((id(o), k.get_id()), (o, set()))[1].add(key)
            if merged is not None:
                for h, rows in merged.headers:
                    e.dirty[(id(h), k.get_id())] = (h, rows)
        seen = set()
        for b, wspecs, before in self.writes.values():
            a = self.axis_of(b, wspecs)
            cur = b.snapshot()
            seen.add(id(b))
            self.generalise(b, a, cur, before, tainted, merged)
            # outer loops see the whole axis as touched
            for c in e.active:
                if c is not self and id(b) in getattr(c, "writes", {}):
                    c.writes[id(b)][1][:] = [widen(s, k) for s in c.writes[id(b)][1]]
        if merged is not None:
            for b in merged.bufs:
                if id(b) in seen: continue
                before = b.snapshot()
                # other cases of the body write here: so does the loop, for the enclosing ones
                for c in e.active:
                    if c is not self and c.__class__ is LoopCtx and b.birth < c.birth and c.k.get_id() not in b.owner:
                        c.writes.setdefault(id(b), (b, [], before))[1].extend(widen(s, k) for s in merged.specs[merged.num[id(b)]])
                self.generalise(b, merged.axis[merged.num[id(b)]], before, before, tainted, merged)
        for c in e.active:
            if c is not self and c.__class__ is LoopCtx:
                for b, specs in c.reads.values():
                    specs[:] = [widen(s, k) for s in specs]
        for lst, items in self.appends.values():
            e.append_counts.setdefault((self.key, lst.ordinal), set()).add(len(items))
            if len(items) != 1:
                e.unsupported("list receives %d items per iteration" % len(items))
            if len(lst) or lst.runs is not None:
                e.unsupported("list appended to in a loop is not empty before it")
            lst.runs = Family(n, items[0], k, not tainted)
            if tainted and merged is not None: lst.runs.merged = merged.list_fn(lst.ordinal)
        # lists that were appended to on other paths but not here
        e.loops_done.append((self.key, [l.ordinal for l, _ in self.appends.values()]))

    def untaint(self):
        """the branches taken in the generic iteration are the ones every iteration
        takes, when all others leave the loop by an exception that did not happen"""
        e = core.E
        cs = [c for c in e.fork_facts[self.f0:] if core.mentions(c, self.k.get_id())]
        if any(fresh_in(c, self.birth) for c in cs): return
        np_ = len(e.points)
        j = e.point(self.n, "u")
        r = e.prove(z3.substitute(z3.And(*cs), (self.k, j)), 2500)[0]
        del e.points[np_:]
        if r == "valid": self.taint = False

    def axis_of(self, b, wspecs):
        k = self.k
        rspecs = self.reads.get(id(b), (None, []))[1]
        def owned(s, a):
            return s[a][0] == "fix" and not isinstance(s[a][1], int) and s[a][1].eq(k)
        axes = [a for a in range(len(b.dims)) if all(owned(s, a) for s in wspecs)]
        axes = [a for a in axes if all(owned(s, a) for s in rspecs)] if rspecs else axes
        if not axes:
            core.E.unsupported("array written in a loop at places not owned by the iteration")
        return axes[0]

    # ---- summary of a body with index-dependent branches -----------------------
    def merge_table(self, rkey):
        """what each path through the body does in the generic iteration; known
        for all paths after one exploration, then every other index takes the
        case whose condition it satisfies"""
        e = core.E
        k = self.k
        cond = z3.And(*e.fork_facts[self.f0:]) if len(e.fork_facts) > self.f0 else z3.BoolVal(True)
        ch = tuple(x[:1] + x[2:] for x in e.trace[self.t0:])
        rec = e.merges.setdefault(rkey, {})
        if rkey not in e.merge_ready:
            r = dict(cond=cond, bufs={}, headers={}, lists={}, bad=None)
            try:
                for b, wspecs, before in self.writes.values():
                    a = self.axis_of(b, wspecs)
                    ph = [z3.Int("ph!%d" % j) for j in range(len(b.dims))]
                    ph[a] = k
                    r["bufs"][index_of(e.all_bufs, b)] = (a, b.read(tuple(ph)), list(wspecs))
                for o, key in self.muts:
                    if key is None or not hasattr(o, "hist"): r["bad"] = "object"; continue
                    r["headers"][index_of(e.headers, o)] = (dict(o.ent), dict(o.maybe), list(o.hist), o.unknown)
                for lst, items in self.appends.values():
                    if len(items) == 1: r["lists"][lst.ordinal] = summ(items[0])
            except core.Unsupported:
                raise
            rec[ch] = r
            e.need_merge = True
            e.abort(core.PathAbort("learning the cases of a loop"))
        if ch not in rec or any(fresh_in(x["cond"], self.birth) for x in rec.values()):
            return None
        m = Merged(self, rec)
        return m

    def generalise(self, b, a, cur, before, tainted, merged=None):
        e = core.E
        k, n = self.k, self.n
        nd = len(b.dims)
        if tainted and merged is not None:
            h = merged.buf_fn(b, a, before)
            if h is not None:
                def fn(bidx):
                    c = ieq(bidx[a], k)
                    if c is True: return cur(bidx)
                    r = h(bidx)
                    if ieq(n, b.dims[a]) is not True:
                        r = ite(z3.And(zi(bidx[a]) >= 0, zi(bidx[a]) < zi(n)), r, before(bidx))
                    return r
                b.set_fn(fn)
                return
        if not tainted:
            ph = [z3.Int("ph!%d" % j) for j in range(nd)]
            cache = {}
            def fn(bidx):
                if "t" not in cache:
                    p = list(ph); p[a] = k
                    cache["t"] = cur(tuple(p))
                t = cache["t"]
                pairs = [(k, zi(bidx[a]))] + [(ph[j], zi(bidx[j])) for j in range(nd) if j != a]
                r = subst_multi(t, pairs)
                g = z3.simplify(z3.And(zi(bidx[a]) >= 0, zi(bidx[a]) < zi(n)))
                if ieq(n, b.dims[a]) is True or z3.is_true(g): return r
                return ite(g, r, before(bidx))
            b.set_fn(fn)
        else:
            nm = e.fresh_name("havoc")
            ex = [c.k for c in e.active if c is not self]
            h = sa.uf_array(nm, b.dims, b.kind, nan=True, extra=ex).buf.fn
            e.approx.add("state of the other iterations of a loop with index-dependent branches")
            def fn(bidx):
                c = ieq(bidx[a], k)
                if c is True: return cur(bidx)
                r = h(bidx)
                if ieq(n, b.dims[a]) is not True:
                    r = ite(z3.And(zi(bidx[a]) >= 0, zi(bidx[a]) < zi(n)), r, before(bidx))
                if c is False: return r
                return ite(c, cur(bidx), r)
            b.set_fn(fn)

def widen(specs, k):
    out = []
    for s in specs:
        if s[0] == "fix" and not isinstance(s[1], int) and core.mentions(s[1], k.get_id()):
            out.append(("ax", 0, 0, 1))
        else: out.append(s)
    return out

def fresh_in(t, birth):
    """does a term mention a constant made after `birth` (so it means nothing on another path)?"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x):
            nm = x.decl().name()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in nm:
                base, _, num = nm.rpartition("!")
                if base == "sel": return True
                if base.split("!")[0] not in ("ph", "lane", "k") and num.isdigit(): return True
            st.extend(x.children())
    return False

def summ(v):
    """('s', scalar) / ('a', shape, kind, width, term at placeholders) / None"""
    if sa.is_scalar(v):
        if isinstance(v, (str, type(None))): return ("c", v)
        return ("s", lift(v))
    if isinstance(v, SArray):
        ph = [z3.Int("ph!%d" % j) for j in range(v.ndim)]
        return ("a", list(v._shape), v.kind, v.buf.width, v.at(*ph))
    return None

def term_of(s): return s.v if isinstance(s, SReal) else s.t
def okterm(s, birth):
    if isinstance(s, core.SInf): return False
    if fresh_in(term_of(s), birth): return False
    return not (isinstance(s, SReal) and not isinstance(s.nan, bool) and fresh_in(s.nan, birth))

def index_of(lst, o):
    for i in range(len(lst) - 1, -1, -1):
        if lst[i] is o: return i
    raise ValueError

class Merged:
    """the cases of a loop body, as functions of the index"""
    def __init__(self, ctx, rec):
        e = core.E
        self.ctx, self.k, self.birth = ctx, ctx.k, ctx.birth
        self.cases = list(rec.values())
        births, self.axis, bad = set(), {}, set()
        self.specs = {}
        for r in self.cases:
            for bb, (a, t, ws) in r["bufs"].items():
                self.specs.setdefault(bb, []).extend(ws)
                births.add(bb)
                if self.axis.setdefault(bb, a) != a or not okterm(t, self.birth): bad.add(bb)
        self.badbufs = bad
        self.bufs = [e.all_bufs[i] for i in sorted(births)]
        self.num = {id(e.all_bufs[i]): i for i in births}
        hb = set()
        for r in self.cases: hb |= set(r["headers"])
        self.headers, self.hobj = [], set()
        for i in sorted(hb):
            h = e.headers[i]
            self.headers.append((h, self.header_rows(h, i)))
            self.hobj.add(id(h))
    def pick(self, vals, conds):
        """value of the case whose condition holds"""
        out = vals[-1]
        for v, c in list(zip(vals, conds))[-2::-1]: out = ite(c, v, out)
        return out
    def header_rows(self, h, num):
        keys, unknown = {}, set(h.unknown)
        base = (h.ent, h.maybe, h.hist, h.unknown)
        rows = [(r["cond"], r["headers"].get(num)) for r in self.cases]
        # a case without a record leaves the header as it was before the loop: only
        # known here when this path did not touch it either
        touched = {id(o) for o, _ in self.ctx.muts}
        hists = [x[1][2] for x in rows if x[1] is not None]
        if any(x[1] is None for x in rows):
            if id(h) in touched:
                return dict(unknown=None)
            rows = [(c, x or base) for c, x in rows]
            hists.append(h.hist)
        allk = set()
        for c, x in rows: allk |= set(x[0])
        ent, maybe = {}, {}
        for key in allk:
            vs, ps = [], []
            for c, x in rows:
                if key in x[3]: unknown.add(key)
                ps.append(bz(x[1].get(key, True)) if key in x[0] else z3.BoolVal(False))
                vs.append(x[0].get(key))
            have = [v for v, p in zip(vs, ps) if not z3.is_false(p)]
            if all(v is have[0] or (not isinstance(v, Sym) and not isinstance(have[0], Sym) and type(v) is type(have[0]) and v == have[0]) for v in have): ent[key] = have[0]
            else:
                try:
                    ls = [SStr(z3.StringVal(v)) if isinstance(v, str) else lift(v) for v in have]
                    if any(isinstance(v, SStr) for v in ls) and not all(isinstance(v, SStr) for v in ls): raise ValueError
                    if not all(okterm(v, self.birth) for v in ls): raise ValueError
                    full = []
                    it = iter(ls)
                    for v, p in zip(vs, ps): full.append(ls[0] if z3.is_false(p) else next(it))
                    ent[key] = self.pick(full, [c for c, _ in rows])
                except Exception:
                    unknown.add(key); ent[key] = None
            if isinstance(ent[key], Sym) and not okterm(ent[key], self.birth): unknown.add(key)
            pr = z3.simplify(z3.Or(*[z3.And(c, p) for (c, _), p in zip(rows, ps)]))
            if not all(z3.is_true(p) for p in ps):
                if fresh_in(pr, self.birth): unknown.add(key)
                maybe[key] = pr
        hist = hists[0] if all(len(x) == len(hists[0]) and all(a is b or (isinstance(a, str) and isinstance(b, str) and a == b) for a, b in zip(x, hists[0])) for x in hists) else [OpaqueStr()]
        return dict(unknown=unknown, ent=ent, maybe=maybe, hist=hist)
    def buf_fn(self, b, a, before):
        bi = self.num.get(id(b))
        if bi is None or bi in self.badbufs: return None
        k = self.k
        nd = len(b.dims)
        ph = [z3.Int("ph!%d" % j) for j in range(nd)]
        php = list(ph); php[a] = k
        vals = []
        for r in self.cases:
            vals.append(r["bufs"][bi][1] if bi in r["bufs"] else before(tuple(php)))
        kinds = {v.kind for v in vals}
        if len(kinds) > 1: return None
        t = self.pick(vals, [r["cond"] for r in self.cases])
        def fn(bidx):
            return subst_multi(t, [(k, zi(bidx[a]))] + [(ph[j], zi(bidx[j])) for j in range(nd) if j != a])
        return fn
    def list_fn(self, ordinal):
        rows = [r["lists"].get(ordinal) for r in self.cases]
        if any(x is None for x in rows) or len({x[0] for x in rows}) != 1: return None
        conds = [r["cond"] for r in self.cases]
        k = self.k
        if rows[0][0] == "c":
            if any(x[1] != rows[0][1] for x in rows): return None
            return lambda j: rows[0][1]
        if rows[0][0] == "s":
            ls = [x[1] for x in rows]
            if not all(okterm(v, self.birth) for v in ls) or any(isinstance(v, SStr) for v in ls) != all(isinstance(v, SStr) for v in ls): return None
            t = self.pick(ls, conds)
            return lambda j: subst_multi(t, [(k, zi(j))])
        sh = rows[0][1]
        if any(len(x[1]) != len(sh) or any(ieq(p, q) is not True for p, q in zip(x[1], sh)) or x[2] != rows[0][2] or not okterm(x[4], self.birth) for x in rows): return None
        t = self.pick([x[4] for x in rows], conds)
        ph = [z3.Int("ph!%d" % j) for j in range(len(sh))]
        def at(j):
            return SArray(Buf(sh, rows[0][2], lambda idx: subst_multi(t, [(k, zi(j))] + [(p, zi(x)) for p, x in zip(ph, idx)]), rows[0][3]))
        return at

class Loop:
    """runtime of one instrumented for statement"""
    def __init__(self, it, key):
        e = core.E
        self.key = key
        self.it = it
        self.accs = {}
        self.before = {}
        self.ctx = None
        self.done = False
        self.src = None
        if e is not None:
            e.check_alive()
            self.src = as_symiter(it)
            e.loop_occ[key] = e.loop_occ.get(key, 0) + 1
            self.key = (key, e.loop_occ[key])
            if self.src is None:
                if isinstance(it, SEnum): self.it = enumerate(list(it.src), it.start)
                elif isinstance(it, SZip): self.it = zip(*[list(s) for s in it.srcs])
    @property
    def sym(self): return self.src is not None
    def items(self):
        if self.src is None:
            for x in self.it:
                yield x
            return
        e = core.E
        n, item = self.src
        if not sa.decide(sa.ile(1, n)):
            return
        ctx = LoopCtx(n, self.key)
        if not e.is_active(ctx.k): e.assume_focus(ctx.k, n)
        e.active.append(ctx)
        self.ctx = ctx
        ok = False
        try:
            yield item(ctx.k)
            ok = True
        finally:
            if ctx in e.active:
                if not ok:
                    e.active.remove(ctx)
                    e.partial_loops += 1
                    if e.aborted is None: ctx.raised()
        e.check_alive()
        ctx.finish()
        e.active.remove(ctx)
        self.done = True
    def carry(self, name, val):
        if self.src is None: return val
        ann = core.E.loop_ann.get((self.key, name))
        self.before[name] = val
        if ann == "acc":
            a = Acc(name)
            self.accs[name] = val
            return a
        return CarryPoison(self.key, name)
    def after(self, name, val):
        if self.src is None or not self.done: return val
        e = core.E
        ctx = self.ctx
        if name in self.accs:
            x0 = self.accs[name]
            if isinstance(val, Acc) and val.name == name:
                return acc_sum(x0, val.terms, ctx)
            return Poison("value of accumulator %s after a loop" % name)
        if isinstance(val, CarryPoison):
            return self.before.get(name, val)     # not assigned on this path... keep old value
        if name in self.before and self.before[name] is val:
            return val
        if not ctx.taint:
            last = isub(ctx.n, 1)
            try:
                return LastValue.make(val, ctx.k, last)
            except Exception:
                pass
        return Poison("value of %s after a loop" % name)
    def brk(self):
        if self.src is not None: core.E.unsupported("break/return inside a symbolic loop")

class LastValue:
    @staticmethod
    def make(val, k, last):
        if isinstance(val, Sym):
            return ghost(val, k, last)
        if isinstance(val, SArray):
            return ghost(val, k, last)
        if isinstance(val, (str, int, float, bool, type(None))):
            return val
        plain = (Sym, str, int, float, bool, type(None), np.generic)
        if isinstance(val, PList) and val.runs is None and all(isinstance(x, plain) for x in list.__iter__(val)): return ghost(val, k, last)
        if isinstance(val, tuple) and all(isinstance(x, plain) for x in val): return ghost(val, k, last)
        if isinstance(val, np.ndarray) and (val.dtype != object or all(isinstance(x, plain) for x in val.ravel())): return ghost(val, k, last)
        return Poison("object bound in a loop used after it")

class CarryPoison(Poison):
    def __init__(self, key, name):
        object.__setattr__(self, "_key", (key, name))
        object.__setattr__(self, "_why", "loop-carried value of %s" % name)
    def _bad(self, *a, **k):
        core.E.unsupported(self._why)
    def __add__(self, o):
        core.E.loop_ann[self._key] = "acc"
        core.E.abort(Restart("acc"))
    __radd__ = __add__
    __iadd__ = __add__
    __array_ufunc__ = None

def acc_sum(x0, terms, ctx):
    """x0 + sum over k of the terms"""
    e = core.E
    k, n = ctx.k, ctx.n
    if isinstance(x0, (str, SStr)) or any(isinstance(t, (str, SStr)) for t in terms):
        return OpaqueStr(x0)
    if ctx.taint:
        e.approx.add("sum over a loop with index-dependent branches")
    tot = x0
    for t in terms:
        tot = tot + sum_over(t, k, n, ctx.taint)
    return tot

def sum_over(t, k, n, tainted):
    if isinstance(t, Sym) or sa.is_scalar(t):
        t = lift(t)
        if tainted:
            return havoc_like(t, "sum", [])
        v = cast(t, REAL)
        fn = lambda idx: subst_multi(v, [(k, zi(idx[0]))])
        r = sa.reduce_("sum", SArray(Buf([n], REAL, fn)))
        if t.kind in (INT, BOOL):
            r = SInt(core.real2int(r.v)) if False else r
        return r
    if isinstance(t, SArray):
        if tainted:
            return havoc_like(t, "sum", [])
        r = t.reader()
        nd = t.ndim
        ph = [z3.Int("ph!%d" % j) for j in range(nd)]
        cache = {}
        def fn(idx):
            if "t" not in cache: cache["t"] = r(tuple(ph))
            return subst_multi(cache["t"], [(k, zi(idx[0]))] + [(p, zi(x)) for p, x in zip(ph, idx[1:])])
        return sa.reduce_("sum", SArray(Buf([n] + list(t._shape), t.kind, fn)), axis=0)
    core.E.unsupported("sum of %r over a loop" % type(t))

class OpaqueStr(str):
    """text built up in a symbolic loop: content not modelled"""
    def __new__(cls, x0=""):
        s = "".join(x0) if isinstance(x0, str) else ""
        return str.__new__(cls, s if s.endswith("\u2026") else str.__add__(s, "\u2026"))
    def __getitem__(self, k): return OpaqueStr(self)
    def __add__(self, o): return OpaqueStr(self)
    def __radd__(self, o): return OpaqueStr(self)

# --- containers made by the code under proof -----------------------------------
class PList(list):
    _is_symlist = True
    def __init__(self, *a):
        list.__init__(self, *a)
        self.runs = None
        e = core.E
        self.birth = 0
        self.ordinal = 0
        self.owner = frozenset()
        if e is not None:
            e.counter += 1
            self.birth = e.counter
            e.nlists += 1
            self.ordinal = e.nlists
            self.owner = frozenset(c.k.get_id() for c in e.active)
    def _ctx(self):
        e = core.E
        if e is None: return None
        for c in reversed(e.active):
            if isinstance(c, LoopCtx) and self.birth < c.birth and c.k.get_id() not in self.owner:
                return c
        return None
    def append(self, x):
        c = self._ctx()
        if c is None:
            if self.runs is not None: core.E.unsupported("append to a symbolic list")
            return list.append(self, x)
        # the innermost loop born after the list
        inner = [q for q in core.E.active if isinstance(q, LoopCtx)]
        if inner and inner[-1] is not c: core.E.unsupported("append in nested loops")
        c.note_append(self, x)
    def extend(self, xs):
        if self._ctx() is not None or self.runs is not None: core.E.unsupported("extend in a symbolic loop")
        if isinstance(xs, PList) and xs.runs is not None: core.E.unsupported("extend by a symbolic list")
        return list.extend(self, xs)
    def __iter__(self):
        if self.runs is not None: return SIter(self)
        return list.__iter__(self)
    def __len__(self):
        if self.runs is not None:
            if isinstance(self.runs.n, int): return self.runs.n
            core.E.unsupported("len of symbolic list outside instrumented code")
        return list.__len__(self)
    def __getitem__(self, i):
        if self.runs is not None:
            if isinstance(i, slice):
                st, cnt, step = sa.slice_geom(i, self.runs.n)
                if ieq(st, 0) is True and ieq(cnt, self.runs.n) is True: return self
                core.E.unsupported("slice of a symbolic list")
            return self.runs.at(sa.norm_index(i, self.runs.n))
        if isinstance(i, SInt):
            n = list.__len__(self)
            i = sa.norm_index(i, n)
            if not isinstance(i, int):
                vals = [list.__getitem__(self, j) for j in range(n)]
                if all(sa.is_scalar(v) for v in vals):
                    out = lift(vals[-1])
                    for j in range(n - 2, -1, -1): out = ite(bz(ieq(i, j)), lift(vals[j]), out)
                    return out
                for j in range(n - 1):
                    if core.E.fork(zi(i) == j): return vals[j]
                return vals[-1]
        if isinstance(i, slice):
            r = list.__getitem__(self, i)
            return PList(r)
        return list.__getitem__(self, i)
    def __setitem__(self, i, v):
        if self.runs is not None or self._ctx() is not None: core.E.unsupported("item assignment on a symbolic list")
        return list.__setitem__(self, i, v)
    def __add__(self, o):
        if self.runs is not None or getattr(o, "runs", None) is not None: core.E.unsupported("concatenation of symbolic lists")
        return PList(list.__add__(self, list(o)))
    def copy(self):
        r = PList(list.__iter__(self)); r.runs = self.runs
        return r
    def __deepcopy__(self, memo):
        if self.runs is not None: core.E.unsupported("deepcopy of a symbolic list")
        r = PList(); memo[id(self)] = r
        for x in list.__iter__(self): list.append(r, copy.deepcopy(x, memo))
        return r
    __hash__ = None
    def as_array(self):
        return family_array(self.runs)

def family_array(fam):
    """np.array(list) of a family"""
    e = core.E
    el = fam.elem
    k, n = fam.k, fam.n
    if e.reg.get(el) is not None:
        return ObjArr(fam)
    if sa.is_scalar(el):
        s = lift(el)
        if s.kind == "str": e.unsupported("array of symbolic strings")
        kind, shape, width = s.kind, [], None
        r = lambda idx: s
    else:
        a = sa.to_sarray_any(el)
        kind, shape, width = a.kind, list(a._shape), a.buf.width
        # content as of now (the list holds views)
        r = a.reader()
        for d in shape:
            if not isinstance(d, int) and core.mentions(d, k.get_id()):
                e.unsupported("ragged family")
    nd = len(shape)
    ph = [z3.Int("ph!%d" % j) for j in range(nd)]
    cache = {}
    if not fam.uniform and fam.merged is not None:
        def fn(idx):
            c = ieq(idx[0], k)
            if c is True: return r(tuple(idx[1:]))
            v = fam.merged(idx[0])
            v = cast(lift(v), kind) if sa.is_scalar(v) else v.at(*idx[1:])
            return v
    elif fam.uniform:
        def fn(idx):
            if "t" not in cache: cache["t"] = r(tuple(ph))
            return subst_multi(cache["t"], [(k, zi(idx[0]))] + [(p, zi(x)) for p, x in zip(ph, idx[1:])])
    else:
        e.approx.add("elements of a list built in a loop with index-dependent branches")
        h = sa.uf_array(e.fresh_name("havoc"), [n] + shape, kind, nan=True, extra=[c.k for c in e.active]).buf.fn
        def fn(idx):
            c = ieq(idx[0], k)
            if c is True: return r(tuple(idx[1:]))
            if c is False: return h(idx)
            return ite(c, r(tuple(idx[1:])), h(idx))
    return SArray(Buf([n] + shape, kind, fn, width))

class PDict(dict):
    """dict literal of the code under proof; integer keys may be symbolic"""
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.fam = {}
        e = core.E
        self.birth = 0
        self.owner = frozenset()
        if e is not None:
            e.counter += 1
            self.birth = e.counter
            self.owner = frozenset(c.k.get_id() for c in e.active)
    def __setitem__(self, key, v):
        e = core.E
        if isinstance(key, SInt):
            key = ie(key)
            if not isinstance(key, int):
                self.fam[key.get_id()] = (key, v)
                return
        if e is not None:
            for c in e.active:
                if isinstance(c, LoopCtx): c.check_mut("a dictionary", self.birth, self.owner)
        dict.__setitem__(self, key, v)
    def __getitem__(self, key):
        if isinstance(key, SInt):
            key = ie(key)
            if not isinstance(key, int):
                if key.get_id() in self.fam: return self.fam[key.get_id()][1]
                for kk, v in self.fam.values():
                    if isinstance(v, list) and all(isinstance(x, str) for x in list.__iter__(v)):
                        return PList([OpaqueStr()])
                    core.E.unsupported("symbolic dictionary key")
                raise KeyError("symbolic")
        if isinstance(key, SStr): core.E.unsupported("symbolic string key")
        return dict.__getitem__(self, key)
    def copy(self):
        r = PDict(self); r.fam = dict(self.fam)
        return r
    def __deepcopy__(self, memo):
        r = PDict(); memo[id(self)] = r
        for k, v in dict.items(self): dict.__setitem__(r, k, copy.deepcopy(v, memo))
        r.fam = dict(self.fam)
        return r

def listcomp(fn, it, key, star):
    e = core.E
    if e is None:
        return [fn(*x) if star else fn(x) for x in it]
    L = Loop(it, key)
    out = PList()
    for x in L.items():
        v = fn(*x) if star else fn(x)
        out.append(v)
    return out

def attrw(obj):
    e = core.E
    if e is None or not e.active: return
    r = e.reg.get(obj)
    if r is None: return
    for c in e.active:
        if isinstance(c, LoopCtx):
            c.check_mut("an object of class %s" % type(obj).__name__, r[0], r[1])
            if r[0] < c.birth: c.muts.append((obj, None))
