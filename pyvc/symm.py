"""The proof reading of a contract: logical constants and obligations."""
import importlib, time, math, sys
import numpy as np
import z3
from . import core, field, symarray as sa, loops, fitsshim
from .core import (SReal, SInt, SBool, SBV, SStr, Sym, lift, cast, arith, unary, ite, same_scalar, bz, REAL, INT, BOOL, BV,
                   And_, Or_, Not_, uf, zb)
from .symarray import SArray, Buf, ie, zi
from .api import Missing, Base, Spec, Outcome, hdrs, HN, UD, XKEY, VOLATILE, pname

def sort_of(kind):
    return {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort(), "bv": z3.BitVecSort(64), "str": z3.StringSort()}[kind]

class SymM(Base):
    mode = "sym"
    sym = True
    def __init__(self, engine, prop=None, fix=None):
        self.E = engine
        self.prop = prop
        self.fix = fix or {}
        self.reset()
    def reset(self):
        self.fields = {}          # name -> (spec, dims, nidx extents, nanfn)
        self.dims_ = {}
        self.choices = {}
        self.seen = set()
        self.frame_family = None
    # ---- inputs -------------------------------------------------------------
    def choice(self, name, options):
        options = list(options)
        i = self.E.choose(name, len(options))
        self.choices[name] = i
        return options[i]
    def extent(self, name, lo=1, hi=4):
        if name in self.fix:
            self.dims_[name] = self.fix[name]
            return self.fix[name]
        v = z3.Int(name)
        self.dims_[name] = v
        self.E.assume(v >= lo)
        if lo >= 1: self.E.positive[v.get_id()] = v
        self.small = getattr(self, "small", {})
        self.small[name] = (v, lo, hi)
        return SInt(v)
    def layers(self, name): return 1
    def concrete_int(self, x): return isinstance(x, int)
    def track(self, on):
        self.load("corgidrp").track_individual_errors = on
    def header(self): return fitsshim.SymHeader()
    def _domain(self, spec, t):
        c = []
        if spec.kind in ("real", "int"):
            if spec.lo is not None:
                lo = core.realval(spec.lo) if spec.kind == "real" else spec.lo
                c.append(t > lo if spec.lo_open else t >= lo)
            if spec.hi is not None:
                hi = core.realval(spec.hi) if spec.kind == "real" else spec.hi
                c.append(t < hi if spec.hi_open else t <= hi)
            if spec.values is not None:
                c.append(z3.Or(*[t == (core.realval(v) if spec.kind == "real" else v) for v in spec.values]))
        elif spec.kind == "bv":
            c.append(t & z3.BitVecVal(~spec.mask, 64) == 0)
        elif spec.kind == "str" and spec.options:
            c.append(z3.Or(*[t == z3.StringVal(o) for o in spec.options] + ([t == t] if spec.values == "any" else [])))
        return z3.And(*c) if c else None
    def _value(self, name, spec, args):
        """scalar for the logical constant name(args)"""
        if spec.kind == "bool":
            t = uf(name, *([z3.IntSort()] * len(args) + [z3.BoolSort()]))(*args) if args else z3.Bool(name)
            return SBool(t)
        s = sort_of(spec.kind)
        t = uf(name, *([z3.IntSort()] * len(args) + [s]))(*args) if args else z3.Const(name, s)
        nan = False
        if spec.nan:
            nan = uf(name + "!nan", *([z3.IntSort()] * len(args) + [z3.BoolSort()]))(*args) if args else z3.Bool(name + "!nan")
        if self._domain(spec, t) is not None:
            if args:
                self.E.pre_axioms.setdefault(name, lambda *a, spec=spec: self._domain(spec, uf(name, *([z3.IntSort()] * len(a) + [s]))(*a)))
            else:
                if name not in self.seen:
                    self.seen.add(name)
                    self.E.assume(self._domain(spec, t))
        if spec.kind == "real": return SReal(t, nan)
        if spec.kind == "int": return SInt(t)
        if spec.kind == "bv":
            if spec.mask >= 0: self.E.bv_nonneg_names.add(name)
            return SBV(t)
        return SStr(t)
    def _reg(self, name, spec, dims, n):
        if name not in self.fields:
            self.fields[name] = (spec, list(dims), n)
    def scalar(self, name, spec, k=None):
        args = [] if k is None else [zi(ie(k))]
        self._reg(name, spec, [], self._kext if k is not None else None)
        v = self._value(name, spec, args)
        if args and spec.kind != "bool":
            c = self._domain(spec, v.t if not isinstance(v, SReal) else v.v)
            if c is not None: self.E.assume(c)
        return v
    def array(self, name, dims, spec, k=None):
        dims = [ie(d) for d in dims]
        ex = [] if k is None else [zi(ie(k))]
        self._reg(name, spec, dims, self._kext if k is not None else None)
        kind = {"real": REAL, "int": INT, "bv": BV, "bool": BOOL}[spec.kind]
        self._value(name, spec, ex + [z3.IntVal(0)] * len(dims)) if False else None
        def fn(idx): return self._value(name, spec, ex + [zi(i) for i in idx])
        if spec.kind != "bool" and self._domain(spec, z3.Const("x!", sort_of(spec.kind))) is not None and (ex or dims):
            s = sort_of(spec.kind)
            self.E.pre_axioms.setdefault(name, lambda *a, spec=spec: self._domain(spec, uf(name, *([z3.IntSort()] * len(a) + [s]))(*a)))
        return SArray(Buf(dims, kind, fn, None))
    _kext = None
    def put_spec(self, hdr, key, sp, name, k):
        v = self.scalar(name, sp, k)
        hdr[key] = v
        if sp.maybe:
            p = self.scalar(name + "?", Spec("bool"), k)
            hdr.maybe[key] = p.t
    def filename(self, name, fname, k, symname):
        if symname: return self.scalar(name + ".FNAME", Spec("str"), k)
        return self.scalar(name + ".FN", Spec("str"), k)
    def per_index(self, n, mk):
        n = ie(n)
        if isinstance(n, int):
            out = loops.PList()
            self._kext = n
            for j in range(n): out.append(mk(j))
            return out
        self._kext = n
        return loops.listcomp(mk, loops.SRange(0, n), "per_index", False)
    def require(self, cond):
        self.E.assume(self.b(cond))
        if self.E._chk() == z3.unsat: self.E.abort(core.PathAbort("vacuous"))
    # ---- running --------------------------------------------------------------
    def call(self, f, *a, **k):
        try:
            r = f(*a, **k)
            self.E.check_alive()
            return Outcome(r, None)
        except Exception as e:
            self.E.check_alive()
            if isinstance(e, (z3.Z3Exception, RecursionError)): raise
            e._tb = e.__traceback__
            self.E.last_exc = e
            return Outcome(None, e)
    # ---- logic ------------------------------------------------------------------
    def b(self, x):
        if isinstance(x, SBool): return bz(x.t)
        if isinstance(x, (bool, np.bool_)): return z3.BoolVal(bool(x))
        if isinstance(x, Sym): return bz(cast(x, BOOL).t)
        return x
    def And(self, *x): return SBool(And_(*[self.b(y) for y in x]))
    def Or(self, *x): return SBool(Or_(*[self.b(y) for y in x]))
    def Not(self, x): return SBool(Not_(self.b(x)))
    def Implies(self, a, b): return SBool(Or_(Not_(self.b(a)), self.b(b)))
    def Iff(self, a, b): return SBool(self.b(a) == self.b(b))
    def ite(self, c, a, b): return ite(self.b(c), a, b)
    def isnan(self, x): return unary("isnan", lift(x))
    def sqrt(self, x): return unary("sqrt", lift(x))
    def log(self, x): return unary("log", lift(x))
    def exp(self, x): return unary("exp", lift(x))
    def sin(self, x): return unary("sin", lift(x))
    def cos(self, x): return unary("cos", lift(x))
    def div(self, a, b): return arith("div", lift(a), lift(b))
    def num(self, x): return cast(lift(x), REAL)
    def bor(self, a, b): return arith("or", lift(a), lift(b))
    def band(self, a, b): return arith("and", lift(a), lift(b))
    def bits(self, a): return cast(lift(a), BV)
    def eq(self, a, b, tol=True, scale=0.0):
        if a is None or b is None: return SBool(a is b)
        if isinstance(a, str) and isinstance(b, str): return SBool(a == b)
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                f = lambda s: z3.StringVal(s) if isinstance(s, str) else s.t
                return SBool(f(a) == f(b))
            return SBool(False)
        if isinstance(a, str) or isinstance(b, str): return SBool(False)
        if isinstance(a, (loops.Poison, loops.Acc)) or isinstance(b, (loops.Poison, loops.Acc)): self.E.unsupported("comparison with an unknown value")
        return SBool(same_scalar(a, b))
    def rint(self, x): return unary("rint", lift(x))
    def floor_int(self, x): return cast(unary("floor", cast(lift(x), REAL)), INT)
    def shares(self, a, b):
        if isinstance(a, SArray) and isinstance(b, SArray): return a.buf is b.buf
        if isinstance(a, SArray) or isinstance(b, SArray): return False
        return np.shares_memory(a, b)
    def astype16(self, a): return a.astype(np.uint16)
    def at(self, arr, *idx):
        idx = [ie(i) for i in idx]
        if isinstance(arr, SArray): return arr.at(*idx)
        if isinstance(arr, np.ndarray):
            if all(isinstance(i, int) for i in idx): return lift(arr[tuple(idx)])
            return sa.to_sarray(arr).at(*idx)
        if hasattr(arr, "_is_symlist"): return sa.to_sarray_any(arr).at(*idx)
        self.E.unsupported("at %r" % type(arr))
    def dims(self, arr): return tuple(arr.shape)
    def ndim(self, arr): return arr.ndim
    def deq(self, a, b):
        r = sa.ieq(ie(a), ie(b))
        return SBool(r)
    def points(self, *dims):
        """one arbitrary index tuple (a Skolem constant per dimension)"""
        out = []
        for d in dims:
            d = ie(d)
            if isinstance(d, int) and d == 1: out.append(0)
            else:
                out.append(SInt(self.E.point(d)))
        return [tuple(out)]
    def hint(self, *idx):
        """an index at which the universal facts of the path are instantiated"""
        self.E.hints.append(tuple(z3.simplify(zi(ie(i))) for i in idx))
    def indices(self, n):
        n = ie(n)
        if isinstance(n, int) and n <= 3: return list(range(n))
        return [SInt(self.E.point(n, "ix"))]
    def frames(self, ds):
        fr = ds.frames
        if isinstance(fr, loops.ObjArr):
            fam = fr.fam
            if not self.E.is_active(fam.k): pass
            return [(SInt(fam.k), fam.elem)]
        return list(enumerate(fr))
    def nframes(self, ds):
        fr = ds.frames
        return SInt(zi(fr.fam.n)) if isinstance(fr, loops.ObjArr) else len(fr)
    def frame(self, ds, k):
        fr = ds.frames
        if isinstance(fr, loops.ObjArr): return fr.fam.at(ie(k))
        return fr[ie(k)]
    def sum(self, n, f):
        return sa.reduce_("sum", SArray(Buf([ie(n)], REAL, lambda i: cast(lift(f(sa.wrapi(i[0]))), REAL))))
    def exists(self, n, f):
        return sa.any_fn([ie(n)], lambda i: self.b(f(sa.wrapi(i[0]))))
    def exists2(self, n, m, f):
        return sa.any_fn([ie(n), ie(m)], lambda i: self.b(f(sa.wrapi(i[0]), sa.wrapi(i[1]))))
    def count2(self, n, m, f):
        return sa.count_fn([ie(n), ie(m)], lambda i: self.b(f(sa.wrapi(i[0]), sa.wrapi(i[1]))))
    def selected(self, ob, o, n, pred):
        """the frames of o are those input frames i with pred(i), in order: (j, frame, i)"""
        e = self.E
        fr = o.frames
        n = ie(n)
        if not isinstance(fr, loops.ObjArr):
            if not isinstance(n, int): e.unsupported("selected: a concrete list of frames out of a symbolic one")
            keep = [i for i in range(n) if e.fork(self.b(pred(i)))]
            self.ensure(ob, len(keep) == len(fr), (keep, len(fr)))
            return [(j, f, i) for j, (f, i) in enumerate(zip(list(fr), keep))]
        s = None
        for q in reversed(e.selections):
            if fr.fam.n is q["cnt"] or (not isinstance(q["cnt"], int) and not isinstance(fr.fam.n, int) and zi(q["cnt"]).eq(zi(fr.fam.n))): s = q; break
        if s is None: e.unsupported("selected: no selection made on this path")
        self.ensure(ob, self.deq(s["n"], n), "selects from all frames")
        for i in [SInt(e.point(n, "ix"))]:
            self.ensure(ob, self.Iff(SBool(bz(cast(s["mask"]((ie(i),)), BOOL).t)), pred(i)), "selected iff the criterion holds")
        return [(SInt(k), f, SInt(s["fn"](zi(ie(k))))) for k, f in [(fr.fam.k, fr.fam.elem)]]
    def count(self, n, f):
        return sa.count_fn([ie(n)], lambda i: self.b(f(sa.wrapi(i[0]))))
    def reduce(self, name, n, val, ok=None):
        arr = SArray(Buf([ie(n)], REAL, lambda i: cast(lift(val(sa.wrapi(i[0]))), REAL)))
        if ok is None: return sa.reduce_(name, arr)
        m = SArray(Buf([ie(n)], BOOL, lambda i: SBool(Not_(self.b(ok(sa.wrapi(i[0])))))))
        return sa.reduce_(name, sa.SMasked(arr, m))
    def reduce2(self, name, n, m, val, ok=None):
        arr = SArray(Buf([ie(n), ie(m)], REAL, lambda i: cast(lift(val(sa.wrapi(i[0]), sa.wrapi(i[1]))), REAL)))
        if ok is None: return sa.reduce_(name, arr)
        mk = SArray(Buf([ie(n), ie(m)], BOOL, lambda i: SBool(Not_(self.b(ok(sa.wrapi(i[0]), sa.wrapi(i[1])))))))
        return sa.reduce_(name, sa.SMasked(arr, mk))
    def borall(self, n, f):
        return sa.reduce_bitor(SArray(Buf([ie(n)], BV, lambda i: cast(lift(f(sa.wrapi(i[0]))), BV))), 0)
    def _nonzero_dens(self, F, sgn, *nans):
        """assume x != 0 for the denominators x whose sign is visible term by term"""
        terms = [t for t in F.nonzero]
        for n in nans:
            if isinstance(n, bool): continue
            st, seen = [n], set()
            while st:
                x = st.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_eq(x) and isinstance(x.arg(0).sort(), z3.ArithSortRef):
                    for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                        if core.is_numeral(b) and core.num(b) == 0: terms.append(a)
                elif z3.is_app(x): st.extend(x.children())
        ok, done = True, set()
        for t in terms:
            if t.get_id() in done: continue
            done.add(t.get_id())
            z = z3.IntVal(0) if z3.is_int(t) else z3.RealVal(0)
            if self.E._chk(t == z) == z3.unsat: continue
            try: s = F.sign(t, sgn)
            except field.TooBig: s = None
            if s in (1, -1): self.E.assume(t != z)
            else:
                if self.E.prove(t != z, 3000)[0] == "valid": self.E.assume(t != z)
                elif any(t.eq(u) for u in F.nonzero): ok = False
        return ok
    def field_eq(self, a, b):
        """a == b, with the rational-function identity as a lemma"""
        x, y = cast(lift(a), REAL), cast(lift(b), REAL)
        F = field.Field()
        sgn = field.signs(self.E)
        try: same = F.equal(x.v, y.v)
        except field.TooBig: same = False
        if self._nonzero_dens(F, sgn, x.nan, y.nan) and same:
            self.E.assume(x.v == y.v)
            self.E.stats["field_lemmas"] = self.E.stats.get("field_lemmas", 0) + 1
            if x.nan is False and y.nan is False: return SBool(True)
            xn, yn = bz(x.nan), bz(y.nan)
            return SBool(xn == yn)
        return SBool(same_scalar(x, y))
    def deriv(self, f, arr, idx, n=None):
        """derivative of f(arr) at element idx with respect to that element of arr"""
        v = cast(lift(f(arr)), REAL)
        x = cast(lift(self.at(arr, *idx)), REAL)
        return SReal(field.diff(v.v, x.v), v.nan)
    def replace1(self, s, a, b):
        f = lambda x: z3.StringVal(x) if isinstance(x, str) else x.t
        return SStr(z3.Replace(f(s), f(a), f(b)))
    def fun(self, name, *args):
        """an arbitrary but fixed function of real arguments"""
        xs = [cast(lift(a), REAL) for a in args]
        nan = Or_(*[x.nan for x in xs])
        return SReal(uf(name, *([z3.RealSort()] * (len(xs) + 1)))(*[x.v for x in xs]), nan)
    def map2(self, f, arr):
        """f applied to every element of a 2-d array"""
        r = sa.to_sarray_any(arr).copy()
        return SArray(Buf(list(r._shape), REAL, lambda i: cast(lift(f(cast(r.at(*i), REAL))), REAL)))
    def pointwise(self, f, *args):
        """f applied elementwise to arrays (masked or not) and scalars"""
        masks = [a.maskarr for a in args if isinstance(a, sa.SMasked)]
        raw = [a.arr if isinstance(a, sa.SMasked) else a for a in args]
        arrs = [sa.to_sarray_any(a) for a in raw if not sa.is_scalar(a)]
        shape = sa.broadcast_shape([a._shape for a in arrs])
        rd = [sa.broadcast_reader(sa.to_sarray_any(a).copy() if not sa.is_scalar(a) else a, shape) for a in raw]
        v = SArray(Buf(shape, REAL, lambda i: cast(lift(f(*[r(i) for r in rd])), REAL)))
        if not masks: return v
        m = masks[0]
        for x in masks[1:]: m = sa.elementwise("or", m, x)
        return sa.SMasked(v, m)
    def loop_index(self):
        """index of the iteration in which a callee's contract is being used"""
        a = [c for c in self.E.active if isinstance(c, loops.LoopCtx)]
        if len(a) == 1: return SInt(a[0].k)
        self.E.unsupported("callee contract used outside a single loop over the frames")
    # ---- assumed contracts of callees decided elsewhere -------------------------------
    def assume_split(self):
        """Dataset.split_dataset (contract P18): one group iff all frames agree on
        every keyword; the group key is then that common value"""
        D = self.data
        M = self
        def split_dataset(ds, prihdr_keywords=None, exthdr_keywords=None):
            if prihdr_keywords is None and exthdr_keywords is None: raise ValueError("no keywords")
            keys = [("pri_hdr", k) for k in (prihdr_keywords or [])] + [("ext_hdr", k) for k in (exthdr_keywords or [])]
            for k, f in M.frames(ds):
                for h, key in keys: getattr(f, h)[key]
            f0 = M.frame(ds, 0)
            vals = tuple(getattr(f0, h)[key] for h, key in keys)
            got = vals if len(vals) > 1 else vals[0]
            # it re-points the frames of ds to the cubes of the sub-datasets
            for k, f in M.frames(ds): f.data, f.err, f.dq = f.data.copy(), f.err.copy(), f.dq.copy()
            differ = M.exists(M.nframes(ds), lambda i: M.Or(*[M.Not(M.eq(getattr(M.frame(ds, i), h)[key], v)) for (h, key), v in zip(keys, vals)]))
            if M.E.fork(M.b(differ)):
                return loops.PList([loops.Poison("split group"), loops.Poison("split group")]), loops.PList([got, loops.Poison("split value")])
            return loops.PList([ds.copy()]), loops.PList([got])
        self.patch(D.Dataset, "split_dataset", split_dataset)
    # ---- obligations --------------------------------------------------------------
    def ensure(self, name, cond, detail=None):
        if not self.wants(name): return
        e = self.E
        e.check_alive()
        goal = self.b(cond)
        t0 = time.time()
        st, model = e.prove(goal)
        rec = dict(name=name, status=st, t=round(time.time() - t0, 3), steps=getattr(e, "steps", None), choices=dict(self.choices), detail=repr(detail) if detail is not None else "",
                   exact=not e.approx and not (st == "invalid" and e.reds), approx=sorted(e.approx))
        if st == "invalid":
            rec["goal"] = z3.simplify(goal).sexpr()[:1500]
            rec["model"] = self.concretise(model)
        e.obligations.append(rec)
    # ---- headers ---------------------------------------------------------------------
    def has(self, h, key):
        k = h._k(key)
        if k not in h.ent: return SBool(False)
        c = h.maybe.get(k)
        return SBool(True if c is None else c)
    def get(self, h, key): return h.ent[h._k(key)]
    def hist(self, h): return list(h.hist)
    def hsnap(self, h): return (dict(h.ent), dict(h.maybe), list(h.hist))
    def header_same(self, ob, h, snap, exc=(), hist=True):
        if not self.wants(ob): return
        ent, maybe, hi = snap
        for key in sorted(set(h.ent) | set(ent)):
            if key in exc: continue
            a = bz(True if key not in h.maybe else h.maybe[key]) if key in h.ent else z3.BoolVal(False)
            b = bz(True if key not in maybe else maybe[key]) if key in ent else z3.BoolVal(False)
            if key in h.ent and key in ent:
                v = self.eqv(h.ent[key], ent[key])
                self.ensure(ob, SBool(z3.And(a == b, z3.Implies(a, self.b(v)))), key)
            else:
                self.ensure(ob, SBool(a == b), key)
        if hist:
            self.ensure(ob, self.histeq(h.hist, hi), "HISTORY")
    def eqv(self, a, b):
        if isinstance(a, loops.OpaqueStr) or isinstance(b, loops.OpaqueStr): return SBool(a is b)
        return self.eq(a, b)
    def histeq(self, a, b):
        return len(a) == len(b) and all(x is y or str(x) == str(y) for x, y in zip(a, b))
    def hist_grew(self, ob, h, snap, contains=None):
        if not self.wants(ob): return
        old, new = snap[2], h.hist
        self.ensure(ob, self.histeq(new[:len(old)], old) and len(new) > len(old), "history prefix kept and extended")
        if contains is not None:
            if isinstance(contains, Sym): contains = core.token(contains)
            self.ensure(ob, any(contains in str(x) for x in new[len(old):]), "history names %s" % contains)
    # ---- snapshots ----------------------------------------------------------------------
    def asnap(self, a): return a.copy()
    def snap_image(self, f):
        return dict(obj=f, data=self.asn(f.data), err=self.asn(f.err), dq=self.asn(f.dq), hobj=hdrs(f), h=[self.hsnap(x) for x in hdrs(f)], filename=f.filename, filedir=f.filedir,
                    names=list(getattr(f, "hdu_names", [])), nhdu=len(f.hdu_list) if hasattr(f, "hdu_list") else 0)
    def asn(self, a):
        if isinstance(a, np.ndarray): return (a, sa.to_sarray(a.copy()), a, [])
        return (a, a.copy(), a.buf, list(a.specs))
    def snapshot(self, x):
        D = self.data
        self.nghost = (len(self.E.ghosts), len(self.E.ghost_writes))
        if isinstance(x, D.Dataset):
            return dict(frames=x.frames, fs=[(k, self.snap_image(f)) for k, f in self.frames(x)],
                        all=[self.asn(a)[:3] for a in (x.all_data, x.all_err, x.all_dq)])
        return self.snap_image(x)
    def arr(self, snap, nm): return snap[nm][1]
    def old(self, snap, k):
        kk = ie(k)
        for j, s in snap["fs"]:
            if sa.ieq(ie(j), kk) is True: return SOld(self, s)
        return SOldAt(self, snap, kk)
    def arr_same(self, ob, a, snap, tag, exactview=True):
        v0, c0, b0, s0 = snap
        if isinstance(a, np.ndarray) and isinstance(v0, np.ndarray): a = sa.to_sarray(a)
        if not isinstance(a, SArray):
            self.ensure(ob, False, tag + " replaced"); return
        self.ensure(ob, a.ndim == c0.ndim and a.kind == c0.kind and all(sa.sure(sa.ieq(x, y)) for x, y in zip(a._shape, c0._shape)), tag + " shape")
        if a.ndim != c0.ndim: return
        for p in self.points(*a.shape):
            self.ensure(ob, self.eq(self.at(a, *p), self.at(c0, *p)), tag)
    def same_image(self, ob, f, s):
        for nm in ("data", "err", "dq"): self.arr_same(ob, getattr(f, nm), s[nm], nm)
        self.ensure(ob, len(hdrs(f)) == len(s["h"]), "headers")
        for h, hs in zip(hdrs(f), s["h"]): self.header_same(ob, h, hs)
        self.ensure(ob, f.filename is s["filename"] or self.b(self.eq(f.filename, s["filename"])), "filename")
        self.ensure(ob, f.filedir == s["filedir"], "filedir")
        self.ensure(ob, list(getattr(f, "hdu_names", [])) == s["names"], "hdu_names")
        self.ensure(ob, (len(f.hdu_list) if hasattr(f, "hdu_list") else 0) == s["nhdu"], "hdu_list")
    def _unchanged(self, ob, x, s):
        D = self.data
        e = self.E
        if not isinstance(x, D.Dataset):
            return self.same_image(ob, x, s)
        fr = s["frames"]
        self.ensure(ob, x.frames is fr or (isinstance(fr, loops.ObjArr) and isinstance(x.frames, loops.ObjArr) and x.frames.fam is fr.fam), "frame list")
        for j, fs in s["fs"]:
            self.same_image(ob, fs["obj"], fs)
        for (a, c, b), cur in zip(s["all"], (x.all_data, x.all_err, x.all_dq)):
            self.arr_same(ob, cur, (a, c, b, []), "cube")
        # writes through an element at another index
        inputs = {id(fs["obj"]) for _, fs in s["fs"]}
        heads = set()
        for _, fs in s["fs"]: heads |= {id(h) for h in fs["hobj"]}
        for g, d0, src, i in e.ghosts:
            if id(self.root(src)) in inputs and any(g.__dict__.get(a) is not v for a, v in d0.items() if a not in ("data", "err", "dq")):
                self.ensure(ob, False, "an attribute of input frame %s is replaced" % i)
        for _, h in e.ghost_writes:
            r = h
            while r.ghost_of is not None: r = r.ghost_of
            if id(r) in heads: self.ensure(ob, False, "a header of an input frame is written")
    def _still_linked(self, ob, x, s):
        for j, fs in s["fs"]:
            for nm in ("data", "err", "dq"):
                a = getattr(fs["obj"], nm)
                self.ensure(ob, a.buf is fs[nm][2] if isinstance(a, SArray) else a is fs[nm][2], "frames of the input re-pointed: " + nm)
        inputs = {id(fs["obj"]) for _, fs in s["fs"]}
        for g, d0, src, i in self.E.ghosts:
            if id(self.root(src)) in inputs and any(g.__dict__.get(a) is not v for a, v in d0.items() if a in ("data", "err", "dq")):
                self.ensure(ob, False, "an array of input frame %s is replaced" % i)
    def root(self, o):
        while True:
            for g, d0, src, i in self.E.ghosts:
                if g is o:
                    o = src
                    break
            else:
                return o
    def isview(self, row, cube, k):
        if not isinstance(row, SArray) or not isinstance(cube, SArray): return False
        if row.buf is not cube.buf: return False
        v = cube[sa.wrapi(ie(k))]
        if len(v.specs) != len(row.specs): return False
        for a, b in zip(v.specs, row.specs):
            if a[0] != b[0]: return False
            if a[0] == "fix":
                if not sa.sure(sa.ieq(a[1], b[1])): return False
            elif a[1] != b[1] or a[3] != b[3] or not sa.sure(sa.ieq(a[2], b[2])): return False
        return all(sa.sure(sa.ieq(x, y)) for x, y in zip(v._shape, row._shape))
    def _linked(self, ob, ds):
        n = self.nframes(ds)
        for c, t in ((ds.all_data, "data"), (ds.all_err, "err"), (ds.all_dq, "dq")):
            self.ensure(ob, self.deq(c.shape[0], n), t + " cube length")
        for k, f in self.frames(ds):
            self.ensure(ob, self.isview(f.data, ds.all_data, k), "data of the frame is its cube row")
            self.ensure(ob, self.isview(f.err, ds.all_err, k), "err of the frame is its cube row")
            self.ensure(ob, self.isview(f.dq, ds.all_dq, k), "dq of the frame is its cube row")
        # frames reached at other indices
        objs = {id(f): f for _, f in self.frames(ds)}
        for g, d0, src, i in self.E.ghosts:
            if id(self.root(src)) in objs and any(g.__dict__.get(a) is not v for a, v in d0.items()):
                self.ensure(ob, False, "frame %s re-pointed" % i)
    def disjoint(self, ob, a, b):
        if not self.wants(ob): return
        for x in (a.all_data, a.all_err, a.all_dq):
            for y in (b.all_data, b.all_err, b.all_dq):
                self.ensure(ob, x.buf is not y.buf, "no shared pixel memory")
    def headers_separate(self, ob, a, b):
        if not self.wants(ob): return
        def roots(ds):
            out = []
            for _, f in self.frames(ds):
                for h in hdrs(f):
                    while h.ghost_of is not None: h = h.ghost_of
                    out.append(h)
            return out
        rb = roots(b)
        for h in roots(a): self.ensure(ob, not any(h is x for x in rb), "no shared header")
    # ---- counter-models -------------------------------------------------------------------
    def concretise(self, solver):
        try:
            return self._concretise(solver)
        except Exception as ex:
            return dict(error=repr(ex), choices=dict(self.choices), dims={}, fields={})
    def _concretise(self, solver):
        small = getattr(self, "small", {})
        model = None
        solver.set("timeout", 6000)
        for cap in (3, 5, 8):
            solver.push()
            for v, lo, hi in small.values(): solver.add(v <= max(lo, cap))
            if solver.check() == z3.sat:
                model = solver.model(); solver.pop(); break
            solver.pop()
        if model is None:
            if solver.check() != z3.sat: return dict(error="no model", choices=dict(self.choices), dims={}, fields={})
            model = solver.model()
        def iv(t):
            if isinstance(t, int): return t
            return model.eval(t, model_completion=True).as_long()
        dims = {n: iv(zi(v) if isinstance(v, int) else v) for n, v in self.dims_.items()}
        if any(d > 40 for d in dims.values()): return dict(error="model too large", choices=dict(self.choices), dims={}, fields={})
        fields = {}
        for name, (spec, ds, kext) in self.fields.items():
            shp = ([iv(kext)] if kext is not None else []) + [iv(d) for d in ds]
            n = 1
            for d in shp: n *= max(0, d)
            if n > 3000: continue
            tab = {}
            for ix in np.ndindex(*shp):
                args = [z3.IntVal(int(i)) for i in ix]
                v = self._peek(name, spec, args)
                tab[",".join(str(i) for i in ix)] = self._val(model, v)
            fields[name] = tab
        return dict(choices=dict(self.choices), dims=dims, fields=fields)
    def _peek(self, name, spec, args):
        s = sort_of(spec.kind)
        t = uf(name, *([z3.IntSort()] * len(args) + [s]))(*args) if args else z3.Const(name, s)
        nan = None
        if spec.nan: nan = uf(name + "!nan", *([z3.IntSort()] * len(args) + [z3.BoolSort()]))(*args) if args else z3.Bool(name + "!nan")
        return t, nan
    def _val(self, model, tn):
        t, nan = tn
        if nan is not None and z3.is_true(model.eval(nan, model_completion=True)): return "nan"
        v = model.eval(t, model_completion=True)
        if z3.is_bv_value(v): return v.as_signed_long()
        if z3.is_int_value(v): return v.as_long()
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        if z3.is_rational_value(v): return float(v.numerator_as_long()) / float(v.denominator_as_long()) if abs(v.denominator_as_long()) < 10**300 else 0.0
        if z3.is_algebraic_value(v):
            a = v.approx(12)
            return float(a.numerator_as_long()) / float(a.denominator_as_long())
        if z3.is_string_value(v): return v.as_string()
        return 0

class SOld:
    def __init__(self, M, s):
        self.data, self.err, self.dq, self.h = s["data"][1], s["err"][1], s["dq"][1], s["h"]
        self.filename = s["filename"]
    def hdr(self, which): return UD(self.h[HN.index(which)][0])
class SOldAt:
    """old state of the frame at another index than the generic one"""
    def __init__(self, M, snap, kk):
        fam = snap["frames"].fam
        s = snap["fs"][0][1]
        g = lambda v: loops.ghost(v, fam.k, kk)
        self.data, self.err, self.dq = (SubArr(M, s[n][1], fam.k, kk) for n in ("data", "err", "dq"))
        self.h = [({a: g(v) for a, v in h[0].items()}, {a: z3.substitute(c, (fam.k, zi(kk))) for a, c in h[1].items()}, h[2]) for h in s["h"]]
        self.filename = g(s["filename"])
    def hdr(self, which): return UD(self.h[HN.index(which)][0])
def SubArr(M, a, k, i):
    r = a.reader()
    f = loops.subst_buf_fn(r, a.ndim, k, i)
    return SArray(Buf([loops.subst_int(d, k, i) for d in a._shape], a.kind, f, a.buf.width))

def explore(unit, engine, prop, fix=None, log=None):
    """run the contract on every path; returns (#paths, undecided reasons, errors)"""
    core.set_engine(engine)
    engine.outer = [[]]
    undecided, errors = [], []
    paths = 0
    while engine.outer:
        # one vector of contract-level choices at a time; what is learnt about
        # loops is learnt afresh for each
        base = engine.outer.pop()
        engine.raises, engine.completed, engine.need_restart = {}, set(), False
        engine.merges, engine.merge_ready, engine.need_merge = {}, set(), False
        p, stop = explore_choice(unit, engine, prop, fix, base, undecided, errors, paths)
        paths += p
        if stop:
            if engine.outer: undecided.append("path or time budget exhausted with choices left")
            break
    core.set_engine(None)
    return paths, undecided, errors

def explore_choice(unit, engine, prop, fix, base, undecided, errors, before):
    paths = 0
    engine.worklist = [base]
    restarts = 0
    ob0, un0, er0 = len(engine.obligations), len(undecided), len(errors)
    st0 = (engine.stats["paths"], engine.stats.get("vacuous", 0))
    def restart():
        """a loop annotation was learnt: everything recorded so far for this choice is void"""
        nonlocal paths, restarts
        engine.stats["restarts"] += 1
        restarts += 1
        engine.worklist[:] = [base]
        engine.completed.clear(); engine.need_restart = False
        del engine.obligations[ob0:]
        del undecided[un0:]; del errors[er0:]
        paths = 0
        engine.stats["paths"], engine.stats["vacuous"] = st0
        if restarts > 40:
            undecided.append("too many restarts"); engine.worklist[:] = []
    while engine.worklist:
        prefix = engine.worklist.pop()
        engine.reset_path(prefix)
        nob = len(engine.obligations)
        M = SymM(engine, prop, fix)
        try:
            unit(M)
            engine.check_alive()
            paths += 1
            engine.stats["paths"] += 1
            if engine.prove(z3.BoolVal(False), 1500)[0] == "valid":
                engine.stats["vacuous"] = engine.stats.get("vacuous", 0) + 1
                for o in engine.obligations[nob:]: o["vacuous"] = True
        except core.Restart:
            restart()
        except core.PathAbort as ex:
            del engine.obligations[nob:]
        except core.Unsupported as ex:
            undecided.append(str(ex))
        except Missing as ex:
            undecided.append("no such function: %s" % ex)
        except Exception as ex:
            import traceback
            if isinstance(engine.aborted, core.Restart): restart()
            elif isinstance(engine.aborted, core.PathAbort): del engine.obligations[nob:]
            elif isinstance(engine.aborted, core.Unsupported): undecided.append(str(engine.aborted))
            else: errors.append(traceback.format_exc()[-3000:])
        finally:
            M.restore()
        if engine.need_restart: restart()
        if not engine.worklist and engine.need_merge:
            engine.need_merge = False
            engine.merge_ready |= set(engine.merges)
            restart()
        if before + paths > engine.MAX_PATHS or time.time() > engine.deadline:
            if engine.worklist: undecided.append("path or time budget exhausted with %d paths left" % len(engine.worklist))
            return paths, True
    return paths, False
