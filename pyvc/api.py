"""The contract language.  A contract is a Python function over an object M.
M has two readings:

  SymM   the contract speaks about arbitrary inputs: extents, pixels, header
         values are logical constants; M.ensure(...) emits a proof obligation
         to the SMT solver on every path through the real code
  ConM   the contract speaks about one concrete input (a counter-model of a
         failed obligation, or a seeded pseudo-random one) and the same
         M.ensure(...) is evaluated on what the real, un-instrumented code did
"""
import importlib, math, zlib, copy, sys, os, types
import numpy as np

class Spec:
    """domain of a logical constant"""
    def __init__(self, kind, lo=None, hi=None, lo_open=False, hi_open=False, nan=False, mask=None, options=None, near=(), maybe=False, values=None):
        self.kind, self.lo, self.hi, self.lo_open, self.hi_open = kind, lo, hi, lo_open, hi_open
        self.nan, self.mask, self.options, self.near, self.maybe, self.values = nan, mask, options, near, maybe, values
    def opt(self):
        s = copy.copy(self); s.maybe = True
        return s
def R(lo=None, hi=None, lo_open=False, hi_open=False, nan=False, near=()):
    return Spec("real", lo, hi, lo_open, hi_open, nan, near=near)
def POS(near=(), hi=None): return Spec("real", 0, hi, lo_open=True, near=near)
def I(lo=None, hi=None): return Spec("int", lo, hi)
def B(): return Spec("bool")
def DQ(mask=0xFFFF): return Spec("bv", mask=mask)
def S(*options): return Spec("str", options=options)
def V(*values): return Spec("real", values=values)
def Maybe(s): return s.opt()

class Discard(Exception):
    """the concrete input is outside the contract's precondition"""

class Missing(Exception):
    """the function under contract does not exist in this tree"""

class Outcome:
    def __init__(self, value, exc): self.value, self.exc = value, exc
    @property
    def ok(self): return self.exc is None

XKEY = "XREST"        # an arbitrary further header card
VOLATILE = ("DRPVERSN", "DRPCTIME")

def pname(ob): return ob.split(".")[0]

class Mod:
    """a module of the code under proof; asking for a name it lacks is not a verdict on it"""
    def __init__(self, m): object.__setattr__(self, "_m", m)
    def __getattr__(self, n):
        try: return getattr(self._m, n)
        except AttributeError: raise Missing("%s.%s" % (self._m.__name__, n))
    def __setattr__(self, n, v): setattr(self._m, n, v)

class Base:
    def wants(self, name): return self.prop is None or pname(name) == self.prop
    def load(self, m): return Mod(importlib.import_module(m))
    def patch(self, obj, name, val):
        """replace a callee by its contract until the end of this path"""
        if isinstance(obj, Mod): obj = obj._m
        if not hasattr(obj, name): raise Missing("%s.%s" % (getattr(obj, "__name__", obj), name))
        undo = self.__dict__.setdefault("_undo", [])
        if "_table" in obj.__dict__:            # a library module as the instrumented code sees it
            t = obj._table
            old = dict(t)
            undo.append(lambda: (t.clear(), t.update(old)))
            t[name] = val
            return
        old = getattr(obj, name)
        undo.append(lambda: setattr(obj, name, old))
        setattr(obj, name, val)
    def restore(self):
        for f in reversed(self.__dict__.pop("_undo", [])): f()
    @property
    def data(self): return self.load("corgidrp.data")
    # ---- standard inputs ------------------------------------------------
    def dataset(self, name="ds", n=None, nhi=3, shape=None, level="L2a", layers=None, nan=True, dqmask=0xFFFF,
                pri=None, ext=None, data=None, err=None, fname="CGI_00{k}_L2a_.fits", symname=False, link=True, errname=True):
        """an arbitrary dataset, built with the real constructors"""
        D = self.data
        n = self.extent(name + ".N", 1, nhi) if n is None else n
        if shape is None:
            shape = (self.extent(name + ".H", 1, 5), self.extent(name + ".W", 1, 5))
        L = self.layers(name) if layers is None else layers
        dspec = data or R(nan=nan)
        espec = err or R(lo=0, nan=nan)
        def mk(k):
            ph, eh, rh, qh = self.header(), self.header(), self.header(), self.header()
            for h, tag in ((ph, "p"), (eh, "e"), (rh, "r"), (qh, "q")):
                h[XKEY] = self.scalar("%s.%s%s" % (name, tag, XKEY), I(), k)
            eh["HISTORY"] = "made"
            rh["HISTORY"] = "made err"
            eh["DATALVL"] = level if not isinstance(level, Spec) else self.scalar(name + ".DATALVL", level, k)
            for hdr, spec in ((ph, pri), (eh, ext)):
                for key, sp in (spec or {}).items():
                    self.put(hdr, key, sp, name, k)
            arr = self.array(name + ".data", shape, dspec, k)
            er = self.array(name + ".err", ((L,) if L is not None else (1,)) + tuple(shape), espec, k)
            if errname and L is not None and self.concrete_int(L):
                for j in range(1, int(L)): rh["Layer_%d" % (j + 1)] = "term%d" % (j + 1)
            dq = self.array(name + ".dq", shape, DQ(dqmask), k)
            im = D.Image(arr, pri_hdr=ph, ext_hdr=eh, err=er, dq=dq, err_hdr=rh, dq_hdr=qh)
            im.filename = self.filename(name, fname, k, symname)
            im.filedir = "."
            return im
        frames = self.per_index(n, mk)
        ds = D.Dataset(frames)
        return ds
    def put(self, hdr, key, sp, name, k):
        if isinstance(sp, Spec):
            self.put_spec(hdr, key, sp, "%s.%s" % (name, key), k)
        elif callable(sp): hdr[key] = sp(k)
        else: hdr[key] = sp
    def image(self, name, shape, dspec=None, espec=None, dqmask=0xFFFF, ext=None, pri=None, level="L2a", L=1):
        """a single arbitrary image"""
        D = self.data
        ph, eh = self.header(), self.header()
        ph[XKEY] = self.scalar(name + ".p" + XKEY, I()); eh[XKEY] = self.scalar(name + ".e" + XKEY, I())
        eh["DATALVL"] = level
        for hdr, spec in ((ph, pri), (eh, ext)):
            for key, sp in (spec or {}).items(): self.put(hdr, key, sp, name, None)
        im = D.Image(self.array(name + ".data", shape, dspec or R()), pri_hdr=ph, ext_hdr=eh,
                     err=self.array(name + ".err", (L,) + tuple(shape), espec or R(lo=0)),
                     dq=self.array(name + ".dq", shape, DQ(dqmask)))
        im.filename = "cal_%s_.fits" % name
        return im
    def tiny(self):
        """a concrete one-frame dataset, used as the recorded parent of calibration objects"""
        D = self.data
        import astropy.io.fits as fits
        im = D.Image(np.zeros((2, 2)), pri_hdr=self.header(), ext_hdr=self.header())
        im.filename = "parent_L2a_.fits"
        return D.Dataset([im])
    def calib(self, cls, name, shape, dspec=None, espec=None, dqmask=0xFFFF, ext=None, L=1):
        D = self.data
        C = getattr(D, cls)
        ph, eh = self.header(), self.header()
        ph[XKEY] = self.scalar(name + ".p" + XKEY, I()); eh[XKEY] = self.scalar(name + ".e" + XKEY, I())
        eh["EXPTIME"] = 1.0; eh["EMGAIN_C"] = 1.0
        for key, sp in (ext or {}).items(): self.put(eh, key, sp, name, None)
        a = self.array(name + ".data", shape, dspec or R())
        c = C(a, pri_hdr=ph, ext_hdr=eh, input_dataset=self.tiny())
        c.err = self.array(name + ".err", (L,) + tuple(shape), espec or R(lo=0))
        c.dq = self.array(name + ".dq", shape, DQ(dqmask))
        return c

    def rarely(self, name):
        """true for the prover (the general case); in concrete runs true one time in four"""
        return True if self.sym else self.env.choose(name, 4) == 0
    def indexed(self, name, dims, spec):
        """the i-th of a sequence of arrays, as a function of i"""
        memo = {}
        def at(i):
            if self.sym: return self.array(name, dims, spec, i)
            if int(i) not in memo: memo[int(i)] = self.array(name, dims, spec, i)
            return memo[int(i)]
        return at
    def detparams(self, **kw):
        """a DetectorParams object with the given parameter values"""
        D = self.data
        if self.sym:
            import astropy.time as t
            return D.DetectorParams(kw, date_valid=t.Time("2027-01-01T00:00:00"))
        return D.DetectorParams(kw)
    # ---- derived checks ---------------------------------------------------
    def unchanged(self, ob, ds, old, link=True):
        """every observable of ds is as in the snapshot; with link: its frames
        are also still the rows of its cubes (decides P02)"""
        if self.wants(ob): self._unchanged(ob, ds, old)
        l = "P02." + ob.split(".", 1)[1] + ".input_link"
        if link and self.wants(l) and isinstance(ds, self.data.Dataset): self._still_linked(l, ds, old)
    def linked(self, ob, ds):
        """frames are views of the cubes"""
        if not self.wants(ob): return
        self._linked(ob, ds)

# ---------------------------------------------------------------------------
class ConM(Base):
    """one concrete input on the real code"""
    mode = "con"
    sym = False
    def __init__(self, env, prop=None):
        self.env, self.prop = env, prop
        self.failures = []
        self.checked = {}
        import astropy.io.fits as fits
        self.fits = fits
    # inputs
    def choice(self, name, options):
        options = list(options)
        i = self.env.choose(name, len(options))
        return options[i]
    def extent(self, name, lo=1, hi=4):
        return self.env.extent(name, lo, hi)
    def layers(self, name):
        return 1
    def concrete_int(self, x): return True
    def track(self, on):
        import corgidrp
        corgidrp.track_individual_errors = on
    def header(self): return self.fits.Header()
    def scalar(self, name, spec, k=None):
        return self.env.scalar(name, spec, () if k is None else (int(k),))
    def array(self, name, dims, spec, k=None):
        return self.env.array(name, tuple(int(d) for d in dims), spec, () if k is None else (int(k),))
    def put_spec(self, hdr, key, sp, name, k):
        idx = () if k is None else (int(k),)
        if sp.maybe and not self.env.scalar(name + "?", B(), idx): return
        v = self.env.scalar(name, sp, idx)
        hdr[key] = v.item() if hasattr(v, "item") else v
    def filename(self, name, fname, k, symname):
        if symname: return self.env.scalar(name + ".FNAME", S("CGI_1_L1_.fits", "CGI_2_L2a_.fits", "CGI_3_L2b_x_L2b_.fits", "x.fits", "CGI_L3_.fits", "CGI_L1_7_L1_.fits", "CGI_L2a_L2a.fits", "a_L3_b_L3_.fits", "CGI_L2b.fits"), (int(k),))
        return fname.format(k=int(k))
    def per_index(self, n, mk): return [mk(k) for k in range(n)]
    def require(self, cond):
        if not bool(cond): raise Discard()
    # running
    def call(self, f, *a, **k):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                out = io_quiet(lambda: self._call(f, a, k))
        return out
    called = False
    def _call(self, f, a, k):
        self.called = True
        try:
            return Outcome(f(*a, **k), None)
        except Exception as e:
            return Outcome(None, e)
    # logic
    def And(self, *x): return all(bool(y) for y in x)
    def Or(self, *x): return any(bool(y) for y in x)
    def Not(self, x): return not bool(x)
    def Implies(self, a, b): return (not bool(a)) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def isnan(self, x): return bool(np.isnan(x))
    def sqrt(self, x):
        with np.errstate(all="ignore"): return np.sqrt(np.float64(x))
    def log(self, x):
        with np.errstate(all="ignore"): return np.log(np.float64(x))
    def exp(self, x): return np.exp(np.float64(x))
    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def div(self, a, b):
        with np.errstate(all="ignore"): return np.float64(a) / np.float64(b)
    def num(self, x): return np.float64(x)
    def bor(self, a, b): return int(a) | int(b)
    def band(self, a, b): return int(a) & int(b)
    def bits(self, a): return int(a)
    def eq(self, a, b, tol=True, scale=0.0):
        a, b = conv(a), conv(b)
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None: return a == b
        if isinstance(a, (bool, int, np.integer, np.bool_)) and isinstance(b, (bool, int, np.integer, np.bool_)): return int(a) == int(b)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b): return a == b
        if not tol: return a == b
        return abs(a - b) <= 1e-7 * max(abs(a), abs(b), scale) + 1e-9 * max(1.0, scale)
    def field_eq(self, a, b): return self.eq(a, b)
    def deriv(self, f, arr, idx):
        i = tuple(int(x) for x in idx)
        x0 = float(arr[i])
        h = 1e-2 * max(1.0, abs(x0))
        def at(x):
            a = np.array(arr, copy=True); a[i] = x
            with np.errstate(all="ignore"): return float(f(a))
        D = lambda h: (at(x0 + h) - at(x0 - h)) / (2 * h)
        d0, d1, d2 = D(h), D(h / 2), D(h / 4)
        e0, e1 = (4 * d1 - d0) / 3, (4 * d2 - d1) / 3
        return (16 * e1 - e0) / 15
    def replace1(self, s, a, b): return s.replace(a, b, 1)
    def rint(self, x): return np.rint(x)
    def floor_int(self, x): return int(math.floor(x))
    def shares(self, a, b): return np.shares_memory(a, b)
    def astype16(self, a): return a.astype(np.uint16)
    def at(self, arr, *idx): return arr[tuple(int(i) for i in idx)]
    def dims(self, arr): return arr.shape
    def ndim(self, arr): return arr.ndim
    def deq(self, a, b): return int(a) == int(b)
    def points(self, *dims): return np.ndindex(*[int(d) for d in dims])
    def hint(self, *idx): pass
    def indices(self, n): return range(int(n))
    def frames(self, ds): return [(k, f) for k, f in enumerate(ds.frames)]
    def nframes(self, ds): return len(ds.frames)
    def frame(self, ds, k): return ds.frames[int(k)]
    def sum(self, n, f): return sum([f(i) for i in range(int(n))])
    def exists(self, n, f): return any(bool(f(i)) for i in range(int(n)))
    def exists2(self, n, m, f): return any(bool(f(i, j)) for i in range(int(n)) for j in range(int(m)))
    def count2(self, n, m, f): return sum(1 for i in range(int(n)) for j in range(int(m)) if f(i, j))
    def selected(self, ob, o, n, pred):
        """the frames of o are those input frames i with pred(i), in order: (j, frame, i)"""
        idx = [i for i in range(int(n)) if bool(pred(i))]
        self.ensure(ob, len(idx) == len(o.frames), (len(idx), len(o.frames)))
        return [(j, f, i) for j, (f, i) in enumerate(zip(o.frames, idx))]
    def count(self, n, f): return sum(1 for i in range(int(n)) if f(i))
    def reduce(self, name, n, val, ok=None):
        v = [float(val(i)) for i in range(int(n)) if ok is None or bool(ok(i))]
        with np.errstate(all="ignore"):
            if name in ("median", "mean") and not v: return float("nan")
            return getattr(np, name)(np.array(v, dtype=float))
    def reduce2(self, name, n, m, val, ok=None):
        v = [float(val(i, j)) for i in range(int(n)) for j in range(int(m)) if ok is None or bool(ok(i, j))]
        if not v: return 0.0 if name == "sum" else float("nan")
        return getattr(np, name)(np.array(v, dtype=float))
    def borall(self, n, f):
        r = 0
        for i in range(int(n)): r |= int(f(i))
        return r
    def ensure(self, name, cond, detail=None):
        if not self.wants(name): return
        self.checked[name] = self.checked.get(name, 0) + 1
        if not bool(cond):
            if len(self.failures) < 20:
                self.failures.append((name, repr(detail) if detail is not None else ""))
    # headers
    def has(self, h, key): return key in h
    def get(self, h, key): return h[key]
    def hist(self, h): return [str(x) for x in h["HISTORY"]] if "HISTORY" in h else []
    def hsnap(self, h):
        return ([(c.keyword, c.value) for c in h.cards if c.keyword not in ("HISTORY", "COMMENT")], self.hist(h))
    def header_same(self, ob, h, snap, exc=(), hist=True):
        if not self.wants(ob): return
        a, b = dict(self.hsnap(h)[0]), dict(snap[0])
        for key in set(a) | set(b):
            if key in exc: continue
            self.ensure(ob, key in a and key in b and self.eq(a[key], b[key], tol=False), (key, a.get(key), b.get(key)))
        if hist: self.ensure(ob, self.hist(h) == snap[1], "HISTORY")
    def hist_grew(self, ob, h, snap, contains=None):
        if not self.wants(ob): return
        new, old = self.hist(h), snap[1]
        self.ensure(ob, new[:len(old)] == old and len(new) > len(old), ("history", old, new))
        if contains: self.ensure(ob, contains in "".join(new[len(old):]).replace("\n", ""), ("history text", contains, new))
    # snapshots
    def asnap(self, a): return np.array(a, copy=True)
    def snap_image(self, f):
        return dict(obj=f, data=np.array(f.data, copy=True), err=np.array(f.err, copy=True), dq=np.array(f.dq, copy=True),
                    h=[self.hsnap(x) for x in hdrs(f)], filename=f.filename, filedir=f.filedir,
                    names=list(getattr(f, "hdu_names", [])), ids=(id(f.data), id(f.err), id(f.dq)),
                    nhdu=len(f.hdu_list) if hasattr(f, "hdu_list") else 0)
    def snapshot(self, x):
        D = self.data
        if isinstance(x, D.Dataset):
            return dict(frames=[self.snap_image(f) for f in x.frames], all=[np.array(a, copy=True) for a in (x.all_data, x.all_err, x.all_dq)],
                        objs=list(x.frames), link=[self.islinked(x, k, f) for k, f in enumerate(x.frames)])
        return self.snap_image(x)
    def arr(self, snap, nm): return snap[nm]
    def old(self, snap, k): return OldFrame(self, snap["frames"][int(k)])
    def same_image(self, ob, f, s):
        for nm in ("data", "err", "dq"):
            a, b = getattr(f, nm), s[nm]
            self.ensure(ob, a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), nm)
        for h, hs, tag in zip(hdrs(f), s["h"], HN):
            self.header_same(ob, h, hs)
        self.ensure(ob, f.filename == s["filename"] and f.filedir == s["filedir"], "filename")
        self.ensure(ob, list(getattr(f, "hdu_names", [])) == s["names"], "hdu_names")
        self.ensure(ob, (len(f.hdu_list) if hasattr(f, "hdu_list") else 0) == s["nhdu"], "hdu_list")
    def _unchanged(self, ob, x, s):
        D = self.data
        if not isinstance(x, D.Dataset):
            return self.same_image(ob, x, s)
        self.ensure(ob, len(x.frames) == len(s["objs"]) and all(a is b for a, b in zip(x.frames, s["objs"])), "frame list")
        for f, fs in zip(x.frames, s["frames"]): self.same_image(ob, f, fs)
        for a, b in zip((x.all_data, x.all_err, x.all_dq), s["all"]):
            self.ensure(ob, a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "cube")
    def _still_linked(self, ob, x, s):
        for k, f in enumerate(x.frames):
            if s["link"][k]: self.ensure(ob, self.islinked(x, k, f), "frames of the input re-pointed")
    def isview(self, row, cube, k):
        v = cube[k]
        return isinstance(row, np.ndarray) and row.shape == v.shape and (v.size == 0 or (row.__array_interface__["data"][0] == v.__array_interface__["data"][0] and row.strides == v.strides))
    def islinked(self, ds, k, f):
        return self.isview(f.data, ds.all_data, k) and self.isview(f.err, ds.all_err, k) and self.isview(f.dq, ds.all_dq, k)
    def _linked(self, ob, ds):
        n = len(ds.frames)
        self.ensure(ob, len(ds.all_data) == n and len(ds.all_err) == n and len(ds.all_dq) == n, "cube length")
        for k, f in enumerate(ds.frames):
            self.ensure(ob, self.isview(f.data, ds.all_data, k), "data of frame %d" % k)
            self.ensure(ob, self.isview(f.err, ds.all_err, k), "err of frame %d" % k)
            self.ensure(ob, self.isview(f.dq, ds.all_dq, k), "dq of frame %d" % k)
    def disjoint(self, ob, a, b):
        """no pixel memory or header shared between dataset a and dataset b"""
        if not self.wants(ob): return
        for x in (a.all_data, a.all_err, a.all_dq):
            for y in (b.all_data, b.all_err, b.all_dq):
                self.ensure(ob, not np.shares_memory(x, y), "shared pixel memory")
    def headers_separate(self, ob, a, b):
        if not self.wants(ob): return
        ids = set()
        for f in b.frames: ids |= {id(h) for h in hdrs(f)}
        for f in a.frames:
            for h in hdrs(f): self.ensure(ob, id(h) not in ids, "shared header")

HN = ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr")
def hdrs(f): return [getattr(f, h) for h in HN if hasattr(f, h)]
def conv(x):
    if isinstance(x, np.ndarray) and x.ndim == 0: return x.item()
    return x

class UD(dict):
    """header entries by keyword, any case"""
    def __getitem__(self, k): return dict.__getitem__(self, k if k in self else k.upper())
class OldFrame:
    """the state of a frame at snapshot time"""
    def __init__(self, M, d):
        self.data, self.err, self.dq, self.h = d["data"], d["err"], d["dq"], d["h"]
        self.filename = d["filename"]
        self.d = d
    def hdr(self, which):
        return UD(dict(self.h[HN.index(which)][0]))

def io_quiet(f):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f()

# ---- concrete environments ---------------------------------------------------
class RandomEnv:
    """seeded pseudo-random input; every value depends only on (seed, name, index)"""
    def __init__(self, seed, fixed=None):
        self.seed = seed
        self.fixed = fixed or {}
        self.log = {}
    def rng(self, *key):
        return np.random.default_rng([self.seed & 0x7fffffff] + [zlib.crc32(repr(k).encode()) for k in key])
    def choose(self, name, n):
        i = int(self.rng("choice", name).integers(n))
        self.log.setdefault("choices", {})[name] = i
        return i
    def extent(self, name, lo, hi):
        v = int(self.rng("extent", name).integers(lo, hi + 1))
        self.log.setdefault("dims", {})[name] = v
        return v
    def draw(self, rng, spec, shape):
        if spec.kind == "bool": return rng.integers(0, 2, shape).astype(bool)
        if spec.kind == "bv":
            m = spec.mask
            bits = [b for b in range(64) if m >> b & 1]
            ty = np.uint64 if m >> 62 else np.int64
            out = np.zeros(shape, dtype=ty)
            for b in bits: out |= (rng.random(shape) < 0.18).astype(ty) << ty(b)
            dens = rng.integers(0, 3)
            if dens == 0: out = np.where(rng.random(shape) < 0.6, 0, out)
            return out
        if spec.kind == "int":
            lo = -1000 if spec.lo is None else spec.lo
            hi = max(lo, 1000) if spec.hi is None else spec.hi
            if spec.values is not None: return rng.choice(np.array(spec.values), shape)
            return rng.integers(lo, hi + 1, shape)
        if spec.kind == "str":
            return rng.choice(np.array(spec.options, dtype=object), shape)
        lo = spec.lo if spec.lo is not None else -60.0
        hi = spec.hi if spec.hi is not None else max(lo + 120.0, 60.0)
        x = rng.uniform(lo, hi, shape)
        r = rng.random(shape)
        small = np.clip(np.round(rng.uniform(max(lo, -4), min(hi, max(lo, -4) + 8), shape)), lo, hi)
        x = np.where(r < 0.35, small, x)
        specials = list(spec.near) + ([] if spec.lo is None else [spec.lo]) + ([] if spec.hi is None else [spec.hi]) + [0.0, 1.0]
        specials = [s for s in specials if (spec.lo is None or s > spec.lo or (s == spec.lo and not spec.lo_open)) and (spec.hi is None or s < spec.hi or (s == spec.hi and not spec.hi_open))]
        if specials:
            x = np.where(r > 0.8, rng.choice(np.array(specials, dtype=float), shape), x)
        if spec.lo_open: x = np.where(x <= lo, lo + rng.uniform(0.05, 1.0, shape), x)
        if spec.hi_open: x = np.where(x >= hi, hi - 0.01 * (hi - lo), x)
        if spec.values is not None: x = rng.choice(np.array(spec.values, dtype=float), shape)
        if spec.nan: x = np.where(rng.random(shape) < 0.08, np.nan, x)
        return x
    def scalar(self, name, spec, idx):
        v = self.draw(self.rng("s", name, idx), spec, (1,))[0]
        v = v.item() if hasattr(v, "item") else v
        self.log.setdefault("scalars", {})["%s%s" % (name, list(idx))] = v
        return v
    def array(self, name, dims, spec, idx):
        a = self.draw(self.rng("a", name, idx), spec, dims)
        if a.dtype == bool and spec.kind != "bool": a = a.astype(float)
        return a

class ReplayEnv(RandomEnv):
    """values read out of a counter-model; anything it leaves open is drawn from the seed"""
    def __init__(self, model, seed=0):
        RandomEnv.__init__(self, seed)
        self.m = model
    def choose(self, name, n):
        return self.m["choices"].get(name, 0) if name in self.m["choices"] else RandomEnv.choose(self, name, n)
    def extent(self, name, lo, hi):
        return self.m["dims"].get(name, lo)
    def _ok(self, v, spec):
        if spec.kind == "real" and not (isinstance(v, float) and math.isnan(v)):
            if spec.lo is not None and (v < spec.lo or (spec.lo_open and v == spec.lo)): return False
            if spec.hi is not None and (v > spec.hi or (spec.hi_open and v == spec.hi)): return False
        return True
    def _fix(self, v, spec):
        if v == "nan": return float("nan")
        if not self._ok(v, spec):
            d = self.draw(self.rng("fix", repr(v)), spec, (1,))[0]
            return d.item() if hasattr(d, "item") else d
        return v
    def scalar(self, name, spec, idx):
        f = self.m["fields"].get(name)
        key = ",".join(str(i) for i in idx)
        if f is None or key not in f: return RandomEnv.scalar(self, name, spec, idx)
        return self._fix(f[key], spec)
    def array(self, name, dims, spec, idx):
        f = self.m["fields"].get(name)
        a = RandomEnv.array(self, name, dims, spec, idx)
        if f is None: return a
        for ix in np.ndindex(*dims):
            key = ",".join(str(i) for i in tuple(idx) + ix)
            if key in f: a[ix] = self._fix(f[key], spec)
        return a
