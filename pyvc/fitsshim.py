"""Symbolic FITS headers and the few astropy.io.fits names the code uses."""
import copy as _copy
import z3
import astropy.io.fits as fits
from . import core, symarray as sa, loops
from .core import lift, SBool, Sym, SReal, SStr, SInt
from .npshim import Shim, symbolic

class SymHeader:
    """FITS header: definite entries, entries present under a condition
    (`maybe`), and HISTORY / COMMENT cards."""
    def __init__(self, *a, **k):
        e = core.E
        e.counter += 1
        self.birth = e.counter
        self.owner = frozenset(c.k.get_id() for c in e.active)
        e.headers.append(self)
        self.ent = {}            # KEY -> value
        self.maybe = {}          # KEY -> z3 Bool: present?
        self.hist = []
        self.comments_ = {}
        self.nwrites = 0
        self.ghost_of = None
        if a and isinstance(a[0], (SymHeader, fits.Header)):
            for kk in a[0].keys(): self.ent[kk] = a[0][kk]
    @staticmethod
    def _k(key):
        if isinstance(key, SStr): core.E.unsupported("symbolic header keyword")
        if isinstance(key, (int, tuple)): core.E.unsupported("header access by position")
        key = str(key).upper()
        if key.startswith("HIERARCH "): key = key[9:]
        return key
    unknown = frozenset()
    def _mut(self, key):
        e = core.E
        e.check_alive()
        for c in e.active:
            if isinstance(c, loops.LoopCtx):
                c.check_mut("a header", self.birth, self.owner)
                if self.birth < c.birth: c.muts.append((self, key))
        if self.ghost_of is not None:
            e.ghost_writes.append(("header", self))
        self.nwrites += 1
    def _present(self, k):
        if k in self.unknown: core.E.unsupported("header entry set by a loop with index-dependent branches, at another index")
        if k in self.ent:
            c = self.maybe.get(k)
            if c is None: return True
            if core.E.fork(c):
                return True
            return False
        return False
    def __contains__(self, key):
        k = self._k(key)
        if k == "HISTORY": return bool(self.hist)
        return self._present(k)
    def __getitem__(self, key):
        core.E.check_alive()
        k = self._k(key)
        if k == "HISTORY":
            if not self.hist: raise KeyError("Keyword 'HISTORY' not found.")
            return list(self.hist)
        if not self._present(k):
            raise KeyError("Keyword %r not found." % k)
        return self.ent[k]
    def get(self, key, default=None):
        try: return self[key]
        except KeyError: return default
    def __setitem__(self, key, value):
        k = self._k(key)
        self._mut(k)
        if isinstance(value, tuple):
            if len(value) > 1: self.comments_[k] = value[1]
            value = value[0] if value else None
        if k in ("HISTORY", "COMMENT"):
            if k == "HISTORY": self.hist.append(value)
            return
        if isinstance(value, (loops.Poison, loops.Acc)):
            core.E.unsupported("unknown value stored in a header")
        if isinstance(value, sa.SArray):
            if value.ndim == 0: value = value.at()
            else: raise ValueError("Illegal value: array in header")
        if hasattr(value, "item") and not isinstance(value, Sym): value = value.item()
        self.ent[k] = value
        self.maybe.pop(k, None)
    def set(self, key, value=None, comment=None, **k):
        self[key] = (value, comment) if comment is not None else value
    def setdefault(self, key, value=None):
        if key not in self: self[key] = value
        return self[key]
    def update(self, d, **k):
        for kk, v in (d.items() if hasattr(d, "items") else d): self[kk] = v
    def extend(self, d, **k): self.update(d)
    def append(self, card, *a, **k):
        self[card[0]] = tuple(card[1:])
    def add_history(self, v): self["HISTORY"] = v
    def __delitem__(self, key):
        k = self._k(key)
        self._mut(k)
        if not self._present(k): raise KeyError("Keyword %r not found." % k)
        del self.ent[k]
        self.maybe.pop(k, None)
    def remove(self, key, ignore_missing=False, **kw):
        if key not in self:
            if ignore_missing: return
            raise KeyError(key)
        del self[key]
    def pop(self, key, *d):
        if key in self:
            v = self[key]; del self[key]
            return v
        if d: return d[0]
        raise KeyError(key)
    def keys(self):
        return [k for k in list(self.ent) if self._present(k)]
    def __iter__(self): return iter(self.keys())
    def values(self): return [self.ent[k] for k in self.keys()]
    def items(self): return [(k, self.ent[k]) for k in self.keys()]
    def __len__(self): return len(self.keys()) + len(self.hist)
    def __bool__(self): return True
    def copy(self, strip=False):
        h = SymHeader()
        h.ent = dict(self.ent); h.maybe = dict(self.maybe); h.hist = list(self.hist); h.comments_ = dict(self.comments_)
        return h
    __copy__ = copy
    def __deepcopy__(self, memo):
        h = self.copy()
        memo[id(self)] = h
        return h
    def tostring(self, *a, **k): core.E.unsupported("header.tostring")
    @property
    def comments(self): return self.comments_
    def _vc_ghost(self, k, i, memo):
        if k.get_id() not in self.owner: return self
        h = self.copy()
        memo[id(self)] = (h, self)
        h.owner = (self.owner - {k.get_id()}) | loops.owners_of(i)
        h.ent = {a: loops.ghost(v, k, i, memo) for a, v in self.ent.items()}
        h.maybe = {a: z3.substitute(c, (k, sa.zi(i))) for a, c in self.maybe.items()}
        h.hist = [loops.ghost(x, k, i, memo) for x in self.hist]
        d = core.E.dirty.get((id(self), k.get_id()))
        if d is not None and isinstance(d[1], dict):
            if d[1]["unknown"] is None: core.E.unsupported("header changed by a loop with index-dependent branches, at another index")
            h.unknown = frozenset(d[1]["unknown"])
            h.ent = {a: loops.ghost(v, k, i, memo) for a, v in d[1]["ent"].items()}
            h.maybe = {a: z3.substitute(c, (k, sa.zi(i))) for a, c in d[1]["maybe"].items()}
            h.hist = [loops.ghost(x, k, i, memo) for x in d[1]["hist"]]
        elif d is not None:
            h.unknown = frozenset(d[1])
            if "HISTORY" in d[1]: h.hist = [loops.OpaqueStr()]
            for kk in d[1]: h.ent.setdefault(kk, None)
        h.ghost_of = self
        return h
    def snapshot(self):
        return (dict(self.ent), dict(self.maybe), list(self.hist))

class SHDU:
    def __init__(self, data=None, header=None, name=None, **k):
        self.data = data
        self.header = header.copy() if header is not None else SymHeader()      # astropy copies the cards
        if name is not None: self.header["EXTNAME"] = name
    @property
    def name(self): return self.header.ent.get("EXTNAME", "")
    @name.setter
    def name(self, v): self.header["EXTNAME"] = v
    def copy(self):
        r = SHDU.__new__(SHDU)
        r.data, r.header = (None if self.data is None else self.data.copy()), self.header.copy()
        return r
    def _vc_ghost(self, k, i, memo):
        r = SHDU.__new__(SHDU)
        r.data, r.header = loops.ghost(self.data, k, i, memo), loops.ghost(self.header, k, i, memo)
        return r
class SHDUList(list):
    """fits.HDUList: a list of HDUs"""
    def __init__(self, hdus=(), *a, **k):
        list.__init__(self, hdus)
        e = core.E
        e.counter += 1
        self.birth = e.counter
        self.owner = frozenset(c.k.get_id() for c in e.active)
    def append(self, h):
        for c in core.E.active:
            if isinstance(c, loops.LoopCtx): c.check_mut("an HDU list", self.birth, self.owner)
        list.append(self, h)
    def copy(self): return SHDUList(list(self))
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo):
        r = SHDUList(); memo[id(self)] = r
        for x in self: list.append(r, _copy.deepcopy(x, memo))
        return r
    def __getitem__(self, k):
        if isinstance(k, str):
            for h in self:
                if h.name == k: return h
            raise KeyError(k)
        return list.__getitem__(self, k)
    def writeto(self, path, *a, **k):
        e = core.E
        if e.active or not isinstance(path, str): e.unsupported("writing a FITS file in a symbolic loop or to a symbolic path")
        e.io.append(("write", path))
        if path in e.fs and not k.get("overwrite"): raise OSError("File %r already exists." % path)
        e.fs[path] = [x.copy() for x in self]
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def pop(self, k=-1):
        if isinstance(k, str):
            k = next((i for i, h in enumerate(self) if h.name.upper() == k.upper()), None)
            if k is None: raise KeyError("Extension not found.")
        return list.pop(self, k)
    def _vc_ghost(self, k, i, memo):
        if k.get_id() not in self.owner: return self
        r = SHDUList([loops.ghost(x, k, i, memo) for x in self])
        r.owner = (self.owner - {k.get_id()}) | loops.owners_of(i)
        return r

def Header(*a, **k):
    if core.E is None: return fits.Header(*a, **k)
    return SymHeader(*a, **k)
def HDUList(*a, **k):
    if core.E is None: return fits.HDUList(*a, **k)
    return SHDUList(*a, **k)
def ImageHDU(data=None, header=None, name=None, **k):
    if core.E is None: return fits.ImageHDU(data=data, header=header, name=name, **k)
    return SHDU(data, header, name)
def PrimaryHDU(data=None, header=None, **k):
    if core.E is None: return fits.PrimaryHDU(data=data, header=header, **k)
    return SHDU(data, header, None)
def fopen(*a, **k):
    if core.E is None: return fits.open(*a, **k)
    # assumed contract of the file system: reading gives what was written last
    e = core.E
    if e.active or not isinstance(a[0], str): e.unsupported("reading a FITS file in a symbolic loop or from a symbolic path")
    if a[0] not in e.fs: raise FileNotFoundError(a[0])
    return SHDUList([x.copy() for x in e.fs[a[0]]])
fits_shim = Shim(fits, dict(Header=Header, HDUList=HDUList, ImageHDU=ImageHDU, PrimaryHDU=PrimaryHDU, open=fopen))
