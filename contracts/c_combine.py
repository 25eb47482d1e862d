"""combine.py"""
from . import unit
from pyvc.api import *
from .c_darks import parents_contract
import numpy as np

def combined(M, n, val, err, dq, collapse, scale):
    """specification of one pixel of a combination of n samples: value, error, flags"""
    good = lambda i: M.eq(dq(i), 0)
    cnt = M.count(n, good)
    none = M.eq(cnt, 0)
    s = M.num(n) if scale else 1.0
    mid = M.reduce("mean" if collapse == "mean" else "median", n, val, good)
    ms = M.reduce("mean", n, lambda i: err(i) ** 2, good)
    e = M.div(M.sqrt(ms), M.sqrt(M.num(cnt)))
    if collapse == "median": e = e * np.sqrt(np.pi / 2)
    return none, mid * s, e * s, M.borall(n, dq)

@unit("combine_images", "P12 P03", "corgidrp.combine.combine_images")
def combine_images(M):
    m = M.load("corgidrp.combine")
    collapse = M.choice("collapse", ["mean", "median", "MEAN"])
    scale = M.choice("scale", [True, False])
    L = M.choice("layers", [1, 2])
    n = M.extent("N", 1, 5)
    H, W = M.extent("H", 1, 3), M.extent("W", 1, 3)
    d, q = M.array("d", (n, H, W), R(-50, 50)), M.astype16(M.array("q", (n, H, W), DQ(0x5)))
    e = M.array("e", (n, L, H, W), R(0, 9))
    d0, q0, e0 = M.asnap(d), M.asnap(q), M.asnap(e)
    out = M.call(m.combine_images, d, e, q, collapse, scale)
    M.ensure("P12.comb.returns", out.ok, out.exc)
    if not out.ok: return
    od, oe, oq = out.value
    for nmx, a in (("data", od), ("dq", oq)): M.ensure("P12.comb.shape", M.And(M.ndim(a) == 2, M.deq(M.dims(a)[0], H), M.deq(M.dims(a)[1], W)), nmx)
    M.ensure("P12.comb.errshape", M.And(M.ndim(oe) == 3, *[M.deq(x, y) for x, y in zip(M.dims(oe), (L, H, W))]))
    for r, c in M.points(H, W):
        for l in range(L):
            none, v, er, fl = combined(M, n, lambda i: M.at(d0, i, r, c), lambda i: M.at(e0, i, l, r, c), lambda i: M.at(q0, i, r, c), collapse.lower(), scale)
            M.ensure("P12.comb.error", M.Implies(M.Not(none), M.eq(M.at(oe, l, r, c), er, scale=10)), (l, M.at(oe, l, r, c), er))
        M.ensure("P12.comb.value", M.Iff(none, M.isnan(M.at(od, r, c))), (M.at(od, r, c), none))
        M.ensure("P12.comb.value", M.Implies(M.Not(none), M.eq(M.at(od, r, c), v, scale=50)), (M.at(od, r, c), v))
        M.ensure("P12.comb.dq", M.eq(M.at(oq, r, c), M.ite(none, fl, 0)), (M.at(oq, r, c), fl))
        M.ensure("P03.comb.dq", M.Implies(none, M.eq(M.at(oq, r, c), fl)))

def expected_parents(frames):
    """names a product made of these frames must list"""
    out = set()
    for f in frames:
        out.add(f.filename)
        if "DRPNFILE" in f.ext_hdr: out |= {f.ext_hdr["FILE%d" % j] for j in range(f.ext_hdr["DRPNFILE"])}
    return out
def recorded_parents(f):
    return [f.ext_hdr["FILE%d" % j] for j in range(f.ext_hdr["DRPNFILE"])]

def given_parents(M):
    """concrete runs: input frames that have parents themselves"""
    if M.sym or not M.rarely("parents"): return {}
    return {"DRPNFILE": 2, "FILE0": lambda k: "raw_%d_.fits" % (k // 2), "FILE1": lambda k: "raw_%d_b.fits" % k}

@unit("combine_subexposures", "P01 P02 P10 P12", ["corgidrp.combine.combine_subexposures", "corgidrp.combine.combine_images"], budget=200, bounded="group sizes 1, 2, 3 and the whole dataset (any number of groups, frames and pixels)")
def combine_subexposures(M):
    m = M.load("corgidrp.combine")
    g = M.choice("group", [None, 1, 2, 3])
    collapse = M.choice("collapse", ["mean", "median"])
    scale = M.choice("scale", [True, False])
    L = M.choice("layers", [1, 2])
    M.track(L > 1)
    ds = M.dataset(layers=L, nhi=6, nan=False, dqmask=0x5, symname=True, ext=given_parents(M))
    old = M.snapshot(ds)
    parents_contract(M)
    N, (H, W) = M.nframes(ds), M.dims(M.frame(ds, 0).data)
    out = M.call(m.combine_subexposures, ds, num_frames_per_group=g, collapse=collapse, num_frames_scaling=scale)
    G = N if g is None else g
    M.ensure("P12.sub.gate", M.Iff(out.ok, True if g in (None, 1) else M.eq(N % G, 0)), (out.ok, out.exc))
    M.unchanged("P01.sub", ds, old)
    if not out.ok: return
    o = out.value
    M.linked("P02.sub", o)
    M.disjoint("P02.sub.fresh", o, ds)
    M.ensure("P12.sub.count", M.eq(M.nframes(o) * G, N))
    for k, f in M.frames(o):
        first, last = M.old(old, k * G), M.old(old, k * G + G - 1)
        M.ensure("P12.sub.name", M.eq(f.filename, last.filename))
        M.ensure("P12.sub.numfr", M.eq(f.ext_hdr["NUM_FR"], G))
        if not M.sym:
            want = expected_parents(ds.frames[k * G:(k + 1) * G])
            got = recorded_parents(f)
            for p in ("P12", "P10"): M.ensure(p + ".sub.parents", len(got) == len(set(got)) and set(got) == want, (got, want))
        M.hist_grew("P10.sub.hist", f.ext_hdr, first.h[1], contains="ombine")
        for i, h in enumerate(("pri", "ext", "err", "dqh")):
            skip = VOLATILE + (("NUM_FR", "DRPNFILE") + tuple("FILE%d" % j for j in range(20)) if i == 1 else ())
            M.header_same("P12.sub." + h, hdrs(f)[i], first.h[i], exc=skip, hist=i != 1)
        M.ensure("P12.sub.shape", M.And(*[M.deq(x, y) for x, y in zip(M.dims(f.data), (H, W))]))
        M.ensure("P12.sub.errshape", M.And(M.ndim(f.err) == 3, *[M.deq(x, y) for x, y in zip(M.dims(f.err), (L, H, W))]))
        for r, c in M.points(H, W):
            src = lambda i: M.old(old, k * G + i)
            for l in range(L):
                none, v, er, fl = combined(M, G, lambda i: M.at(src(i).data, r, c), lambda i: M.at(src(i).err, l, r, c), lambda i: M.at(src(i).dq, r, c), collapse, scale)
                M.ensure("P12.sub.error", M.Implies(M.Not(none), M.eq(M.at(f.err, l, r, c), er, scale=10)), (l, M.at(f.err, l, r, c), er))
            M.ensure("P12.sub.value", M.Iff(none, M.isnan(M.at(f.data, r, c))))
            M.ensure("P12.sub.value", M.Implies(M.Not(none), M.eq(M.at(f.data, r, c), v, scale=50)), (M.at(f.data, r, c), v))
            M.ensure("P12.sub.dq", M.eq(M.at(f.dq, r, c), M.ite(none, fl, 0)), (M.at(f.dq, r, c), fl))
