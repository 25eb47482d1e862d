"""data.py: Dataset and Image operations, flag maps, splitting"""
from . import unit
from .c_l2a import same_shape, tracked, layer_names, kept_layers
from pyvc.api import *
import numpy as np

def same_pixels(M, p, f, q, n=1, obs=("P05",)):
    same_shape(M, "P05.%s.shape" % p, f.data, q.data)
    for r, c in M.points(*M.dims(f.data)):
        M.ensure("P05.%s.value" % p, M.eq(M.at(f.data, r, c), M.at(q.data, r, c)))
        for l in range(n): M.ensure("P04.%s.error" % p, M.eq(M.at(f.err, l, r, c), M.at(q.err, l, r, c)))
        M.ensure("P03.%s.dq" % p, M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))

@unit("dataset_copy", "P01 P02 P03 P04 P05 P10", ["corgidrp.data.Dataset.__init__", "corgidrp.data.Dataset.copy", "corgidrp.data.Image.copy"])
def dataset_copy(M):
    n = M.choice("layers", [1, 2])
    M.track(n > 1)
    cd = M.choice("copy_data", [True, False])
    ds = M.dataset(layers=n)
    for k, f in M.frames(ds): M.linked("P02.init", ds)
    old = M.snapshot(ds)
    out = M.call(ds.copy, copy_data=cd)
    M.ensure("P02.copy.returns", out.ok, out.exc)
    M.unchanged("P01.copy", ds, old)
    if not out.ok: return
    o = out.value
    M.linked("P02.copy", o)
    M.disjoint("P02.copy.fresh", o, ds)
    M.headers_separate("P01.copy.headers", o, ds)
    M.ensure("P05.copy.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        M.ensure("P10.copy.name", M.And(M.eq(f.filename, q.filename), f.filedir == "."))
        M.header_same("P10.copy.pri", f.pri_hdr, q.h[0], exc=VOLATILE)
        M.header_same("P10.copy.ext", f.ext_hdr, q.h[1], exc=VOLATILE)
        M.header_same("P10.copy.err", f.err_hdr, q.h[2], exc=VOLATILE)
        M.header_same("P10.copy.dqh", f.dq_hdr, q.h[3], exc=VOLATILE)
        same_pixels(M, "copy", f, q, n)

@unit("image_copy", "P01 P02 P10", "corgidrp.data.Image.copy")
def image_copy(M):
    cd = M.choice("copy_data", [True, False])
    im = M.image("im", (M.extent("H", 1, 4), M.extent("W", 1, 4)))
    old = M.snapshot(im)
    out = M.call(im.copy, copy_data=cd)
    M.ensure("P10.imcopy.returns", out.ok, out.exc)
    M.unchanged("P01.imcopy", im, old)
    if not out.ok: return
    o = out.value
    M.ensure("P01.imcopy.headers", all(a is not b for a, b in zip(hdrs(o), hdrs(im))), "shared header")
    M.ensure("P01.imcopy.lists", o.hdu_list is not im.hdu_list and o.hdu_names is not im.hdu_names, "shared extension list")
    for nm in ("data", "err", "dq"):
        a, b = getattr(o, nm), getattr(im, nm)
        sh = M.shares(a, b)
        M.ensure("P02.imcopy.%s" % nm, (not sh) if cd else sh, "copy_data=%s" % cd)
    for h, hs in zip(hdrs(o), old["h"]): M.header_same("P10.imcopy.hdr", h, hs, exc=VOLATILE)

@unit("update_after_step", "P02 P03 P04 P05 P10", "corgidrp.data.Dataset.update_after_processing_step")
def update_after(M):
    nd, nq = M.choice("new_data", [False, True]), M.choice("new_dq", [False, True])
    ne = M.choice("new_err", [0, 1, 3])
    he = M.choice("entries", [False, True])
    ds = M.dataset()
    N, (H, W) = M.nframes(ds), M.dims(M.frame(ds, 0).data)
    data = M.array("new.data", (N, H, W), R(nan=True)) if nd else None
    err = M.array("new.err", (N, ne, H, W), R(nan=True)) if ne else None
    dq = M.astype16(M.array("new.dq", (N, H, W), DQ())) if nq else None
    old = M.snapshot(ds)
    ent = {"VPKEY": M.scalar("entry", R(-5, 5)), "BUNIT": "vp"} if he else None
    out = M.call(ds.update_after_processing_step, "vp step", new_all_data=data, new_all_err=err, new_all_dq=dq, header_entries=ent)
    M.ensure("P05.update.returns", out.ok, out.exc)
    M.linked("P02.update", ds)
    for k, f in M.frames(ds):
        q = M.old(old, k)
        M.hist_grew("P10.update", f.ext_hdr, q.h[1], contains="vp step")
        exc = VOLATILE + (tuple(ent) if he else ())
        M.header_same("P10.update.pri", f.pri_hdr, q.h[0])
        M.header_same("P10.update.ext", f.ext_hdr, q.h[1], exc=exc, hist=False)
        M.header_same("P10.update.err", f.err_hdr, q.h[2], exc=exc)
        if he:
            for h in (f.ext_hdr, f.err_hdr):
                for key in ent: M.ensure("P10.update.entry", M.And(M.has(h, key), M.eq(M.get(h, key), ent[key])), key)
        M.ensure("P04.update.layers", M.deq(M.dims(f.err)[0], ne or 1))
        same_shape(M, "P05.update.shape", f.data, q.data)
        for r, c in M.points(*M.dims(f.data)):
            M.ensure("P05.update.value", M.eq(M.at(f.data, r, c), M.at(data, k, r, c) if nd else M.at(q.data, r, c)))
            M.ensure("P03.update.dq", M.eq(M.at(f.dq, r, c), M.at(dq, k, r, c) if nq else M.at(q.dq, r, c)))
            for l in range(ne or 1):
                M.ensure("P04.update.error", M.eq(M.at(f.err, l, r, c), M.at(err, k, l, r, c) if ne else M.at(q.err, l, r, c)))

@unit("dataset_add_error", "P02 P03 P04 P05 P10", ["corgidrp.data.Dataset.add_error_term", "corgidrp.data.Image.add_error_term"])
def add_error(M):
    tr, n = tracked(M)
    per = M.choice("per_frame", [True, False])
    ds = M.dataset(layers=n)
    N, (H, W) = M.nframes(ds), M.dims(M.frame(ds, 0).data)
    t = M.array("term", ((N,) if per else ()) + (H, W), R(lo=0, nan=True))
    old = M.snapshot(ds)
    out = M.call(ds.add_error_term, t, "vp_error")
    M.ensure("P04.adderr.returns", out.ok, out.exc)
    M.linked("P02.adderr", ds)
    for k, f in M.frames(ds):
        q = M.old(old, k)
        M.ensure("P04.adderr.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n + 1 if tr else 1)), M.dims(f.err))
        if tr: layer_names(M, "P04.adderr.names", f, q, n, ["vp_error"])
        M.hist_grew("P10.adderr", f.err_hdr, q.h[2], contains="vp_error")
        M.header_same("P10.adderr.ext", f.ext_hdr, q.h[1])
        for r, c in M.points(H, W):
            tv = M.at(t, k, r, c) if per else M.at(t, r, c)
            e2 = M.sqrt(M.at(q.err, 0, r, c) ** 2 + tv ** 2)
            M.ensure("P04.adderr.error", M.eq(M.at(f.err, 0, r, c), e2), (M.at(f.err, 0, r, c), e2))
            if tr:
                kept_layers(M, "P04.adderr.kept", f.err, q, n, None, r, c)
                M.ensure("P04.adderr.layer", M.eq(M.at(f.err, n, r, c), tv))
            M.ensure("P05.adderr.value", M.eq(M.at(f.data, r, c), M.at(q.data, r, c)))
            M.ensure("P03.adderr.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))

@unit("dataset_rescale_error", "P02 P03 P04 P05 P10", ["corgidrp.data.Dataset.rescale_error", "corgidrp.data.Image.rescale_error"])
def rescale(M):
    n = M.choice("layers", [1, 2, 3])
    M.track(n > 1)
    per = M.choice("per_frame", [True, False])
    ds = M.dataset(layers=n)
    N, (H, W) = M.nframes(ds), M.dims(M.frame(ds, 0).data)
    t = M.array("factor", ((N,) if per else ()) + (H, W), R(nan=True))
    old = M.snapshot(ds)
    out = M.call(ds.rescale_error, t, "vp_factor")
    M.ensure("P04.rescale.returns", out.ok, out.exc)
    M.linked("P02.rescale", ds)
    for k, f in M.frames(ds):
        q = M.old(old, k)
        M.ensure("P04.rescale.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n)), M.dims(f.err))
        layer_names(M, "P04.rescale.names", f, q, n, [])
        M.hist_grew("P10.rescale", f.err_hdr, q.h[2], contains="vp_factor")
        M.header_same("P10.rescale.ext", f.ext_hdr, q.h[1])
        for r, c in M.points(H, W):
            tv = M.at(t, k, r, c) if per else M.at(t, r, c)
            for l in range(n): M.ensure("P04.rescale.error", M.eq(M.at(f.err, l, r, c), M.at(q.err, l, r, c) * tv))
            M.ensure("P05.rescale.value", M.eq(M.at(f.data, r, c), M.at(q.data, r, c)))
            M.ensure("P03.rescale.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))

@unit("split_dataset", "P18", "corgidrp.data.Dataset.split_dataset", concrete_only="grouping is delegated to pandas.DataFrame.groupby, which is outside the prover's library contracts")
def split(M):
    nk = M.choice("keys", [1, 2, 3])
    kind = M.choice("kind", ["num", "str"])
    vals = {"num": V(1.0, 2.0, 10.0, -3.5), "str": S("A", "B", "AB", "b")}[kind]
    pk = ["VPP1"] if nk != 1 else []
    ek = {1: ["VPE1"], 2: ["VPE1"], 3: ["VPE1", "VPE2"]}[nk]
    ds = M.dataset(nhi=8, pri={x: vals for x in pk}, ext={x: vals for x in ek})
    old = M.snapshot(ds)
    out = M.call(ds.split_dataset, prihdr_keywords=pk or None, exthdr_keywords=ek)
    M.ensure("P18.returns", out.ok, out.exc)
    if not out.ok: return
    subs, uv = out.value
    N = M.nframes(ds)
    key = lambda i: tuple([old["frames"][i]["h"][0][0] and dict(old["frames"][i]["h"][0][0])[x] for x in pk] + [dict(old["frames"][i]["h"][1][0])[x] for x in ek])
    groups = {}
    for i in range(N): groups.setdefault(key(i), []).append(i)
    M.ensure("P18.groups", len(subs) == len(groups) == len(uv), (len(subs), len(groups), len(uv)))
    seen = []
    for s, u in zip(subs, uv):
        idx = [i for f in s.frames for i in range(N) if old["objs"][i] is f]
        M.ensure("P18.frames", len(idx) == len(s.frames), "frames of the sub-dataset are frames of the dataset")
        if not idx: continue
        M.ensure("P18.member", idx == groups[key(idx[0])], (idx, groups))
        uu = u if isinstance(u, tuple) else (u,)
        M.ensure("P18.values", len(uu) == len(key(idx[0])) and all(M.eq(a, b) for a, b in zip(uu, key(idx[0]))), (u, key(idx[0])))
        seen += idx
        M.linked("P02.split", s)
        for j, i in enumerate(idx):
            f, q = s.frames[j], old["frames"][i]
            M.ensure("P18.pixels", np.array_equal(f.data, q["data"], equal_nan=True) and np.array_equal(f.err, q["err"], equal_nan=True) and np.array_equal(f.dq, q["dq"]))
            for h, hs in zip(hdrs(f), q["h"]): M.header_same("P18.headers", h, hs)
    M.ensure("P18.partition", sorted(seen) == list(range(N)), seen)
