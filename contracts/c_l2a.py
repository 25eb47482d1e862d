"""l2a_to_l2b.py"""
from . import unit
from pyvc.api import *
import numpy as np

def std(M, p, ds, old, out, link=True, pri_exc=()):
    """obligations common to every dataset-returning step"""
    M.unchanged("P01." + p, ds, old, link=link)
    if not out.ok:
        return False
    o = out.value
    M.linked("P02." + p, o)
    M.disjoint("P02." + p + ".fresh", o, ds)
    M.headers_separate("P01." + p + ".headers", o, ds)
    for k, f in M.frames(o):
        M.hist_grew("P10." + p, f.ext_hdr, M.old(old, k).h[1])
        M.header_same("P10." + p + ".pri_kept", f.pri_hdr, M.old(old, k).h[0], exc=VOLATILE + tuple(pri_exc))
    return True

def same_shape(M, ob, a, b):
    M.ensure(ob, M.ndim(a) == M.ndim(b) and M.And(*[M.deq(x, y) for x, y in zip(M.dims(a), M.dims(b))]), "shape kept")

@unit("flat_division", "P01 P02 P03 P04 P05 P10", "corgidrp.l2a_to_l2b.flat_division")
def flat_division(M):
    m = M.load("corgidrp.l2a_to_l2b")
    shape = (M.extent("H", 1, 5), M.extent("W", 1, 5))
    ds = M.dataset(shape=shape)
    flat = M.calib("FlatField", "flat", shape, dspec=R(near=(0.0,)), ext={})
    fo = M.snapshot(flat)
    old = M.snapshot(ds)
    out = M.call(m.flat_division, ds, flat)
    M.ensure("P05.flat.returns", out.ok, out.exc)
    M.unchanged("P01.flat.calib", flat, fo)
    if not std(M, "flat", ds, old, out): return
    o = out.value
    M.ensure("P05.flat.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.flat.shape", f.data, q.data)
        for r, c in M.points(*M.dims(f.data)):
            fl = M.at(flat.data, r, c)
            M.ensure("P05.flat.value", M.eq(M.at(f.data, r, c), M.div(M.at(q.data, r, c), fl)))
            e2 = M.sqrt((M.at(q.err, 0, r, c) * M.div(1, fl)) ** 2 + (M.div(M.at(q.data, r, c) * M.at(flat.err, 0, r, c), fl ** 2)) ** 2)
            M.ensure("P04.flat.error", M.eq(M.at(f.err, 0, r, c), e2), (M.at(f.err, 0, r, c), e2))
            od = M.at(q.dq, r, c)
            M.ensure("P03.flat.dq", M.eq(M.at(f.dq, r, c), M.ite(M.eq(fl, 0), M.bor(od, 4), M.bits(od))))
        M.hist_grew("P10.flat.name", f.ext_hdr, q.h[1], contains=flat.filename)

GAINS = {"EMGAIN_M": Maybe(R(0.2, 50, near=(1.0,))), "EMGAIN_A": R(-2, 50, near=(0.0, 1.0, 2.0)), "EMGAIN_C": R(0.2, 50, near=(1.0,))}
def emgain(M, f):
    """documented precedence: measured, then applied when > 0, then commanded"""
    a, c = M.get(f.ext_hdr, "EMGAIN_A"), M.get(f.ext_hdr, "EMGAIN_C")
    g = M.ite(a > 0, a, c)
    if "EMGAIN_M" in f.ext_hdr if not M.sym else "EMGAIN_M" in f.ext_hdr.ent:
        return M.ite(M.has(f.ext_hdr, "EMGAIN_M"), M.get(f.ext_hdr, "EMGAIN_M"), g)
    return g

def tracked(M):
    """error tracking off (one layer in), or on with 1..3 layers in"""
    c = M.choice("track", ["off", 1, 2, 3])
    M.track(c != "off")
    return (c != "off"), (1 if c == "off" else c)

def kept_layers(M, ob, e, q, n, scale=None, r=None, c=None):
    """layers 1..n-1 of the input error survive, multiplied by scale"""
    for l in range(1, n):
        v = M.at(q.err, l, r, c)
        M.ensure(ob, M.eq(M.at(e, l, r, c), v if scale is None else v * scale), ("layer", l))

def layer_names(M, ob, f, q, n, names):
    """names of existing error layers are kept, new ones are recorded in order"""
    h, o = f.err_hdr, q.hdr("err_hdr")
    for l in range(2, n + 1):
        key = "Layer_%d" % l
        M.ensure(ob, M.has(h, key), key)
        M.ensure(ob, M.eq(h[key], o[key]), key)
    for i, nm in enumerate(names):
        key = "Layer_%d" % (n + 1 + i)
        M.ensure(ob, M.has(h, key), key)
        M.ensure(ob, M.eq(h[key], nm), key)

@unit("photon_noise", "P01 P02 P03 P04 P05 P06 P10", "corgidrp.l2a_to_l2b.add_photon_noise")
def photon_noise(M):
    m = M.load("corgidrp.l2a_to_l2b")
    tr, n = tracked(M)
    ds = M.dataset(ext=GAINS, layers=n)
    old = M.snapshot(ds)
    out = M.call(m.add_photon_noise, ds)
    M.ensure("P05.phot.returns", out.ok, out.exc)
    if not std(M, "phot", ds, old, out): return
    o = out.value
    M.ensure("P05.phot.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.phot.shape", f.data, q.data)
        M.ensure("P04.phot.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n + 1 if tr else 1)), M.dims(f.err))
        g = emgain(M, f)
        if tr: layer_names(M, "P04.phot.names", f, q, n, ["photnoise_error"])
        for r, c in M.points(*M.dims(f.data)):
            d = M.at(q.data, r, c)
            M.ensure("P05.phot.value", M.eq(M.at(f.data, r, c), d))
            M.ensure("P03.phot.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))
            term = M.ite(g > 1, M.sqrt(d) * np.sqrt(2), M.sqrt(d))
            e2 = M.sqrt(M.at(q.err, 0, r, c) ** 2 + term ** 2)
            M.ensure("P04.phot.error", M.eq(M.at(f.err, 0, r, c), e2), (M.at(f.err, 0, r, c), e2))
            M.ensure("P06.phot.gain", M.eq(M.at(f.err, 0, r, c), e2), (M.at(f.err, 0, r, c), e2))
            if tr:
                kept_layers(M, "P04.phot.kept", f.err, q, n, None, r, c)
                M.ensure("P04.phot.layer", M.eq(M.at(f.err, n, r, c), term))

@unit("em_gain_division", "P01 P02 P03 P04 P05 P06 P10", "corgidrp.l2a_to_l2b.em_gain_division")
def em_gain_division(M):
    m = M.load("corgidrp.l2a_to_l2b")
    tr, n = tracked(M)
    ds = M.dataset(ext=GAINS, layers=n)
    old = M.snapshot(ds)
    assume_split(M)
    for k, f in M.frames(ds):
        M.require(M.Not(M.eq(emgain(M, f), 0)))
    out = M.call(m.em_gain_division, ds)
    M.ensure("P05.emdiv.returns", out.ok, out.exc)
    if not std(M, "emdiv", ds, old, out): return
    o = out.value
    M.ensure("P05.emdiv.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.emdiv.shape", f.data, q.data)
        M.ensure("P04.emdiv.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n)), M.dims(f.err))
        M.ensure("P10.emdiv.bunit", M.eq(f.ext_hdr["BUNIT"], "detected electrons"))
        M.ensure("P10.emdiv.errbunit", M.eq(f.err_hdr["BUNIT"], "detected electrons"))
        g = emgain(M, f)
        for r, c in M.points(*M.dims(f.data)):
            v = M.div(M.at(q.data, r, c), g)
            M.ensure("P05.emdiv.value", M.eq(M.at(f.data, r, c), v), (M.at(f.data, r, c), v))
            M.ensure("P06.emdiv.gain", M.eq(M.at(f.data, r, c), v), (M.at(f.data, r, c), v))
            M.ensure("P03.emdiv.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))
            for l in range(n):
                M.ensure("P04.emdiv.error", M.eq(M.at(f.err, l, r, c), M.div(M.at(q.err, l, r, c), g)))

def assume_split(M):
    """split_dataset is used modularly: its contract (P18) is assumed here"""
    if M.sym: M.assume_split()

@unit("convert_to_electrons", "P01 P02 P03 P04 P05 P10", "corgidrp.l2a_to_l2b.convert_to_electrons")
def convert_to_electrons(M):
    m = M.load("corgidrp.l2a_to_l2b")
    tr, n = tracked(M)
    ds = M.dataset(layers=n)
    old = M.snapshot(ds)
    D = M.data
    eh = M.header(); M.put(eh, "RN", R(0, 200), "kg.RN", None); M.put(eh, "RN_ERR", R(0, 10), "kg.RN_ERR", None)
    kg = D.KGain(M.array("kg.data", (1, 1), POS(hi=20)), err=M.array("kg.err", (1, 1, 1), R(0, 3)), pri_hdr=M.header(), ext_hdr=eh, input_dataset=M.tiny())
    ko = M.snapshot(kg)
    gain, gerr = M.at(kg.data, 0, 0), M.at(kg.err, 0, 0, 0)
    out = M.call(m.convert_to_electrons, ds, kg)
    M.ensure("P05.kgain.returns", out.ok, out.exc)
    M.unchanged("P01.kgain.calib", kg, ko)
    if not std(M, "kgain", ds, old, out): return
    o = out.value
    M.ensure("P05.kgain.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.kgain.shape", f.data, q.data)
        M.ensure("P04.kgain.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n)), M.dims(f.err))
        for h, nm in ((f.ext_hdr, "ext"), (f.err_hdr, "err")):
            M.ensure("P10.kgain.bunit", M.eq(h["BUNIT"], "detected EM electrons"), nm)
            M.ensure("P05.kgain.header", M.eq(h["KGAINPAR"], gain), nm)
            M.ensure("P10.kgain.header", M.And(M.eq(h["KGAIN_ER"], gerr), M.eq(h["RN"], kg.ext_hdr["RN"]), M.eq(h["RN_ERR"], kg.ext_hdr["RN_ERR"])), nm)
        for r, c in M.points(*M.dims(f.data)):
            d = M.at(q.data, r, c)
            M.ensure("P05.kgain.value", M.eq(M.at(f.data, r, c), d * gain))
            M.ensure("P03.kgain.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))
            e2 = M.sqrt((gain * M.at(q.err, 0, r, c)) ** 2 + (d * gerr) ** 2)
            M.ensure("P04.kgain.error", M.eq(M.at(f.err, 0, r, c), e2), (M.at(f.err, 0, r, c), e2))
            kept_layers(M, "P04.kgain.kept", f.err, q, n, gain, r, c)

@unit("correct_bad_pixels", "P01 P02 P03 P04 P05 P10", "corgidrp.l2a_to_l2b.correct_bad_pixels")
def correct_bad_pixels(M):
    m = M.load("corgidrp.l2a_to_l2b")
    shape = (M.extent("H", 1, 5), M.extent("W", 1, 5))
    ds = M.dataset(shape=shape)
    bp = M.calib("BadPixelMap", "bpmap", shape, dspec=DQ(0xFF))
    bo = M.snapshot(bp)
    old = M.snapshot(ds)
    out = M.call(m.correct_bad_pixels, ds, bp)
    M.ensure("P05.bp.returns", out.ok, out.exc)
    M.unchanged("P01.bp.calib", bp, bo)
    if not std(M, "bp", ds, old, out): return
    o = out.value
    M.ensure("P05.bp.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.bp.shape", f.data, q.data)
        for r, c in M.points(*M.dims(f.data)):
            od = M.bor(M.at(q.dq, r, c), M.at(bp.data, r, c))
            bad = M.Not(M.eq(M.band(od, -1), 0))
            M.ensure("P03.bp.dq", M.eq(M.at(f.dq, r, c), M.ite(bad, M.bor(od, 2), M.bits(od))), (M.at(f.dq, r, c), od))
            v = M.at(f.data, r, c)
            M.ensure("P05.bp.good", M.Implies(M.Not(bad), M.eq(v, M.at(q.data, r, c))))
            M.ensure("P03.bp.nan", M.Implies(bad, M.isnan(v)))
            M.ensure("P04.bp.error", M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r, c)))

@unit("desmear", "P01 P02 P03 P04 P05 P10", "corgidrp.l2a_to_l2b.desmear")
def desmear(M):
    m = M.load("corgidrp.l2a_to_l2b")
    ds = M.dataset(ext={"EXPTIME": POS(hi=100)})
    dp = M.detparams(ROWREADT=M.scalar("ROWREADT", POS(hi=10)))
    old = M.snapshot(ds)
    po = dict(dp.params)
    out = M.call(m.desmear, ds, dp)
    M.ensure("P05.desmear.returns", out.ok, out.exc)
    M.ensure("P01.desmear.calib", M.And(*[M.eq(dp.params[x], po[x]) for x in po]) if set(po) == set(dp.params) else False)
    if not std(M, "desmear", ds, old, out): return
    o = out.value
    M.ensure("P05.desmear.count", M.deq(M.nframes(o), M.nframes(ds)))
    t = po["ROWREADT"]
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.desmear.shape", f.data, q.data)
        M.ensure("P10.desmear.flag", M.And(M.eq(f.ext_hdr["DESMEAR"], True), M.eq(f.err_hdr["DESMEAR"], True)))
        ratio = M.div(t, M.get(f.ext_hdr, "EXPTIME"))
        for r, c in M.points(*M.dims(f.data)):
            s = M.sum(r + 1, lambda i: ratio * (1 + ratio) ** ((i + 1) - (r + 1) - 1) * M.at(q.data, i, c))
            M.ensure("P05.desmear.value", M.eq(M.at(f.data, r, c), M.at(q.data, r, c) - s, scale=100), (M.at(f.data, r, c), M.at(q.data, r, c) - s))
            M.ensure("P03.desmear.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))
            M.ensure("P04.desmear.error", M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r, c)))

EXPGAIN = {"EXPTIME": V(1.0, 2.0), "EMGAIN_C": V(1.0, 3.0), "KGAINPAR": V(7.0, 8.7)}

@unit("dark_subtraction", "P01 P02 P03 P04 P05 P10", "corgidrp.l2a_to_l2b.dark_subtraction")
def dark_subtraction(M):
    m = M.load("corgidrp.l2a_to_l2b")
    shape = (M.extent("H", 1, 5), M.extent("W", 1, 5))
    tr, n = tracked(M)
    ds = M.dataset(shape=shape, layers=n, ext=EXPGAIN)
    pc = M.choice("PC_STAT", [None, "analog master dark", "photon-counted master dark"])
    dark = M.calib("Dark", "dark", shape, ext=dict(EXPGAIN, **({"PC_STAT": pc} if pc else {})))
    do = M.snapshot(dark)
    old = M.snapshot(ds)
    assume_split(M)
    same = M.And(*[M.And(M.Not(M.exists(M.nframes(ds), lambda i: M.Not(M.eq(M.old(old, i).hdr("ext_hdr")[key], dark.ext_hdr[key]))))) for key in EXPGAIN])
    out = M.call(m.dark_subtraction, ds, dark)
    M.unchanged("P01.dark.calib", dark, do)
    M.ensure("P05.dark.gate", M.Iff(out.ok, M.And(same, pc != "photon-counted master dark")), (out.ok, out.exc))
    if not std(M, "dark", ds, old, out): return
    o = out.value
    M.ensure("P05.dark.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.dark.shape", f.data, q.data)
        M.ensure("P04.dark.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n + 1 if tr else 1)), M.dims(f.err))
        M.ensure("P05.dark.bunit", M.And(M.eq(f.ext_hdr["BUNIT"], "Photoelectrons"), M.eq(f.err_hdr["BUNIT"], "Photoelectrons")))
        M.hist_grew("P10.dark.name", f.ext_hdr, q.h[1], contains=dark.filename)
        if tr: layer_names(M, "P04.dark.names", f, q, n, ["dark_error"])
        for r, c in M.points(*M.dims(f.data)):
            M.ensure("P05.dark.value", M.eq(M.at(f.data, r, c), M.at(q.data, r, c) - M.at(dark.data, r, c)))
            M.ensure("P03.dark.dq", M.eq(M.at(f.dq, r, c), M.bor(M.at(q.dq, r, c), M.at(dark.dq, r, c))))
            t = M.at(dark.err, 0, r, c)
            e2 = M.sqrt(M.at(q.err, 0, r, c) ** 2 + t ** 2)
            M.ensure("P04.dark.error", M.eq(M.at(f.err, 0, r, c), e2), (M.at(f.err, 0, r, c), e2))
            if tr:
                kept_layers(M, "P04.dark.kept", f.err, q, n, None, r, c)
                M.ensure("P04.dark.layer", M.eq(M.at(f.err, n, r, c), t))

@unit("frame_select", "P01 P02 P03 P05 P10 P11", "corgidrp.l2a_to_l2b.frame_select", budget=300)
def frame_select(M): frame_select_(M, ["none", "overexp"], [True, False])
@unit("frame_select_rms", "P01 P02 P03 P05 P10 P11", "corgidrp.l2a_to_l2b.frame_select", budget=300)
def frame_select_r(M): frame_select_(M, ["rms"], [True, False])
@unit("frame_select_bias", "P01 P02 P03 P05 P10 P11", "corgidrp.l2a_to_l2b.frame_select", budget=300)
def frame_select_bi(M): frame_select_(M, ["bias"], [True, False])
@unit("frame_select_bpix_discard", "P11", "corgidrp.l2a_to_l2b.frame_select", budget=300)
def frame_select_b1(M): frame_select_(M, ["bpix allowed"], [True])
@unit("frame_select_bpix_mark", "P11", "corgidrp.l2a_to_l2b.frame_select", budget=300)
def frame_select_b2(M): frame_select_(M, ["bpix allowed"], [False])
@unit("frame_select_combined", "P01 P02 P03 P05 P10 P11", "corgidrp.l2a_to_l2b.frame_select", concrete_only="all criteria at once: too many paths for the prover; each criterion alone is proved by the other frame_select units")
def frame_select_c(M): frame_select_(M, ["all", "bpix"], [True, False])
def frame_select_(M, criteria, discard):
    m = M.load("corgidrp.l2a_to_l2b")
    on = M.choice("criteria", criteria)
    keep = M.choice("discard", discard)
    ds = M.dataset(ext={"OVEREXP": B(), "Z2VAR": R(0, 10), "Z3VAR": R(0, 10), "Z2RES": R(0, 10), "Z3RES": R(0, 10)})
    N = M.nframes(ds)
    frac = M.scalar("bpix_frac", R(0, 1, hi_open=True, near=(0.2, 0.5))) if on in ("bpix", "bpix allowed", "all") else 1.0
    allowed = 6 if on in ("bpix allowed", "all") else 0
    over = on in ("overexp", "all")
    rms = M.scalar("rms", R(0, 10)) if on in ("rms", "all") else None
    bias = M.scalar("bias", R(0, 10)) if on in ("bias", "all") else None
    old = M.snapshot(ds)
    def bad(i):
        q = M.old(old, i)
        h = q.hdr("ext_hdr")
        t = []
        H, W = M.dims(q.dq)
        if on in ("bpix", "bpix allowed", "all"):
            nbad = M.count2(H, W, lambda r, c: M.Not(M.eq(M.band(M.at(q.dq, r, c), ~allowed), 0)))
            t.append(M.div(M.num(nbad), M.num(H) * M.num(W)) > frac)
        if over: t.append(h["OVEREXP"])
        if rms is not None: t += [h["Z2VAR"] > rms, h["Z3VAR"] > rms]
        if bias is not None: t += [h["Z2RES"] > bias, h["Z3RES"] > bias]
        return M.Or(*t) if t else M.Or(False)
    out = M.call(m.frame_select, ds, bpix_frac=frac, allowed_bpix=allowed, overexp=over, tt_rms_thres=rms, tt_bias_thres=bias, discard_bad=keep)
    M.unchanged("P01.select", ds, old)
    M.ensure("P11.select.survivors", M.Iff(out.ok, M.exists(N, lambda i: M.Not(bad(i)))), (out.ok, out.exc))
    if not out.ok: return
    o = out.value
    M.linked("P02.select", o)
    M.disjoint("P02.select.fresh", o, ds)
    M.headers_separate("P01.select.headers", o, ds)
    if keep: sel = M.selected("P11.select.kept", o, N, lambda i: M.Not(bad(i)))
    else:
        M.ensure("P11.select.count", M.deq(M.nframes(o), N))
        sel = [(k, f, k) for k, f in M.frames(o)]
    for k, f, i in sel:
        q = M.old(old, i)
        M.hist_grew("P10.select", f.ext_hdr, q.h[1])
        M.header_same("P10.select.pri_kept", f.pri_hdr, q.h[0], exc=VOLATILE)
        M.header_same("P11.select.ext_kept", f.ext_hdr, q.h[1], exc=VOLATILE + ("IS_BAD",) + tuple("FRMSEL0%d" % j for j in range(1, 7)), hist=False)
        for j, v in enumerate([frac, over, rms, rms, bias, bias]):
            key = "FRMSEL0%d" % (j + 1)
            M.ensure("P11.select.recorded", M.And(M.has(f.ext_hdr, key), M.eq(M.get(f.ext_hdr, key), v)), key)
        if not keep:
            was = q.hdr("ext_hdr").get("IS_BAD", False)
            M.ensure("P11.select.marked", M.And(M.has(f.ext_hdr, "IS_BAD"), M.Iff(M.get(f.ext_hdr, "IS_BAD"), M.Or(was, bad(i)))), k)
        same_shape(M, "P11.select.shape", f.data, q.data)
        M.ensure("P11.select.name", M.eq(f.filename, q.filename))
        for r, c in M.points(*M.dims(f.data)):
            for ob in ("P11.select.value", "P05.select.value"):
                M.ensure(ob, M.eq(M.at(f.data, r, c), M.at(q.data, r, c)))
            M.ensure("P11.select.err", M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r, c)))
            for ob in ("P11.select.dq", "P03.select.dq"):
                M.ensure(ob, M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))

LEVELS = {"l2a": ("corgidrp.l1_to_l2a", "update_to_l2a", "L1", "L2a", "_L1_", "_L2a"),
          "l2b": ("corgidrp.l2a_to_l2b", "update_to_l2b", "L2a", "L2b", "_L2a", "_L2b"),
          "l3": ("corgidrp.l2b_to_l3", "update_to_l3", "L2b", "L3", "_L2b", "_L3_")}
for _nm in LEVELS:
    @unit("update_to_" + _nm, "P01 P02 P03 P05 P09 P10", LEVELS[_nm][0] + "." + LEVELS[_nm][1])
    def update_level(M, _nm=_nm):
        modname, fn, lo, hi, a, b = LEVELS[_nm]
        m = M.load(modname)
        ds = M.dataset(level=S("L1", "L2a", "L2b", "L3", "L4", "CAL", "TDA", "") if M.rarely("mixed levels") else S(lo), symname=True)
        old = M.snapshot(ds)
        n = M.nframes(ds)
        allok = M.Not(M.exists(n, lambda i: M.Not(M.eq(M.old(old, i).hdr("ext_hdr")["DATALVL"], lo))))
        out = M.call(getattr(m, fn), ds)
        M.ensure("P09.%s.gate" % _nm, M.Iff(out.ok, allok), (out.ok, out.exc))
        M.unchanged("P01.%s" % _nm, ds, old)
        if not out.ok:
            return
        o = out.value
        M.linked("P02.%s" % _nm, o)
        M.headers_separate("P01.%s.headers" % _nm, o, ds)
        M.ensure("P05.%s.count" % _nm, M.deq(M.nframes(o), n))
        for k, f in M.frames(o):
            q = M.old(old, k)
            M.ensure("P09.%s.level" % _nm, M.eq(f.ext_hdr["DATALVL"], hi))
            M.header_same("P09.%s.pri" % _nm, f.pri_hdr, q.h[0], exc=VOLATILE)
            M.header_same("P09.%s.ext" % _nm, f.ext_hdr, q.h[1], exc=VOLATILE + ("DATALVL",), hist=False)
            M.header_same("P09.%s.err" % _nm, f.err_hdr, q.h[2], exc=VOLATILE)
            M.header_same("P09.%s.dqh" % _nm, f.dq_hdr, q.h[3], exc=VOLATILE)
            M.hist_grew("P10.%s" % _nm, f.ext_hdr, q.h[1])
            M.ensure("P09.%s.name" % _nm, M.eq(f.filename, M.replace1(q.filename, a, b)), (f.filename, q.filename))
            same_shape(M, "P09.%s.shape" % _nm, f.data, q.data)
            for r, c in M.points(*M.dims(f.data)):
                for ob in ("P09.%s.value", "P05.%s.value"):
                    M.ensure(ob % _nm, M.eq(M.at(f.data, r, c), M.at(q.data, r, c)))
                M.ensure("P09.%s.err" % _nm, M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r, c)))
                for ob in ("P09.%s.dq", "P03.%s.dq"):
                    M.ensure(ob % _nm, M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))
