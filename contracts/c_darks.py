"""darks.py"""
from . import unit
from pyvc.api import *
from .c_l2a import std, same_shape, emgain, GAINS, assume_split, EXPGAIN
from .c_l1 import geometry
import numpy as np

@unit("mean_combine", "P12", "corgidrp.darks.mean_combine")
def mean_combine(M):
    m = M.load("corgidrp.darks")
    err = M.choice("err", [False, True])
    n = M.extent("N", 1, 4)
    H, W = M.extent("H", 1, 4), M.extent("W", 1, 4)
    a0, b0 = M.indexed("im", (H, W), R(-50, 50)), M.indexed("bp", (H, W), I(0, 1))
    ims = M.per_index(n, lambda k: M.asnap(a0(k)))
    bps = M.per_index(n, lambda k: M.asnap(b0(k)))
    out = M.call(m.mean_combine, ims, bps, err=err)
    M.ensure("P12.meancomb.returns", out.ok, out.exc)
    if not out.ok: return
    comb, bp, num, enough = out.value
    for r, c in M.points(H, W):
        good = lambda i: M.eq(M.at(b0(i), r, c), 0)
        cnt = M.count(n, good)
        none = M.eq(cnt, 0)
        s = M.sum(n, lambda i: M.ite(good(i), M.at(a0(i), r, c) ** 2 if err else M.at(a0(i), r, c), 0.0))
        mean = M.div(s, M.num(cnt))
        if err: mean = M.sqrt(mean)
        M.ensure("P12.meancomb.value", M.eq(M.at(comb, r, c), M.ite(none, 0.0, mean), scale=10), (M.at(comb, r, c), mean))
        M.ensure("P12.meancomb.count", M.eq(M.at(num, r, c), cnt))
        M.ensure("P12.meancomb.mask", M.eq(M.at(bp, r, c), M.ite(none, 1, 0)))
    few = M.exists2(H, W, lambda r, c: 2 * M.count(n, lambda i: M.eq(M.at(b0(i), r, c), 0)) < n)
    M.ensure("P12.meancomb.enough", M.Iff(enough, M.Not(few)))

def parents_contract(M):
    """callee contract used by the prover: _record_parent_filenames writes the
    parent list (FILEn, DRPNFILE) into the extension header and nothing else;
    it is decided by the `record_parents` unit"""
    if not M.sym: return
    def rec(self, input_dataset):
        self.ext_hdr.set("FILE0", "parent.fits", "")
        self.ext_hdr.set("DRPNFILE", M.scalar("DRPNFILE", I(1, None)), "")
    M.patch(M.data.Image, "_record_parent_filenames", rec)

def region(g, full):
    if full: return 0, 0, g["frame_rows"], g["frame_cols"]
    im = g["image"]
    return im["r0c0"][0], im["r0c0"][1], im["rows"], im["cols"]

def product(M, p, o, typ, suffix):
    """what every calibration product carries"""
    M.ensure("P10.%s.type" % p, M.eq(o.ext_hdr["DATATYPE"], typ), o.ext_hdr["DATATYPE"])
    M.ensure("P10.%s.level" % p, M.eq(o.ext_hdr["DATALVL"], "CAL"), o.ext_hdr["DATALVL"])
    if not M.sym: M.ensure("P10.%s.filename" % p, o.filename.endswith(suffix), o.filename)

SAME = {"EXPTIME": V(1.0, 2.0), "EMGAIN_C": V(1.0, 3.0), "KGAINPAR": V(7.0, 8.7)}
def same_or_mixed(M):
    """header values of the stack; mostly uniform in concrete runs"""
    return SAME if M.rarely("mixed") else {k: V(s.values[0]) for k, s in SAME.items()}
def all_same(M, ds, old, keys):
    n = M.nframes(ds)
    first = M.old(old, 0).hdr("ext_hdr")
    return M.And(*[M.Not(M.exists(n, lambda i, key=key: M.Not(M.eq(M.old(old, i).hdr("ext_hdr")[key], first[key])))) for key in keys])

for _full in (False, True):
    @unit("synthesized_dark_" + ("full" if _full else "image"), "P01 P06 P10 P13", "corgidrp.darks.build_synthesized_dark", budget=300)
    def synthesized_dark(M, full=_full):
        m = M.load("corgidrp.darks")
        D = M.data
        size = M.choice("maps", ["as declared", "one row more", "one column more", "built-in table"])
        tab = geometry(M, "SCI", False)
        tab["SCI"].pop("_im")
        g_ = tab["SCI"]
        builtin = size == "built-in table"
        if builtin:
            M.patch(m, "detector_areas", tab); M.patch(M.load("corgidrp.detector"), "detector_areas", tab)
        rows, cols = g_["frame_rows"], g_["frame_cols"]
        shape = (3, rows + (1 if size == "one row more" else 0), cols + (1 if size == "one column more" else 0))
        kind = M.choice("gain", ["measured", "no measured"])
        hdr = dict(same_or_mixed(M), EMGAIN_A=R(-2, 50, near=(0.0, 1.0)))
        if kind == "measured": hdr["EMGAIN_M"] = R(0.2, 50, near=(1.0,))
        ds = M.dataset(ext=hdr, shape=(M.extent("dH", 1, 2), M.extent("dW", 1, 2)))
        ph, eh = M.header(), M.header()
        eh["B_O"] = 0.0; eh["B_O_ERR"] = 0.0
        eh[XKEY] = M.scalar("nm.e" + XKEY, I())
        neg = M.rarely("negative")
        lo = None if neg else 0
        data = M.array("nm.data", shape, R(lo, 50, near=(0.0,)))
        nm = D.DetectorNoiseMaps(data, pri_hdr=ph, ext_hdr=eh, input_dataset=M.tiny(), err=M.array("nm.err", (1,) + shape, R(0, 20)), dq=M.array("nm.dq", shape, DQ(1)), err_hdr=M.header())
        old, no = M.snapshot(ds), M.snapshot(nm)
        assume_split(M); parents_contract(M)
        f0 = M.frame(ds, 0)
        a, c = M.get(f0.ext_hdr, "EMGAIN_A"), M.get(f0.ext_hdr, "EMGAIN_C")
        g = M.get(f0.ext_hdr, "EMGAIN_M") if kind == "measured" else M.ite(a > 0, a, c)
        t = M.get(f0.ext_hdr, "EXPTIME")
        out = M.call(m.build_synthesized_dark, ds, nm, detector_regions=None if builtin else tab, full_frame=full)
        fits = size in ("as declared", "built-in table")
        negs = M.Or(*[M.exists2(shape[1], shape[2], lambda r, cc, l=l: M.at(nm.data, l, r, cc) < 0) for l in (1, 2)])
        M.ensure("P13.synth.gate", M.Iff(out.ok, M.And(fits, all_same(M, ds, old, SAME), M.Not(negs), M.Not(g < 1))), (out.ok, out.exc))
        M.unchanged("P01.synth", ds, old); M.unchanged("P13.synth.input", ds, old, link=False)
        M.unchanged("P01.synth.maps", nm, no); M.unchanged("P13.synth.maps", nm, no)
        if not out.ok: return
        o = out.value
        product(M, "synth", o, "Dark", "_DRK_CAL.fits")
        r0, c0, R_, C_ = region(g_, full)
        for nmx in ("data", "dq"):
            d = M.dims(getattr(o, nmx))
            M.ensure("P13.synth.shape", M.And(M.ndim(getattr(o, nmx)) == 2, M.deq(d[0], R_), M.deq(d[1], C_)), nmx)
        M.ensure("P13.synth.errshape", M.And(M.ndim(o.err) == 3, M.deq(M.dims(o.err)[0], 1), M.deq(M.dims(o.err)[1], R_), M.deq(M.dims(o.err)[2], C_)))
        M.ensure("P13.synth.hdr", M.And(M.eq(o.ext_hdr["EMGAIN_C"], g), M.eq(o.ext_hdr["EXPTIME"], t), M.eq(o.ext_hdr["NAXIS1"], C_), M.eq(o.ext_hdr["NAXIS2"], R_)))
        M.ensure("P06.synth.gain", M.eq(o.ext_hdr["EMGAIN_C"], g))
        for r, c in M.points(R_, C_):
            F, C, DC = [M.at(no["data"] if not M.sym else nm.data, l, r0 + r, c0 + c) for l in range(3)]
            Fe, Ce, De = [M.at(nm.err, 0, l, r0 + r, c0 + c) for l in range(3)]
            v = M.div(F, g) + t * DC + C
            M.ensure("P13.synth.value", M.eq(M.at(o.data, r, c), v), (M.at(o.data, r, c), v))
            M.ensure("P06.synth.value", M.eq(M.at(o.data, r, c), v))
            e = M.sqrt(M.div(Fe ** 2, g ** 2) + t ** 2 * De ** 2 + Ce ** 2)
            M.ensure("P13.synth.error", M.eq(M.at(o.err, 0, r, c), e), (M.at(o.err, 0, r, c), e))
            q = M.bor(M.bor(M.at(nm.dq, 0, r0 + r, c0 + c), M.at(nm.dq, 1, r0 + r, c0 + c)), M.at(nm.dq, 2, r0 + r, c0 + c))
            M.ensure("P13.synth.dq", M.eq(M.at(o.dq, r, c), q))

for _full in (False, True):
    @unit("trad_dark_" + ("full" if _full else "image"), "P01 P10 P13", "corgidrp.darks.build_trad_dark", budget=400)
    def trad_dark(M, full=_full):
        m = M.load("corgidrp.darks")
        builtin = M.choice("table", ["given", "built-in"]) == "built-in"
        tab = geometry(M, "SCI", False)
        tab["SCI"].pop("_im")
        g_ = tab["SCI"]
        if builtin:
            M.patch(m, "detector_areas", tab); M.patch(M.load("corgidrp.detector"), "detector_areas", tab)
        rows, cols = g_["frame_rows"], g_["frame_cols"]
        ds = M.dataset(ext=dict(same_or_mixed(M)), shape=(rows, cols), nhi=4, nan=False, dqmask=0x3)
        ta = M.extent("tel0", 0, 7)
        tb = ta + M.extent("teln", 0, 2)
        if not M.rarely("overlap"):
            M.require(ta >= g_["image"]["r0c0"][0] + g_["image"]["rows"])
        dp = M.detparams(TELRSTRT=ta, TELREND=tb)
        po = dict(dp.params)
        old = M.snapshot(ds)
        assume_split(M); parents_contract(M)
        out = M.call(m.build_trad_dark, ds, dp, detector_regions=None if builtin else tab, full_frame=full)
        i0 = g_["image"]["r0c0"][0]; i1 = i0 + g_["image"]["rows"]
        overlap = M.And(ta < i1, tb > i0, ta < tb)
        M.hint(M.ite(ta > i0, ta - i0, 0), 0)
        M.ensure("P13.trad.gate", M.Iff(out.ok, M.And(all_same(M, ds, old, SAME), M.Not(overlap))), (out.ok, out.exc))
        M.unchanged("P01.trad", ds, old); M.unchanged("P13.trad.input", ds, old, link=False)
        M.ensure("P13.trad.params", M.And(set(dp.params) == set(po), *[M.eq(dp.params[x], po[x]) for x in po if x in dp.params]))
        if not out.ok: return
        o = out.value
        product(M, "trad", o, "Dark", "_DRK_CAL.fits")
        r0, c0, R_, C_ = region(g_, full)
        for nmx in ("data", "dq"):
            d = M.dims(getattr(o, nmx))
            M.ensure("P13.trad.shape", M.And(M.ndim(getattr(o, nmx)) == 2, M.deq(d[0], R_), M.deq(d[1], C_)), nmx)
        M.ensure("P13.trad.errshape", M.And(M.ndim(o.err) == 3, M.deq(M.dims(o.err)[0], 1), M.deq(M.dims(o.err)[1], R_), M.deq(M.dims(o.err)[2], C_)))
        M.ensure("P13.trad.hdr", M.And(M.eq(o.ext_hdr["NAXIS1"], C_), M.eq(o.ext_hdr["NAXIS2"], R_), *[M.eq(o.ext_hdr[k], M.old(old, 0).hdr("ext_hdr")[k]) for k in SAME]))
        N = M.nframes(ds)
        for r, c in M.points(R_, C_):
            fr, fc = r0 + r, c0 + c
            tel = M.And(fr >= ta, fr < tb)
            good = lambda i: M.eq(M.at(M.old(old, i).dq, fr, fc), 0)
            val = lambda i: M.ite(tel, 0.0, M.at(M.old(old, i).data, fr, fc))
            cnt = M.count(N, good)
            none = M.eq(cnt, 0)
            mean = M.ite(none, 0.0, M.reduce("mean", N, val, good))
            M.ensure("P13.trad.value", M.eq(M.at(o.data, r, c), mean, scale=50), (M.at(o.data, r, c), mean))
            M.ensure("P13.trad.dq", M.eq(M.at(o.dq, r, c), M.ite(none, 1, M.ite(2 * cnt < N, 256, 0))), (M.at(o.dq, r, c), cnt))
            se = M.sqrt(M.div(M.sum(N, lambda i: M.ite(good(i), M.at(M.old(old, i).err, 0, fr, fc), 0.0) ** 2), M.num(cnt)))
            sd = M.div(M.reduce("std", N, val, good), M.sqrt(M.num(cnt)))
            e = M.sqrt(se ** 2 + sd ** 2)
            M.ensure("P13.trad.error", M.Implies(M.Not(none), M.eq(M.at(o.err, 0, r, c), e, scale=10)), (M.at(o.err, 0, r, c), e))
