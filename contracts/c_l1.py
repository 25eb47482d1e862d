"""l1_to_l2a.py and the detector helpers it uses"""
from . import unit
from pyvc.api import *
from .c_l2a import std, same_shape, emgain, GAINS, kept_layers, layer_names, tracked
import numpy as np

def geometry(M, a, right):
    """an arbitrary consistent geometry table: the prescan, the imaging area
    (image + shielded pixels) and the serial overscan share the columns, the
    imaging rows and the parallel overscan share the rows"""
    tab = {}
    if True:
        e = lambda n, lo, hi: M.extent(a + "." + n, lo, hi)
        top, H, bot, par = e("top", 0, 2), e("H", 1, 3), e("bot", 0, 2), e("par", 1, 2)
        lft, W, rgt, ser = e("lft", 0, 2), e("W", 1, 3), e("rgt", 0, 2), e("ser", 1, 2)
        pa, pb, pc = e("pa", 0, 2), e("pb", 1, 4), e("pc", 0, 2)
        p = pa + pb + pc
        rows_im, cols_im = top + H + bot, lft + W + rgt
        c_im = ser if right else p
        c_pre = ser + cols_im if right else 0
        c_ser = 0 if right else p + cols_im
        fr, fc = rows_im + par, p + cols_im + ser
        tab[a] = dict(frame_rows=fr, frame_cols=fc,
            image=dict(rows=H, cols=W, r0c0=[top, c_im + lft]),
            prescan=dict(rows=fr, cols=p, r0c0=[0, c_pre], col_start=c_pre + pa, col_end=c_pre + pa + pb),
            prescan_reliable=dict(rows=fr, cols=pb, r0c0=[0, c_pre + pa]),
            parallel_overscan=dict(rows=par, cols=cols_im, r0c0=[rows_im, c_im]),
            serial_overscan=dict(rows=fr, cols=ser, r0c0=[0, c_ser]))
        tab[a]["_im"] = (rows_im, cols_im, 0, c_im)
    return tab

class NoiseMaps:
    """what prescan_biassub reads of a DetectorNoiseMaps"""

@unit("prescan_image", "P01 P02 P03 P04 P07 P10", "corgidrp.l1_to_l2a.prescan_biassub", budget=400)
def prescan_image(M): prescan_(M, "image")
@unit("prescan_imaging_area", "P01 P02 P03 P04 P07 P10", "corgidrp.l1_to_l2a.prescan_biassub", budget=400)
def prescan_imaging_area(M): prescan_(M, "imaging area")
@unit("prescan_full", "P01 P02 P03 P04 P07 P10", "corgidrp.l1_to_l2a.prescan_biassub", budget=400)
def prescan_full(M): prescan_(M, "full")
CASES = [("SCI", False, False, True, "as declared"), ("ENG_CONV", True, 2, False, "as declared"), ("ENG", True, False, False, "as declared"), ("ENG_EM", False, 1, True, "as declared"),
         ("SCI", False, False, False, "one row more"), ("ENG", False, False, False, "one column more"), ("CAL", False, False, False, "as declared"),
         ("ENG_CONV", True, False, False, "built-in table"), ("SCI", False, False, False, "built-in table")]
def prescan_(M, region):
    m = M.load("corgidrp.l1_to_l2a")
    arr, side, track, maps, size = M.choice("case", CASES)
    tab = geometry(M, arr, side)
    g = tab[arr]
    im = g.pop("_im")
    if region == "full": r0, c0, R_, C_ = 0, 0, g["frame_rows"], g["frame_cols"]
    elif region == "image": r0, c0, R_, C_ = g["image"]["r0c0"][0], g["image"]["r0c0"][1], g["image"]["rows"], g["image"]["cols"]
    else: r0, c0, R_, C_ = im[2], im[3], im[0], im[1]
    tr, n = bool(track), track or 1
    M.track(tr)
    bad = size not in ("as declared", "built-in table")
    builtin = size == "built-in table"
    if builtin:
        # whatever the built-in table holds, it is the geometry in force when none is given
        M.patch(m, "detector_areas", tab); M.patch(M.load("corgidrp.detector"), "detector_areas", tab)
    ds = M.dataset(shape=(g["frame_rows"] + (1 if size == "one row more" else 0), g["frame_cols"] + (1 if size == "one column more" else 0)), ext={"ARRTYPE": arr}, level="L1", layers=n)
    nm = None
    off, offe = 0, 0
    if maps:
        nm = NoiseMaps()
        nm.bias_offset = off = M.scalar("bias_offset", R(-5, 5))
        nm.bias_offset_err = offe = M.scalar("bias_offset_err", R(0, 5))
    old = M.snapshot(ds)
    out = M.call(m.prescan_biassub, ds, noise_maps=nm, return_full_frame=(region == "full"), detector_regions=None if builtin else tab, use_imaging_area=(region == "imaging area"))
    M.ensure("P07.prescan.gate", M.Iff(out.ok, arr != "CAL" and not bad), (out.ok, out.exc))
    if not std(M, "prescan", ds, old, out): return
    o = out.value
    M.ensure("P07.prescan.count", M.deq(M.nframes(o), M.nframes(ds)))
    s, nc = g["prescan"]["col_start"], g["prescan"]["col_end"] - g["prescan"]["col_start"]
    for k, f in M.frames(o):
        q = M.old(old, k)
        M.ensure("P07.prescan.shape", M.And(M.ndim(f.data) == 2, M.deq(M.dims(f.data)[0], R_), M.deq(M.dims(f.data)[1], C_)), M.dims(f.data))
        M.ensure("P07.prescan.dqshape", M.And(M.ndim(f.dq) == 2, M.deq(M.dims(f.dq)[0], R_), M.deq(M.dims(f.dq)[1], C_)), M.dims(f.dq))
        M.ensure("P04.prescan.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n + 1 if tr else 1)), M.dims(f.err))
        M.ensure("P07.prescan.naxis", M.And(M.eq(f.ext_hdr["NAXIS1"], C_), M.eq(f.ext_hdr["NAXIS2"], R_)), (f.ext_hdr["NAXIS1"], f.ext_hdr["NAXIS2"]))
        M.ensure("P07.prescan.biasext", [x for x in f.hdu_names if x not in ("ERR", "DQ")] == ["BIAS"] and len(f.hdu_list) == 1, list(f.hdu_names))
        if tr: layer_names(M, "P04.prescan.names", f, q, n, ["prescan_bias_sub"])
        bias = f.hdu_list[-1].data
        for r, c in M.points(R_, C_):
            fr, fc = r0 + r, c0 + c
            med = M.reduce("median", nc, lambda i: M.at(q.data, fr, s + i))
            sd = M.reduce("std", nc, lambda i: M.at(q.data, fr, s + i))
            v = M.at(q.data, fr, fc) - (med - off)
            M.ensure("P07.prescan.value", M.eq(M.at(f.data, r, c), v, scale=100), (M.at(f.data, r, c), v))
            M.ensure("P07.prescan.bias", M.eq(M.at(bias, r), med - off, scale=1000))
            M.ensure("P03.prescan.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, fr, fc)))
            M.ensure("P07.prescan.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, fr, fc)))
            term = M.sqrt(M.div(sd, M.sqrt(M.num(nc))) ** 2 + offe ** 2)
            e2 = M.sqrt(M.at(q.err, 0, fr, fc) ** 2 + term ** 2)
            for ob in ("P04.prescan.error", "P07.prescan.error"):
                M.ensure(ob, M.eq(M.at(f.err, 0, r, c), e2, scale=10), (M.at(f.err, 0, r, c), e2))
            if tr:
                for l in range(1, n): M.ensure("P04.prescan.kept", M.eq(M.at(f.err, l, r, c), M.at(q.err, l, fr, fc)), ("layer", l))
                M.ensure("P04.prescan.layer", M.eq(M.at(f.err, n, r, c), term, scale=10))


def cosmic_oracle(img, fwc, sat, plat, filt, box, tail, full, geom):
    """documented detection, written independently: a hit is a place where the
    median-filtered row (window filt + 1) reaches sat * fwc; its head is the
    start of the run of pixels >= plat * fwc; head .. head + filt + tail are
    masked along the row and a box around the head"""
    H, W = img.shape
    mask = np.zeros((H, W), int)
    r_lo, r_hi, c_lo, c_hi = (0, H - 1, 0, W - 1)
    if full:
        g = geom["image"]
        r_lo, c_lo = g["r0c0"]
        r_hi, c_hi = r_lo + g["rows"], c_lo + g["cols"]
    n = filt + 1
    for i in range(H):
        if not (r_lo <= i <= r_hi) or not img[i].max() >= sat * fwc: continue
        heads = set()
        for c in range(W):
            win = sorted(img[i, min(max(c - n // 2 + j, 0), W - 1)] for j in range(n))
            if not win[n // 2] >= sat * fwc: continue
            h = c
            while h > 0 and img[i, h] >= plat * fwc: h -= 1
            if img[i, h] < plat * fwc: h += 1
            heads.add(h)
        over = []
        for h in sorted(heads):
            if not c_lo <= h <= c_hi: continue
            end = h + filt + tail + 1
            if end > W: over.append(end - W)
            mask[i, h:min(end, W)] = 1
            mask[max(i - box, r_lo):min(i + box, r_hi) + 1, max(h - box, c_lo):min(h + box, c_hi) + 1] = 1
        if full and over:
            flat = mask.reshape(-1)
            for x in over: flat[(i + 1) * W - 1:(i + 1) * W - 1 + x] = 1
    return mask

@unit("detect_cosmic_rays", "P01 P02 P03 P05 P06 P08 P10", "corgidrp.l1_to_l2a.detect_cosmic_rays", budget=300)
def detect_cosmic_rays(M):
    m = M.load("corgidrp.l1_to_l2a")
    D = M.data
    shape = (M.extent("H", 1, 5), M.extent("W", 1, 6))
    mode = M.choice("mode", ["image", "full"])
    arr = "SCI"
    ds = M.dataset(shape=shape, ext=dict(GAINS, ARRTYPE=S("SCI", "ENG")), level="L1", nan=False)
    pp, em = M.scalar("FWC_PP_E", POS(hi=60)), M.scalar("FWC_EM_E", POS(hi=60))
    par = M.scalar("KGAINPAR", POS(hi=3))
    dp = M.detparams(FWC_PP_E=pp, FWC_EM_E=em, KGAINPAR=par)
    kg, kgain = None, par
    if M.choice("kgain", [True, False]):
        kg = D.KGain(M.array("kg.data", (1, 1), POS(hi=3)), err=M.array("kg.err", (1, 1, 1), R(0, 3)), pri_hdr=M.header(), ext_hdr=M.header(), input_dataset=M.tiny())
        kgain = M.at(kg.data, 0, 0)
    sat, plat = M.scalar("sat", R(0.2, 1)), M.scalar("plat", R(0.1, 1))
    filt, box, tail = (M.scalar("filt", I(1, 2)), M.scalar("box", I(0, 2)), M.scalar("tail", I(0, 4)))
    H, W = shape
    i = 0 if M.sym or H < 3 or W < 3 else M.choice("inset", [0, 1])
    geom = {a: dict(image=dict(rows=H - 2 * i, cols=W - 2 * i, r0c0=[i, i])) for a in ("SCI", "ENG")}
    old = M.snapshot(ds)
    calls = []
    if M.sym:
        def flag_cosmics(cube, fwc, sat_thresh, plat_thresh, cosm_filter, cosm_box, cosm_tail, mode='image', detector_regions=None, arrtype='SCI'):
            """contract: some 0/1 mask of the shape of the cube; here its arguments are checked"""
            k = M.loop_index()
            q = M.old(old, k)
            M.ensure("P08.cr.arg.shape", M.And(M.ndim(cube) == 3, M.deq(M.dims(cube)[0], 1), M.deq(M.dims(cube)[1], H), M.deq(M.dims(cube)[2], W)))
            for r, c in M.points(H, W):
                M.ensure("P08.cr.arg.cube", M.eq(M.at(cube, 0, r, c), M.at(q.data, r, c)))
            M.ensure("P08.cr.arg.fwc", M.eq(fwc, M.div(em, kgain)))
            M.ensure("P08.cr.arg.thresholds", M.And(M.eq(sat_thresh, sat), M.eq(plat_thresh, plat)))
            M.ensure("P08.cr.arg.sizes", M.And(M.eq(cosm_filter, filt), M.eq(cosm_box, box), M.eq(cosm_tail, tail)))
            M.ensure("P08.cr.arg.mode", mode == wanted_mode and detector_regions is geom)
            M.ensure("P08.cr.arg.arrtype", M.eq(arrtype, q.hdr("ext_hdr")["ARRTYPE"]))
            return M.array("mask", (1, H, W), I(0, 1), k)
        wanted_mode = mode
        M.patch(m, "flag_cosmics", flag_cosmics)
    out = M.call(m.detect_cosmic_rays, ds, dp, kg, sat_thresh=sat, plat_thresh=plat, cosm_filter=filt, cosm_box=box, cosm_tail=tail, mode=mode, detector_regions=geom)
    M.ensure("P08.cr.returns", out.ok, out.exc)
    if not std(M, "cr", ds, old, out): return
    o = out.value
    M.ensure("P08.cr.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P08.cr.shape", f.data, q.data)
        g = emgain(M, f)
        a, b = g * M.div(pp, kgain), M.div(em, kgain)
        level = sat * M.ite(a < b, a, b)
        for ob in ("P08.cr.header", "P06.cr.header"):
            M.ensure(ob, M.And(M.eq(f.ext_hdr["FWC_PP_E"], pp), M.eq(f.ext_hdr["FWC_EM_E"], em), M.eq(f.ext_hdr["SAT_DN"], level)), (f.ext_hdr["SAT_DN"], level))
        if M.sym: mask = M.array("mask", (1, H, W), I(0, 1), k)
        else: mask = cosmic_oracle(q.data, em / kgain, sat, plat, filt, box, tail, mode == "full", geom["SCI"])[None]
        for r, c in M.points(*M.dims(f.data)):
            d = M.at(q.data, r, c)
            if not M.sym and abs(d - level) < 1e-9 * abs(level): continue      # rounding of the threshold itself
            for ob in ("P08.cr.value", "P05.cr.value"): M.ensure(ob, M.eq(M.at(f.data, r, c), d))
            M.ensure("P08.cr.err", M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r, c)))
            od = M.at(q.dq, r, c)
            w = M.ite(d >= level, M.bor(od, 32), M.bits(od))
            w = M.ite(M.eq(M.at(mask, 0, r, c), 1), M.bor(w, 128), w)
            for ob in ("P08.cr.dq", "P03.cr.dq", "P06.cr.dq"):
                M.ensure(ob, M.eq(M.at(f.dq, r, c), w), (M.at(f.dq, r, c), w, d, level))

def clampi(x, lo, hi): return min(max(x, lo), hi)
def lin(xs, ys, x):
    """piecewise-linear through (xs, ys), constant outside"""
    if x <= xs[0]: return ys[0]
    if x >= xs[-1]: return ys[-1]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            t = (x - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] + t * (ys[i + 1] - ys[i])
def relgain_oracle(table, count, gain):
    """documented relative gain: linear in the gain between the two nearest
    curves, then linear in the count; edge values outside"""
    if np.isnan(count): return float("nan")
    gains, counts, z = table[0, 1:], table[1:, 0], table[1:, 1:]
    return lin(counts, [lin(gains, z[i], gain) for i in range(len(counts))], count)
def nonlin_table(M, seedname="tab"):
    """a valid correction table (increasing axes, curves through 1)"""
    ng, nc = M.extent("ngain", 2, 4), M.extent("ncount", 2, 5)
    dg, dc, z = M.array("dgain", (ng,), R(0.5, 20)), M.array("dcount", (nc,), R(0.5, 25)), M.array("relg", (nc, ng), R(0.3, 1.9))
    t = np.full((nc + 1, ng + 1), np.nan)
    t[0, 1:] = M.scalar("g0", R(0.2, 3)) + np.cumsum(dg)
    t[1:, 0] = M.scalar("c0", R(-30, 10)) + np.cumsum(dc)
    t[1:, 1:] = z
    t[1, 1:] = np.minimum(t[1, 1:], 1.0); t[-1, 1:] = np.maximum(t[-1, 1:], 1.0)
    return t

@unit("correct_nonlinearity", "P01 P02 P03 P04 P05 P06 P10", "corgidrp.l1_to_l2a.correct_nonlinearity", budget=300)
def correct_nonlinearity(M):
    m = M.load("corgidrp.l1_to_l2a")
    D = M.data
    shape = (M.extent("H", 1, 5), M.extent("W", 1, 5))
    ds = M.dataset(shape=shape, ext=GAINS, level="L1")
    kind = M.choice("table", ["given", "None"])
    thr = M.choice("threshold", ["finite", "default"])
    if M.sym:
        nl = None if kind == "None" else M.image("nl", (4, 4))
        def get_relgains(frame, em_gain, non_lin_correction):
            """contract: the relative gain of every pixel is a fixed function of its
            value and the gain (decided by the unit get_relgains)"""
            M.ensure("P05.nonlin.table", non_lin_correction is nl)
            if non_lin_correction is None: return M.map2(lambda x: 1.0, frame)
            return M.map2(lambda x: M.fun("relgain", x, em_gain), frame)
        M.patch(m, "get_relgains", get_relgains)
        rel = lambda d, g: 1.0 if nl is None else M.fun("relgain", d, g)
    else:
        tab = nonlin_table(M)
        nl = None
        if kind != "None":
            nl = D.NonLinearityCalibration(tab, pri_hdr=M.header(), ext_hdr=M.header(), input_dataset=M.tiny())
            nl.filename = "cal_nl_.fits"
        rel = lambda d, g: 1.0 if nl is None else relgain_oracle(tab, d, g)
    no = M.snapshot(nl) if nl is not None else None
    old = M.snapshot(ds)
    t = M.scalar("threshold", R(-20, 50)) if thr == "finite" else None
    out = M.call(m.correct_nonlinearity, ds, nl, **({} if t is None else dict(threshold=t)))
    M.ensure("P05.nonlin.returns", out.ok, out.exc)
    if nl is not None: M.unchanged("P01.nonlin.calib", nl, no)
    if nl is not None:
        if not std(M, "nonlin", ds, old, out): return
    else:
        M.unchanged("P01.nonlin", ds, old)
        if not out.ok: return
        M.linked("P02.nonlin", out.value)
    o = out.value
    M.ensure("P05.nonlin.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.nonlin.shape", f.data, q.data)
        if nl is not None: M.hist_grew("P10.nonlin.name", f.ext_hdr, q.h[1], contains=nl.filename)
        g = emgain(M, f)
        for r, c in M.points(*M.dims(f.data)):
            d = M.at(q.data, r, c)
            v = d * rel(d, g)
            for ob in ("P05.nonlin.value", "P06.nonlin.gain"):
                M.ensure(ob, M.eq(M.at(f.data, r, c), v, scale=10), (M.at(f.data, r, c), v, d, g))
            M.ensure("P04.nonlin.error", M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r, c)))
            od = M.at(q.dq, r, c)
            w = M.bits(od) if t is None else M.ite(d > t, M.bor(od, 64), M.bits(od))
            M.ensure("P03.nonlin.dq", M.eq(M.at(f.dq, r, c), w), (M.at(f.dq, r, c), w))

@unit("get_relgains", "P05", "corgidrp.detector.get_relgains", concrete_only="scipy's RectBivariateSpline and interp1d are outside the prover; compared with an independent bilinear interpolation", runs=150)
def get_relgains(M):
    m = M.load("corgidrp.detector")
    D = M.data
    tab = nonlin_table(M)
    bad = M.choice("table", ["valid"] * 5 + ["gain axis", "count axis", "above one", "below one", "none"])
    if bad == "gain axis": tab[0, 2] = tab[0, 1]
    if bad == "count axis": tab[2, 0] = tab[1, 0] - M.scalar("back", R(0, 3))
    if bad == "above one": tab[1:, 1] = 1.5
    if bad == "below one": tab[1:, -1] = 0.5
    nl = None if bad == "none" else D.NonLinearityCalibration(tab.copy(), pri_hdr=M.header(), ext_hdr=M.header(), input_dataset=M.tiny())
    g = M.scalar("gain", R(0.2, 80))
    fr = M.array("frame", (M.extent("H", 1, 4), M.extent("W", 1, 4)), R(-60, 120))
    fr0 = fr.copy()
    out = M.call(m.get_relgains, fr, g, nl)
    M.ensure("P05.relgain.gate", out.ok == (bad in ("valid", "none")), (bad, out.exc))
    M.ensure("P05.relgain.pure", np.array_equal(fr, fr0) and (nl is None or np.array_equal(nl.data, tab, equal_nan=True)))
    if not out.ok: return
    M.ensure("P05.relgain.shape", out.value.shape == fr.shape)
    for ix in np.ndindex(*fr.shape):
        w = 1.0 if nl is None else relgain_oracle(tab, fr[ix], g)
        M.ensure("P05.relgain.value", M.eq(out.value[ix], w), (out.value[ix], w, fr[ix], g))

@unit("detector_sections", "P07", ["corgidrp.detector.slice_section", "corgidrp.detector.embed", "corgidrp.detector.unpack_geom", "corgidrp.detector.imaging_area_geom", "corgidrp.detector.imaging_slice"])
def detector_sections(M):
    m = M.load("corgidrp.detector")
    arr, right = M.choice("case", [("SCI", False), ("ENG_CONV", True), ("ENG", True), ("ENG_EM", False)])
    key = M.choice("key", ["image", "prescan", "prescan_reliable", "parallel_overscan", "serial_overscan"])
    tab = geometry(M, arr, right)
    im = tab[arr].pop("_im")
    g = tab[arr]
    s = g[key]
    H, W = g["frame_rows"], g["frame_cols"]
    r0, c0, n, w = s["r0c0"][0], s["r0c0"][1], s["rows"], s["cols"]
    frame = M.array("frame", (H, W), R(nan=True))
    f0 = M.asnap(frame)
    out = M.call(m.slice_section, frame, arr, key, tab)
    M.ensure("P07.section.returns", out.ok, out.exc)
    if out.ok:
        M.ensure("P07.section.shape", M.And(M.deq(M.dims(out.value)[0], n), M.deq(M.dims(out.value)[1], w)), M.dims(out.value))
        for r, c in M.points(n, w):
            M.ensure("P07.section.value", M.eq(M.at(out.value, r, c), M.at(f0, r0 + r, c0 + c)))
    geo = M.call(m.imaging_area_geom, arr, tab)
    M.ensure("P07.imaging.returns", geo.ok, geo.exc)
    if geo.ok:
        a, b, o = geo.value
        M.ensure("P07.imaging.geom", M.And(M.deq(a, im[0]), M.deq(b, im[1]), M.deq(o[0], im[2]), M.deq(o[1], im[3])), (a, b, list(o)))
    sl = M.call(m.imaging_slice, arr, frame, tab)
    M.ensure("P07.imaging.slice", sl.ok, sl.exc)
    if sl.ok:
        M.ensure("P07.imaging.shape", M.And(M.deq(M.dims(sl.value)[0], im[0]), M.deq(M.dims(sl.value)[1], im[1])))
        for r, c in M.points(im[0], im[1]):
            M.ensure("P07.imaging.value", M.eq(M.at(sl.value, r, c), M.at(f0, im[2] + r, im[3] + c)))
    # the tables are shared by every later call: they must come out as they went in
    M.ensure("P07.geometry.kept", M.And(M.deq(s["rows"], n), M.deq(s["cols"], w), M.deq(s["r0c0"][0], r0), M.deq(s["r0c0"][1], c0), M.deq(g["image"]["r0c0"][0], tab[arr]["image"]["r0c0"][0])))
    sec = M.array("sec", (n, w), R(nan=True))
    pad = M.scalar("pad", R(-5, 5))
    e = M.call(m.embed, sec, arr, key, pad_val=pad, detector_regions=tab)
    M.ensure("P07.embed.returns", e.ok, e.exc)
    if not e.ok: return
    M.ensure("P07.embed.shape", M.And(M.deq(M.dims(e.value)[0], H), M.deq(M.dims(e.value)[1], W)), M.dims(e.value))
    for r, c in M.points(H, W):
        inside = M.And(r >= r0, r < r0 + n, c >= c0, c < c0 + w)
        M.ensure("P07.embed.pad", M.Implies(M.Not(inside), M.eq(M.at(e.value, r, c), pad)))
    for r, c in M.points(n, w):
        M.ensure("P07.embed.value", M.eq(M.at(e.value, r0 + r, c0 + c), M.at(sec, r, c)))
    b = M.call(m.slice_section, e.value, arr, key, tab)
    M.ensure("P07.embed.inverse", b.ok)
    if b.ok:
        for r, c in M.points(n, w):
            M.ensure("P07.embed.inverse", M.eq(M.at(b.value, r, c), M.at(sec, r, c)))

@unit("detector_tables", "P07", ["corgidrp.detector.detector_areas", "corgidrp.detector.slice_section", "corgidrp.detector.imaging_area_geom"])
def detector_tables(M):
    """the built-in tables: every section lies inside its frame, the regions tile it, the reliable columns lie in the prescan"""
    m = M.load("corgidrp.detector")
    t = m.detector_areas
    M.ensure("P07.tables.types", set(("SCI", "ENG", "ENG_EM", "ENG_CONV")) <= set(t))
    for a, g in t.items():
        H, W = g["frame_rows"], g["frame_cols"]
        reg = {k: (v["r0c0"][0], v["r0c0"][1], v["rows"], v["cols"]) for k, v in g.items() if isinstance(v, dict)}
        for k, (r, c, n, w) in reg.items():
            M.ensure("P07.tables.inside", r >= 0 and c >= 0 and n > 0 and w > 0 and r + n <= H and c + w <= W, (a, k))
        p, s, o, i = (reg[x] for x in ("prescan", "serial_overscan", "parallel_overscan", "image"))
        lo = min(p[1] + p[3], s[1] + s[3]); hi = max(p[1], s[1])
        M.ensure("P07.tables.columns", p[2] == H and s[2] == H and {p[1], s[1]} >= {0} and max(p[1] + p[3], s[1] + s[3]) == W, (a, "prescan / serial overscan columns"))
        M.ensure("P07.tables.overscan", o[1] == lo and o[1] + o[3] == hi and o[0] + o[2] == H, (a, "parallel overscan"))
        M.ensure("P07.tables.image", i[1] >= lo and i[1] + i[3] <= hi and i[0] + i[2] <= o[0], (a, "image area"))
        pr = reg["prescan_reliable"]
        M.ensure("P07.tables.reliable", pr[2] == p[2] and pr[1] >= p[1] and pr[1] + pr[3] <= p[1] + p[3], (a, "prescan_reliable"))
        M.ensure("P07.tables.reliable", g["prescan"]["col_start"] == pr[1] and g["prescan"]["col_end"] == pr[1] + pr[3], (a, "col_start/col_end"))
        if "lower_image" in reg:
            l, u = reg["lower_image"], reg["upper_image"]
            M.ensure("P07.tables.halves", l[0] == i[0] and u[0] == l[0] + l[2] and l[2] + u[2] == i[2] and all(x[1] == i[1] and x[3] == i[3] for x in (l, u)), a)
        im = M.call(m.imaging_area_geom, a)
        M.ensure("P07.tables.imaging", im.ok)
        if im.ok:
            n, w, rc = im.value
            M.ensure("P07.tables.imaging", (n, w, list(rc)) == (o[0], hi - lo, [0, lo]), (a, im.value))

@unit("flag_cosmics", "P08", ["corgidrp.detector.flag_cosmics", "corgidrp.detector.find_plateaus"], concrete_only="scipy.ndimage.median_filter and data-dependent while loops are outside the prover; compared with an independently written detection", runs=250)
def flag_cosmics(M):
    m = M.load("corgidrp.detector")
    n, H, W = M.extent("n", 1, 2), M.extent("H", 1, 7), M.extent("W", 1, 14)
    cube = M.array("cube", (n, H, W), R(0, 10))
    hot = M.array("hot", (n, H, W), B())
    pos = M.array("where", (n, H), I(0, 14))
    length = M.array("len", (n, H), I(0, 6))
    for j in range(n):
        for i in range(H):
            if hot[j, i, 0]: cube[j, i, pos[j, i]:pos[j, i] + length[j, i]] += M.scalar("amp", R(20, 100))
    fwc = M.scalar("fwc", R(10, 60))
    sat, plat = M.scalar("sat", R(0.3, 1)), M.scalar("plat", R(0.1, 1))
    filt, box, tail = M.scalar("filt", I(1, 4)), M.scalar("box", I(0, 4)), M.scalar("tail", I(0, 12))
    full = M.choice("mode", [False, True])
    t, l = (M.choice("top", [0, 1, 2]), M.choice("left", [0, 1, 3]))
    geom = dict(image=dict(rows=max(1, H - 2 * t), cols=max(1, W - 2 * l), r0c0=[min(t, H - 1), min(l, W - 1)]))
    c0 = cube.copy()
    out = M.call(m.flag_cosmics, cube, fwc, sat, plat, filt, box, tail, mode="full" if full else "image", detector_regions={"SCI": geom})
    M.ensure("P08.flag.returns", out.ok, out.exc)
    M.ensure("P08.flag.pure", np.array_equal(c0, cube))
    if not out.ok: return
    M.ensure("P08.flag.shape", out.value.shape == cube.shape)
    for j in range(n):
        w = cosmic_oracle(c0[j], fwc, sat, plat, filt, box, tail, full, geom)
        M.ensure("P08.flag.mask", np.array_equal(out.value[j] != 0, w != 0), (out.value[j].tolist(), w.tolist()))
        M.ensure("P08.flag.values", set(np.unique(out.value[j])) <= {0, 1})
    if not full:
        # the statement itself: hits only in (or within the box of) rows reaching the threshold
        for j in range(n):
            rows = [i for i in range(H) if c0[j, i].max() >= sat * fwc]
            for i in range(H):
                M.ensure("P08.flag.rows", not out.value[j, i].any() or any(abs(i - r) <= box for r in rows), i)
