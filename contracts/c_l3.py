"""l2b_to_l3.py, l3_to_l4.py: WCS, exposure time, level L4, crop"""
from . import unit
from .c_l2a import std, same_shape, tracked, layer_names, LEVELS
from pyvc.api import *
import numpy as np

@unit("divide_by_exptime", "P01 P02 P03 P04 P05 P10", "corgidrp.l2b_to_l3.divide_by_exptime")
def divide_by_exptime(M):
    m = M.load("corgidrp.l2b_to_l3")
    n = M.choice("layers", [1, 3])
    M.track(n > 1)
    ds = M.dataset(layers=n, ext={"EXPTIME": POS(hi=200)}, level="L2b")
    old = M.snapshot(ds)
    out = M.call(m.divide_by_exptime, ds)
    M.ensure("P05.exptime.returns", out.ok, out.exc)
    if not std(M, "exptime", ds, old, out): return
    o = out.value
    M.ensure("P05.exptime.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        same_shape(M, "P05.exptime.shape", f.data, q.data)
        M.ensure("P04.exptime.layers", M.And(M.ndim(f.err) == 3, M.deq(M.dims(f.err)[0], n)), M.dims(f.err))
        layer_names(M, "P04.exptime.names", f, q, n, [])
        M.ensure("P05.exptime.bunit", M.eq(f.ext_hdr["BUNIT"], "photoelectrons/s"))
        t = q.hdr("ext_hdr")["EXPTIME"]
        for r, c in M.points(*M.dims(f.data)):
            M.ensure("P05.exptime.value", M.eq(M.at(f.data, r, c), M.div(M.at(q.data, r, c), t)))
            M.ensure("P03.exptime.dq", M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))
            for l in range(n): M.ensure("P04.exptime.error", M.eq(M.at(f.err, l, r, c), M.div(M.at(q.err, l, r, c), t)))

def astrom_cal(M):
    D = M.data
    c = D.AstrometricCalibration(np.array([10.0, 20.0, 21.8, 21.8, 0.5, 0.0, 0.0, 0.1, 1.0]), pri_hdr=M.header(), ext_hdr=M.header(), err=np.zeros((1, 9)), input_dataset=M.tiny())
    c.northangle = M.scalar("northangle", R(-180, 180))
    c.platescale = (M.scalar("platescale_x", POS(hi=100)), M.scalar("platescale_y", POS(hi=100)))
    c.avg_offset = (M.scalar("off_ra", R(-1, 1)), M.scalar("off_dec", R(-1, 1)))
    return c

@unit("create_wcs", "P01 P02 P03 P04 P05 P10 P19", "corgidrp.l2b_to_l3.create_wcs")
def create_wcs(M):
    m = M.load("corgidrp.l2b_to_l3")
    ds = M.dataset(pri={"RA": R(0, 360), "DEC": R(-90, 90), "ROLL": R(-180, 180)}, level="L2b")
    cal = astrom_cal(M)
    co = (cal.northangle, cal.platescale, cal.avg_offset)
    old = M.snapshot(ds)
    out = M.call(m.create_wcs, ds, cal)
    M.ensure("P19.wcs.returns", out.ok, out.exc)
    M.ensure("P01.wcs.calib", cal.northangle is co[0] and cal.platescale is co[1] and cal.avg_offset is co[2])
    if not std(M, "wcs", ds, old, out): return
    o = out.value
    M.ensure("P05.wcs.count", M.deq(M.nframes(o), M.nframes(ds)))
    px, py = co[1]
    for k, f in M.frames(o):
        q = M.old(old, k)
        h, p = f.ext_hdr, q.hdr("pri_hdr")
        H, W = M.dims(q.data)
        a = (co[0] + p["ROLL"]) * (np.pi / 180)
        s, c = M.sin(a), M.cos(a)
        sx, sy = px / 3600000, py / 3600000
        want = {"CD1_1": -c * sx, "CD1_2": s * sx, "CD2_1": s * sy, "CD2_2": c * sy, "CDELT1": sx, "CDELT2": sy,
                "CRPIX1": (W - 1) // 2, "CRPIX2": (H - 1) // 2, "CTYPE1": "RA---TAN", "CTYPE2": "DEC--TAN",
                "CRVAL1": p["RA"] - co[2][0], "CRVAL2": p["DEC"] - co[2][1], "PLTSCALE": (px + py) / 2}
        for key, v in want.items():
            M.ensure("P19.wcs." + key, M.And(M.has(h, key), M.eq(M.get(h, key), v)), key)
        M.header_same("P19.wcs.other_ext", h, q.h[1], exc=VOLATILE + tuple(want), hist=False)
        same_shape(M, "P05.wcs.shape", f.data, q.data)
        for r, c_ in M.points(*M.dims(f.data)):
            for ob in ("P05", "P19"): M.ensure(ob + ".wcs.value", M.eq(M.at(f.data, r, c_), M.at(q.data, r, c_)))
            M.ensure("P04.wcs.error", M.eq(M.at(f.err, 0, r, c_), M.at(q.err, 0, r, c_)))
            M.ensure("P03.wcs.dq", M.eq(M.at(f.dq, r, c_), M.at(q.dq, r, c_)))

@unit("update_to_l4", "P01 P02 P03 P05 P09 P10", "corgidrp.l3_to_l4.update_to_l4")
def update_to_l4(M):
    m = M.load("corgidrp.l3_to_l4")
    ds = M.dataset(level=S("L1", "L2a", "L2b", "L3", "L4", "CAL", "TDA", "") if M.rarely("mixed levels") else S("L3"), symname=True)
    ct = M.choice("ct", ["none", "plain", "path"])
    fp = M.choice("flux", ["plain", "path"])
    class Cal: pass
    ctc, fx = Cal(), Cal()
    ctc.filename = {"plain": "ct_CTP_CAL.fits", "path": "/a/b.c/ct2_CTP_CAL.fits", "none": ""}[ct]
    fx.filename = {"plain": "fx_ABF_CAL.fits", "path": "cals/x/fx2_ABF_CAL.fits"}[fp]
    cname = {"plain": "ct_CTP_CAL.fits", "path": "ct2_CTP_CAL.fits", "none": ""}[ct]
    fname = {"plain": "fx_ABF_CAL.fits", "path": "fx2_ABF_CAL.fits"}[fp]
    old = M.snapshot(ds)
    n = M.nframes(ds)
    allok = M.Not(M.exists(n, lambda i: M.Not(M.eq(M.old(old, i).hdr("ext_hdr")["DATALVL"], "L3"))))
    out = M.call(m.update_to_l4, ds, None if ct == "none" else ctc, fx)
    M.ensure("P09.l4.gate", M.Iff(out.ok, allok), (out.ok, out.exc))
    M.unchanged("P01.l4", ds, old)
    if not out.ok: return
    o = out.value
    M.linked("P02.l4", o)
    M.headers_separate("P01.l4.headers", o, ds)
    M.ensure("P05.l4.count", M.deq(M.nframes(o), n))
    for k, f in M.frames(o):
        q = M.old(old, k)
        M.ensure("P09.l4.level", M.eq(f.ext_hdr["DATALVL"], "L4"))
        M.ensure("P09.l4.calfiles", M.And(M.eq(f.ext_hdr["CTCALFN"], cname), M.eq(f.ext_hdr["FLXCALFN"], fname)))
        M.header_same("P09.l4.pri", f.pri_hdr, q.h[0], exc=VOLATILE)
        M.header_same("P09.l4.ext", f.ext_hdr, q.h[1], exc=VOLATILE + ("DATALVL", "CTCALFN", "FLXCALFN"), hist=False)
        M.header_same("P09.l4.err", f.err_hdr, q.h[2], exc=VOLATILE)
        M.header_same("P09.l4.dqh", f.dq_hdr, q.h[3], exc=VOLATILE)
        M.hist_grew("P10.l4", f.ext_hdr, q.h[1])
        M.ensure("P09.l4.name", M.eq(f.filename, M.replace1(q.filename, "_L3_", "_L4_")), (f.filename, q.filename))
        same_shape(M, "P09.l4.shape", f.data, q.data)
        for r, c in M.points(*M.dims(f.data)):
            for ob in ("P09.l4.value", "P05.l4.value"): M.ensure(ob, M.eq(M.at(f.data, r, c), M.at(q.data, r, c)))
            M.ensure("P09.l4.err", M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r, c)))
            for ob in ("P09.l4.dq", "P03.l4.dq"): M.ensure(ob, M.eq(M.at(f.dq, r, c), M.at(q.dq, r, c)))

@unit("crop", "P01 P02 P03 P04 P05 P10 P19", "corgidrp.l3_to_l4.crop", budget=200,
      bounded="at most 2 frames when the centre is read from the frame headers (any number of frames when it is given); sizes 2x2 and 4x2; any image size, any star location")
def crop(M):
    m = M.load("corgidrp.l3_to_l4")
    H, W = M.extent("ds.H", 4, 9), M.extent("ds.W", 4, 9)
    size = M.choice("size", [2, [4, 2]])
    where = M.choice("center", ["star", "given", "given scalar"])
    cards = M.choice("cards", [True, False])
    crp = det = cards
    star = where == "star" or cards
    ext, pri = {}, {}
    sx, sy = (size, size) if isinstance(size, int) else size
    if star: ext.update(STARLOCX=R(-2, 12, near=(2.5, 3.5)), STARLOCY=R(-2, 12, near=(2.5, 3.5)))
    if crp: pri.update(CRPIX1=R(0, 50), CRPIX2=R(0, 50))
    if det: ext.update(DETPIX0X=I(0, 1000), DETPIX0Y=I(0, 1000))
    ds = M.dataset(n=M.choice("N", [1, 2]) if where == "star" else None, shape=(H, W), ext=ext, pri=pri, level="L3")
    cx = cy = None
    if where == "given": cx, cy = M.scalar("cx", R(-2, 12, near=(2.5, 3.5))), M.scalar("cy", R(-2, 12, near=(2.5, 3.5)))
    if where == "given scalar": cx = cy = 2.5
    old = M.snapshot(ds)
    def corner(i):
        q = M.old(old, i).hdr("ext_hdr")
        x, y = (q["STARLOCX"], q["STARLOCY"]) if where == "star" else (cx, cy)
        r = lambda v: M.floor_int(M.rint(v - 0.5))
        return r(x) + 1 - sx // 2, r(y) + 1 - sy // 2
    def inside(i):
        x1, y1 = corner(i)
        return M.And(x1 >= 0, y1 >= 0, x1 + sx <= W, y1 + sy <= H)
    ok = M.Not(M.exists(M.nframes(ds), lambda i: M.Not(inside(i))))
    out = M.call(m.crop, ds, sizexy=size, centerxy={"star": None, "given": [cx, cy], "given scalar": cx}[where])
    M.ensure("P19.crop.gate", M.Iff(out.ok, ok), (out.ok, out.exc))
    if not std(M, "crop", ds, old, out, pri_exc=("CRPIX1", "CRPIX2")): return
    o = out.value
    M.ensure("P19.crop.count", M.deq(M.nframes(o), M.nframes(ds)))
    for k, f in M.frames(o):
        q = M.old(old, k)
        x1, y1 = corner(k)
        M.ensure("P19.crop.shape", M.And(M.deq(M.dims(f.data)[0], sy), M.deq(M.dims(f.data)[1], sx), M.deq(M.dims(f.err)[1], sy), M.deq(M.dims(f.err)[2], sx), M.deq(M.dims(f.dq)[0], sy), M.deq(M.dims(f.dq)[1], sx)))
        M.ensure("P19.crop.name", M.eq(f.filename, q.filename))
        qe, qp = q.hdr("ext_hdr"), q.hdr("pri_hdr")
        if star: M.ensure("P19.crop.star", M.And(M.eq(f.ext_hdr["STARLOCX"], qe["STARLOCX"] - x1), M.eq(f.ext_hdr["STARLOCY"], qe["STARLOCY"] - y1)))
        if crp: M.ensure("P19.crop.crpix", M.And(M.eq(f.pri_hdr["CRPIX1"], qp["CRPIX1"] - x1), M.eq(f.pri_hdr["CRPIX2"], qp["CRPIX2"] - y1)))
        M.ensure("P19.crop.detpix", M.And(M.eq(f.ext_hdr["DETPIX0X"], (qe["DETPIX0X"] if det else 0) + x1), M.eq(f.ext_hdr["DETPIX0Y"], (qe["DETPIX0Y"] if det else 0) + y1)))
        for r, c in M.points(*M.dims(f.data)):
            for ob in ("P19.crop.value", "P05.crop.value"): M.ensure(ob, M.eq(M.at(f.data, r, c), M.at(q.data, r + y1, c + x1)))
            for ob in ("P19.crop.err", "P04.crop.error"): M.ensure(ob, M.eq(M.at(f.err, 0, r, c), M.at(q.err, 0, r + y1, c + x1)))
            for ob in ("P19.crop.dq", "P03.crop.dq"): M.ensure(ob, M.eq(M.at(f.dq, r, c), M.at(q.dq, r + y1, c + x1)))
