"""saving and loading, calibration products, provenance records"""
from . import unit
from .c_combine import expected_parents, recorded_parents
from pyvc.api import *
import numpy as np

STRUCT = ("SIMPLE", "XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4", "PCOUNT", "GCOUNT", "EXTEND", "BSCALE", "BZERO")

def same_array(M, ob, a, b, what):
    M.ensure(ob, M.ndim(a) == M.ndim(b), (what, "dimensions"))
    M.ensure(ob, M.And(*[M.deq(x, y) for x, y in zip(M.dims(a), M.dims(b))]), (what, "shape"))
    for ix in M.points(*M.dims(b)):
        x, y = M.at(a, *ix), M.at(b, *ix)
        M.ensure(ob, M.eq(x, y, tol=False), (what, x, y))

def same_product(M, ob, r, s):
    """r, read back, equals what was saved (snapshot s)"""
    same_array(M, ob + ".data", r.data, M.arr(s, "data"), "data")
    same_array(M, ob + ".err", r.err, M.arr(s, "err"), "err")
    same_array(M, ob + ".dq", r.dq, M.arr(s, "dq"), "dq")
    for h, hs, tag in zip(hdrs(r), s["h"], HN):
        M.header_same(ob + "." + tag, h, hs, exc=STRUCT)
    if not hasattr(r, "ptc"): M.ensure(ob + ".extensions", len(r.hdu_list) == s["nhdu"], (len(r.hdu_list), s["nhdu"]))

@unit("image_roundtrip", "P20", ["corgidrp.data.Image.save", "corgidrp.data.Image.__init__", "corgidrp.data.Image.add_extension_hdu"])
def image_roundtrip(M):
    D = M.data
    L = M.choice("layers", [1, 2])
    M.track(L > 1)
    nx = M.choice("extra", [0, 1, 2])
    how = M.choice("path", ["given", "own"])
    cube = M.choice("cube", [False, True])
    H, W = M.extent("H", 1, 4), M.extent("W", 1, 4)
    shape = (M.extent("P", 1, 3), H, W) if cube else (H, W)
    ph, eh, rh, qh = M.header(), M.header(), M.header(), M.header()
    for h, t in ((ph, "p"), (eh, "e"), (rh, "r"), (qh, "q")):
        h[XKEY] = M.scalar("im." + t + XKEY, R())
        h["WORD"] = M.scalar("im." + t + "WORD", S("abc", "x y", "it's", "", "CGI_0_L2a.fits"))
        h["COUNT"] = M.scalar("im." + t + "COUNT", I())
        h["YES"] = True
        h["HISTORY"] = "made " + t
    if L > 1: rh["Layer_2"] = "term2"
    im = D.Image(M.array("im.data", shape, R(nan=True)), pri_hdr=ph, ext_hdr=eh, err=M.array("im.err", (L,) + shape, R(0, nan=True)),
                 dq=M.astype16(M.array("im.dq", shape, DQ())), err_hdr=rh, dq_hdr=qh)
    xs = []
    for j in range(nx):
        xh = M.header(); xh[XKEY] = M.scalar("x%d" % j, I())
        xd = M.array("xd%d" % j, (M.extent("XW%d" % j, 1, 3),), R())
        xs.append((xd, xh))
        im.add_extension_hdu("EXTRA%d" % j, data=xd, header=xh)
    im.filename = "vp_roundtrip.fits"
    old = M.snapshot(im)
    xold = [M.asnap(x) for x, _ in xs]
    out = M.call(im.save, filename="vp_other.fits", filedir=".") if how == "given" else M.call(im.save)
    M.ensure("P20.image.save", out.ok, out.exc)
    name = "vp_other.fits" if how == "given" else "vp_roundtrip.fits"
    M.ensure("P20.image.path", im.filename == name and im.filedir == ".")
    out = M.call(D.Image, "./" + name)
    M.ensure("P20.image.load", out.ok, out.exc)
    if not out.ok: return
    r = out.value
    M.ensure("P20.image.name", r.filename == name and r.filedir == ".", (r.filename, r.filedir))
    same_product(M, "P20.image", r, old)
    for j in range(nx):
        if j >= len(r.hdu_list): break
        M.ensure("P20.image.extra_name", r.hdu_list[j].name == "EXTRA%d" % j)
        same_array(M, "P20.image.extra", r.hdu_list[j].data, xold[j], "extra extension")
        M.ensure("P20.image.extra_header", M.eq(r.hdu_list[j].header[XKEY], M.scalar("x%d" % j, I())))

KINDS = {"Dark": ("_DRK_CAL", "Dark"), "FlatField": ("_FLT_CAL", "FlatField"), "NonLinearityCalibration": ("_NLN_CAL", "NonLinearityCalibration"), "KGain": ("_KRN_CAL", "KGain"),
         "BadPixelMap": ("_BPM_CAL", "BadPixelMap"), "DetectorNoiseMaps": ("_DNM_CAL", "DetectorNoiseMaps"), "AstrometricCalibration": ("_AST_CAL", "AstrometricCalibration"),
         "TrapCalibration": ("_TPU_CAL", "TrapCalibration"), "FluxcalFactor": ("_ABF_CAL", "FluxcalFactor"), "NDFilterSweetSpotDataset": ("_NDF_CAL", "NDFilterSweetSpotDataset"),
         "CoreThroughputCalibration": ("_CTP_CAL", "CoreThroughputCalibration")}

def parent_frames(M, names, grand):
    """small input frames, some of which have parents themselves"""
    D = M.data
    fr = []
    for i, nm in enumerate(names):
        h = M.header()
        if grand >> i & 1:
            h["DRPNFILE"] = 2
            h["FILE0"] = "raw_common_L1_.fits"; h["FILE1"] = "raw_%d_L1_.fits" % i
        im = D.Image(np.zeros((2, 2)), pri_hdr=M.header(), ext_hdr=h)
        im.filename = nm
        fr.append(im)
    return D.Dataset(fr)

def make_product(M, kind, inp):
    """-> (call that makes the product, data)"""
    D = M.data
    ph, eh, rh = M.header(), M.header(), M.header()
    for h, t in ((ph, "p"), (eh, "e"), (rh, "r")): h[XKEY] = M.scalar("c.%s%s" % (t, XKEY), I())
    eh["EXPTIME"] = M.scalar("c.EXPTIME", POS(hi=100)); eh["EMGAIN_C"] = M.scalar("c.EMGAIN_C", POS(hi=50))
    eh["CFAMNAME"] = "1F"; eh["FPAMNAME"] = "OPEN"; eh["B_O"] = M.scalar("c.B_O", R()); eh["B_O_ERR"] = M.scalar("c.B_O_ERR", R(0))
    H, W = M.extent("H", 1, 4), M.extent("W", 1, 4)
    kw = dict(pri_hdr=ph, ext_hdr=eh, input_dataset=inp)
    shape = {"NonLinearityCalibration": (H + 1, W + 1), "KGain": (1, 1), "FluxcalFactor": (1, 1), "DetectorNoiseMaps": (3, H, W), "NDFilterSweetSpotDataset": (H, 3), "TrapCalibration": (H, 10),
             "AstrometricCalibration": (9,), "CoreThroughputCalibration": (H, 3, 3)}.get(kind, (H, W))
    a = M.array("c.data", shape, R())
    if kind == "NonLinearityCalibration": a[0, 0] = np.nan
    if kind in ("Dark", "DetectorNoiseMaps", "NDFilterSweetSpotDataset", "CoreThroughputCalibration"):
        kw.update(err=M.array("c.err", (1,) + shape, R(0)), dq=M.astype16(M.array("c.dq", shape, DQ())), err_hdr=rh)
    if kind in ("KGain", "FluxcalFactor"): kw.update(err=M.array("c.err", (1,) + shape, R(0)), err_hdr=rh)
    if kind == "KGain":
        kw["ptc_hdr"] = M.header(); kw["ptc_hdr"][XKEY] = M.scalar("c.ptc" + XKEY, I())
        kw["ptc"] = M.array("c.ptc", (H, 2), R())
    if kind == "AstrometricCalibration": kw.update(err=M.array("c.err", (1,) + shape, R(0)))
    if kind == "CoreThroughputCalibration":
        eh["EXTNAME"] = "PSFCUBE"; eh["DATETIME"] = "2027-01-01T00:00:00"
        F = D.fits
        hd = [M.header() for _ in range(3)]
        kw["input_hdulist"] = [F.ImageHDU(data=M.array("c.ct", (3, H), R()), header=hd[0], name="CTEXCAM"), F.ImageHDU(data=M.array("c.fpam", (2,), R()), header=hd[1], name="CTFPAM"),
                               F.ImageHDU(data=M.array("c.fsam", (2,), R()), header=hd[2], name="CTFSAM")]
        eh["HISTORY"] = "vp"
    return lambda: getattr(D, kind)(a, **kw)

@unit("calibration_products", "P10 P20", ["corgidrp.data.%s.__init__" % k for k in KINDS] + ["corgidrp.data.KGain.save", "corgidrp.data.Image._record_parent_filenames", "corgidrp.data.Image.save", "corgidrp.data.autoload"], bounded="the listed classes and lists of input frames (arbitrary pixels, header values and image sizes)")
def calibration_products(M):
    D = M.data
    M.track(False)
    kind = M.choice("kind", list(KINDS))
    names, grand = M.choice("inputs", [(("CGI_a_L2b.fits",), 0), (("CGI_a_L2b.fits", "CGI_b_L2b.fits"), 3), (("CGI_a_L1_.fits", "CGI_b_L1_.fits", "CGI_a_L1_.fits"), 0), (("raw_common_L1_.fits", "CGI_z_L3_.fits"), 2), (("CGI_c_L2a.fits", "CGI_b_L2a.fits", "CGI_a_L2a.fits", "raw_0_L1_.fits"), 5)])
    inp = parent_frames(M, names, grand)
    out = M.call(make_product(M, kind, inp))
    M.ensure("P10.product.made", out.ok, (kind, out.exc))
    M.ensure("P20.product.made", out.ok, (kind, out.exc))
    if not out.ok: return
    o = out.value
    token, typ = KINDS[kind]
    M.ensure("P10.product.type", M.eq(o.ext_hdr["DATATYPE"], typ), (kind, o.ext_hdr["DATATYPE"]))
    M.ensure("P10.product.level", M.eq(o.ext_hdr["DATALVL"], "CAL"), kind)
    M.ensure("P10.product.filename", token in o.filename and o.filename.endswith(".fits"), (kind, o.filename))
    got, want = recorded_parents(o), expected_parents(inp.frames)
    M.ensure("P10.product.parents", len(got) == len(set(got)) and set(got) == want, (kind, got, want))
    M.ensure("P10.product.history", len(M.hist(o.ext_hdr)) > 0, kind)
    old = M.snapshot(o)
    ptc = M.asnap(o.ptc) if kind == "KGain" else None
    out = M.call(o.save, filename="vp_cal.fits", filedir=".")
    M.ensure("P20.product.save", out.ok, (kind, out.exc))
    if not out.ok: return
    out = M.call(getattr(D, kind), "./vp_cal.fits")
    M.ensure("P20.product.load", out.ok, (kind, out.exc))
    if out.ok:
        r = out.value
        same_product(M, "P20.product", r, old)
        if kind == "KGain":
            same_array(M, "P20.product.ptc", r.ptc, ptc, "ptc")
            M.ensure("P20.product.ptc_hdr", M.eq(r.ptc_hdr[XKEY], M.scalar("c.ptc" + XKEY, I())))
    for other in KINDS:
        if other == kind: continue
        out = M.call(getattr(D, other), "./vp_cal.fits")
        M.ensure("P10.product.reject", not out.ok, (kind, "loaded as", other))
    if M.wants("P10.product.autoload"):
        out = M.call(D.autoload, "./vp_cal.fits")
        M.ensure("P10.product.autoload", out.ok and type(out.value) is getattr(D, kind), (kind, out.exc))
