"""bad_pixel_calibration.py, photon_counting.py, flag maps"""
from . import unit
from pyvc.api import *
from .c_darks import product, parents_contract
from .c_combine import given_parents, expected_parents, recorded_parents
import numpy as np

# ---- bad pixel maps ---------------------------------------------------------
def hot(M, d, H, W, k, r, c):
    rd = lambda i, j: M.at(d, i, j)
    return M.at(d, r, c) > M.reduce2("mean", H, W, rd) + k * M.reduce2("std", H, W, rd)

def dead(M, f, H, W, frac, width, r, c):
    half = width // 2
    M.hint(half, half)          # the pixel itself is in its box
    row, col = lambda i: i - half + r, lambda j: j - half + c
    inside = lambda i, j: M.And(row(i) >= 0, row(i) < H, col(j) >= 0, col(j) < W)
    m = M.reduce2("mean", width, width, lambda i, j: M.at(f, row(i), col(j)), inside)
    return M.at(f, r, c) < frac * m

@unit("detect_hot_warm_pixels", "P15", "corgidrp.bad_pixel_calibration.detect_hot_warm_pixels_from_dark")
def detect_hot(M):
    m = M.load("corgidrp.bad_pixel_calibration")
    H, W = M.extent("H", 1, 6), M.extent("W", 1, 6)
    d = M.array("dark", (H, W), R(-9, 9))
    k = M.scalar("dthresh", R(0, 3))
    d0 = M.asnap(d)
    out = M.call(m.detect_hot_warm_pixels_from_dark, d, k)
    M.ensure("P15.hot.returns", out.ok, out.exc)
    if not out.ok: return
    o = out.value
    M.ensure("P15.hot.shape", M.And(M.ndim(o) == 2, M.deq(M.dims(o)[0], H), M.deq(M.dims(o)[1], W)))
    for r, c in M.points(H, W):
        M.ensure("P15.hot.flagged", M.Iff(M.at(o, r, c), hot(M, d0, H, W, k, r, c)), (r, c, M.at(o, r, c), M.at(d0, r, c)))
        M.ensure("P01.hot.input", M.eq(M.at(d, r, c), M.at(d0, r, c)))

@unit("detect_dead_pixels", "P15", "corgidrp.bad_pixel_calibration.detect_dead_pixels_from_flat")
def detect_dead(M):
    m = M.load("corgidrp.bad_pixel_calibration")
    H, W = M.extent("H", 1, 6), M.extent("W", 1, 6)
    f = M.array("flat", (H, W), R(0, 2))
    frac = M.scalar("ffrac", R(0, 1))
    width = M.extent("fwidth", 1, 7)
    f0 = M.asnap(f)
    out = M.call(m.detect_dead_pixels_from_flat, f, frac, width)
    M.ensure("P15.dead.returns", out.ok, out.exc)
    if not out.ok: return
    o = out.value
    M.ensure("P15.dead.shape", M.And(M.ndim(o) == 2, M.deq(M.dims(o)[0], H), M.deq(M.dims(o)[1], W)))
    for r, c in M.points(H, W):
        M.ensure("P15.dead.flagged", M.Iff(M.at(o, r, c), dead(M, f0, H, W, frac, width, r, c)), (r, c, M.at(o, r, c), M.at(f0, r, c)))
        M.ensure("P01.dead.input", M.eq(M.at(f, r, c), M.at(f0, r, c)))

WORD = (1 << 64) - 1
@unit("packbits", "P15", ["corgidrp.data.packbits_64uint", "corgidrp.data.unpackbits_64uint"])
def pack_roundtrip(M):
    """flag words -> bits -> flag words, and bits -> words -> bits"""
    D = M.data
    H, W = M.extent("H", 1, 3), M.extent("W", 1, 3)
    a = M.array("v", (H, W, 1), DQ(WORD))
    a0 = M.asnap(a)
    out = M.call(D.unpackbits_64uint, a, axis=2)
    M.ensure("P15.bits.unpack", out.ok, out.exc)
    if not out.ok: return
    bits = out.value
    M.ensure("P15.bits.shape", M.And(M.ndim(bits) == 3, *[M.deq(x, y) for x, y in zip(M.dims(bits), (H, W, 64))]))
    for r, c in M.points(H, W):
        for b in range(64):
            M.ensure("P15.bits.position", M.Iff(M.eq(M.at(bits, r, c, 63 - b), 1), M.Not(M.eq(M.band(M.at(a0, r, c, 0), 1 << b), 0))), b)
            M.ensure("P15.bits.zero_one", M.Or(M.eq(M.at(bits, r, c, b), 0), M.eq(M.at(bits, r, c, b), 1)))
    out = M.call(D.packbits_64uint, bits, axis=2)
    M.ensure("P15.bits.pack", out.ok, out.exc)
    if not out.ok: return
    w = out.value
    M.ensure("P15.bits.shape", M.And(*[M.deq(x, y) for x, y in zip(M.dims(w), (H, W, 1))]))
    for r, c in M.points(H, W):
        M.ensure("P15.bits.inverse", M.eq(M.at(w, r, c, 0), M.at(a0, r, c, 0)), (M.at(w, r, c, 0), M.at(a0, r, c, 0)))
        M.ensure("P15.bits.input", M.eq(M.at(a, r, c, 0), M.at(a0, r, c, 0)))

@unit("flag_maps", "P15", ["corgidrp.data.get_flag_to_bit_map", "corgidrp.data.get_flag_to_value_map", "corgidrp.data.get_value_to_flag_map", "corgidrp.data.get_bit_to_flag_map"])
def flag_maps(M):
    """the four maps describe one table of flags, the one the pipeline steps use"""
    D = M.data
    got = []
    for f in (D.get_flag_to_bit_map, D.get_flag_to_value_map, D.get_value_to_flag_map, D.get_bit_to_flag_map):
        out = M.call(f)
        M.ensure("P15.maps.returns", out.ok, out.exc)
        if not out.ok: return
        got.append(out.value)
    fb, fv, vf, bf = got
    M.ensure("P15.maps.names", set(fb) == set(fv) == set(vf.values()) == set(bf.values()))
    M.ensure("P15.maps.distinct", len(set(fb.values())) == len(fb))
    for name in fb:
        b = fb[name]
        M.ensure("P15.maps.range", 0 <= b < 64, name)
        M.ensure("P15.maps.value", fv[name] == 2 ** b, (name, fv[name]))
        M.ensure("P15.maps.inverse", vf[fv[name]] == name and bf[b] == name, name)
    M.ensure("P15.maps.sizes", len(vf) == len(bf) == len(fb))
    # what the steps set: 2 filled value ... as documented with the data format
    for v, words in ((2, "filled"), (4, "bad_pixel"), (8, "hot"), (32, "saturated"), (64, "non_linear"), (128, "cosmic")):
        M.ensure("P15.maps.documented", v in vf and words in vf[v], (v, vf.get(v)))

@unit("create_bad_pixel_map", "P10 P15", ["corgidrp.bad_pixel_calibration.create_bad_pixel_map", "corgidrp.bad_pixel_calibration.detect_hot_warm_pixels_from_dark", "corgidrp.bad_pixel_calibration.detect_dead_pixels_from_flat"], budget=200)
def create_bpmap(M):
    m = M.load("corgidrp.bad_pixel_calibration")
    D = M.data
    kind = M.choice("dark", ["master dark", "noise maps"])
    H, W = M.extent("H", 1, 6), M.extent("W", 1, 6)
    dark = M.calib("Dark", "dark", (H, W), dspec=R(-9, 9))
    flat = M.calib("FlatField", "flat", (H, W), dspec=R(0, 2))
    dark.filename, flat.filename = "CGI_dark_DRK_CAL.fits", "CGI_flat_FLT_CAL.fits"
    maps = None
    if kind == "noise maps":
        ph, eh = M.header(), M.header()
        eh["B_O"] = 0.0; eh["B_O_ERR"] = 0.0
        maps = D.DetectorNoiseMaps(np.zeros((3, 2, 2)), pri_hdr=ph, ext_hdr=eh, input_dataset=M.tiny(), err=np.zeros((1, 3, 2, 2)), dq=np.zeros((3, 2, 2), dtype=int), err_hdr=M.header())
        # contract of the callee: a dark for the gain and exposure time of the given dataset (units synthesized_dark_*)
        made = []
        def synth(ds, nm, *a, **k):
            made.append(len(ds) == 1 and ds.frames[0] is flat and nm is maps)
            return dark
        M.patch(m, "build_synthesized_dark", synth)
    k, frac, width = M.scalar("dthresh", R(0, 3)), M.scalar("ffrac", R(0, 1)), M.extent("fwidth", 1, 7)
    do, fo = M.snapshot(dark), M.snapshot(flat)
    out = M.call(m.create_bad_pixel_map, None, dark if maps is None else maps, flat, k, frac, width)
    M.ensure("P15.bpm.returns", out.ok, out.exc)
    if not out.ok: return
    if maps is not None: M.ensure("P15.bpm.synthesized", made == [True])
    M.unchanged("P15.bpm.dark", dark, do); M.unchanged("P15.bpm.flat", flat, fo)
    o = out.value
    product(M, "bpm", o, "BadPixelMap", "_BPM_CAL.fits")
    if not M.sym:
        got = [o.ext_hdr["FILE%d" % j] for j in range(o.ext_hdr["DRPNFILE"])]
        M.ensure("P10.bpm.parents", len(got) == len(set(got)) and set(got) == {dark.filename, flat.filename, "parent_L2a_.fits"}, got)
    M.ensure("P15.bpm.shape", M.And(M.ndim(o.data) == 2, M.deq(M.dims(o.data)[0], H), M.deq(M.dims(o.data)[1], W)))
    for r, c in M.points(H, W):
        want = M.bor(M.ite(hot(M, do["data"] if not M.sym else M.arr(do, "data"), H, W, k, r, c), 8, 0), M.ite(dead(M, fo["data"] if not M.sym else M.arr(fo, "data"), H, W, frac, width, r, c), 4, 0))
        M.ensure("P15.bpm.value", M.eq(M.at(o.data, r, c), want), (r, c, M.at(o.data, r, c), want))

# ---- photon counting --------------------------------------------------------
@unit("photon_count", "P14", "corgidrp.photon_counting.photon_count")
def photon_count(M):
    m = M.load("corgidrp.photon_counting")
    H, W = M.extent("H", 1, 5), M.extent("W", 1, 5)
    cube = M.choice("ndim", ["cube", "frame"]) == "cube"
    dims = (M.extent("N", 1, 3), H, W) if cube else (H, W)
    a = M.array("e", dims, R(nan=True, near=(10.0,)))
    th = M.scalar("thresh", V(10.0, 0.0, 500.5, 3.25))
    a0 = M.asnap(a)
    out = M.call(m.photon_count, a, th)
    M.ensure("P14.count.returns", out.ok, out.exc)
    if not out.ok: return
    o = out.value
    M.ensure("P14.count.shape", M.And(M.ndim(o) == len(dims), *[M.deq(x, y) for x, y in zip(M.dims(o), dims)]))
    for ix in M.points(*dims):
        M.ensure("P14.count.one_iff_above", M.eq(M.at(o, *ix), M.ite(M.at(a0, *ix) > th, 1, 0)), (ix, M.at(o, *ix), M.at(a0, *ix)))
        M.ensure("P01.count.input", M.eq(M.at(a, *ix), M.at(a0, *ix)))

def pcinput(M, n, lam=None):
    nobs = M.array("nobs", (n,), R(0, 40))
    nfr = M.array("nfr", (n,), R(1, 40))
    t, g = M.scalar("t", R(0, 500)), M.scalar("g", R(200, 6000))
    return nobs, nfr, t, g

@unit("calc_lam_approx", "P14", "corgidrp.photon_counting.calc_lam_approx")
def lam_approx(M):
    m = M.load("corgidrp.photon_counting")
    n = M.extent("n", 1, 6)
    nobs = M.array("nobs", (n,), I(0, 12))
    nfr = M.array("nfr", (n,), V(0.0, 3.0, 12.0, 40.0))
    t, g = M.scalar("t", R(0, 500)), M.scalar("g", R(200, 6000))
    bo, fo = M.asnap(nobs), M.asnap(nfr)
    out = M.call(m.calc_lam_approx, nobs, nfr, t, g)
    M.ensure("P14.first.returns", out.ok, out.exc)
    if not out.ok: return
    o = out.value
    for i, in M.points(n):
        fr = M.div(M.at(bo, i), M.at(fo, i))
        arg = M.num(1) - fr * M.exp(M.div(t, g))
        M.ensure("P14.first.value", M.Implies(M.at(fo, i) > 0, M.eq(M.at(o, i), M.ite(arg > 0, M.num(0) - M.log(arg), fr))), (M.at(o, i), M.at(bo, i), M.at(fo, i), t, g))
        M.ensure("P01.first.input", M.And(M.eq(M.at(nobs, i), M.at(bo, i)), M.eq(M.at(nfr, i), M.at(fo, i))))

def eps(M, lam, t, g):
    """expected fraction of frames above threshold for rate lam (Nemati 2020, third order)"""
    num = lam * (2 * g * g * (6 + lam * (3 + lam)) + 2 * g * lam * (3 + lam) * t + lam * lam * t * t)
    den = 2 * g * g * (6 + lam * (6 + lam * (3 + lam)))
    return M.exp(M.num(0) - M.div(t, g)) * M.div(num, den)

@unit("newton_objective", "P14", ["corgidrp.photon_counting._calc_func", "corgidrp.photon_counting._calc_dfunc"])
def newton_objective(M):
    m = M.load("corgidrp.photon_counting")
    n = M.extent("n", 1, 4)
    nobs, nfr, t, g = pcinput(M, n)
    lam = M.array("lam", (n,), R(0, 3))
    f = lambda l: M.call(m._calc_func, nobs, nfr, t, g, l)
    fo = f(lam)
    do = M.call(m._calc_dfunc, nfr, t, g, lam)
    M.ensure("P14.newton.returns", fo.ok and do.ok, (fo.exc, do.exc))
    if not (fo.ok and do.ok): return
    for i, in M.points(n):
        N, b, l = M.at(nfr, i), M.at(nobs, i), M.at(lam, i)
        M.ensure("P14.newton.objective", M.field_eq(M.at(fo.value, i), N * eps(M, l, t, g) - b), (M.at(fo.value, i), N * eps(M, l, t, g) - b))
        M.ensure("P14.newton.derivative", M.field_eq(M.at(do.value, i), M.deriv(lambda a: M.at(f(a).value, i), lam, (i,))), (M.at(do.value, i), l, t, g))

@unit("lam_newton_fit", "P14", ["corgidrp.photon_counting.lam_newton_fit"])
def newton_fit(M):
    """with the objective F and its derivative D replaced by their contracts
    (arbitrary fixed functions; what they are is decided in newton_objective)"""
    m = M.load("corgidrp.photon_counting")
    n = M.extent("n", 1, 5)
    niter = M.choice("niter", [1, 2, 3])
    kind = M.choice("rate", ["fixed point", "any"])
    nfr = M.array("nfr", (n,), R(1, 40))
    t, g = M.scalar("t", R(0, 500)), M.scalar("g", R(200, 6000))
    lam0 = M.array("lam0", (n,), R(0, 0.5))
    if M.sym:
        nobs = M.array("nobs", (n,), R(0, 40))
        F = lambda b, N, t, g, l: M.fun("F", b, N, t, g, l)
        D = lambda N, t, g, l: M.fun("D", N, t, g, l)
        M.patch(m, "_calc_func", lambda nobs, nfr, t, g, lam: M.pointwise(F, nobs, nfr, t, g, lam))
        M.patch(m, "_calc_dfunc", lambda nfr, t, g, lam: M.pointwise(D, nfr, t, g, lam))
    else:
        F = lambda b, N, t, g, l: float(m._calc_func(np.array([b]), np.array([N]), t, g, np.array([l]))[0])
        D = lambda N, t, g, l: float(m._calc_dfunc(np.array([N]), t, g, np.array([l]))[0])
        nobs = np.array([nfr[i] * eps(M, lam0[i], t, g) for i in range(n)])
        if kind == "any": nobs = np.where(lam0 == 0, 0, nobs * M.env.scalar("off", R(0.7, 1.3), ()))
    bo, lo = M.asnap(nobs), M.asnap(lam0)
    use = M.array("use", (n,), B())
    M.require(M.exists(n, lambda i: M.at(use, i)))
    def step(i, l): return l - M.div(F(M.at(bo, i), M.at(nfr, i), t, g, l), D(M.at(nfr, i), t, g, l))
    def rate(i):
        l = M.at(lo, i)
        for _ in range(niter): l = step(i, l)
        return l
    masked = lambda i: M.Or(M.eq(M.at(lo, i), 0), M.eq(M.at(bo, i), 0))
    out = M.call(m.lam_newton_fit, nobs, nfr, t, g, lam0, niter, use)
    if not out.ok:
        M.ensure("P14.fit.rejects_negative", isinstance(out.exc, m.PhotonCountException), out.exc)
        return
    o = out.value
    M.ensure("P14.fit.shape", M.And(M.ndim(o) == 1, M.deq(M.dims(o)[0], n)))
    for i, in M.points(n):
        v = M.at(o, i)
        M.ensure("P14.fit.nothing_seen", M.Implies(masked(i), M.eq(v, 0)), (v, M.at(lo, i), M.at(bo, i)))
        if kind == "fixed point":
            l = M.at(lo, i)
            zero = M.eq(F(M.at(bo, i), M.at(nfr, i), t, g, l), 0) if M.sym else True
            M.ensure("P14.fit.fixed_point", M.Implies(M.And(M.Not(masked(i)), zero, M.Not(M.eq(D(M.at(nfr, i), t, g, l), 0))), M.eq(v, l)), (v, l))
        else:
            r = rate(i)
            M.ensure("P14.fit.newton_step", M.Implies(M.And(M.Not(masked(i)), M.Not(M.isnan(r))), M.eq(v, r)), (v, r))
            M.ensure("P14.fit.not_negative", M.Implies(M.And(M.at(use, i), M.Not(masked(i)), M.Not(M.isnan(r))), v >= 0), v)

@unit("corr_photon_count", "P14", ["corgidrp.photon_counting.corr_photon_count", "corgidrp.photon_counting.calc_lam_approx", "corgidrp.photon_counting.lam_newton_fit"])
def corr_count(M):
    m = M.load("corgidrp.photon_counting")
    n = M.extent("n", 1, 5)
    nobs = M.array("nobs", (n,), I(0, 4))
    nfr = M.array("nfr", (n,), I(4, 9))
    t, g = M.scalar("t", R(0, 500)), M.scalar("g", R(500, 6000))
    if M.sym:
        F = lambda b, N, t, g, l: M.fun("F", b, N, t, g, l)
        D = lambda N, t, g, l: M.fun("D", N, t, g, l)
        M.patch(m, "_calc_func", lambda nobs, nfr, t, g, lam: M.pointwise(F, nobs, nfr, t, g, lam))
        M.patch(m, "_calc_dfunc", lambda nfr, t, g, lam: M.pointwise(D, nfr, t, g, lam))
    else:
        F = lambda b, N, t, g, l: float(m._calc_func(np.array([b]), np.array([N]), t, g, np.array([l]))[0])
        D = lambda N, t, g, l: float(m._calc_dfunc(np.array([N]), t, g, np.array([l]))[0])
    use = M.array("use", (n,), B())
    M.require(M.exists(n, lambda i: M.at(use, i)))
    bo, fo = M.asnap(nobs), M.asnap(nfr)
    niter = M.choice("niter", ["default", 1])
    out = M.call(m.corr_photon_count, nobs, nfr, t, g, use, **({} if niter == "default" else {"niter": niter}))
    if not out.ok:
        M.ensure("P14.corr.rejects_negative", isinstance(out.exc, m.PhotonCountException), out.exc)
        return
    for i, in M.points(n):
        b, N = M.num(M.at(bo, i)), M.num(M.at(fo, i))
        fr = M.div(b, N)
        arg = M.num(1) - fr * M.exp(M.div(t, g))
        l = lam0 = M.ite(arg > 0, M.num(0) - M.log(arg), fr)
        for _ in range(2 if niter == "default" else 1): l = l - M.div(F(b, N, t, g, l), D(N, t, g, l))
        v = M.at(out.value, i)
        M.ensure("P14.corr.nothing_seen", M.Implies(M.eq(b, 0), M.eq(v, 0)), v)
        M.ensure("P14.corr.value", M.Implies(M.And(M.Not(M.eq(b, 0)), M.Not(M.eq(lam0, 0)), M.Not(M.isnan(l))), M.eq(v, l)), (v, l))


def pc_bins(M, shape):
    """(number of frames, bin size given, frames per bin, bins)"""
    if shape == "all":
        N = M.extent("N", 1, 4)
        return N, None, N, 1
    n, b = {"1 of 1": (1, 1), "2 of 1": (2, 1), "2 of 2 and one more": (5, 2), "1 of 2 and one more": (3, 2)}[shape]
    return n, b, b, n // b

def pc_unit(name, vis, withdark):
    @unit(name, "P01 P02 P06 P10 P14", ["corgidrp.photon_counting.get_pc_mean"], budget=300, bounded="bins of all frames (any number), or up to 2 bins of up to 2 frames and a remainder (any pixels, headers, frame size)")
    def pc_mean(M):
        m = M.load("corgidrp.photon_counting")
        D = M.data
        shape = M.choice("frames", ["all", "1 of 1", "2 of 1", "2 of 2 and one more", "1 of 2 and one more"])
        simple = M.sym and shape in ("2 of 1", "2 of 2 and one more")          # less variety where there are two bins
        gain = "applied" if simple or (M.sym and withdark) else M.choice("gain", ["commanded", "applied", "measured", "measured, none applied"])
        usemask = False if simple else M.choice("mask", [False, True])
        N, b, n, bins = pc_bins(M, shape)
        H, W = M.extent("H", 1, 4), M.extent("W", 1, 4)
        u = lambda *v: V(*v) if not M.sym and M.env.choose("mixed", 10) == 0 else v[0]
        gc, ga, gm = 5000.0, M.scalar("ga", R(4000, 6000)), M.scalar("gm", R(4000, 6000))
        ext = dict(given_parents(M), EXPTIME=u(1.0, 2.0), EMGAIN_C=gc, KGAINPAR=u(7.0, 8.0), RN=100.0, ISPC=True)
        ext["EMGAIN_A"] = (lambda k: ga) if "applied" == gain else -1.0
        if "measured" in gain: ext["EMGAIN_M"] = lambda k: gm
        if gain == "measured": ext["EMGAIN_A"] = lambda k: ga
        want = {"commanded": gc, "applied": ga}.get(gain, gm)
        ds = M.dataset(n=N, shape=(H, W), nan=False, dqmask=0x5, data=R(0, 900), err=R(0, 9), symname=True, ext=ext, pri={"VISTYPE": vis})
        old = M.snapshot(ds)
        mask = M.array("mask", (H, W), V(0.0, 1.0))
        kw = dict(T_factor=5, pc_ecount_max=0.1, niter=2, inputmode="darks" if vis == "DARK" else "illuminated", bin_size=b, safemode=False)
        if usemask:
            M.patch(m.fits, "getdata", lambda *a, **k: mask)
            M.require(M.exists2(H, W, lambda r, c: M.eq(M.at(mask, r, c), 0)))
            kw["mask_filepath"] = "mask.fits"
        th = 500.0
        if withdark:
            nd = M.choice("dark slices", [1, 2])
            dk = M.calib("Dark", "dark", (nd, H, W), dspec=R(0, 9), dqmask=0x5, ext=dict(PC_STAT="photon-counted master dark", PCTHRESH=th, NUM_FR=9999))
            M.require(n <= 9999)
            kw["pc_master_dark"] = dk
            dold = M.snapshot(dk)
        if M.sym:
            M.assume_split()
            # callees: decided by the units photon_count, corr_photon_count; varL23 is left arbitrary
            corr = lambda b, N: M.ite(M.eq(b, 0), M.num(0), M.fun("CORR", b, N, M.num(th), want))
            var = lambda l, n: M.fun("VAR", want, l, n)
            def corr_(nobs, nfr, t, g, use, niter=2):
                for z, x in (("threshold", M.eq(t, th)), ("gain", M.eq(g, want)), ("iterations", niter == 2)): M.ensure("P14.pc.callee", x, z)
                M.ensure("P06.pc.gain", M.eq(g, want), (g, want))
                for r, c in M.points(H, W): M.ensure("P14.pc.callee", M.Iff(M.at(use, r, c), M.eq(M.at(mask, r, c), 0) if usemask else True), "considered pixels")
                return M.pointwise(corr, nobs, nfr)
            M.patch(m, "corr_photon_count", corr_)
            def var_(g, L, T, N):
                M.ensure("P14.pc.callee", M.And(M.eq(T, th), M.eq(g, want)), "varL23")
                return M.pointwise(var, L, N)
            M.patch(m, "varL23", var_)
        else:
            def corr(b, N):
                with np.errstate(all="ignore"): return float(m.corr_photon_count(np.array([b, 0]), np.array([N, 1]), th, want, np.array([False, True]), 2)[0])
            def var(l, n):
                with np.errstate(all="ignore"): return float(m.varL23(want, np.float64(l), th, np.float64(n)))
        parents_contract(M)
        out = M.call(m.get_pc_mean, ds, **kw)
        M.unchanged("P01.pc", ds, old)
        if withdark: M.unchanged("P01.pc.dark", dk, dold)
        if not out.ok:
            if M.sym or isinstance(u(0, 1), int): M.ensure("P14.pc.returns", not M.sym and "negative number" in str(out.exc), out.exc)
            return
        o = out.value
        if vis == "DARK":
            product(M, "pcdark", o, "Dark", "_DRK_CAL.fits")
            M.ensure("P14.pc.shape", M.And(M.ndim(o.data) == 3, *[M.deq(x, y) for x, y in zip(M.dims(o.data), (bins, H, W))]))
            M.ensure("P14.pc.errshape", M.And(M.ndim(o.err) == 4, *[M.deq(x, y) for x, y in zip(M.dims(o.err), (1, bins, H, W))]))
            hd = [o.ext_hdr]
            used = ds.frames[:bins * n] if not M.sym else None
            if not M.sym:
                got = recorded_parents(o)
                for p in ("P10", "P14"): M.ensure(p + ".pcdark.parents", len(got) == len(set(got)) and set(got) == expected_parents(used), (got, expected_parents(used)))
            M.ensure("P14.pc.status", M.eq(o.ext_hdr["PC_STAT"], "photon-counted master dark"))
            M.hist_grew("P10.pcdark.hist", o.ext_hdr, M.old(old, (bins - 1) * n + n - 1).h[1], contains="hoton-counted")
            pix = lambda i: (lambda r, c: M.at(o.data, i, r, c), lambda r, c: M.at(o.err, 0, i, r, c), lambda r, c: M.at(o.dq, i, r, c))
        else:
            M.linked("P02.pc", o)
            M.disjoint("P02.pc.fresh", o, ds)
            M.ensure("P14.pc.bins", M.eq(M.nframes(o), bins), (bins, M.nframes(o)))
            hd = []
            for i in range(bins):
                f, last = M.frame(o, i), M.old(old, i * n + n - 1)
                hd.append(f.ext_hdr)
                M.ensure("P14.pc.shape", M.And(M.ndim(f.data) == 2, *[M.deq(x, y) for x, y in zip(M.dims(f.data), (H, W))]))
                M.hist_grew("P10.pc.hist", f.ext_hdr, last.h[1], contains="hoton-counted")
                skip = VOLATILE + ("PCTHRESH", "NUM_FR", "DRPNFILE") + tuple("FILE%d" % j for j in range(20))
                for j, h in enumerate(("pri", "ext")): M.header_same("P14.pc." + h, hdrs(f)[j], last.h[j], exc=skip, hist=j != 1)
                if not M.sym:
                    g, w = recorded_parents(f), expected_parents(ds.frames[i * n:(i + 1) * n])
                    for p in ("P10", "P14"): M.ensure(p + ".pc.parents", len(g) == len(set(g)) and set(g) == w, (g, w))
            pix = lambda i: (lambda r, c: M.at(M.frame(o, i).data, r, c), lambda r, c: M.at(M.frame(o, i).err, 0, r, c), lambda r, c: M.at(M.frame(o, i).dq, r, c))
        for h in hd:
            M.ensure("P14.pc.threshold", M.eq(h["PCTHRESH"], th))
            M.ensure("P14.pc.numfr", M.eq(h["NUM_FR"], n), h["NUM_FR"])
        for i in range(bins):
            dv, ev, qv = pix(i)
            for r, c in M.points(H, W):
                F = lambda k: M.old(old, i * n + k)
                good = lambda k: M.eq(M.at(F(k).dq, r, c), 0)
                nfr = M.num(M.count(n, good))
                def rate(off):
                    obs = M.num(M.count(n, lambda k: M.And(good(k), M.at(F(k).data, r, c) + off * M.at(F(k).err, 0, r, c) > th)))
                    return corr(obs, nfr)
                mean, up, low = rate(0), rate(1), rate(-1)
                dm, de, dq = 0.0, 0.0, 0
                if withdark:
                    j = i % nd
                    dd = (lambda nm: M.arr(dold, nm))
                    dm, de, dq = M.at(dd("data"), j, r, c), M.at(dd("err"), 0, j, r, c), M.at(dd("dq"), j, r, c)
                v = mean - dm
                M.ensure("P14.pc.never_negative", M.Not(dv(r, c) < 0), dv(r, c))
                M.ensure("P14.pc.value", M.eq(dv(r, c), M.ite(v < 0, M.num(0), v), scale=1), (i, r, c, dv(r, c), v))
                flag = M.ite(M.eq(nfr, 0), 1, 0)
                M.ensure("P14.pc.flag", M.eq(M.bits(qv(r, c)), M.bor(flag, dq)), (i, r, c, qv(r, c), flag, dq))
                s2 = var(mean, nfr)
                a, z = up + s2 - mean, mean - (low - s2)
                e = M.ite(a >= z, a, z) if M.sym else np.maximum(a, z)
                if not M.sym and np.isnan(e): continue
                M.ensure("P14.pc.error", M.eq(ev(r, c), M.sqrt(e * e + de * de), scale=1), (i, r, c, ev(r, c), e))
    return pc_mean

pc_unit("get_pc_mean", "TDD", False)
pc_unit("get_pc_mean_dark_subtracted", "TDD", True)
pc_unit("get_pc_mean_master_dark", "DARK", False)
