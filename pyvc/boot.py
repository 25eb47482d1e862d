import os, sys, tempfile, atexit, shutil
_dirs = []
def cleanup():
    for d in _dirs: shutil.rmtree(d, True)
def common():
    os.environ.setdefault("MPLBACKEND", "Agg")
    d = tempfile.mkdtemp(prefix="pyvc_home_")
    os.environ["HOME"] = d
    os.environ["MPLCONFIGDIR"] = d
    sys.dont_write_bytecode = True
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ.setdefault(v, "1")
    atexit.register(shutil.rmtree, d, True)
    _dirs.append(d)
    os.chdir(d)
    return d
def symbolic():
    common()
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from . import loader
    loader.install()
def concrete():
    common()
    sys.path.insert(0, os.environ.get("VP_REPO", "/repo"))
