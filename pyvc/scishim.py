"""Stand-ins for other third-party names (assumed contracts on libraries)."""
from . import core
def replacement(name, v):
    return TABLE.get(id(v))
TABLE = {}
KEEP = []
def register(real, rep):
    TABLE[id(real)] = rep
    KEEP.append(real)

import re as _re
class ReShim:
    """re on symbolic strings: sub is an unknown function of its text"""
    def __getattr__(self, n):
        f = getattr(_re, n)
        if not callable(f): return f
        def g(*a, **k):
            s = next((x for x in a if isinstance(x, core.SStr)), None)
            if s is None: return f(*a, **k)
            if n == "sub" and len(a) == 3 and not k and isinstance(a[0], str) and isinstance(a[1], str):
                S = core.z3.StringSort()
                return core.SStr(core.uf("re_sub[%s][%s]" % (a[0], a[1]), S, S)(s.t))
            core.E.unsupported("re.%s on a symbolic string" % n)
        return g
register(_re, ReShim())
