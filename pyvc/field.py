"""A decision procedure for identities between rational functions, used as a
lemma generator for the SMT solver: both sides are normalised to quotients of
polynomials over atoms (f_inv(p) is 1/p, f_exp(n*b) is f_exp(b)^n); when the
cross-multiplied polynomials agree term by term, a == b holds wherever no
denominator vanishes, which is what the lemma says.  Also term-wise signs of
polynomials and derivatives of terms."""
from fractions import Fraction
import z3
from . import core

class TooBig(Exception): pass
LIMIT = 60000

class P:
    """polynomial: {monomial: coefficient}; a monomial is a sorted tuple of (atom key, exponent)"""
    __slots__ = ("d",)
    def __init__(self, d): self.d = d
    @staticmethod
    def const(c): return P({(): Fraction(c)} if c else {})
    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: d.pop(m, None)
        return P(d)
    def scale(self, c): return P({m: v * c for m, v in self.d.items()} if c else {})
    def __mul__(self, o):
        if len(self.d) * len(o.d) > LIMIT * 50: raise TooBig()
        d = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = mmul(m, n)
                d[k] = d.get(k, 0) + c * e
        if len(d) > LIMIT: raise TooBig()
        return P({m: v for m, v in d.items() if v})
    def __pow__(self, n):
        r = P.const(1)
        for _ in range(n): r = r * self
        return r
    def key(self): return tuple(sorted(self.d.items()))

def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))

class Q:
    """num / product of den factors; den: {key of polynomial: (polynomial, exponent)}"""
    __slots__ = ("n", "den")
    def __init__(self, n, den=None): self.n, self.den = n, den or {}

class Field:
    def __init__(self):
        self.atoms = {}        # key -> z3 term
        self.memo = {}
        self.nonzero = []      # z3 terms that must not vanish for the reading to be right
    def atom(self, t):
        k = core.chash(t)
        self.atoms[k] = t
        return k
    def add(self, a, b):
        den = dict(a.den)
        for k, (p, e) in b.den.items():
            if k not in den or den[k][1] < e: den[k] = (p, e)
        def lift(q):
            n = q.n
            for k, (p, e) in den.items():
                m = e - (q.den[k][1] if k in q.den else 0)
                if m: n = n * (p ** m)
            return n
        return Q(lift(a) + lift(b), den)
    def mul(self, a, b):
        den = dict(a.den)
        for k, (p, e) in b.den.items():
            den[k] = (p, e + (den[k][1] if k in den else 0))
        return Q(a.n * b.n, den)
    def inv(self, q, t):
        """1/q; t is the term whose non-vanishing makes that right"""
        if not q.n.d: raise TooBig()
        n = P.const(1)
        for p, e in q.den.values(): n = n * (p ** (2 * e))      # D/N written as D^2/(N D): D stays a denominator
        # split monomial content off so that g^2*(...) is two factors
        mons = list(q.n.d)
        com = dict(mons[0])
        for m in mons[1:]:
            md = dict(m)
            com = {k: min(e, md.get(k, 0)) for k, e in com.items()}
        com = {k: e for k, e in com.items() if e}
        def strip(m):
            return tuple((k, e - com.get(k, 0)) for k, e in m if e - com.get(k, 0))
        rest = P({strip(m): c for m, c in q.n.d.items()})
        lead = rest.d[min(rest.d)]
        rest = rest.scale(1 / lead)
        den = dict(q.den)
        for k, e in com.items():
            p = P({((k, 1),): Fraction(1)})
            den[p.key()] = (p, e + (den[p.key()][1] if p.key() in den else 0))
        if list(rest.d) != [()]: den[rest.key()] = (rest, 1 + (den[rest.key()][1] if rest.key() in den else 0))
        return Q(n.scale(1 / lead), den)
    def of(self, t):
        i = t.get_id()
        if i not in self.memo: self.memo[i] = (t, self._of(t))
        return self.memo[i][1]
    def _of(self, t):
        if core.is_numeral(t): return Q(P.const(core.num(t)))
        if z3.is_add(t):
            r = None
            for c in t.children():
                q = self.of(c)
                r = q if r is None else self.add(r, q)
            return r
        if z3.is_sub(t):
            r = None
            for c in t.children():
                q = self.of(c)
                r = q if r is None else self.add(r, Q(q.n.scale(-1), q.den))
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            q = self.of(t.arg(0)); return Q(q.n.scale(-1), q.den)
        if z3.is_mul(t):
            r = None
            for c in t.children():
                q = self.of(c)
                r = q if r is None else self.mul(r, q)
            return r
        if z3.is_app_of(t, z3.Z3_OP_POWER) and core.is_numeral(t.arg(1)):
            n = core.num(t.arg(1))
            if n.denominator == 1 and 0 <= n <= 12:
                q = self.of(t.arg(0)); r = Q(P.const(1))
                for _ in range(int(n)): r = self.mul(r, q)
                return r
        if z3.is_app(t) and t.decl().name() == "f_inv":
            q = self.of(t.arg(0))
            self.nonzero.append(t.arg(0))
            return self.inv(q, t.arg(0))
        if z3.is_app_of(t, z3.Z3_OP_DIV):
            q = self.of(t.arg(1))
            self.nonzero.append(t.arg(1))
            return self.mul(self.of(t.arg(0)), self.inv(q, t.arg(1)))
        if z3.is_app(t) and t.decl().name() == "f_exp":
            # exp(c*b) with b the primitive part of the argument
            q = self.of(t.arg(0))
            if q.n.d:
                c = q.n.d[min(q.n.d)]
                base = ("exp", q.n.scale(1 / c).key(), tuple(sorted((k, e) for k, (p, e) in q.den.items())))
                if c.denominator == 1 and abs(c) <= 12:
                    k = hash(base)
                    self.atoms.setdefault(k, ("exp", base))
                    p = P({((k, 1),): Fraction(1)})
                    if c > 0: return Q(p ** int(c))
                    return Q(P.const(1), {p.key(): (p, int(-c))})
        return Q(P({((self.atom(t), 1),): Fraction(1)}))
    def equal(self, a, b):
        x, y = self.of(a), self.of(b)
        d = self.add(x, Q(y.n.scale(-1), y.den))
        return not d.n.d
    # ---- signs -------------------------------------------------------------------
    def poly_sign(self, p, sgn):
        """1 when p > 0, 0 when p >= 0, None when not visible term by term"""
        best = None
        for m, c in p.d.items():
            s = 1
            for k, e in m:
                t = self.atoms[k]
                if isinstance(t, tuple): continue        # exponentials are positive
                g = sgn(t)
                if e % 2 == 0 and g != 1: g = 0
                if g is None: return None
                s = min(s, g)
            if c < 0: return None
            best = s if best is None else max(best, s)
        return 0 if best is None else best
    def sign(self, t, sgn):
        q = self.of(t)
        n = self.poly_sign(q.n, sgn)
        if n is None:
            n = self.poly_sign(q.n.scale(-1), sgn)
            if n is None: return None
            n = -1 if n == 1 else None
            if n is None: return None
        for p, e in q.den.values():
            s = self.poly_sign(p, sgn)
            if s != 1: return None
        return n

def signs(e):
    """sign of an atom under the path condition"""
    memo = {}
    def f(t):
        i = t.get_id()
        if i not in memo:
            z = z3.IntVal(0) if z3.is_int(t) else z3.RealVal(0)
            if e.prove(t > z, 1500)[0] == "valid": r = 1
            elif e.prove(t >= z, 1500)[0] == "valid": r = 0
            else: r = None
            memo[i] = (t, r)
        return memo[i][1]
    return f

def diff(t, x):
    """derivative of term t with respect to the (atomic) term x"""
    memo = {}
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i][1]
        r = _go(t)
        memo[i] = (t, r)
        return r
    Z = z3.RealVal(0)
    def zero(r): return core.is_numeral(r) and core.num(r) == 0
    def _go(t):
        if t.eq(x): return z3.RealVal(1)
        if not core.mentions(t, x.get_id()): return Z
        k = t.decl().kind()
        if z3.is_add(t) or z3.is_sub(t):
            ch = [go(c) for c in t.children()]
            r = ch[0]
            for c in ch[1:]: r = core._add(r, c) if z3.is_add(t) else core._sub(r, c)
            return r
        if k == z3.Z3_OP_UMINUS: return -go(t.arg(0))
        if z3.is_mul(t):
            ch = t.children()
            r = Z
            for j, c in enumerate(ch):
                d = go(c)
                if zero(d): continue
                for l, o in enumerate(ch):
                    if l != j: d = core._mul(d, o)
                r = core._add(r, d)
            return r
        if k == z3.Z3_OP_POWER and core.is_numeral(t.arg(1)):
            n = core.num(t.arg(1))
            return realval(n) * t.arg(0) ** realval(n - 1) * go(t.arg(0))
        n = t.decl().name()
        if n == "f_inv": return core._mul(-t * t, go(t.arg(0)))
        if n == "f_exp": return core._mul(t, go(t.arg(0)))
        if n == "f_log": return core._mul(core.mk_inv(t.arg(0)), go(t.arg(0)))
        if k == z3.Z3_OP_ITE and not core.mentions(t.arg(0), x.get_id()):
            return z3.If(t.arg(0), go(t.arg(1)), go(t.arg(2)))
        core.E.unsupported("derivative of %s" % n)
    return go(t)
realval = core.realval
