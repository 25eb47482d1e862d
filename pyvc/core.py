"""Symbolic values, path exploration and obligation discharge."""
import sys, time, math, fractions, weakref
import z3

# --------------------------------------------------------------------------
# control-flow signals (BaseException: corgidrp code must not swallow them)
# --------------------------------------------------------------------------
class Unsupported(BaseException):
    pass
class PathAbort(BaseException):      # infeasible / cut path
    pass
class Restart(BaseException):        # re-run the path with a new loop annotation
    pass

class Engine:
    MAX_PATHS = 400

    def __init__(self, timeout_ms=8000, fork_timeout_ms=1500, budget_s=240.0):
        self.timeout_ms = timeout_ms
        self.fork_timeout_ms = fork_timeout_ms
        self.deadline = time.time() + budget_s
        self.loop_ann = {}            # persistent over restarts
        self.raises, self.completed, self.need_restart = {}, set(), False
        self.outer, self.outer_seen = [], set()
        self.merges, self.merge_ready, self.need_merge = {}, set(), False
        self.append_counts = {}       # (loop key, list birth) -> set of counts
        self.stats = dict(paths=0, forks=0, queries=0, solver_s=0.0, restarts=0)
        self.obligations = []         # dict(name,path,status,...)
        self.notes = set()
        self.model_hook = None
        self.reset_path([])

    # ---- per path -----------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.nforks = 0
        self.pc = []                  # all path facts
        self.derived = []
        self.fork_facts = []          # facts that came from forks
        self.aborted = None
        self.counter = 0
        self.focus = {}               # extent key -> z3 Int const
        self.active = []              # stack of active LoopCtx
        self.bufs = []                # weakrefs of buffers in creation order
        self.lists = []               # weakrefs of PLists
        self.headers = []
        self.tracked = []
        self.loop_occ = {}
        self.lane_depth = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.fork_timeout_ms)
        self.tokens = {}
        self.clause_ctx = ""
        self.last_exc = None
        from . import loops
        self.all_bufs = []
        self.reg = loops.Reg()
        self.ghosts, self.ghost_bufs, self.ghost_writes = [], [], []
        self.ghost_cache = {}
        self.dirty = {}
        self.focus_all, self.points, self.hints = [], [], []
        self.selections, self.mask_ids, self.keepalive = [], {}, []
        self.nlists = 0
        self.approx = set()
        self.loops_done = []
        self.partial_loops = 0
        self.ticks = 0
        self.io, self.fs = [], {}
        self.sym_fill = False
        self.pc_ids, self.bv_nonneg_names, self.positive = set(), set(), {}
        self.pre_axioms = {}          # decl name -> fn(args)-> z3 constraint

    UNROLL = 12
    # ---- focus indices ------------------------------------------------
    def focus_var(self, n):
        """one generic index per extent (a second one when the first is in use)"""
        key = n if isinstance(n, int) else n.sexpr()
        lst = self.focus.setdefault(key, [])
        for v in lst:
            if not self.is_active(v):
                return v
        v = z3.Int("k!%s!%d" % (key if len(key) < 60 else "x%x" % (chash(n) & 0xffffffffffff), len(lst)))
        lst.append(v)
        self.focus_all.append(v)
        return v
    def is_active(self, k):
        return any(c.k is not None and c.k.eq(k) for c in self.active)
    def assume_focus(self, k, n):
        nn = z3.IntVal(n) if isinstance(n, int) else n
        self.assume(z3.And(k >= 0, k < nn))
    def point(self, n, base="p"):
        """fresh arbitrary index below n"""
        v = z3.Int(self.fresh_name(base))
        self.points.append(v)
        self.assume_focus(v, n)
        return v
    def candidates(self, nd):
        c = self.focus_all + self.points
        c = c[-9:]
        h = [t for t in self.hints if len(t) == nd]
        if nd == 1: return [(x,) for x in c] + h
        if nd == 2:
            return [(x, y) for x in c[-5:] for y in c[-5:]] + h
        return h

    def fresh_name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def abort(self, exc):
        if self.aborted is None:
            self.aborted = exc
        raise exc

    def check_alive(self):
        if self.aborted is not None:
            raise self.aborted
        if time.time() > self.deadline:
            self.abort(Unsupported("time budget of the unit exhausted"))

    def unsupported(self, msg):
        self.abort(Unsupported(msg))

    def assume(self, c):
        c = zb(c)
        if z3.is_true(c):
            return
        if c.get_id() in self.pc_ids: return
        self.pc_ids.add(c.get_id())
        self.pc.append(c)
        self.solver.add(c)

    def _chk(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r

    def fork(self, cond):
        """Decide a symbolic branch condition; explores both feasible sides."""
        self.check_alive()
        cond = z3.simplify(bz(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i > 400 or self.nforks > 160: self.abort(Unsupported("path with too many branch decisions"))
        h = chash(cond)
        if i < len(self.prefix):
            b, implied, h0 = self.prefix[i]
            if h0 != h: self.abort(Unsupported("path replay diverged"))
        else:
            can_t = self._chk(cond) != z3.unsat
            can_f = self._chk(z3.Not(cond)) != z3.unsat
            if can_t and can_f and has_red([cond]):
                # prune sides excluded by the axioms of the reductions
                if self.prove(z3.Not(cond), 1000)[0] == "valid": can_t = False
                elif self.prove(cond, 1000)[0] == "valid": can_f = False
            if not can_t and not can_f: self.abort(PathAbort("infeasible path"))
            implied = not (can_t and can_f)
            b = can_t
            if not implied:
                self.worklist.append(self.trace + [(False, False, h)])
                self.stats["forks"] += 1
        self.trace.append((b, implied, h))
        c = cond if b else z3.simplify(z3.Not(cond))
        self.consult(c, not implied)
        self.assume(c)
        if not implied:
            self.nforks += 1
            self.fork_facts.append(c)
        self.derived.append(c)
        return b

    def consult(self, c, fork):
        """the path used fact c: loops over an index c speaks about are only
        generic in that index when c holds for every index"""
        for ctx in self.active:
            if not hasattr(ctx, "taint") or ctx.taint: continue
            kid = ctx.k.get_id()
            if not mentions(c, kid): continue
            if fork:
                ctx.taint = True
                continue
            if not any(mentions(f, kid) for f in self.fork_facts): continue
            drop = {f.get_id() for f in self.derived if mentions(f, kid)}
            s = z3.Solver(); s.set("timeout", self.fork_timeout_ms)
            s.add(*[f for f in self.pc if f.get_id() not in drop])
            s.add(z3.Not(c))
            self.stats["queries"] += 1
            if s.check() != z3.unsat: ctx.taint = True

    def choose(self, name, n):
        """Contract-level choice among n alternatives (always explored)."""
        i = len(self.trace)
        if i < len(self.prefix):
            b, _, h0 = self.prefix[i]
            if h0 != name: self.abort(Unsupported("path replay diverged"))
        else:
            b = 0
            for alt in range(n - 1, 0, -1):
                new = self.trace + [(alt, False, name)]
                if not all(isinstance(x[2], str) for x in self.trace): self.worklist.append(new)
                elif repr(new) not in self.outer_seen:
                    self.outer_seen.add(repr(new))
                    self.outer.append(new)
        self.trace.append((b, False, name))
        return b

    def tainted(self, k):
        """Did some branch decision depend on index k (so that what was
        learnt about element k may not hold for the other elements)?"""
        kid = k.get_id()
        for f in self.fork_facts:
            if mentions(f, kid):
                return True
        return False

    # ---- proving --------------------------------------------------------
    def valid(self, cond, timeout=None):
        """Quick validity test used for simplification (never for results)."""
        cond = z3.simplify(zb(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        r = self._chk(z3.Not(cond)) == z3.unsat
        if r: self.consult(cond, False)
        return r

    def cvc5(self, fs, ms):
        """second back end; True when it refutes fs"""
        import subprocess, shutil, tempfile, os
        exe = shutil.which("cvc5")
        if exe is None: return False
        sv = z3.Solver()
        sv.add(*fs)
        t0 = time.time()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + sv.to_smt2())
        try: out = subprocess.run([exe, "--tlimit=%d" % int(ms), f.name], capture_output=True, text=True, timeout=ms / 1000 + 5).stdout
        except Exception: out = ""
        finally: os.unlink(f.name)
        self.stats["cvc5_queries"] = self.stats.get("cvc5_queries", 0) + 1
        self.stats["solver_s"] += time.time() - t0
        ok = out.strip().splitlines()[:1] == ["unsat"]
        if ok: self.stats["cvc5_proofs"] = self.stats.get("cvc5_proofs", 0) + 1
        return ok
    def prove(self, goal, timeout_ms=None):
        """-> ('valid'|'invalid'|'unknown', model or None)"""
        goal = zb(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "valid", None
        facts = list(self.pc) + [z3.Not(g)]
        facts = [beta(f) for f in facts]
        full = timeout_ms or self.timeout_ms
        self.steps = []
        def prune():
            """the path condition without what it says about indices the goal
            does not speak of (weaker, so only 'valid' counts)"""
            mine = index_consts(facts[-1])
            reds = {t.get_id() for t in collect_apps([facts[-1]], lambda n: n.startswith("red_"))}
            fs = [f for f in facts[:-1] if index_consts(f) <= mine and all(t.get_id() in reds for t in collect_apps([f], lambda n: n.startswith("red_")))]
            return None if len(fs) == len(facts) - 1 else fs + [facts[-1]]
        def run(s, fs, ms, what):
            s.set("timeout", int(ms))
            s.add(*fs)
            t0 = time.time()
            r = s.check()
            self.stats["queries"] += 1
            self.stats["solver_s"] += time.time() - t0
            self.steps.append((what, str(r), round(time.time() - t0, 2)))
            return r
        def second(fs, ms, what):
            t0 = time.time()
            r = self.cvc5(fs, ms)
            self.steps.append((what, r, round(time.time() - t0, 2)))
            return r
        # weaker theories first: products of unknowns as uninterpreted, fewer facts (sound for 'valid')
        few = prune()
        if few is not None:
            fx = axioms_for(few, self)
            ab = nl_abstract(few + fx)
            if ab is not None and run(z3.Solver(), ab, min(full, 300), "z3 few ab") == z3.unsat: return "valid", None
        ax = axioms_for(facts, self)
        ab = nl_abstract(facts + ax)
        if ab is not None:
            if run(z3.Solver(), ab, min(full, 700), "z3 ab") == z3.unsat: return "valid", None
        if few is not None and run(z3.Solver(), few + fx, min(full, 1200), "z3 few %d/%d" % (len(fx), len(few))) == z3.unsat: return "valid", None
        s = z3.Solver()
        r = run(s, facts + ax, min(full, 1200), "z3")
        if r == z3.unsat: return "valid", None
        if r == z3.sat: return "invalid", s
        if full < 2000: return "unknown", None
        if ab is not None and second(ab, min(full, 3000), "cvc5 ab"): return "valid", None
        r = run(s, [], min(full, 4000), "z3 more")
        if r == z3.unsat: return "valid", None
        if r == z3.sat: return "invalid", s
        for mul in (2, False):
            ab = nl_abstract(facts + ax, mul)
            if ab is not None and second(ab, min(full, 4000), "cvc5 %s" % mul): return "valid", None
        ab = nl_abstract(facts + ax)
        if ab is not None and second(ab, 2.5 * full, "cvc5 ab more"): return "valid", None
        # second chance: som-normalised goal through a different tactic
        s2 = z3.Then("simplify", "solve-eqs", "smt").solver()
        r = run(s2, facts + ax, full, "z3 second")
        if r == z3.unsat: return "valid", None
        if r == z3.sat: return "invalid", s2
        return "unknown", None

E = None
def set_engine(e):
    global E
    E = e
def eng():
    return E

# --------------------------------------------------------------------------
# z3 helpers
# --------------------------------------------------------------------------
COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR}
_nl_memo = {}
def nl_abstract(fs, mul=True):
    """the formulas with every product of two or more non-numerals replaced by
    an uninterpreted function of its (sorted) factors, and every lambda by a
    constant; None if there is none"""
    memo = _nl_memo.setdefault(mul, {})      # id -> (term, kept alive; result; something was replaced)
    def one(t, kids):
        """result of t given its children's results"""
        if z3.is_quantifier(t):
            if t.is_lambda():       # every consequence of it that we use is instantiated by axioms_for
                return z3.Const("lam!%x!%d" % (chash(t) & 0xffffffffffffffff, t.num_vars()), t.sort()), True
            return t, False
        if not kids: return t, False
        ch = [c for _, c in node(t)[2]]
        hit = any(k[2] for k in kids)
        if z3.is_mul(t) and mul and not z3.is_bv(t):
            new = [k[1] for k in kids]
            fac = [c for c in new if not is_numeral(c)]
            if len(fac) > 1:
                fac.sort(key=chash)
                f = z3.Function("nlmul%d_%s" % (len(fac), t.sort().name()), *([t.sort()] * (len(fac) + 1)))
                r = f(*fac)
                for c in new:
                    if is_numeral(c): r = c * r
                return r, True
        if not hit: return t, False
        return t.decl()(*[k[1] for k in kids]), True
    def reds(t):
        # a reduction: a function of its extents, named after what it reduces
        ch = t.children()
        isarr = lambda c: isinstance(c.sort(), z3.ArraySortRef)
        rest = [c for c in ch if not isarr(c)]
        nm = t.decl().name() + "".join("!%x" % (chash(c) & 0xffffffffffffffff) for c in ch if isarr(c))
        return rest, nm
    def go(t):
        st = [t]
        while st:
            x = st[-1]
            i = x.get_id()
            if i in memo: st.pop(); continue
            _, name, ch = node(x)
            if z3.is_quantifier(x): ch = []
            red = name is not None and name.startswith("red_")
            if red:
                rest, nm = reds(x)
                ch = [(c.get_id(), c) for c in rest]
            todo = [c for j, c in ch if j not in memo]
            if todo: st.extend(todo); continue
            kids = [memo[j] for j, _ in ch]
            if red: r, hit = z3.Function(nm, *([c.sort() for _, c in ch] + [x.sort()]))(*[k[1] for k in kids]), True
            else: r, hit = one(x, kids)
            memo[i] = (x, r, hit)
            st.pop()
        return memo[t.get_id()]
    try: res = [go(f) for f in fs]
    except z3.Z3Exception: return None
    if not any(r[2] for r in res): return None
    out, side = [r[1] for r in res], []
    if mul:
        for r in collect_apps(out, lambda n: n.startswith("nlmul2_")):
            x, y = r.children()
            if x.eq(y): side.append(r >= 0)
            elif mul == 2:
                side.append(z3.Implies(z3.Or(x == 0, y == 0), r == 0))
                side.append(z3.Implies(z3.And(x >= 0, y >= 0), r >= 0))
    return out + side
def has_red(ts):
    return any(n.startswith("red_") for t in ts for n, _ in _apps_of(t))
def bv_nonneg(t):
    """syntactically certain: the 64-bit value is not negative"""
    if z3.is_bv_value(t): return t.as_signed_long() >= 0
    if not z3.is_app(t): return False
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED: return t.decl().name() in E.bv_nonneg_names
    if k == z3.Z3_OP_BAND: return any(bv_nonneg(c) for c in t.children())
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR): return all(bv_nonneg(c) for c in t.children())
    if k == z3.Z3_OP_CONCAT: return z3.is_bv_value(t.arg(0)) and t.arg(0).as_signed_long() >= 0
    if k == z3.Z3_OP_ITE: return bv_nonneg(t.arg(1)) and bv_nonneg(t.arg(2))
    return False
_chash, _keep = {}, []
def chash(t):
    """structural hash that ignores the order of commutative arguments (z3
    orders them by term creation, which differs between runs of a path)"""
    st = [(t, False)]
    while st:
        x, ready = st.pop()
        i = x.get_id()
        if i in _chash: continue
        kids = [x.body()] if z3.is_quantifier(x) else x.children()
        if not ready:
            st.append((x, True))
            st.extend((c, False) for c in kids)
            continue
        hs = [_chash[c.get_id()] for c in kids]
        if z3.is_quantifier(x): v = hash(("q", tuple(hs)))
        elif z3.is_var(x): v = hash(("v", z3.get_var_index(x)))
        else:
            if x.decl().kind() in COMM: hs.sort()
            v = hash((x.decl().name() if hs or x.decl().kind() == z3.Z3_OP_UNINTERPRETED else x.sexpr(), tuple(x.decl().params()) if x.decl().kind() == z3.Z3_OP_EXTRACT else (), tuple(hs)))
        _chash[i] = v
        _keep.append(x)
    return _chash[t.get_id()]
_ment_cache = {}
def mentions(t, kid):
    """does term t contain the sub-term with ast id kid?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False

def beta(t):
    """beta-reduce select(lambda, i) (z3 simplify does it)"""
    return z3.simplify(t)

def zb(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return z3.BoolVal(bool(x))
    except ImportError:
        pass
    return x

def And_(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def Or_(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        if z3.is_false(x): continue
        if z3.is_true(x): return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def Not_(x):
    if x is True: return False
    if x is False: return True
    return z3.Not(x)

def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def canon(t):
    return z3.simplify(t, som=True, arith_lhs=False, hoist_ite=False)

REAL, INT, BOOL, BV = "real", "int", "bool", "bv"

sqrt_f = z3.Function("f_sqrt", z3.RealSort(), z3.RealSort())
inv_f = z3.Function("f_inv", z3.RealSort(), z3.RealSort())
exp_f = z3.Function("f_exp", z3.RealSort(), z3.RealSort())
log_f = z3.Function("f_log", z3.RealSort(), z3.RealSort())
pow_f = z3.Function("f_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
sin_f = z3.Function("f_sin", z3.RealSort(), z3.RealSort())
cos_f = z3.Function("f_cos", z3.RealSort(), z3.RealSort())
_uf = {}
def uf(name, *sorts):
    key = (name,) + tuple(s.name() if hasattr(s, "name") else str(s) for s in sorts)
    if key not in _uf:
        _uf[key] = z3.Function(name, *sorts)
    return _uf[key]

def is_numeral(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)

def num(t):
    if z3.is_int_value(t):
        return fractions.Fraction(t.as_long())
    return fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())

def realval(x):
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    x = float(x)
    f = fractions.Fraction(x)
    if f.denominator > 1:
        # a float literal stands for the decimal number it was written as
        g = fractions.Fraction(repr(x))
        if len(repr(x)) < 14: f = g
        elif abs(x) < 1e12 and abs(x) > 1e-3: f = f.limit_denominator(10**15)
    return z3.RealVal(str(f))

def mk_inv(t):
    t = canon(t)
    if is_numeral(t):
        n = num(t)
        if n == 0:
            return inv_f(t)
        return realval(1 / n)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return z3.If(c, mk_inv(a), mk_inv(b))
    if z3.is_mul(t):
        r = None
        for ch in t.children():
            i = mk_inv(ch)
            r = i if r is None else r * i
        return r
    if z3.is_app(t) and t.decl().name() == "f_inv":
        # 1/(1/x) = x for x != 0; leave folded under the axiom
        return inv_f(t)
    return inv_f(t)

def mk_sqrt(t):
    t = canon(t)
    if is_numeral(t):
        n = num(t)
        if n >= 0:
            a, b = math.isqrt(n.numerator), math.isqrt(n.denominator)
            if a * a == n.numerator and b * b == n.denominator:
                return realval(fractions.Fraction(a, b))
    return sqrt_f(t)

# --------------------------------------------------------------------------
# axiom instantiation for the uninterpreted vocabulary
# --------------------------------------------------------------------------
def collect_apps(terms, names_pred, skip_bound=True):
    """ground applications whose declaration name satisfies names_pred"""
    out = {}
    for t in terms:
        for n, x in _apps_of(t):
            if names_pred(n): out[x.get_id()] = x
    return list(out.values())
_ic_memo = {}
def index_consts(t):
    """the arbitrary-index constants (Engine.point) in t"""
    r = _ic_memo.get(t.get_id())
    if r is not None: return r[1]
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body())
        elif z3.is_app(x):
            if x.num_args(): st.extend(x.children())
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n.startswith(("p!", "ix!")): out.add(n)
    _ic_memo[t.get_id()] = (t, out)
    return out
_apps_memo, _hv_memo, _node = {}, {}, {}
def node(x):
    """(ast, name of the uninterpreted symbol applied or None, children), memoised"""
    i = x.get_id()
    r = _node.get(i)
    if r is None:
        if z3.is_quantifier(x): r = (x, None, [] if x.is_lambda() else [x.body()])
        elif z3.is_app(x):
            ch = x.children()
            r = (x, x.decl().name() if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None, [(c.get_id(), c) for c in ch])
        else: r = (x, None, [])
        if z3.is_quantifier(x): r = (x, None, [(c.get_id(), c) for c in r[2]])
        _node[i] = r
    return r
def _apps_of(t):
    """(name, application) for the ground applications of uninterpreted symbols in t; memoised"""
    r = _apps_memo.get(t.get_id())
    if r is not None: return r
    out, seen, st = [], {t.get_id()}, [t]
    while st:
        x, name, ch = node(st.pop())
        if name is not None and not has_var(x): out.append((name, x))
        for i, c in ch:
            if i not in seen:
                seen.add(i)
                st.append(c)
    _apps_memo[t.get_id()] = out
    _keep.append(t)
    return out

def has_var(x):
    """a free de Bruijn variable outside of nested binders"""
    st = [x]
    while st:
        t = st[-1]
        i = t.get_id()
        if i in _hv_memo: st.pop(); continue
        if z3.is_var(t): r = True
        elif z3.is_quantifier(t): r = False            # variables bound inside are its own
        else:
            ch = [c for _, c in node(t)[2]]
            todo = [c for j, c in node(t)[2] if j not in _hv_memo]
            if todo:
                st.extend(todo)
                continue
            r = any(_hv_memo[c.get_id()] for c in ch)
        _hv_memo[i] = r
        _keep.append(t)
        st.pop()
    return _hv_memo[x.get_id()]

def axioms_for(facts, e, rounds=4):
    ax = []
    e.wits = []
    e.inst = set()
    allreds = {}
    done = set()
    terms = list(facts)
    names = {"f_sqrt", "f_inv", "f_exp", "f_log", "f_pow", "f_sin", "f_cos", "rint"}
    redpairs = set()
    for rnd in range(rounds):
        new = []
        apps = collect_apps(terms, lambda n: n in names or n in e.pre_axioms or n.startswith("red_"))
        reds = {}
        for a in apps:
            n = a.decl().name()
            if n.startswith("red_"):
                reds.setdefault(n, []).append(a)
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            if n == "f_sqrt":
                x = a.arg(0)
                new.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
                new.append(z3.Implies(x > 0, a > 0))
            elif n == "f_inv":
                x = a.arg(0)
                new.append(z3.Implies(x != 0, z3.And(a * x == 1, a != 0, (x > 0) == (a > 0))))
            elif n == "f_exp":
                x = a.arg(0)
                new.append(a > 0)
                new.append(z3.Implies(x == 0, a == 1))
            elif n == "rint":
                x = a.arg(0)
                h = z3.RealVal("1/2")
                k = z3.ToInt(a)
                new.append(z3.And(a == z3.ToReal(k), a - x <= h, x - a <= h, z3.Implies(z3.Or(a - x == h, x - a == h), k % 2 == 0)))
            elif n == "f_sin":
                c = cos_f(a.arg(0))
                new.append(a * a + c * c == 1)
            elif n in e.pre_axioms:
                c = e.pre_axioms[n](*a.children())
                if c is not None:
                    new.append(c)
            if n == "red_sum1" or n == "red_nansum1":
                pass
        # congruence of reductions up to in-range extensionality
        for n, lst in reds.items():
            if len(lst) > 14:
                continue
            for i in range(len(lst)):
                for j in range(i):
                    key = (lst[i].get_id(), lst[j].get_id())
                    if key in redpairs:
                        continue
                    redpairs.add(key)
                    c = red_ext(lst[i], lst[j], e)
                    if c is not None:
                        new.append(c)
        # facts about a single reduction
        for n, lst in reds.items():
            for a in lst:
                if ("f", a.get_id()) in done:
                    continue
                done.add(("f", a.get_id()))
                allreds[a.get_id()] = a
                new.extend(red_facts(a, e))
        for a in list(allreds.values()):
            if len(e.inst) > 900: break
            new.extend(red_univ(a, e))
        if not new:
            break
        new = [z3.simplify(x) for x in new]
        ax.extend(new)
        terms = new
    e.reds = bool(allreds)
    return ax

def red_arity(a):
    """(array args, length args) of a reduction application"""
    arrs, lens = [], []
    for c in a.children():
        if z3.is_array(c) or isinstance(c.sort(), z3.ArraySortRef):
            arrs.append(c)
        else:
            lens.append(c)
    return arrs, lens

def sel(arr, idx):
    return z3.simplify(z3.Select(arr, *idx))

def red_ext(a, b, e):
    A, la = red_arity(a)
    B, lb = red_arity(b)
    if len(A) != len(B) or len(la) != len(lb):
        return None
    if a.eq(b):
        return None
    sk = [z3.Int(e.fresh_name("sk")) for _ in la]
    rng = [z3.And(s >= 0, s < l) for s, l in zip(sk, la)]
    diff = []
    for x, y in zip(A, B):
        diff.append(sel(x, sk) != sel(y, sk))
    lens_ne = [x != y for x, y in zip(la, lb) if not x.eq(y)]
    return z3.Or(z3.And(*(rng + [z3.Or(*diff)])), *(lens_ne + [a == b]))

def red_facts(a, e):
    """true facts about one reduction application: Skolem witnesses of its
    existential consequences"""
    n = a.decl().name()
    out = []
    A, l = red_arity(a)
    lens = [x for x in l if z3.is_int(x)]
    def rng(t): return z3.And(*[z3.And(x >= 0, x < m) for x, m in zip(t, lens)])
    def wit():
        w = [z3.Int(e.fresh_name("sk")) for _ in lens]
        e.wits.append(tuple(w))
        return w
    if n.startswith("red_count"):
        out.append(a >= 0)
        tot = lens[0]
        for m in lens[1:]: tot = tot * m
        out.append(z3.Implies(z3.And(*[m >= 0 for m in lens]), a <= tot))
        w = wit()
        out.append(z3.Implies(a > 0, z3.And(rng(w), sel(A[0], w))))
        w2 = wit()
        out.append(z3.Implies(a < tot, z3.Or(z3.Or(*[m < 0 for m in lens]), z3.And(rng(w2), z3.Not(sel(A[0], w2))))))
    elif n.startswith("red_any"):
        w = wit()
        out.append(z3.Implies(a, z3.And(rng(w), sel(A[0], w))))
    elif n.startswith("red_bor"):
        for b in range(0, 11):
            w = [z3.Int(e.fresh_name("sk")) for _ in lens]
            m = z3.BitVecVal(1 << b, BVW)
            out.append(z3.Implies((a & m) != 0, z3.And(rng(w), (sel(A[0], w) & m) != 0)))
        w = wit()
        out.append(z3.Implies(a != 0, z3.And(rng(w), sel(A[0], w) != 0)))
        if z3.is_quantifier(A[0]) and bv_nonneg(A[0].body()): out.append(a >= 0)
    elif n.startswith("red_std") or n.startswith("red_var"):
        out.append(a >= 0)
    elif n.startswith("red_min") or n.startswith("red_max"):
        # attained, when nothing is masked
        w = wit()
        if len(A) > 1 and ((z3.is_quantifier(A[1]) and z3.is_true(A[1].body())) or (z3.is_K(A[1]) and z3.is_true(A[1].arg(0)))):
            out.append(z3.Or(z3.Or(*[m <= 0 for m in lens]), z3.And(rng(w), a == sel(A[0], w))))
    elif n.startswith("red_sum"):
        # a sum over non-negative terms is non-negative (witness otherwise)
        w = wit()
        out.append(z3.Or(a >= 0, z3.And(rng(w), sel(A[0], w) < 0)))
    return out

_inst_memo = {}
def red_univ(a, e):
    """universal consequences of one reduction, at every candidate index not used yet"""
    n = a.decl().name()
    kind = next((p for p in ("red_count", "red_any", "red_bor", "red_max", "red_min") if n.startswith(p)), None)
    if kind is None: return []
    A, l = red_arity(a)
    lens = [x for x in l if z3.is_int(x)]
    nd = len(lens)
    out = []
    cands = list(e.candidates(nd)) + [w for w in e.wits if len(w) == nd][-12:]
    cands.append(tuple([z3.IntVal(0)] * nd))
    for t in cands:
        key = (a.get_id(), tuple(x.get_id() for x in t))
        if key in e.inst: continue
        e.inst.add(key)
        if key in _inst_memo:
            out.extend(_inst_memo[key]); continue
        k0 = len(out)
        rng = z3.And(*[z3.And(x >= 0, x < m) for x, m in zip(t, lens)])
        x = sel(A[0], t)
        if kind == "red_count":
            tot = lens[0]
            for m in lens[1:]: tot = tot * m
            out.append(z3.Implies(z3.And(rng, x), a > 0))
            out.append(z3.Implies(z3.And(rng, z3.Not(x)), a < tot))
        elif kind == "red_any":
            out.append(z3.Implies(z3.And(rng, x), a))
        elif kind == "red_bor":
            out.append(z3.Implies(rng, (x | a) == a))
        else:
            g = z3.And(rng, sel(A[1], t)) if len(A) > 1 else rng
            out.append(z3.Implies(g, x <= a if kind == "red_max" else x >= a))
        _inst_memo[key] = out[k0:] = [z3.simplify(f) for f in out[k0:]]
        _keep.append((a, t))
    return out

# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------
def lift(x):
    """python / numpy scalar -> symbolic scalar"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return SBool(z3.BoolVal(x))
    if isinstance(x, int):
        return SInt(z3.IntVal(x))
    if isinstance(x, float):
        if math.isnan(x):
            return SReal(z3.RealVal(0), True)
        if math.isinf(x):
            return SInf(1 if x > 0 else -1)
        return SReal(realval(x))
    import numpy as np
    if isinstance(x, np.bool_):
        return SBool(z3.BoolVal(bool(x)))
    if isinstance(x, np.integer):
        return SInt(z3.IntVal(int(x)))
    if isinstance(x, np.floating):
        return lift(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    E.unsupported("cannot lift %r to a symbolic scalar" % (type(x),))

class Sym:
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __index__(self):
        E.check_alive()
        E.unsupported("symbolic value used as a native index")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __format__(self, spec):
        return token(self)
    def __str__(self):
        return token(self)
    def __repr__(self):
        return token(self)
    def astype(self, dt, copy=True):
        return cast(self, kind_of_dtype(dt), width_of_dtype(dt))
    def item(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    def copy(self): return self

def token(s):
    """text stand-in for a symbolic value inside a formatted string"""
    if E is None:
        return "<sym>"
    term = s.key()
    for tk, (k, v) in E.tokens.items():
        if k == term:
            return tk
    tk = "\u27e6%d\u27e7" % len(E.tokens)
    E.tokens[tk] = (term, s)
    return tk

def _bin(op):
    def f(self, other):
        if hasattr(other, "_is_sarray") or _is_nd(other):
            return NotImplemented
        if not _liftable(other):
            return NotImplemented
        return arith(op, self, lift(other))
    return f
def _rbin(op):
    def f(self, other):
        if hasattr(other, "_is_sarray"):
            return NotImplemented
        if _is_nd(other):
            from . import symarray
            return symarray.elementwise(op, symarray.to_sarray(other), self)
        if not _liftable(other):
            return NotImplemented
        return arith(op, lift(other), self)
    return f
def _is_nd(x):
    import numpy as np
    return isinstance(x, np.ndarray) and x.ndim > 0
def _liftable(x):
    import numpy as np
    return isinstance(x, (Sym, bool, int, float, np.generic)) or (isinstance(x, np.ndarray) and x.ndim == 0)

def _mk(op):
    return _bin(op), _rbin(op)

class SNum(Sym):
    __add__, __radd__ = _mk("add")
    __sub__, __rsub__ = _mk("sub")
    __mul__, __rmul__ = _mk("mul")
    __truediv__, __rtruediv__ = _mk("div")
    __floordiv__, __rfloordiv__ = _mk("floordiv")
    __mod__, __rmod__ = _mk("mod")
    __pow__, __rpow__ = _mk("pow")
    __lt__ = _bin("lt"); __le__ = _bin("le"); __gt__ = _bin("gt"); __ge__ = _bin("ge")
    __and__, __rand__ = _mk("and")
    __or__, __ror__ = _mk("or")
    __xor__, __rxor__ = _mk("xor")
    __lshift__, __rlshift__ = _mk("lshift")
    __rshift__, __rrshift__ = _mk("rshift")
    def __eq__(self, other):
        if other is None or isinstance(other, (str, tuple, list, dict)):
            return False
        if hasattr(other, "_is_sarray") or _is_nd(other):
            return NotImplemented
        return arith("eq", self, lift(other))
    def __ne__(self, other):
        if other is None or isinstance(other, (str, tuple, list, dict)):
            return True
        if hasattr(other, "_is_sarray") or _is_nd(other):
            return NotImplemented
        return arith("ne", self, lift(other))
    def __neg__(self): return arith("sub", lift(0), self)
    def __pos__(self): return self
    def __abs__(self): return unary("abs", self)
    def __invert__(self): return unary("invert", self)
    def __bool__(self):
        return bool(arith("ne", self, lift(0)))
    def __round__(self, n=None):
        return unary("round", self)
    def __float__(self):
        E.unsupported("float() on symbolic value outside instrumented code")
    def __int__(self):
        E.unsupported("int() on symbolic value outside instrumented code")
    @property
    def T(self): return self
    def any(self): return self
    def all(self): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self

class SReal(SNum):
    __slots__ = ("v", "nan")
    kind = REAL
    def __init__(self, v, nan=False):
        self.v = v
        self.nan = nan if not (not isinstance(nan, bool) and z3.is_false(nan)) else False
    def key(self): return ("r", self.v.sexpr(), str(self.nan))
    def __hash__(self): return hash(self.v.get_id())
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(float)

class SInf(SReal):
    """+inf / -inf constants (only compared with)"""
    __slots__ = ("sign",)
    def __init__(self, sign):
        SReal.__init__(self, z3.RealVal(0), False)
        self.sign = sign

class SInt(SNum):
    __slots__ = ("t",)
    kind = INT
    def __init__(self, t):
        self.t = t
    def key(self): return ("i", self.t.sexpr())
    def __hash__(self): return hash(self.t.get_id())
    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        E.check_alive()
        E.unsupported("symbolic integer used as a native index")
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(int)

class SBool(SNum):
    __slots__ = ("t",)
    kind = BOOL
    def __init__(self, t):
        self.t = bz(t)
    def key(self): return ("b", self.t.sexpr())
    def __hash__(self): return hash(self.t.get_id())
    def __bool__(self):
        return E.fork(self.t)
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(bool)

class SBV(SNum):
    __slots__ = ("t",)
    kind = BV
    def __init__(self, t):
        self.t = t
    def key(self): return ("v", self.t.sexpr())
    def __hash__(self): return hash(self.t.get_id())
    @property
    def dtype(self):
        import numpy as np
        return np.dtype(int)

BVW = 64

class SStr(Sym):
    __slots__ = ("t",)
    kind = "str"
    def __init__(self, t):
        self.t = t
    def key(self): return ("s", self.t.sexpr())
    def __hash__(self): return hash(self.t.get_id())
    def _o(self, other):
        if isinstance(other, SStr): return other.t
        if isinstance(other, str): return z3.StringVal(other)
        return None
    def __eq__(self, o):
        t = self._o(o)
        return False if t is None else SBool(self.t == t)
    def __ne__(self, o):
        t = self._o(o)
        return True if t is None else SBool(self.t != t)
    def __add__(self, o): return SStr(z3.Concat(self.t, self._o(o)))
    def __radd__(self, o): return SStr(z3.Concat(self._o(o), self.t))
    def replace(self, a, b, count=-1):
        if count == 1:
            return SStr(z3.Replace(self.t, self._o(a), self._o(b)))
        f = uf("str_replace_all", z3.StringSort(), z3.StringSort(), z3.StringSort(), z3.StringSort())
        return SStr(f(self.t, self._o(a), self._o(b)))
    def __contains__(self, o):
        return bool(SBool(z3.Contains(self.t, self._o(o))))
    def startswith(self, o): return SBool(z3.PrefixOf(self._o(o), self.t))
    def endswith(self, o): return SBool(z3.SuffixOf(self._o(o), self.t))
    def upper(self): return SStr(uf("str_upper", z3.StringSort(), z3.StringSort())(self.t))
    def lower(self): return SStr(uf("str_lower", z3.StringSort(), z3.StringSort())(self.t))
    def strip(self, *a): return SStr(uf("str_strip%s" % ("_".join(a)), z3.StringSort(), z3.StringSort())(self.t))
    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None:
            a = 0 if k.start is None else k.start
            if isinstance(a, int) and a >= 0 and isinstance(k.stop, int) and k.stop >= 0:
                return SStr(z3.SubString(self.t, a, max(0, k.stop - a)))
        E.unsupported("string slicing")
    def __len__(self): E.unsupported("len of symbolic string")
    def split(self, *a):
        if len(a) == 1 and isinstance(a[0], str) and a[0]: return SSplit(self, a[0])
        E.unsupported("split of symbolic string")
    def format(self, *a): E.unsupported("format on symbolic string")
    def encode(self, *a): E.unsupported("encode")
    def __bool__(self): return E.fork(self.t != z3.StringVal(""))
    def __iter__(self): E.unsupported("iteration over symbolic string")

class SSplit:
    """s.split(sep): only its first element is known"""
    def __init__(self, s, sep): self.s, self.sep = s, sep
    def __getitem__(self, i):
        if i != 0: E.unsupported("split of symbolic string")
        t, q = self.s.t, z3.StringVal(self.sep)
        return SStr(z3.If(z3.Contains(t, q), z3.SubString(t, 0, z3.IndexOf(t, q, 0)), t))
    def __getattr__(self, n): E.unsupported("split of symbolic string")
    def __len__(self): E.unsupported("split of symbolic string")
    def __iter__(self): E.unsupported("split of symbolic string")

# --- casts ---------------------------------------------------------------
def kind_of_dtype(dt):
    import numpy as np
    if dt is None: return REAL
    if dt is bool: return BOOL
    if dt is int: return INT
    if dt is float: return REAL
    d = np.dtype(dt)
    if d.kind == "b": return BOOL
    if d.kind in "iu": return INT
    if d.kind == "f": return REAL
    E.unsupported("dtype %r" % (dt,))
def width_of_dtype(dt):
    import numpy as np
    if dt is None or dt in (bool, int, float): return None
    d = np.dtype(dt)
    if d.kind in "iu" and d.itemsize < 8:
        return d.itemsize * 8
    return None

def cast(s, kind, width=None):
    k = s.kind
    if kind == REAL:
        if k == REAL: return s
        if k == INT: return SReal(toreal(s.t))
        if k == BOOL: return SReal(z3.If(s.t, z3.RealVal(1), z3.RealVal(0)))
        if k == BV: return SReal(z3.ToReal(z3.BV2Int(s.t)))
    if kind == INT:
        if k == BV:
            return bvmask(s, width)
        if k == INT:
            if width: return bvmask(SBV(tobv(s.t)), width)
            return s
        if k == BOOL: return SInt(z3.If(s.t, z3.IntVal(1), z3.IntVal(0)))
        if k == REAL: return SInt(real2int(s.v))
    if kind == BOOL:
        if k == BOOL: return s
        if k == REAL: return SBool(Or_(bz(s.nan), s.v != 0))
        if k == INT: return SBool(s.t != 0)
        if k == BV: return SBool(s.t != 0)
    if kind == BV:
        if k == BV: return bvmask(s, width)
        if k == INT: return bvmask(SBV(tobv(s.t)), width)
        if k == BOOL: return SBV(z3.If(s.t, z3.BitVecVal(1, BVW), z3.BitVecVal(0, BVW)))
        if k == REAL: return bvmask(SBV(tobv(real2int(s.v))), width)
    E.unsupported("cast %s -> %s" % (k, kind))

def bvmask(s, width):
    if width and width < 64:
        return SBV(z3.simplify(s.t & z3.BitVecVal((1 << width) - 1, BVW)))
    return s

def toreal(t):
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)

def real2int(v):
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        f = num(v)
        return z3.IntVal(int(f))
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        return z3.If(c, real2int(a), real2int(b))
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

def tobv(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return z3.BitVecVal(t.as_long(), BVW)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        return z3.If(c, tobv(a), tobv(b))
    if z3.is_app_of(t, z3.Z3_OP_BV2INT):
        return t.arg(0)
    if z3.is_mul(t) and len(t.children()) == 2 and any(z3.is_int_value(c) for c in t.children()):
        a, b = t.children()
        return tobv(a) * tobv(b)
    return z3.Int2BV(t, BVW)

# --- arithmetic -------------------------------------------------------------
CMP = {"lt", "le", "gt", "ge", "eq", "ne"}
def arith(op, a, b):
    ka, kb = a.kind, b.kind
    if ka == "str" or kb == "str":
        E.unsupported("arithmetic on strings")
    if op in ("and", "or", "xor"):
        if ka == BOOL and kb == BOOL:
            if op == "and": return SBool(And_(a.t, b.t))
            if op == "or": return SBool(Or_(a.t, b.t))
            return SBool(z3.Xor(a.t, b.t))
        x, y = cast(a, BV).t, cast(b, BV).t
        r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[op]()
        return SBV(r)
    if op in ("lshift", "rshift"):
        x, y = cast(a, BV).t, cast(b, BV).t
        return SBV(x << y if op == "lshift" else z3.LShR(x, y))
    if isinstance(a, SInf) or isinstance(b, SInf):
        return _inf_arith(op, a, b)
    if op in CMP:
        return _cmp(op, a, b)
    if op == "div":
        x, y = cast(a, REAL), cast(b, REAL)
        return div(x, y)
    if ka == REAL or kb == REAL:
        x, y = cast(a, REAL), cast(b, REAL)
        nan = Or_(x.nan, y.nan)
        if op == "add": return SReal(_add(x.v, y.v), nan)
        if op == "sub": return SReal(_sub(x.v, y.v), nan)
        if op == "mul": return SReal(_mul(x.v, y.v), nan)
        if op == "pow": return power(x, y)
        if op in ("min", "max"):
            c = x.v <= y.v if op == "min" else x.v >= y.v
            return SReal(z3.If(c, x.v, y.v), nan)
        if op == "floordiv":
            q = div(x, y)
            return SReal(z3.ToReal(z3.ToInt(q.v)), q.nan)
        if op == "mod":
            q = div(x, y)
            return SReal(x.v - y.v * z3.ToReal(z3.ToInt(q.v)), q.nan)
        if op == "arctan2":
            return SReal(uf("arctan2", z3.RealSort(), z3.RealSort(), z3.RealSort())(x.v, y.v), nan)
        E.unsupported("real op " + op)
    if ka == BV or kb == BV:
        # DQ-like integers: stay in bit vectors for +,-,*
        x, y = cast(a, BV).t, cast(b, BV).t
        if op == "add": return SBV(x + y)
        if op == "sub": return SBV(x - y)
        if op == "mul": return SBV(x * y)
        if op in ("min", "max"):
            c = x <= y if op == "min" else x >= y
            return SBV(z3.If(c, x, y))
        E.unsupported("bit-vector op " + op)
    if ka == BOOL and kb == BOOL and op in ("add", "mul"):
        if op == "add": return SBool(Or_(a.t, b.t))
        return SBool(And_(a.t, b.t))
    x, y = cast(a, INT).t, cast(b, INT).t
    if op == "add": return SInt(_simp(x + y))
    if op == "sub": return SInt(_simp(x - y))
    if op == "mul":
        # keep If structure of bool*const
        if z3.is_int_value(y) and z3.is_app_of(x, z3.Z3_OP_ITE):
            c, p, q = x.children()
            return SInt(z3.If(c, z3.simplify(p * y), z3.simplify(q * y)))
        return SInt(_simp(x * y))
    if op == "floordiv":
        return SInt(floordiv_int(x, y))
    if op == "mod":
        return SInt(_simp(x - y * floordiv_int(x, y)) if not z3.is_int_value(y) else (x % y))
    if op == "pow":
        if z3.is_int_value(y) and 0 <= y.as_long() <= 4:
            r = z3.IntVal(1)
            for _ in range(y.as_long()): r = r * x
            return SInt(_simp(r))
        if z3.is_int_value(x) and z3.is_int_value(y):
            v = x.as_long() ** y.as_long()
            return lift(v)
        return power(cast(a, REAL), cast(b, REAL))
    if op in ("min", "max"):
        c = x <= y if op == "min" else x >= y
        return SInt(z3.If(c, x, y))
    E.unsupported("int op " + op)

def floordiv_int(x, y):
    # python floor division; z3 div is floor for positive divisors
    if x.eq(y) and x.get_id() in E.positive: return z3.IntVal(1)
    if z3.is_int_value(y) and y.as_long() > 0:
        return _simp(x / y)
    return z3.If(y > 0, x / y, (-x) / (-y))

def _simp(t):
    return z3.simplify(t)
def _zero(t): return z3.is_rational_value(t) and num(t) == 0
def _one(t): return z3.is_rational_value(t) and num(t) == 1
def _add(x, y):
    if _zero(x): return y
    if _zero(y): return x
    return x + y
def _sub(x, y):
    if _zero(y): return x
    return x - y
def _mul(x, y):
    if _zero(x) or _zero(y): return z3.RealVal(0)
    if _one(x): return y
    if _one(y): return x
    return x * y

def nonzero(t):
    """syntactically certain"""
    if is_numeral(t): return num(t) != 0
    if z3.is_mul(t): return all(nonzero(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL): return nonzero(t.arg(0))
    return t.get_id() in E.positive
def div(x, y):
    nan = Or_(x.nan, y.nan)
    t = z3.simplify(y.v)
    if not nonzero(t):
        nan = Or_(nan, y.v == 0)
    return SReal(_mul(x.v, mk_inv(y.v)), nan)

def power(x, y):
    nan = Or_(x.nan, y.nan)
    t = z3.simplify(y.v)
    b = z3.simplify(x.v)
    if is_numeral(b) and num(b) == num(realval(math.e)):
        # the float np.e stands for the number e
        return unary("exp", SReal(y.v, nan))
    if is_numeral(t):
        n = num(t)
        if n.denominator == 1 and 0 <= n <= 6:
            r = z3.RealVal(1)
            for _ in range(int(n)): r = _mul(r, x.v)
            return SReal(r, nan)
        if n.denominator == 1 and -4 <= n < 0:
            p = power(x, SReal(realval(-n)))
            return div(SReal(z3.RealVal(1), False), SReal(p.v, nan))
        if n == fractions.Fraction(1, 2):
            return unary("sqrt", SReal(x.v, nan))
    return SReal(pow_f(canon(x.v), canon(y.v)), nan)

def _inf_arith(op, a, b):
    if op in CMP:
        if isinstance(a, SInf) and isinstance(b, SInf):
            r = {"lt": a.sign < b.sign, "le": a.sign <= b.sign, "gt": a.sign > b.sign,
                 "ge": a.sign >= b.sign, "eq": a.sign == b.sign, "ne": a.sign != b.sign}[op]
            return SBool(r)
        if isinstance(b, SInf):
            r = {"lt": b.sign > 0, "le": b.sign > 0, "gt": b.sign < 0, "ge": b.sign < 0, "eq": False, "ne": True}[op]
            nan = getattr(a, "nan", False)
            if op != "ne": return SBool(And_(r, Not_(nan)))
            return SBool(True)
        r = {"lt": a.sign < 0, "le": a.sign < 0, "gt": a.sign > 0, "ge": a.sign > 0, "eq": False, "ne": True}[op]
        nan = getattr(b, "nan", False)
        if op != "ne": return SBool(And_(r, Not_(nan)))
        return SBool(True)
    E.unsupported("arithmetic with infinity")

def _cmp(op, a, b):
    ka, kb = a.kind, b.kind
    if ka == REAL or kb == REAL:
        x, y = cast(a, REAL), cast(b, REAL)
        nn = Not_(Or_(x.nan, y.nan))
        c = {"lt": x.v < y.v, "le": x.v <= y.v, "gt": x.v > y.v, "ge": x.v >= y.v,
             "eq": x.v == y.v, "ne": x.v != y.v}[op]
        if op == "ne":
            return SBool(Or_(Not_(nn), c))
        return SBool(And_(nn, c))
    if ka == BV or kb == BV:
        x, y = cast(a, BV).t, cast(b, BV).t
        if op in ("lt", "ge"): x, y, op = y, x, {"lt": "gt", "ge": "le"}[op]
        if op in ("gt", "le") and z3.is_bv_value(y) and y.as_long() == 0 and bv_nonneg(x):
            op = "ne" if op == "gt" else "eq"
    elif ka == BOOL and kb == BOOL:
        if op == "eq": return SBool(a.t == b.t)
        if op == "ne": return SBool(a.t != b.t)
        x, y = cast(a, INT).t, cast(b, INT).t
    else:
        x, y = cast(a, INT).t, cast(b, INT).t
    c = {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y,
         "eq": lambda: x == y, "ne": lambda: x != y}[op]()
    return SBool(c)

_uf1 = {"sin": sin_f, "cos": cos_f, "exp": exp_f, "log": log_f}
def unary(op, s):
    if op == "identity": return s
    if op == "invert":
        if s.kind == BOOL: return SBool(Not_(s.t))
        return SBV(~cast(s, BV).t)
    if op == "logical_not":
        return SBool(Not_(cast(s, BOOL).t))
    if op == "isnan":
        return SBool(bz(cast(s, REAL).nan)) if not isinstance(s, SInf) else SBool(False)
    if op == "isfinite":
        return SBool(Not_(bz(cast(s, REAL).nan))) if not isinstance(s, SInf) else SBool(False)
    if op == "isinf":
        return SBool(isinstance(s, SInf))
    if op == "abs":
        if s.kind == REAL: return SReal(z3.If(s.v >= 0, s.v, -s.v), s.nan)
        t = cast(s, INT).t if s.kind != BV else None
        if t is None: return s
        return SInt(z3.If(t >= 0, t, -t))
    if op == "neg": return arith("sub", lift(0), s)
    if op == "round" or op == "rint" or op == "floor" or op == "ceil":
        if s.kind in (INT, BV): return s
        if op == "floor": return SReal(z3.ToReal(z3.ToInt(s.v)), s.nan)
        if op == "ceil": return SReal(-z3.ToReal(z3.ToInt(-s.v)), s.nan)
        return SReal(uf("rint", z3.RealSort(), z3.RealSort())(canon(s.v)), s.nan)
    x = cast(s, REAL)
    if op == "sqrt":
        neg = z3.simplify(x.v < 0)
        nan = x.nan
        if not z3.is_false(neg):
            nan = Or_(nan, x.v < 0)
        return SReal(mk_sqrt(x.v), nan)
    if op == "square": return SReal(_mul(x.v, x.v), x.nan)
    if op in ("radians", "deg2rad"):
        return SReal(x.v * realval(math.pi / 180), x.nan)
    if op in ("degrees", "rad2deg"):
        return SReal(x.v * realval(180 / math.pi), x.nan)
    if op in ("log", "log10", "log2"):
        nan = Or_(x.nan, x.v <= 0)
        f = log_f if op == "log" else uf(op, z3.RealSort(), z3.RealSort())
        return SReal(f(canon(x.v)), nan)
    if op in _uf1:
        return SReal(_uf1[op](canon(x.v)), x.nan)
    return SReal(uf(op, z3.RealSort(), z3.RealSort())(canon(x.v)), x.nan)

def ite(c, a, b):
    """If-then-else over symbolic scalars"""
    c = zb(c)
    if z3.is_true(c): return lift(a)
    if z3.is_false(c): return lift(b)
    a, b = lift(a), lift(b)
    if a.kind == b.kind and a.kind in (INT, BOOL, BV):
        return type(a)(z3.If(c, a.t, b.t))
    if a.kind == "str" or b.kind == "str":
        return SStr(z3.If(c, a.t, b.t))
    if BV in (a.kind, b.kind) and REAL not in (a.kind, b.kind):
        return SBV(z3.If(c, cast(a, BV).t, cast(b, BV).t))
    if REAL in (a.kind, b.kind):
        x, y = cast(a, REAL), cast(b, REAL)
        if x.nan is False and y.nan is False: nan = False
        else: nan = z3.If(c, bz(x.nan), bz(y.nan))
        return SReal(z3.If(c, x.v, y.v), nan)
    return SInt(z3.If(c, cast(a, INT).t, cast(b, INT).t))

def subst_scalar(s, k, i):
    if isinstance(s, SReal):
        if isinstance(s, SInf): return s
        return SReal(z3.substitute(s.v, (k, i)), s.nan if isinstance(s.nan, bool) else z3.substitute(s.nan, (k, i)))
    return type(s)(z3.substitute(s.t, (k, i)))

def same_scalar(a, b):
    """z3 Bool: the two scalars are the same value (NaN equals NaN)"""
    a, b = lift(a), lift(b)
    if isinstance(a, SInf) or isinstance(b, SInf):
        return z3.BoolVal(isinstance(a, SInf) and isinstance(b, SInf) and a.sign == b.sign)
    if a.kind == "str" or b.kind == "str":
        return a.t == b.t
    if REAL in (a.kind, b.kind):
        x, y = cast(a, REAL), cast(b, REAL)
        d = canon(x.v - y.v)
        if is_numeral(d):
            veq = z3.BoolVal(num(d) == 0)
        else:
            veq = x.v == y.v
        if x.nan is False and y.nan is False:
            return veq
        xn, yn = bz(x.nan), bz(y.nan)
        return z3.And(xn == yn, z3.Or(xn, veq))
    if BV in (a.kind, b.kind):
        return cast(a, BV).t == cast(b, BV).t
    if a.kind == BOOL and b.kind == BOOL:
        return a.t == b.t
    return cast(a, INT).t == cast(b, INT).t
