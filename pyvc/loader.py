"""Loads corgidrp from /repo with a mechanical, behaviour-preserving
instrumentation: for-loops, list displays, comprehensions and calls of a few
builtins are routed through pyvc.rt so that they also work on symbolic
values.  Everything else is compiled as it stands."""
import ast, sys, os, importlib.abc, importlib.util, types
import numpy, numpy.ma
import astropy.io.fits

REPO = os.environ.get("VP_REPO", "/repo")

BUILTINS = {"len", "range", "enumerate", "zip", "int", "float", "min", "max", "sum", "abs", "str", "isinstance",
            "round", "list", "tuple", "set", "dict", "any", "all", "sorted", "bool", "reversed", "print", "map", "type"}

class AssignedNames(ast.NodeVisitor):
    def __init__(self): self.names = []
    def add(self, n):
        if n not in self.names: self.names.append(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)
    def visit_FunctionDef(self, n): self.add(n.name)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def _comp(self, n): pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
    def visit_Import(self, n):
        for a in n.names: self.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import

def rt(name):
    return ast.Attribute(ast.Name("__pyvc__", ast.Load()), name, ast.Load())

class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0          # function nesting
        self.loops = []         # stack of loop variables (names) in this function
        self.nl = 0
    # functions
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        saved, self.loops = self.loops, []
        self.depth += 1
        n.body = self.stmts(n.body)
        self.depth -= 1
        self.loops = saved
        return n
    def visit_Lambda(self, n):
        saved, self.loops = self.loops, []
        self.depth += 1
        n.body = self.visit(n.body)
        self.depth -= 1
        self.loops = saved
        return n
    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        n.body = [self.visit(s) for s in n.body]
        self.depth = d
        return n
    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list): out.extend(r)
            elif r is not None: out.append(r)
        return out
    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None: continue
                        if not isinstance(v, ast.AST):
                            new.extend(v); continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                nn = self.visit(old)
                if nn is None: delattr(node, field)
                else: setattr(node, field, nn)
        return node
    # loops
    def visit_For(self, n):
        if self.depth == 0:
            return self.generic_visit(n)
        an = AssignedNames()
        an.visit(n.target)
        tnames = list(an.names)
        for s in n.body: an.visit(s)
        names = an.names
        it = self.visit(n.iter)
        self.nl += 1
        L = "__L%d" % self.nl
        self.loops.append(L)
        body = self.stmts(n.body)
        self.loops.pop()
        orelse = self.stmts(n.orelse)
        def guarded(meth, nm):
            call = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), meth, ast.Load()), [ast.Constant(nm), ast.Name(nm, ast.Load())], [])
            return ast.Try([ast.Assign([ast.Name(nm, ast.Store())], call)],
                           [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None, [ast.Pass()])], [], [])
        sym = ast.Attribute(ast.Name(L, ast.Load()), "sym", ast.Load())
        carried = [x for x in names if x not in tnames]
        pre = [ast.If(sym, [guarded("carry", x) for x in carried], [])] if carried else []
        setup = ast.Assign([ast.Name(L, ast.Store())], ast.Call(rt("loop"), [it, ast.Constant("%s:%d" % (self.mod, n.lineno))], []))
        loop = ast.For(n.target, ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "items", ast.Load()), [], []), pre + body, orelse)
        post = ast.If(ast.Attribute(ast.Name(L, ast.Load()), "sym", ast.Load()), [guarded("after", x) for x in names], [])
        res = [setup, loop] + ([post] if names else [])
        for r in res:
            ast.copy_location(r, n)
            for x in ast.walk(r):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt, ast.excepthandler)):
                    ast.copy_location(x, n)
        return res
    def visit_While(self, n):
        if self.depth == 0: return self.generic_visit(n)
        self.loops.append(None)
        n = self.generic_visit(n)
        self.loops.pop()
        n.body.insert(0, ast.copy_location(ast.Expr(ast.Call(rt("tick"), [], [])), n))
        return n
    def _mark(self, node, all_):
        ls = [l for l in (self.loops if all_ else self.loops[-1:]) if l]
        return [ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name(l, ast.Load()), "brk", ast.Load()), [], [])), node) for l in ls]
    def visit_Break(self, n):
        return self._mark(n, False) + [n]
    def visit_Return(self, n):
        n = self.generic_visit(n)
        return self._mark(n, True) + [n]
    # attribute assignment inside loops
    def _attr_targets(self, t):
        if isinstance(t, ast.Attribute): return [t.value]
        if isinstance(t, (ast.Tuple, ast.List)): return sum([self._attr_targets(x) for x in t.elts], [])
        return []
    def visit_Assign(self, n):
        tg = sum([self._attr_targets(t) for t in n.targets], [])
        import copy as c
        tg = [c.deepcopy(t) for t in tg]
        n = self.generic_visit(n)
        if self.depth:
            return [ast.copy_location(ast.Expr(ast.Call(rt("attrw"), [self.visit(t)], [])), n) for t in tg] + [n]
        return n
    def visit_AugAssign(self, n):
        import copy as c
        tg = [c.deepcopy(t) for t in self._attr_targets(n.target)]
        n = self.generic_visit(n)
        if self.depth:
            return [ast.copy_location(ast.Expr(ast.Call(rt("attrw"), [self.visit(t)], [])), n) for t in tg] + [n]
        return n
    # displays
    def visit_List(self, n):
        n = self.generic_visit(n)
        if self.depth and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(rt("plist"), [n], []), n)
        return n
    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if self.depth: return ast.copy_location(ast.Call(rt("pdict"), [n], []), n)
        return n
    def visit_ListComp(self, n):
        simple = (len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async and self.depth)
        star = False
        if simple:
            t = n.generators[0].target
            if isinstance(t, ast.Name): args = [t.id]
            elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                args, star = [x.id for x in t.elts], True
            else: simple = False
        if simple and any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)): simple = False
        if not simple:
            return self.generic_visit(n)
        it = self.visit(n.generators[0].iter)
        elt = self.visit(n.elt)
        lam = ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), elt)
        r = ast.Call(rt("listcomp"), [lam, it, ast.Constant("%s:%d:%d" % (self.mod, n.lineno, n.col_offset)), ast.Constant(star)], [])
        ast.copy_location(r, n)
        return ast.fix_missing_locations(r)
    def visit_GeneratorExp(self, n):
        return self.generic_visit(n)
    def visit_Call(self, n):
        n = self.generic_visit(n)
        if self.depth and isinstance(n.func, ast.Name) and n.func.id in BUILTINS:
            n.func = ast.copy_location(rt(n.func.id + "_"), n.func)
        return n
    def visit_Compare(self, n):
        n = self.generic_visit(n)
        # `x in <sequence>` with symbolic x must not use native containment
        if self.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(rt("contains"), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn): r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(ast.fix_missing_locations(ast.copy_location(r, n)), n)
        return n

def instrument(src, fname, modname):
    tree = ast.parse(src, fname)
    ins = Instr(modname)
    tree.body = ins.stmts(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, "exec")

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "corgidrp" and not name.startswith("corgidrp."): return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None

class Loader(importlib.abc.Loader):
    def __init__(self, name, f): self.name, self.f = name, f
    def create_module(self, spec): return None
    def get_filename(self, name): return self.f
    def exec_module(self, mod):
        from . import runtime, npshim, fitsshim
        with open(self.f, encoding="utf-8") as fh: src = fh.read()
        code = instrument(src, self.f, self.name)
        mod.__dict__["__pyvc__"] = runtime
        exec(code, mod.__dict__)
        shim_module(mod)

def shim_module(mod):
    from . import runtime, npshim, fitsshim, scishim
    for k, v in list(mod.__dict__.items()):
        if v is numpy: mod.__dict__[k] = npshim.np_shim
        elif v is numpy.ma: mod.__dict__[k] = npshim.ma_shim
        elif v is astropy.io.fits: mod.__dict__[k] = fitsshim.fits_shim
        elif isinstance(v, type) and getattr(v, "__module__", "") == mod.__name__:
            track_class(v)
        else:
            r = scishim.replacement(k, v)
            if r is not None: mod.__dict__[k] = r

def track_class(cls):
    from . import core, loops
    if "__new__" in cls.__dict__ or issubclass(cls, BaseException): return
    if any("__new__" in b.__dict__ and b is not object for b in cls.__mro__): return
    def __new__(c, *a, **k):
        o = object.__new__(c)
        if core.E is not None: loops.track(o)
        return o
    cls.__new__ = __new__

_installed = False
def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Finder())
        _installed = True
