"""Contracts (machine-checked specifications) of the corgidrp functions."""
UNITS = []
class Unit:
    def __init__(self, name, fn, props, target, budget, runs, fixes, conly, bounded=None):
        self.bounded = bounded
        self.name, self.fn, self.props, self.target, self.budget, self.runs, self.fixes, self.conly = name, fn, props, target, budget, runs, fixes, conly
    def __call__(self, M): return self.fn(M)
def unit(name, props, target, budget=120, runs=25, fixes=None, concrete_only=False, bounded=None):
    """register a contract.  props: properties its obligations decide;
    target: the functions of /repo it specifies; budget: solver seconds;
    runs: seeded concrete executions of the same contract on the real code;
    concrete_only: reason why the prover cannot reach the function (the unit
    is then a bounded check, never counted as proved);
    bounded: the bound within which the proof holds, if it has one"""
    def d(f):
        UNITS.append(Unit(name, f, props.split(), target if isinstance(target, list) else [target], budget, runs, fixes, concrete_only, bounded))
        return f
    return d
def load_all():
    import importlib, pkgutil, os
    if UNITS: return UNITS
    for m in sorted(pkgutil.iter_modules([os.path.dirname(__file__)]), key=lambda m: m.name):
        importlib.import_module("contracts." + m.name)
    return UNITS
