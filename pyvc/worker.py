"""One contract, one property: prove it, replay counter-models on the real
code, and run the same contract on seeded concrete inputs.  Prints JSON."""
import sys, os, json, time, subprocess, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

def prove(uname, prop, tier, scale):
    from pyvc import boot
    boot.symbolic()
    from pyvc import core, symm
    import contracts
    units = {u.name: u for u in contracts.load_all()}
    u = units[uname]
    res = dict(unit=uname, target=u.target, passes=[], obligations=[], errors=[], undecided=[])
    if u.conly:
        res["undecided"].append("not proved: " + u.conly)
        return res
    plans = [None] if not u.fixes else ([None] if u.fixes[0] is None else []) + [f for f in u.fixes if f is not None]
    for fix in plans:
        t0 = time.time()
        e = core.Engine(budget_s=u.budget * scale, timeout_ms=8000 if tier == "quick" else 40000)
        paths, und, errs = symm.explore(u, e, prop, fix)
        res["passes"].append(dict(fix=fix, paths=paths, vacuous=e.stats.get("vacuous", 0), undecided=sorted(set(und))[:8], stats={k: (round(v, 2) if isinstance(v, float) else v) for k, v in e.stats.items()}, wall=round(time.time() - t0, 2), n=len(e.obligations)))
        for o in e.obligations: o["fix"] = fix
        res["obligations"] += e.obligations
        res["errors"] += errs
        if und: res["undecided"] += sorted(set(und))
        # the bounded extents are only a fall-back for an unbounded attempt that did not go through
        if fix is None and not und and not errs and paths and all(o["status"] == "valid" for o in e.obligations): break
    return res

def main():
    uname, prop, tier, seed = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    scale = 1.0 if tier == "quick" else 4.0
    t0 = time.time()
    try:
        res = prove(uname, prop, tier, scale)
    except BaseException as ex:
        res = dict(unit=uname, obligations=[], errors=[traceback.format_exc()[-3000:]], undecided=["prover process failed"], passes=[], target=[])
    res["prove_wall"] = round(time.time() - t0, 2)
    bad = [o for o in res["obligations"] if o["status"] == "invalid"]
    models, seen = [], {}
    for o in bad:
        if seen.get(o["name"], 0) < 3 and "model" in o:
            seen[o["name"]] = seen.get(o["name"], 0) + 1
            models.append(dict(ob=o["name"], model=o["model"]))
    rq = dict(unit=uname, prop=prop, seed=seed, tier=tier, models=models[:24], effort=(6 if (bad or res["errors"] or (res["undecided"] and res["obligations"]) or any(o["status"] != "valid" for o in res["obligations"])) else 1) * (1 if tier == "quick" else 6))
    env = dict(os.environ, PYTHONHASHSEED="0")
    t1 = time.time()
    try:
        p = subprocess.run([sys.executable, "-m", "pyvc.concrete"], input=json.dumps(rq), capture_output=True, text=True, cwd=HERE, env=env, timeout=600 if tier == "quick" else 3000)
        line = [l for l in p.stdout.splitlines() if l.startswith("@@RESULT ")]
        if line: res["concrete"] = json.loads(line[-1][9:])
        else: res["errors"].append("concrete run: " + (p.stdout + p.stderr)[-2000:])
    except subprocess.TimeoutExpired:
        res["errors"].append("concrete run: time limit")
    res["concrete_wall"] = round(time.time() - t1, 2)
    print("@@RESULT " + json.dumps(res))
    sys.stdout.flush()
    from pyvc import boot
    boot.cleanup()
    os._exit(0)

if __name__ == "__main__":
    main()
