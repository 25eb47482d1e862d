#!/usr/bin/env python3
"""check.py P05 [--tier quick|thorough] : decide one property on /repo's working tree."""
import sys, os, json, time, subprocess, argparse, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)

TRUSTED = [
 "CPython and the mechanical instrumentation of pyvc/loader.py (for loops, list/dict displays, comprehensions, len/range/int/... calls are routed through pyvc.runtime; everything else is executed as written)",
 "assumed contracts on numpy / astropy.io.fits as modelled in pyvc/symarray.py, npshim.py, fitsshim.py (indexing, views, broadcasting, element-wise operations, reductions as uninterpreted functions of the values they reduce)",
 "z3 4.x (and cvc5 1.1 where z3 gives no answer) as the back-ends deciding each obligation",
 "floating point treated as real arithmetic with NaN; infinities are identified with NaN; integer overflow is not modelled except for uint8/16/32 casts",
]

def run_unit(name, prop, tier, seed):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): env[v] = "1"
    t0 = time.time()
    try:
        p = subprocess.run([PY, "-m", "pyvc.worker", name, prop, tier, str(seed)], cwd=HERE, env=env, capture_output=True, text=True, timeout=780 if tier == "quick" else 6000)
        line = [l for l in p.stdout.splitlines() if l.startswith("@@RESULT ")]
        if line: r = json.loads(line[-1][9:])
        else: r = dict(unit=name, obligations=[], errors=["worker: " + (p.stdout + p.stderr)[-1500:]], undecided=["worker produced no result"], passes=[], target=[])
    except subprocess.TimeoutExpired:
        r = dict(unit=name, obligations=[], errors=[], undecided=["unit time limit"], passes=[], target=[])
    r["wall"] = round(time.time() - t0, 1)
    return r

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def known_match(known, prop, unit, ob, detail):
    for k in known:
        if k.get("status") != "known" or k["property"] != prop: continue
        if k["unit"] == unit and k["obligation"] == ob and (not k.get("detail") or k["detail"] in (detail or "")):
            return k
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--units", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    out = subprocess.run([PY, "-c", "import sys,json;sys.path.insert(0,%r)\nimport pyvc.unitlist" % HERE], capture_output=True, text=True, cwd=HERE)
    units = json.loads(out.stdout.splitlines()[-1])
    mine = [u for u in units if a.prop in u["props"]]
    if a.units: mine = [u for u in mine if u["name"] in a.units.split(",")]
    mine.sort(key=lambda u: -u["budget"])
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda u: run_unit(u["name"], a.prop, tier, seed), mine))
    known = load_known()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    viol, known_hits, problems = [], {}, []
    obs = disch = undec = con = runs = 0
    per_unit = []
    backend_s = 0.0
    for u, r in zip(mine, results):
        name = r["unit"]
        status = {}
        for o in r["obligations"]:
            if o.get("vacuous"): continue          # the path is infeasible: nothing to prove there
            obs += 1
            backend_s += o.get("t", 0)
            if o["status"] == "valid": disch += 1
            status.setdefault(o["name"], []).append(o["status"])
        c = r.get("concrete") or {}
        con += sum(c.get("checked", {}).values())
        runs += c.get("runs", 0)
        failed_obs = set()
        # counter-models that were run on the real code and did not fail there
        ran = {rep["ob"]: True for rep in c.get("replays", []) if not rep.get("failed") and rep.get("why") == "run"}
        for rep in c.get("replays", []) + c.get("random", []):
            for f in rep.get("failures", []) or []:
                k = known_match(known, a.prop, name, f[0], f[1])
                failed_obs.add(f[0])
                if k: known_hits[k["id"]] = k; continue
                viol.append(dict(unit=name, obligation=f[0], detail=f[1], input=rep["input"], found_by="counter-model replay" if rep["input"]["kind"] == "model" else "seeded run of the contract"))
        for o in r["obligations"]:
            if o["status"] != "invalid": continue
            k = known_match(known, a.prop, name, o["name"], o["detail"])
            if k: known_hits[k["id"]] = k; continue
            if o["name"] in failed_obs or any(v["unit"] == name and v["input"] is not None for v in viol): continue
            if not o["exact"] or r["errors"] or o["name"] in ran:
                undec += 1; continue
            viol.append(dict(unit=name, obligation=o["name"], detail=o["detail"], input=None, found_by="prover", goal=o.get("goal"), model=o.get("model")))
        undec += sum(1 for o in r["obligations"] if o["status"] == "unknown")
        # the contract cannot be evaluated on what the code returned
        errs = [e for e in c.get("errors", []) if e.startswith("error")]
        if errs: problems.append((name, errs[0]))
        for e in r["errors"]: problems.append((name, e))
        proved = bool(r["obligations"]) and all(o["status"] == "valid" for o in r["obligations"]) and not r["undecided"] and not r["errors"]
        bounded = [p for p in r["passes"] if p["fix"]]
        per_unit.append(dict(unit=name, functions=r.get("target"), decided=((("bounded: every obligation discharged within: " + u["bounded"]) if u.get("bounded") else "proved for all inputs") if proved else "not proved (bounded runs only)"), obligations=len(r["obligations"]),
                             discharged=sum(1 for o in r["obligations"] if o["status"] == "valid"), undecided=r["undecided"][:6],
                             vacuous_paths=sum(p.get("vacuous", 0) for p in r["passes"]), paths=sum(p["paths"] for p in r["passes"]),
                             named={k: "%d/%d" % (v.count("valid"), len(v)) for k, v in status.items()},
                             bounded_concrete_runs=c.get("runs", 0), solver_s=round(sum(p["stats"].get("solver_s", 0) for p in r["passes"]), 2), wall_s=r["wall"]))
    nproved = sum(1 for p in per_unit if p["decided"].startswith("proved"))
    trivial = [p for p in per_unit if p["paths"] and p["vacuous_paths"] >= p["paths"]]
    ev = dict(property=a.prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 1), violations=len(viol),
              coverage=dict(obligations=obs, discharged=disch, checker_cmd="python3 check.py %s" % a.prop, trusted_base=TRUSTED,
                            units=per_unit, functions_under_contract=sorted({f for p in per_unit for f in (p["functions"] or [])}), units_proved=nproved, units_bounded_only=len(per_unit) - nproved,
                            undecided_obligations=undec, backend="z3 (python API); cvc5 for obligations z3 leaves open", solver_seconds=round(sum(p["solver_s"] for p in per_unit), 2),
                            bounded_evaluations=con, bounded_runs=runs,
                            samples=[s for r in results for s in (r.get("concrete") or {}).get("samples", [])][:4]),
              assumptions=TRUSTED + sorted({("not proved: %s: %s" % (p["unit"], x)) for p in per_unit for x in p["undecided"]}) + ["errors/problems: %s: %s" % (n, e.strip().splitlines()[-1][:200]) for n, e in problems][:10])
    json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1, default=str)
    for k in known_hits.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if a.v:
        for p in per_unit: print(json.dumps(p))
        for n, e in problems: print("PROBLEM", n, e)
    print("%s: %d/%d obligations discharged over %d units (%d proved for all inputs), %d undecided, %d bounded runs, %.0f s" % (a.prop, disch, obs, len(mine), nproved, undec, runs, time.time() - t0))
    if viol:
        viol.sort(key=lambda v: v["input"] is None)
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        v = viol[0]
        path = os.path.join(d, "%s_%s.json" % (a.prop, hashlib.sha1(json.dumps(v, default=str).encode()).hexdigest()[:10]))
        json.dump(dict(property=a.prop, repro="python3 %s/replay.py %s" % (HERE, path), all=viol[:20], **v), open(path, "w"), indent=1, default=str)
        for w in viol[:6]: print("  failed: %s  unit=%s  (%s) %s" % (w["obligation"], w["unit"], w["found_by"], (w["detail"] or "")[:300]))
        print("VIOLATION property=%s replay=%s%s" % (a.prop, path, "" if v["input"] is not None else " no-failing-input-found"))
        sys.exit(1)
    if obs + con == 0 or trivial:
        print("ERROR: nothing was decided (%d obligations, %d bounded evaluations, vacuous: %s)" % (obs, con, [p["unit"] for p in trivial]))
        for n, e in problems[:3]: print("PROBLEM", n, e)
        sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
