"""Concrete reading of contracts on the real code (replay and seeded runs)."""
import sys, os, json, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

class Rejected(Exception): pass

def run_one(u, env, prop):
    """-> (failures, checked, status)"""
    from pyvc import api
    import numpy as np
    M = api.ConM(env, prop)
    M.track(False)
    state = {}
    try:
        u(M)
    except api.Discard:
        return [], {}, "discard"
    except api.Missing as ex:
        return [], {}, "missing: %s" % ex
    except Exception as ex:
        if M.failures: return M.failures, M.checked, "run"
        tb = traceback.extract_tb(ex.__traceback__)
        if M.called and isinstance(ex, (AttributeError, KeyError, IndexError, TypeError, ValueError)):
            # what the code returned is not even of the form the contract speaks about
            return [(u.name + ".result_form", "%s: %s at %s:%d" % (type(ex).__name__, ex, os.path.basename(tb[-1].filename), tb[-1].lineno))], M.checked, "run"
        return [], M.checked, "error: " + "".join(traceback.format_exception(ex)[-6:])[-1500:]
    finally:
        M.restore()
        M.track(False)
    return M.failures, M.checked, "run"

def main():
    rq = json.load(sys.stdin)
    from pyvc import boot
    boot.concrete()
    import warnings; warnings.simplefilter("ignore")
    import logging; logging.disable(logging.CRITICAL)
    import contracts
    from pyvc import api
    units = {u.name: u for u in contracts.load_all()}
    u = units[rq["unit"]]
    out = dict(replays=[], random=[], runs=0, discards=0, checked={}, errors=[], samples=[])
    def note(chk):
        for k, v in chk.items(): out["checked"][k] = out["checked"].get(k, 0) + v
    limit = time.time() + (60 if rq["tier"] == "quick" else 600)
    for md in rq["models"]:
        if md["model"].get("error"):
            out["replays"].append(dict(ob=md["ob"], failed=False, why=md["model"]["error"])); continue
        done = None
        for s in range(2):
            env = api.ReplayEnv(md["model"], s)
            f, chk, st = run_one(u, env, rq["prop"])
            note(chk)
            if st.startswith("error"): out["errors"].append(st)
            if f:
                done = dict(ob=md["ob"], failed=True, failures=[list(x) for x in f], input=dict(kind="model", model=md["model"], seed=s)); break
        out["replays"].append(done or dict(ob=md["ob"], failed=False, why=st))
    n = u.runs * rq["effort"]
    for i in range(n):
        if time.time() > limit: break
        seed = rq["seed"] * 100003 + i
        env = api.RandomEnv(seed)
        f, chk, st = run_one(u, env, rq["prop"])
        note(chk)
        if st == "discard": out["discards"] += 1; continue
        if st.startswith("missing"): out["errors"].append(st); break
        if st.startswith("error"): out["errors"].append(st + " (seed %d)" % seed)
        out["runs"] += 1
        if len(out["samples"]) < 2: out["samples"].append(dict(seed=seed, **{k: (v if not isinstance(v, dict) else {a: repr(b)[:60] for a, b in list(v.items())[:12]}) for k, v in env.log.items()}))
        if f:
            out["random"].append(dict(failures=[list(x) for x in f], input=dict(kind="seed", seed=seed, log={k: {a: repr(b)[:80] for a, b in list(v.items())[:60]} for k, v in env.log.items()})))
            if len(out["random"]) >= 6: break
    print("@@RESULT " + json.dumps(out, default=str))
    sys.stdout.flush()
    boot.cleanup()
    os._exit(0)

if __name__ == "__main__":
    main()
