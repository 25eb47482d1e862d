#!/usr/bin/env python3
"""replay.py FILE: run the recorded failing input on the real code again"""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
if not os.environ.get("PYVC_REEXEC"):
    os.environ["PYVC_REEXEC"] = "1"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + [os.path.abspath(__file__)] + [os.path.abspath(a) for a in sys.argv[1:]])
sys.path.insert(0, HERE)
d = json.load(open(sys.argv[1]))
if not d.get("input"):
    print("no failing input: obligation", d["obligation"], "of", d["unit"]); print(d.get("goal")); print(json.dumps(d.get("model"))); sys.exit(1)
from pyvc import boot
boot.concrete()
import contracts
from pyvc import api, concrete
u = {u.name: u for u in contracts.load_all()}[d["unit"]]
env = api.RandomEnv(d["input"]["seed"]) if d["input"]["kind"] == "seed" else api.ReplayEnv(d["input"]["model"], d["input"]["seed"])
f, chk, st = concrete.run_one(u, env, d["property"])
print(st, len(chk), "obligations evaluated")
for x in f: print("FAILED", x[0], x[1])
sys.exit(1 if f else 0)
