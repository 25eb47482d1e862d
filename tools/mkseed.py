#!/usr/bin/env python3
"""development aid: mkseed.py SPEC.py -> seeded/<id>/ ; validates the demo on a scratch copy.
SPEC defines id, property, file, edits=[(old,new)...], needs, breaks, demo (python text)"""
import sys, os, subprocess, shutil, json, runpy, tempfile
s = runpy.run_path(sys.argv[1])
d = "/verif/seeded/" + s["id"]
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkseed_")
try:
    r = os.path.join(w, "repo")
    subprocess.run("mkdir -p %s && cp -a /repo/corgidrp %s/" % (r, r), shell=True, check=True)
    subprocess.run("cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm x" % r, shell=True, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(r, f); t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository
H=$(mktemp -d); trap 'rm -rf "$H"' EXIT
D=$(cd "$(dirname "$0")" && pwd)
export HOME=$H PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$H
/opt/venv/bin/python "$D/demo.py" "$H"
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    def demo(): return subprocess.run(["bash", d + "/demo.sh"], cwd=r, capture_output=True, text=True)
    bad = demo()
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
    good = demo()
    print(s["id"], "unpatched rc", good.returncode, "patched rc", bad.returncode)
    if good.returncode: print(good.stdout[-800:], good.stderr[-1500:])
    print("   patched says:", (bad.stdout + bad.stderr).strip().splitlines()[-1:] )
finally:
    shutil.rmtree(w)
