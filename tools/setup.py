#!/usr/bin/env python3
"""Nothing is built ahead of time: check that the interpreter, z3 and the contracts load."""
import subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run(["/opt/venv/bin/python", "-c", "import pyvc.unitlist"], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
sys.stdout.write(r.stdout[:200] + "\n" + r.stderr[-800:])
sys.exit(r.returncode)
