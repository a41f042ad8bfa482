#!/usr/bin/env python3
"""Developer helper: build a planted bug from a spec file and confirm it.

spec (python): ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run by demo.sh), TESTS=optional -k
usage: plant.py SPEC [--notest]
"""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
W = tempfile.mkdtemp(prefix="plant-")
R = W + "/repo"
try:
    subprocess.check_call(["cp", "-a", "/repo", R])
    for f, old, new in spec["EDITS"]:
        s = open(f"{R}/{f}").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f"{R}/{f}", "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    d = f"/verif/seeded/{ID}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(spec["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nR=$(pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
        'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$R"\ncd "$T" && timeout 280 /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=R, capture_output=True, text=True)
    print(f"{ID}: demo on /repo rc={a.returncode} planted rc={b.returncode}", (b.stdout + b.stderr).strip()[-150:].replace("\n", " | "))
    ok = a.returncode == 0 and b.returncode != 0
    if a.returncode: print(a.stderr[-600:])
    if ok and "--notest" not in sys.argv:
        t = subprocess.run("timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p xdist.plugin -n 4 -x --ignore zoidberg/test_volume_dommaschk.py . " + spec.get("TESTS", ""),
                           cwd=R, shell=True, capture_output=True, text=True, env=dict(os.environ, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONPATH=R))
        print("  tests:", t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:])
    c = subprocess.run(["timeout", "800", "python3-vt", "/verif/check.py", spec["PROPERTY"]], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R))
    print("  check rc", c.returncode, "|", c.stdout.strip()[-330:].replace("\n", " | "))
finally:
    shutil.rmtree(W, ignore_errors=True)
