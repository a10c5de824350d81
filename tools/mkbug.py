#!/usr/bin/env python3
"""Development helper (no check uses it): write /verif/seeded/ID from a description on stdin (Python dict literal:
id, property, file, edits [(old, new)], needs, breaks, demo = Python program run in a staged copy of the repository)."""
import ast, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Runs demo.py against a throw-away copy of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir "$w/repo"
tar -C . --exclude=./.git --exclude=__pycache__ --exclude=./docs -cf - . | tar -C "$w/repo" -xf - || exit 3
cd "$w/repo" || exit 3
g=demod/datasets/GermanTOU; mkdir -p $g/raw_data
for z in $g/parsed_data/*.zip; do [ -f "$z" ] && cp -n "$z" $g/raw_data/; done
# raw files that are downloaded on import: empty stand-ins, never read
for f in RenewablesNinja/raw_data/DE_population.csv Germany/raw_data/data_v0.1.xlsx Germany/raw_data/data_vBottaccioli.xlsx \
         CREST/raw_data/CREST_Demand_Model_v2.2.xlsm CREST/raw_data/CREST_Demand_Model_v2.3.3.xlsm; do
  mkdir -p "$(dirname demod/datasets/$f)"; [ -e demod/datasets/$f ] || : > demod/datasets/$f
done
PYTHONPATH="$w/repo" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$w/mpl" HOME="$w" TZ=UTC \
  /opt/venv/bin/python -W ignore "$here/demo.py"
'''
for b in ast.literal_eval(sys.stdin.read()):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug_")
    subprocess.run("git -C /repo worktree prune; git clone -q /repo %s/r" % w, shell=True, check=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, "r", f); s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit matches", s.count(old), "times in", f); break
        open(p, "w").write(s.replace(old, new))
    else:
        diff = subprocess.run("git -C %s/r diff" % w, shell=True, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", b["id"])
    subprocess.run(["rm", "-rf", w])
