"""Try one-line changes of the code on a scratch copy: tools/mut.py PROP < list of (file, old, new[, count])  (Python literal).
Prints for every change whether the check of PROP reports it.  For development only."""
import ast
import os
import shutil
import subprocess
import sys
import tempfile

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
for m in ast.literal_eval(sys.stdin.read()):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.run("cp -a /repo/. %s/" % d, shell=True, check=True)
        f, old, new = m[:3]
        s = open(os.path.join(d, f)).read()
        assert s.count(old) >= 1, (f, old)
        i = m[3] if len(m) > 3 else 0
        parts = s.split(old)
        s = old.join(parts[:i + 1]) + new + old.join(parts[i + 1:])
        open(os.path.join(d, f), "w").write(s)
        r = subprocess.run([sys.executable, "/verif/check.py", prop, tier], capture_output=True, text=True,
                           env=dict(os.environ, VF_DEV_REPO=d, VERIF_SEED="1"))
        lines = [x for x in r.stdout.splitlines() if "rejected" in x or "VIOLATION" in x]
        print(r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "BROKEN " + r.stderr[-300:], repr(new[:70]), (lines or [""])[0][:220], flush=True)
    finally:
        shutil.rmtree(d)
