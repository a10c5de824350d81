#!/usr/bin/env python3
"""Development helper (no check uses it): plant.py ID  - confirm /verif/seeded/ID in a scratch copy of /repo.

Confirms that patch.diff applies to HEAD, that demo.sh passes without and fails with it, that the stable tests
still pass, and prints what this property's quick check says about it (VF_DEV_REPO points it at the copy).
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)


def run(bug, check=True):
    d = os.path.join(V, "seeded", bug)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="plant_")
    try:
        lay = os.path.join(w, "lay"); shutil.copytree(d, lay)
        repo = os.path.join(w, "repo")
        sh("cp -a /repo %s" % repo)
        a = sh("bash %s/demo.sh" % lay, cwd=repo)
        g = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), cwd=repo)
        b = sh("bash %s/demo.sh" % lay, cwd=repo)
        print(bug, prop, "applies", g.returncode == 0, "demo clean", a.returncode, "patched", b.returncode)
        if a.returncode or not b.returncode or g.returncode:
            print(a.stdout[-1500:], a.stderr[-1500:], g.stderr[-500:], b.stdout[-500:], b.stderr[-500:])
            return
        print("   ", (b.stdout + b.stderr).strip().splitlines()[-1][:200])
        # the stable tests, on the copy
        t = sh("sed 's#-C /repo #-C %s #' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/o.json" % (repo, w, w, w))
        try:
            o = json.load(open(w + "/o.json"))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            p = o["passed"]
            print("    tests passed", len(p) if hasattr(p, "__len__") else p, "missing", sorted(base - set(p))[:3] if hasattr(p, "__len__") else "?")
        except Exception as e:
            print("    tests ?", e, t.stderr[-400:])
        if check:
            c = sh("python3 check.py %s quick" % prop, cwd=V, env=dict(os.environ, VF_DEV_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print("    check exit", c.returncode, v[:1], "" if c.returncode in (0, 1) else c.stdout[-600:] + c.stderr[-600:])
    except Exception as e:
        print(bug, "ERROR", repr(e)[:500])
    finally:
        subprocess.run(["rm", "-rf", w])


nocheck = "--nocheck" in sys.argv
for x in sys.argv[1:]:
    if not x.startswith("-"):
        run(x, not nocheck)
