#!/usr/bin/env python3
"""Nothing to build: parses every specification once, so that a broken tool or file shows here."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(V, "spec", "*.tla")))
r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode or "Could not parse" in r.stdout or "*** Errors" in r.stdout:
    print(r.stdout[-4000:])
    sys.exit(1)
print("parsed", len(mods), "modules")
