#!/usr/bin/env python3
"""Nothing has to be compiled ahead of the checks; this only makes sure the tools they need are here and the specifications parse."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
spec = os.path.join(here, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
os.chmod(os.path.join(here, "check.py"), 0o755)
mods = sorted(glob.glob(os.path.join(spec, "*.tla")))
p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY"] + [os.path.basename(m) for m in mods], cwd=spec, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT, text=True)
bad = p.returncode != 0 or "*** Errors" in p.stdout or "Fatal errors" in p.stdout
print(p.stdout[-3000:] if bad else "%d modules parsed" % len(mods))
sys.exit(1 if bad else 0)
