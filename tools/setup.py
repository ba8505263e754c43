#!/usr/bin/env python3
"""Checks that the tools the checks need are here and that every specification module parses."""
import os, subprocess, sys, glob, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = tempfile.mkdtemp(prefix="verif-setup-")
libs = os.pathsep.join(glob.glob(os.path.join(V, "specs", "*")))
mods = sorted(glob.glob(os.path.join(V, "specs", "*", "*.tla")))
p = subprocess.run(["java", f"-Djava.io.tmpdir={d}", f"-DTLA-Library={libs}", "-cp", JAR, "tla2sany.SANY", *mods], cwd=d,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
shutil.rmtree(d, ignore_errors=True)
bad = p.returncode != 0 or "*** Errors" in p.stdout or "Fatal errors" in p.stdout
print(p.stdout[-2000:] if bad else f"{len(mods)} modules parse")
sys.exit(1 if bad else 0)
