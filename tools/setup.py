#!/usr/bin/env python3
"""Sanity of the toolchain: every specification parses, the code under test imports."""
import glob
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
tmp = tempfile.mkdtemp(prefix="verif-setup-")
bad = 0
mods = sorted(glob.glob(os.path.join(HERE, "spec", "*.tla")))
try:
    r = subprocess.run(
        ["java", f"-Djava.io.tmpdir={tmp}", f"-DTLA-Library={HERE}/spec", "-cp", JAR, "tla2sany.SANY", *mods],
        capture_output=True, text=True, cwd=tmp,
    )
    if r.returncode != 0:
        print(r.stdout[-3000:])
        bad = 1
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print(f"{len(mods)} modules parsed" if not bad else "SANY failed")
sys.exit(bad)
