"""Checks that the tools are there and the specifications are well-formed."""
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for path in sorted(glob.glob(os.path.join(ROOT, "specs", "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(path)], cwd=os.path.dirname(path),
                       capture_output=True, text=True)
    if p.returncode != 0 or "error" in p.stdout.lower():
        print(p.stdout[-2000:], p.stderr[-500:])
        bad = 1
p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import sys; sys.path.insert(0, '/repo'); import cheval"])
sys.exit(bad or p.returncode)
