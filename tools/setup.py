"""Checks that the tools the framework needs are there (nothing to build: extraction happens in every check)."""
import shutil, subprocess, sys
vt = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
for cmd in ([vt, "-c", "import z3, cvc5"], ["/opt/venv/bin/python", "-c", "import numpy, scipy, pandas"], ["clang++", "--version"]):
    if subprocess.run(cmd, stdout=subprocess.DEVNULL).returncode:
        sys.exit("missing: " + " ".join(cmd))
print("ok")
