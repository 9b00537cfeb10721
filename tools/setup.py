"""setup_cmd: checks that the tools are there and that the specification
parses; the checks themselves build everything they need."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("gcc", "gfortran", "tlc", "tla-sany", "python3-vt"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
d = os.path.join(HERE, "spec")
for m in sorted(os.listdir(d)):
    if m.endswith(".tla"):
        r = subprocess.run(["tla-sany", m], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or "*** Errors" in r.stdout or "Fatal" in r.stdout:
            sys.exit(m + ":\n" + r.stdout)
print("ready")
