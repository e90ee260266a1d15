"""setup_cmd: nothing to build; fail early if an installed tool is missing."""
import os
import shutil
import subprocess
import sys

import z3

os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
ok = shutil.which("cvc5") is not None
r = subprocess.run(["/opt/venv/bin/python", "-c", "import pyccolo, IPython, black; print('ok')"], capture_output=True, text=True)
print("z3", z3.get_version_string(), "cvc5", ok, "venv", r.stdout.strip(), r.stderr.strip()[-300:])
sys.exit(0 if ok and r.returncode == 0 else 1)
