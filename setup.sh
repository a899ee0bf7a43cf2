#!/bin/sh
# nothing to build: checks read /repo's current source on every run; verify the tools are present
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, pandas, scipy, z3
print("numpy", numpy.__version__, "pandas", pandas.__version__, "scipy", scipy.__version__, "z3", z3.get_version_string())
PY
mkdir -p evidence
