#!/bin/bash
# nothing to build ahead: every check builds /repo's tree itself; this verifies
# that the tools are there
cd "$(dirname "$0")"
exec /opt/venv/bin/python - <<'P'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis, numpy, scipy, sklearn, gstools, Cython, matplotlib
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "scipy", scipy.__version__)
P
