#!/bin/bash
# nothing to build: the code under test is pure Python, imported from /repo's working tree; verify the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, numpy, scipy, swiglpk # noqa
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
P
