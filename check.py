#!/opt/venv/bin/python
'''Entry point of every registered check.

  check.py C01                      run the check (tier from VERIF_TIER / --tier, seed from VERIF_SEED)
  check.py C01 --replay FILE        re-run one saved case, without Hypothesis

Exit status: 0 held, 1 violated (with a VIOLATION line), anything else an error of the harness.
'''

import os
import sys

# a run must be a pure function of the code and the seed: pin everything that numpy / hashing could vary
_PINNED = {'PYTHONHASHSEED': '0', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
           'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1'}
_VENV = '/opt/venv/bin/python'

if any(os.environ.get(k) != v for k, v in _PINNED.items()) or \
        (os.path.exists(_VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv')):
    env = dict(os.environ)
    env.update(_PINNED)
    exe = _VENV if os.path.exists(_VENV) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# the code under test always comes from /repo's working tree; VERIF_REPO only for trying scratch worktrees by hand
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
# hypothesis (and only what the runtime venv lacks) comes from the verification tools' venv: appended last
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from pbt import runner  # noqa: E402  pylint: disable=wrong-import-position

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
