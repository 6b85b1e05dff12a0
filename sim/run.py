"""Entry point:  python -B sim/run.py <PROPERTY> [options]

  (no option)        run the check at the tier named by VERIF_TIER
  --replay FILE      re-execute one replay file; exit 1 + VIOLATION line if it fails
  --runs N           override the number of simulated runs
  --workers N        number of worker processes (results do not depend on it)
  --digest FILE      write one line per run (index, trace hash) to FILE
  --plan INDEX       print the plan of run INDEX and its outcome
  --no-shrink        report the first failing plan unminimised
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

# Everything that could differ between two runs of the interpreter is pinned
# here, before the code under test is imported.
_ENV = {
    'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
    'PYTHONDONTWRITEBYTECODE': '1',
    # never read stale byte code out of /repo
    'PYTHONPYCACHEPREFIX': '/nonexistent-pycache',
    'PYTHONUTF8': '1',
    'LC_ALL': 'C.UTF-8',
    'LANG': 'C.UTF-8',
    'TZ': 'UTC',
    'VERIF_SIM_PINNED': '1',
}
PY = '/opt/venv/bin/python'

if __name__ == '__main__':
    if os.environ.get('VERIF_SIM_PINNED') != '1' \
            or os.environ.get('PYTHONHASHSEED') != _ENV['PYTHONHASHSEED']:
        env = dict(os.environ)
        env.update(_ENV)
        for k in ('TEXINPUTS', 'PYTHONPATH', 'plasTeX', 'PYTHONSTARTUP', 'PYTHONWARNINGS'):
            env.pop(k, None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    sys.path.insert(0, ROOT)
    import warnings
    warnings.simplefilter('ignore', SyntaxWarning)
    from sim import kernel
    sys.exit(kernel.main(sys.argv[1:]))
