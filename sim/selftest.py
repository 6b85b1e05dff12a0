"""Setup / self test: imports resolve, replay is deterministic.

--quick: a few runs per claimed property executed twice at different worker counts and
under another PYTHONHASHSEED; event-log hashes must agree.  Without it: a larger sample.
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def digest(prop, seed, runs, workers, hashseed):
    fd, path = tempfile.mkstemp()
    os.close(fd)
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_HASHSEED=str(hashseed), VERIF_TIER='quick')
    env.pop('VERIF_SIM_PINNED', None)
    p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'run.py'), prop, '--runs', str(runs),
                        '--workers', str(workers), '--digest', path, '--no-shrink', '--no-evidence'],
                       env=env, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(path) as fh:
        text = fh.read()
    os.unlink(path)
    return p.returncode, text, p.stdout


def main():
    quick = '--quick' in sys.argv
    props = [a for a in sys.argv[1:] if not a.startswith('-')]
    with open(os.path.join(ROOT, 'MANIFEST.json')) as fh:
        claimed = [c['property'] for c in json.load(fh)['checks']]
    bad = 0
    for p in props or claimed:
        runs = 8 if quick else 120
        seeds = [1] if quick else [1, 2, 3]
        for s in seeds:
            configs = [(8, 0), (3, 7)] if quick else [(8, 0), (8, 0), (3, 0), (5, 7), (1, 99)]
            outs = [digest(p, s, runs, w, h) for w, h in configs]
            same = all(o[1] == outs[0][1] for o in outs)
            print('%s seed=%d runs=%d configurations=%d deterministic=%s exit=%s' %
                  (p, s, runs, len(configs), same, [o[0] for o in outs]), flush=True)
            if not same:
                bad += 1
                for o, c in zip(outs[1:], configs[1:]):
                    for a, b in zip(outs[0][1].splitlines(), o[1].splitlines()):
                        if a != b:
                            print('  differs %s: %s | %s' % (c, a, b))
                            break
    # set-up must not fail because a changed tree breaks a property
    return 0 if quick else (1 if bad else 0)


if __name__ == '__main__':
    sys.exit(main())
