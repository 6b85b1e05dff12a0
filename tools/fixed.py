"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo (run by hand)."""
import json, subprocess
PROP = json.load(open('/verif/tools/fixprops.json'))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s'], capture_output=True, text=True).stdout
kf = json.load(open('/verif/known_findings.json'))
out = []
for l in log.splitlines():
    h, s = l.split('\t', 1)
    if not s.startswith('fix: '):
        continue
    t = s[5:]
    p = [v for k, v in PROP.items() if t.startswith(k)]
    assert len(p) == 1, t
    prop, what = p[0]
    out.append('fixed: property=%s %s %s' % (prop, h, what))
kf['fixed'] = out
json.dump(kf, open('/verif/known_findings.json', 'w'), indent=1)
