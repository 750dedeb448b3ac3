"""write known_findings.json: the fixed entries come from the fix commits in /repo, the known ones from KNOWN below"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(HERE, 'tools', 'fix_properties.json')))
KNOWN = json.load(open(os.path.join(HERE, 'tools', 'known.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'known.json')) else []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    m = [p for k, p in PROPS.items() if s[5:].startswith(k)]
    if len(m) != 1:
        raise SystemExit('no property for: ' + s)
    out.append({'id': 'fix-' + h, 'property': m[0], 'status': 'fixed', 'what': 'fixed: property=%s %s %s' % (m[0], h, s[5:])})
json.dump(out + KNOWN, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
open(os.path.join(HERE, 'known_findings.json'), 'a').write('\n')
