"""mkseed: write /verif/seeded/<id>/ from a list of textual edits and a demonstration.

used as a library:  from mkseed import seed;  seed(id, property, [(file, old, new)...], demo, needs, breaks)
Edits are made in a scratch copy of /repo, never in /repo itself.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
SH = '''#!/bin/bash
# cwd: the repository
D="$(cd "$(dirname "$0")" && pwd)"
export NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/tmp OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore "$D/demo.py"
'''


def seed(sid, prop, edits, demo, needs, breaks):
    d = os.path.join(OUT, sid)
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            if s.count(old) != 1:
                print('%s: %d matches in %s for\n%s' % (sid, s.count(old), f, old))
                return
            open(p, 'w').write(s.replace(old, new))
        patch = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        sh = os.path.join(d, 'demo.sh')
        bad = subprocess.run(['bash', sh], cwd=w + '/r', capture_output=True, timeout=280)
        subprocess.check_call(['git', '-C', w + '/r', 'checkout', '-q', '.'])
        good = subprocess.run(['bash', sh], cwd=w + '/r', capture_output=True, timeout=280)
        print('%s: demo clean %d, patched %d' % (sid, good.returncode, bad.returncode))
        if good.returncode != 0:
            print(good.stderr.decode()[-1500:])
        if bad.returncode == 0 or b'AssertionError' not in bad.stderr:
            print(bad.stderr.decode()[-1500:])
    finally:
        shutil.rmtree(w)
