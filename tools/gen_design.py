"""put the bounds of the harnesses into DESIGN.md"""
import ast
import glob
import re
rows = []
for f in sorted(glob.glob('/verif/props/C*.py')):
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            rows.append('* **%s** %s' % (f[-6:-3], re.sub(r'\s+', ' ', ast.literal_eval(n.value))))
s = open('/verif/DESIGN.md').read()
a, b = s.index('<!-- bounds -->') + len('<!-- bounds -->'), s.index('<!-- /bounds -->')
open('/verif/DESIGN.md', 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
