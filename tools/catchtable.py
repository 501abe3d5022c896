"""catchtable.py: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = sorted((json.load(open(m))['property'], os.path.basename(os.path.dirname(m)), json.load(open(m))) for m in glob.glob(here + '/seeded/*/meta.json'))
out = ['## Planted bugs', '', 'Each of these builds, passes the stable tests and was reported by the quick check of its property (column 1) when it was last tried (`tools/seedcheck.py`), many only after the workload had been widened for it; not all were tried again after later changes to the harnesses.', '', '| check | bug | needs | effect |', '|---|---|---|---|']
out += ['| %s | %s | %s | %s |' % (p, b, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')) for p, b, m in rows]
f = here + '/DESIGN.md'; s = re.sub(r'\n## Planted bugs\n.*?(?=\n## |\Z)', '', open(f).read(), flags=re.S).rstrip('\n')
open(f, 'w').write(s + '\n\n' + '\n'.join(out) + '\n')
