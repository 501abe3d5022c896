"""Regenerates /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, sys, os
sys.path.insert(0, '/verif')
from registry import PROPS
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {}
checks = []; na = []
for p in props:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py check %s' % i, thorough_cmd='python3 run.py check %s --thorough' % i, evidence_file='evidence/%s.json' % i,
            technique=c['technique'], level=c.get('level', 'exploration'),
            level_note=c.get('note', 'The real headers run under generated workloads (%s). Seeded and repeatable; what was observed is counted in the evidence file, and a run that observed too little gives no verdict.' % c['rule'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'monitor not built yet')))
m = dict(version=1, setup_cmd='python3 run.py build', hooks=dict(guard='', enable='no hooks: the harnesses include the unmodified headers of /repo/src and observe through public interfaces, the file system, /proc/self and interposed libc calls', source_commits=[]), checks=checks, not_applicable=na,
    notes='Runtime monitors: /verif/harness/*.cpp are workloads plus oracles, run.py builds them from /repo\'s working tree with ASan+UBSan or TSan and judges what they recorded. See DESIGN.md.')
if not m['hooks']['guard']: m.pop('hooks')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
