"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import PROPS, NOT_APPLICABLE      # noqa: E402
from sa.checks import CHECKS                 # noqa: E402

nas = {k for k, _ in NOT_APPLICABLE}
ids = [p['id'] for p in PROPS]
assert len(ids) == len(set(ids))
assert set(ids) - nas == set(CHECKS), (set(ids) - nas) ^ set(CHECKS)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), (p['id'], x)
        for _, x in p['mech']:
            assert os.path.exists(os.path.join('/repo', x.split(':')[0])), (p['id'], x)
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None))
        if p['observe']:
            d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='python3 -m compileall -q sa check.py',
           checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s' % p['id'],
                        evidence_file='evidence/%s.json' % p['id'],
                        technique='static analysis: ' + CHECKS[p['id']][1], level='other', level_note=p['note']) for p in PROPS if p['id'] in CHECKS],
           not_applicable=[dict(property=k, reason=r) for k, r in NOT_APPLICABLE],
           notes='All checks are static: they parse /repo/python/src/adctoolbox with the standard ast module and never import or execute it. Standard library only; no hooks in /repo.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(PROPS), 'properties,', len(man['checks']), 'checks')
