"""Writes seeded/<id>/ from the definitions in tools/seeds.py (run by hand; no check reads seeded/).

usage: python3 tools/mkseed.py [id…]
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import seeds  # noqa: E402

REPO = os.environ.get('SEED_REPO', '/repo')
TMP = '/tmp/mkseed'
PK = 'python/src/adctoolbox/'
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys, warnings
sys.path.insert(0, os.path.join(os.getcwd(), 'python', 'src'))
warnings.simplefilter('ignore')
import numpy as np


def fail(msg):
    print('FAIL: ' + msg)
    sys.exit(1)


'''


def main():
    want = set(sys.argv[1:])
    for s in seeds.SEEDS:
        if want and s['id'] not in want:
            continue
        shutil.rmtree(TMP, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', REPO, TMP], check=True)
        for f, old, new in s['edits']:
            p = os.path.join(TMP, PK + f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit('%s: text occurs %d times in %s: %r' % (s['id'], t.count(old), f, old))
            open(p, 'w').write(t.replace(old, new))
        d = subprocess.run(['git', '-C', TMP, 'diff'], check=True, capture_output=True, text=True).stdout
        out = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(HEAD + s['demo'].strip('\n') + '\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        # quick self test of the demonstration
        r0 = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=REPO, capture_output=True, text=True)
        r1 = subprocess.run(['bash', os.path.join(out, 'demo.sh')], cwd=TMP, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode == 1
        env = dict(os.environ, VERIF_REPO=TMP, VERIF_EVIDENCE='/tmp/mkseed_ev')
        c = subprocess.run([sys.executable, 'check.py', s['property']], cwd=HERE, env=env, capture_output=True, text=True)
        print('%-34s %s demo %s  check exit %d %s' % (s['id'], s['property'], 'ok' if ok else 'BAD (%d,%d) %s | %s' % (r0.returncode, r1.returncode, (r0.stdout + r0.stderr)[-300:], (r1.stdout + r1.stderr)[-300:]), c.returncode,
                                                      [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'finding' in l.lower()][:1]))
        shutil.rmtree(TMP, ignore_errors=True)


if __name__ == '__main__':
    main()
