#!/usr/bin/env python3
"""Development aid: builds /verif/seeded/<id>/ from seeds.SEEDS and confirms each one in a scratch copy.

usage: mkseed.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
PY = '/opt/venv/bin/python'
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env, **kw)


def build(sid, s):
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        sh(f'git -C /repo archive HEAD | tar x -C {tmp}', '/')
        sh('git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm base', tmp)
        for f, old, new in s['edits']:
            p = os.path.join(tmp, 'python', 'enolib', f)
            t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(OUT, sid)
        os.makedirs(d, exist_ok=True)
        diff = sh('git diff', tmp).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'HERE="$(cd "$(dirname "$0")" && pwd)"\ncd python || exit 2\n'
            f'PYTHONPATH="$PWD" exec timeout 120 {PY} "$HERE/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = sh(f'bash {d}/demo.sh', tmp)
        base = sh(f'bash {d}/demo.sh', '/repo')
        t = sh(f'{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors '
               '--ignore=tests/test_parse.py 2>&1 | tail -3', os.path.join(tmp, 'python'))
        ok = bad.returncode != 0 and base.returncode == 0
        alarm = None
        if '--check' in sys.argv:
            c = subprocess.run([sys.executable, os.path.join(os.path.dirname(HERE), 'check.py'), s['property']],
                               capture_output=True, text=True, env=dict(os.environ, ENO_REPO=os.path.join(tmp, 'python'),
                                                                        ENO_EVIDENCE=tmp))
            alarm = (c.returncode, [l for l in c.stdout.splitlines() if l.startswith(('  ', 'VIOL', 'analysis'))][:2])
        print(sid, 'OK' if ok else 'BAD', 'demo:', bad.returncode, base.returncode,
              'tests:', t.stdout.strip().splitlines()[-1] if t.stdout else t.stderr[-200:], 'check:', alarm)
        if not ok:
            print(bad.stdout[-300:], bad.stderr[-300:], base.stdout[-300:], base.stderr[-600:])
    finally:
        shutil.rmtree(tmp)


names = [a for a in sys.argv[1:] if not a.startswith('--')] or list(seeds.SEEDS)
for n in names:
    build(n, seeds.SEEDS[n])
