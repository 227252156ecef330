#!/usr/bin/env python3
"""Development: build seeded/<id>/ from tools/seeds.py and confirm each in the working tree of /repo (restored afterwards).

  plant.py [--fast] [ID…]    without ids: those whose directory does not exist yet
  --fast: no build and tests, only the demonstration and the checks
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH',)}
ENV['PYTHONDONTWRITEBYTECODE'] = '1'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def clean():
    assert sh('git -C /repo checkout -- . && git -C /repo status --porcelain').stdout.strip() == ''


def tests():
    sh('bash /opt/vp/test.sh /tmp/plant_out.json')
    r = json.load(open('/tmp/plant_out.json'))
    passed = set(r.get('passed', []))
    sh('git -C /repo checkout -- .')
    return STABLE - passed


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    fast = '--fast' in sys.argv
    for sid, (prop, edits, needs, breaks, demo) in SEEDS.items():
        d = f"{ROOT}/seeded/{sid}"
        if args and sid not in args or not args and os.path.exists(d):
            continue
        clean()
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", 'w').write(demo.lstrip('\n'))
        open(f"{d}/demo.sh", 'w').write(
            '#!/bin/bash\n# exit 0: behaves as the property says\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", 'w'), indent=1)
        msgs = []
        r = sh(f"bash {d}/demo.sh", cwd='/repo', env=ENV)
        if r.returncode:
            msgs.append(f"DEMO FAILS ON CLEAN TREE\n{r.stdout[-1500:]}{r.stderr[-1500:]}")
        try:
            for path, old, new in edits:
                p = f"/repo/{path}"
                s = open(p).read()
                assert s.count(old) == 1, (sid, path, old, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            open(f"{d}/patch.diff", 'w').write(sh('git -C /repo diff').stdout)
            if not fast:
                r = sh('bash /opt/vp/build.sh')
                if r.returncode:
                    msgs.append('DOES NOT BUILD ' + r.stdout[-500:] + r.stderr[-500:])
            r = sh(f"bash {d}/demo.sh", cwd='/repo', env=ENV)
            why = (r.stdout + r.stderr).strip().splitlines()[-1:] or ['']
            if not r.returncode:
                msgs.append('DEMO PASSES WITH THE CHANGE')
            r = sh(f"python3 {ROOT}/check.py all", cwd=ROOT)
            found = sorted({l.split('property=')[1].split()[0] for l in r.stdout.splitlines() if l.startswith('VIOLATION')})
            na = [l for l in r.stdout.splitlines() if 'NO ANSWER' in l or 'no answer' in l]
            if not fast:
                gone = tests()
                if gone:
                    msgs.append(f"TESTS FAIL: {gone}")
        finally:
            sh('git -C /repo checkout -- .')
            if any(not e[0].endswith('.py') for e in edits):
                sh('bash /opt/vp/build.sh')
        print(f"{sid:32} {prop} {'caught' if prop in found else 'MISSED'} {found} {na[:2]} | {why[0][:100]}")
        for m in msgs:
            print('   !!', m)
    clean()


main()
