#!/usr/bin/env python3
"""Development tool: applies the edits of tools/mutants.py to copies of the sources and reports whether the checks react as expected.
usage: mutate.py [PID or substring ...]"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import MUTANTS
REPO = '/repo'


def one(job):
    i, (pid, path, edits, kind) = job
    d = tempfile.mkdtemp(prefix='kpexmut')
    try:
        for sub in ('klayout_pex', 'cxx', 'protos', 'klayout_pex_protobuf', 'pdk'):
            if os.path.isdir(f"{REPO}/{sub}"):
                if sub == path.split('/')[0]:
                    shutil.copytree(f"{REPO}/{sub}", f"{d}/{sub}", ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
                else:
                    os.symlink(f"{REPO}/{sub}", f"{d}/{sub}")
        for f in os.listdir(REPO):
            if not os.path.exists(f"{d}/{f}") and f != '.git':
                os.symlink(f"{REPO}/{f}", f"{d}/{f}")
        p = f"{d}/{path}"
        s = open(p).read()
        for old, new in edits:
            if s.count(old) < 1:
                return i, 'STALE', f"{pid} {path}: {old[:60]!r} not found"
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
        if path.endswith('.py'):
            try:
                compile(s, p, 'exec')
            except SyntaxError as x:
                return i, 'STALE', f"{pid} {path}: {x}"
        ids = pid.split(',')
        out = ''
        rcs = []
        for x in ids:
            r = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), x], capture_output=True, text=True,
                               env=dict(os.environ, KPEX_REPO=d, KPEX_EVIDENCE=d + '/ev'))
            rcs.append(r.returncode)
            out += r.stdout + r.stderr
        hit = any(rc == 1 for rc in rcs)
        odd = any(rc not in (0, 1) for rc in rcs)
        if odd:
            return i, 'NOANSWER', out[-600:]
        if kind == 'bug':
            return i, 'ok' if hit else 'MISSED', f"{pid} {path}: {[(o[:80], n[:80]) for o, n in edits]}" if not hit else ''
        return i, 'ok' if not hit else 'FALSE', f"{pid} {path}: {[(o[:80], n[:80]) for o, n in edits]}\n{out[:900]}" if hit else ''
    finally:
        shutil.rmtree(d)


def main():
    sel = sys.argv[1:]
    jobs = [(i, m) for i, m in enumerate(MUTANTS) if not sel or any(s in m[0].split(',') or s in m[1] for s in sel)]
    cnt = {}
    with cf.ProcessPoolExecutor(8) as ex:
        for i, st, msg in ex.map(one, jobs):
            cnt[st] = cnt.get(st, 0) + 1
            if st != 'ok':
                print(f"#{i} {st} {msg}")
    print(cnt)


if __name__ == '__main__':
    main()
