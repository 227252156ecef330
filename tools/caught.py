#!/usr/bin/env python3
"""Which checks report which planted bug: runs all checks against copies of /repo, one per seeded/*/patch.diff, and writes
tools/caught.json (read by mkdesign.py).  /repo itself is not touched."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(s):
    d = tempfile.mkdtemp(prefix='caught_')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], capture_output=True)
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True, check=True)
        subprocess.run(['git', 'init', '-q', d], check=True)
        subprocess.run(['git', '-C', d, 'apply', f"{ROOT}/seeded/{s}/patch.diff"], check=True)
        r = subprocess.run([sys.executable, f"{ROOT}/check.py", 'all'], capture_output=True, text=True,
                           env=dict(os.environ, KPEX_REPO=d, KPEX_EVIDENCE=d + '_ev'))
        return s, sorted(set(re.findall(r'VIOLATION property=(\w+)', r.stdout)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '_ev', ignore_errors=True)


if __name__ == '__main__':
    f = f"{ROOT}/tools/caught.json"
    res = json.load(open(f)) if os.path.exists(f) else {}
    todo = sys.argv[1:] or sorted(os.listdir(f"{ROOT}/seeded"))
    res = {k: v for k, v in res.items() if os.path.isdir(f"{ROOT}/seeded/{k}")}
    with cf.ProcessPoolExecutor(8) as ex:
        for s, c in ex.map(run, todo):
            p = json.load(open(f"{ROOT}/seeded/{s}/meta.json"))['property']
            res[s] = c
            print(s, p, c, '' if p in c else '   NOT CAUGHT BY ITS OWN CHECK', flush=True)
    json.dump(dict(sorted(res.items())), open(f, 'w'), indent=1)
