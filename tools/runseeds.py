#!/usr/bin/env python3
"""Runs the check of each planted bug on a scratch copy of /repo with the bug applied (REPO env points the check there)."""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
ids = [x for x in sys.argv[1:]] or sorted(os.listdir(os.path.join(V, 'seeded')))
def one(i):
    d = tempfile.mkdtemp(prefix='rs_')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/seeded/%s/patch.diff' % (d, d, V, i), shell=True, check=True)
        p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
        r = subprocess.run(['python3', 'check.py', p], cwd=V, text=True, capture_output=True, env=dict(os.environ, VP_REPO=d, SA_EVID=d))
        v = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
        return i, p, r.returncode, (v[:2] or r.stderr.strip().splitlines()[-1:])
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(4) as ex:
    for i, p, rc, v in ex.map(one, ids):
        print('CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, i, p, v, flush=True)
