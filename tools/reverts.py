#!/usr/bin/env python3
"""Reverts each repair of known_findings.txt in a scratch copy and runs its check: it must report the violation again.
usage: reverts.py [COMMIT ...]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
fixes = re.findall(r'^fixed: property=(\S+) (\S+) (.*)$', open(V + '/known_findings.txt').read(), re.M)


def one(f):
    p, h, what = f
    d = tempfile.mkdtemp(prefix='rv_')
    try:
        r = subprocess.run('git clone -q /repo %s/r && cd %s/r && git revert -n %s' % (d, d, h), shell=True, text=True, capture_output=True)
        if r.returncode:
            return f, 'CONFLICT', r.stderr.strip().splitlines()[-1:]
        r = subprocess.run(['python3', 'check.py', p], cwd=V, text=True, capture_output=True, env=dict(os.environ, VP_REPO=d + '/r', SA_EVID=d))
        return f, 'reported' if r.returncode == 1 else 'NOT REPORTED rc=%d' % r.returncode, [l for l in r.stdout.splitlines() if 'violated:' in l][:1]
    finally:
        shutil.rmtree(d)


todo = [f for f in fixes if len(sys.argv) < 2 or f[1] in sys.argv[1:]]
with ThreadPoolExecutor(4) as ex:
    for f, v, l in ex.map(one, todo):
        print(v, f[0], f[1], f[2][:70], l, flush=True)
