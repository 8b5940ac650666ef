#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py after confirming each planted bug in a scratch copy:
applies, stable tests pass, demo exits 0 without and nonzero with the change.
usage: seed.py [-f] [ID ...]     (-f: redo existing ones)
A spec file defines: property, needs, what_it_breaks, edits=[(file, old, new)], demo=<python text>."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SD = os.path.join(V, 'tools', 'seeds')
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD/py" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def run(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, capture_output=True, timeout=timeout, env=env)
def build(i, base_ok):
    ns = {}
    exec(open(os.path.join(SD, i + '.py')).read(), ns)
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = os.path.join(d, 'repo')
        run('cp -a /repo %s' % repo, '/')
        out = os.path.join(d, 'out'); os.mkdir(out)
        open(os.path.join(out, 'demo.py'), 'w').write(ns['demo'])
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'DESIMETER_DATA')}
        r = run('bash %s/demo.sh' % out, repo, env=env)
        if r.returncode != 0:
            return 'demo fails on clean tree: ' + (r.stdout + r.stderr)[-1500:]
        for f, o, n in ns['edits']:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(o) != 1:
                return 'edit does not match once (%d) in %s: %r' % (s.count(o), f, o[:60])
            open(p, 'w').write(s.replace(o, n))
        diff = run('git diff', repo).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        r = run('bash %s/demo.sh' % out, repo, env=env)
        if r.returncode == 0:
            return 'demo passes with the change'
        tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
        e2 = dict(env, PYTHONPATH=os.path.join(repo, 'py'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1')
        r = run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 py/desimeter/test 2>&1 | tail -30', repo, env=e2)
        if r.stdout.strip().splitlines()[-1] and base_ok not in r.stdout:
            return 'tests: ' + r.stdout[-1500:]
        json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['what_it_breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(V, 'seeded', i)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return 'ok  (%s)' % tail
    finally:
        shutil.rmtree(d)
def main():
    a = sys.argv[1:]
    force = '-f' in a
    ids = [x for x in a if x != '-f'] or sorted(x[:-3] for x in os.listdir(SD) if x.endswith('.py'))
    from concurrent.futures import ThreadPoolExecutor
    todo = [i for i in ids if force or not os.path.exists(os.path.join(V, 'seeded', i))]
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(todo, ex.map(lambda i: build(i, '41 passed'), todo)):
            print(i, r, flush=True)
main()
