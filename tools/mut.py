#!/usr/bin/env python3
"""mut.py [-p CHECK] : applies each mutation of tools/mutants/*.txt to a scratch copy of
/repo's sources and runs the checks named there. Development aid, not read by any check.

Format, records separated by a line '====':
  CHECKS expect file
  ---- old text
  ---- new text
expect: 1 (must be reported) or 0 (must stay quiet)."""
import os, subprocess, sys, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')


def records(only):
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'mutants', '*.txt'))):
        for k, rec in enumerate(open(f).read().split('\n====\n')):
            if not rec.strip():
                continue
            head, old, new = rec.split('\n----\n') if rec.count('\n----\n') == 2 else (rec, None, None)
            if old is None:
                print('bad record', f, k, rec[:80])
                continue
            ids, exp, path = head.strip().split()
            for i in ids.split(','):
                if not only or i in only:
                    yield os.path.basename(f), k, i, int(exp), path, old.strip('\n'), new.strip('\n')


def one(r):
    f, k, i, exp, path, old, new = r
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/py', d + '/py', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/bin', d + '/bin')
        s = open(os.path.join(d, path)).read()
        if s.count(old) < 1:
            return r, 'NOTFOUND', ''
        open(os.path.join(d, path), 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, VP_REPO=d, SA_EVID=d + '/ev')
        p = subprocess.run([sys.executable, os.path.join(V, 'check.py'), i], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V, timeout=float(os.environ.get('MUT_TIMEOUT', '900')))
        return r, p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return r, 'TIMEOUT', ''
    finally:
        shutil.rmtree(d)


def main():
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    rs = list(records(only))
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for r, rc, out in ex.map(one, rs):
            f, k, i, exp, path, old, new = r
            okk = rc == exp
            bad += not okk
            if not okk or '-v' in sys.argv:
                print('%s %s #%d %s expect %s got %s: %r -> %r' % ('ok ' if okk else 'BAD', f, k, i, exp, rc, old[:70], new[:70]))
                if '-o' in sys.argv or (not okk and '-q' not in sys.argv):
                    print('\n'.join('      ' + l[:300] for l in out.splitlines()[:12]))
    print(len(rs), 'runs', bad, 'unexpected')


if __name__ == "__main__":
    main()
