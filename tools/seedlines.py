#!/usr/bin/env python3
"""seedlines.py : lines removed by each planted bug that were not in the original repository."""
import glob, os, re, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
BASE = '052bdf4'
for d in sorted(glob.glob(V + '/seeded/*')):
    f, n, own, orig, adds = None, 0, [], 0, 0
    for l in open(d + '/patch.diff'):
        l = l.rstrip('\n')
        m = re.match(r'--- a/(.*)', l)
        if m:
            f = m.group(1)
            continue
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)) - 1
            continue
        if l.startswith('+++') or l.startswith('diff') or l.startswith('index'):
            continue
        if l.startswith('+'):
            adds += 1
            continue
        n += 1
        if l.startswith('-'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, n), BASE + '..HEAD', '--', f], capture_output=True, text=True).stdout
            if b.startswith('^'):
                orig += 1
            else:
                own.append((f, n, l))
    if own or not orig:
        print(os.path.basename(d), 'original lines', orig, 'own', own, 'added', adds)
