"""writes refs/api.txt: the public functions of the pinned tree whose arguments C08 looks at"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa import src as S
out = []
for m in S.Repo().lib():
    for q, fn in m.funcs.items():
        if any(p.startswith('_') and p not in ('__init__', '__call__') for p in q.split('.')) or S.enclosing_function(fn) is not None:
            continue
        out.append(' '.join([m.name, q]))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'refs', 'api.txt'), 'w').write('\n'.join(sorted(out)) + '\n')
print(len(out))
