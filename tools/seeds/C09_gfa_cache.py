property='C09'
needs='two different GFA petals inverted in the same process, the first one before any forward transform'
what_it_breaks='the cached camera transforms hold only the petal of the first call'
edits=[('py/desimeter/transform/gfa2fp.py',"        _gfa_transforms = fit_gfa2fp(metrology)\n\n    log = get_logger()\n    if petal_loc not in _gfa_transforms:\n        log.error('PETAL_LOC {} GFA metrology missing'.format(petal_loc))\n\n    xgfa, ygfa","        _gfa_transforms = fit_gfa2fp(metrology[(metrology['PETAL_LOC'] == petal_loc) | (metrology['PETAL_LOC'] < 8)])\n\n    log = get_logger()\n    if petal_loc not in _gfa_transforms:\n        log.error('PETAL_LOC {} GFA metrology missing'.format(petal_loc))\n\n    xgfa, ygfa")]
demo='''
from desimeter.transform.gfa2fp import gfa2fp, fp2gfa
from desimeter.io import load_metrology
import numpy as np
m = load_metrology(); g = m[m['DEVICE_TYPE'] == 'GFA']
ps = sorted(set(int(p) for p in g['PETAL_LOC']))
print(ps)
fp2gfa(ps[0], 100., 100.)
for p in ps:
    fp2gfa(p, 100., 100.)
'''
