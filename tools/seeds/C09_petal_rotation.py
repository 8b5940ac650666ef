property='C09'
needs='a petal transformed with an estimated height first and with a measured height later in the same process'
what_it_breaks='the height estimated in the first call is kept with the petal alignment and used for later calls'
edits=[('py/desimeter/transform/ptl2fp.py',"    if zptl is None:\n        radius = np.hypot(xptl, yptl)\n        zptl = rszn_lookups.r2z(radius) # estimate as approx nominal echo22\n    xyzptl = np.vstack([xptl,yptl,zptl])\n\n    # global focal plane coordinates 'FP'\n    params = get_petal_alignment_data()[petal_loc]\n","    params = get_petal_alignment_data()[petal_loc]\n    if zptl is None:\n        key = 'znominal', np.size(xptl), float(np.ravel(xptl)[0])\n        if key not in params:\n            radius = np.hypot(xptl, yptl)\n            params[key] = rszn_lookups.r2z(radius) # estimate as approx nominal echo22\n        zptl = params[key]\n    xyzptl = np.vstack([xptl,yptl,zptl])\n\n    # global focal plane coordinates 'FP'\n")]
demo='''
import numpy as np
from desimeter.transform.ptl2fp import ptl2fp
x = np.array([100., 200.])
ptl2fp(3, x, np.array([10., 10.]))
a = ptl2fp(3, x, np.array([10., 300.]))
import subprocess, sys
b = subprocess.run([sys.executable, '-c', 'import numpy as np; from desimeter.transform.ptl2fp import ptl2fp; print(repr([float(v) for c in ptl2fp(3, np.array([100.,200.]), np.array([10.,300.])) for v in c]))'], stdout=subprocess.PIPE, check=True).stdout.decode()
b = eval(b.strip().splitlines()[-1])
assert np.allclose(np.ravel(a), b, atol=1e-9)
'''
