property='C20'
needs='an image that is not square'
what_it_breaks='spots are measured at other pixels than those of the peaks'
edits=[('py/desimeter/detectspots.py', "        i0=index//n1", "        i0=index//n0")]
demo='''
import numpy as np
from desimeter.detectspots import detectspots, psf
n0, n1 = 60, 90
i0, i1 = np.indices((n0, n1))
a = np.random.RandomState(1).normal(size=(n0, n1))*5
for x, y in ((70.2, 40.3), (15.6, 20.2)): a += 30000*psf(i0, i1, x, y, 1.)
t = detectspots(a)
got = sorted((round(float(r['XPIX']), 1), round(float(r['YPIX']), 1)) for r in t)
assert got == [(15.6, 20.2), (70.2, 40.3)], got
'''
