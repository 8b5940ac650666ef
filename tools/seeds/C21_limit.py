property='C21'
needs='a stamp whose source is far from the central pixel, so that the steps are limited'
what_it_breaks='the counts take full steps while the position takes limited ones'
edits=[('py/desimeter/detectspots.py', "            delta *= (0.2/val) # limiting range", "            delta[1:] *= (0.2/val) # limiting range")]
demo='''
import numpy as np
from desimeter.detectspots import fitcentroid_gaussian, psf, dpsfdxc, dpsfdyc
i0, i1 = np.indices((7, 7))
s = 20000*psf(i0, i1, 3.9, 2.2, 1.) + np.random.RandomState(1).normal(size=(7, 7))*20
f, x, y = s.sum(), 3., 3.
for _ in range(5):
    H = np.array([psf(i0, i1, x, y, 1.), f*dpsfdxc(i0, i1, x, y, 1.), f*dpsfdyc(i0, i1, x, y, 1.)]).reshape(3, 49)
    d = np.linalg.solve(H @ H.T, H @ (s-f*psf(i0, i1, x, y, 1.)).ravel())
    v = abs(d[1:]).max()
    if v > .2: d *= .2/v
    f, x, y = f+d[0], x+d[1], y+d[2]
    if abs(d[1]) < .001 and abs(d[2]) < .001: break
got = fitcentroid_gaussian(s)
assert np.allclose([got[0], got[1], got[4]], [x-3, y-3, f], rtol=1e-5), (got, x-3, y-3, f)
'''
