property='C21'
needs='a stamp with more rows than columns or the reverse'
what_it_breaks='the fit starts away from the central pixel and does not reach the spot'
edits=[('py/desimeter/detectspots.py', "    xc=float(n1//2)", "    xc=float(n0//2)")]
demo='''
import numpy as np
from desimeter.detectspots import fitcentroid_gaussian, psf
for n0, n1 in ((5, 9), (9, 5), (7, 7)):
    i0, i1 = np.indices((n0, n1))
    x, y = fitcentroid_gaussian(20000*psf(i0, i1, n1//2+.2, n0//2-.1, 1.))[:2]
    assert abs(x-.2) < .01 and abs(y+.1) < .01, (n0, n1, x, y)
'''
