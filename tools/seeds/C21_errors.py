property='C21'
needs='correlated parameters: a spot off the centre of its stamp'
what_it_breaks='the error of y ignores its correlation with the other parameters'
edits=[('py/desimeter/detectspots.py', "    ye = noise * np.sqrt(Ai[2,2])", "    ye = noise / np.sqrt(A[2,2])")]
demo='''
import numpy as np
from desimeter.detectspots import fitcentroid_gaussian, psf, dpsfdxc, dpsfdyc
i0, i1 = np.indices((3, 3))
x, y, xe, ye, f = fitcentroid_gaussian(20000*psf(i0, i1, 1.3, .5, 1.), noise=7.)
X, Y = x+1, y+1
H = np.array([psf(i0, i1, X, Y, 1.), f*dpsfdxc(i0, i1, X, Y, 1.), f*dpsfdyc(i0, i1, X, Y, 1.)]).reshape(3, 9)
C = np.linalg.inv(H @ H.T)
assert abs(xe/(7*C[1, 1]**.5)-1) < .002 and abs(ye/(7*C[2, 2]**.5)-1) < .002, (xe, ye, 7*C[1, 1]**.5, 7*C[2, 2]**.5)
'''
