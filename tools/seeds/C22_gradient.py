property='C22'
needs='local polynomial correction of offsets with a constant or linear part in y'
what_it_breaks='the derivative in y of the linear monomials is wrong, so the model is no gradient'
edits=[('py/desimeter/turbulence.py', "            polys[cnt, N:] = i2 * x**i1 * y**(i2 - 1 + (i2 == 0))", "            polys[cnt, N:] = i2 * x**i1 * y**(i2 - (i2 > 1))")]
demo='''
import numpy as np
from desimeter import turbulence as T
r = np.random.RandomState(7)
n = 30
x, y = r.uniform(-30, 30, (2, n))
dx, dy = 0.01 + 1e-4*x + 2e-4*y, -0.02 + 2e-4*x - 3e-4*y      # gradient of a polynomial of degree 2
cx, cy = T.correct_with_pol(x, y, x-dx, y-dy)
assert np.allclose(cx, x-dx, atol=1e-6) and np.allclose(cy, y-dy, atol=1e-6), (abs(cx-x+dx).max(), abs(cy-y+dy).max())
'''
