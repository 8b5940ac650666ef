property='C13'
needs='two sets of points related by a plane map whose shear has one particular sign'
what_it_breaks='fitted plane correction drops the shear, so it is not the least squares solution and its residuals exceed the reported rms'
edits=[('py/desimeter/simplecorr.py',"        self.syy = syy\n        self.sxy = sxy\n","        self.syy = syy\n        self.sxy = min(sxy, 0.02*(sxx+syy))\n")]
demo='''
import numpy as np
from desimeter.simplecorr import SimpleCorr
rng = np.random.RandomState(3)
x, y = rng.uniform(-1, 1, (2, 20))
for s in (0.01, -0.01, 0.1, -0.1):
    m = np.array([[1.02, s], [s, 0.97]])
    u, v = m.dot(np.array([x, y])) + np.array([[0.1], [0.2]])
    c = SimpleCorr(); c.fit(x, y, u, v)
    p, q = c.apply(x, y)
    assert np.hypot(p-u, q-v).max() < 1e-9, (s, np.hypot(p-u, q-v).max())
'''
