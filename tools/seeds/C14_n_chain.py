property='C14'
needs='conversion of a nutation angle to the distance along the surface, away from the axis'
what_it_breaks='distance along the surface for a nutation angle is the radius'
edits=[('py/desimeter/transform/rszn_lookups.py',"    return r2s(n2r(n))  # takes nutation angles in degrees","    return np.interp(n, N, S[::-1][::-1] if np.ndim(n) else R, left=oob, right=oob)")]
demo='''
import numpy as np
from desimeter.transform import rszn_lookups as t
for n in (0.5, 3., 9.):
    assert abs(t.n2s(n) - t.r2s(t.n2r(n))) < 2e-3
    assert abs(t.s2n(t.n2s(n)) - n) < 1e-4
n = np.array([0.5, 3., 9.])
assert np.allclose(t.n2s(n), t.r2s(t.n2r(n)), atol=2e-3)
'''
