property='C14'
needs='a distance along the surface beyond the last row of the table'
what_it_breaks='distances off the focal surface are clamped to its edge instead of being undefined, also in the conversions through the radius'
edits=[('py/desimeter/transform/rszn_lookups.py',"    return np.interp(s, S, R, left=oob, right=oob)\n","    s = np.where(np.asarray(s) > S[-1], S[-1], s)\n    return np.interp(s, S, R, left=oob, right=oob)\n")]
demo='''
import numpy as np
from desimeter.transform import rszn_lookups as t
r = np.linspace(0, 499, 50)
assert np.allclose(t.s2r(t.r2s(r)), r)
for f in (t.s2r, t.s2n, t.s2z):
    assert np.isnan(f(520.)) and np.all(np.isnan(f(np.array([-1., 600.]))))
'''
