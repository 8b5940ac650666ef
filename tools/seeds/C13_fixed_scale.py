property='C13'
needs='a camera mapping fit with the rotation held fixed but the scale free'
what_it_breaks='the returned scale is not the one for which the squared residuals are minimal'
edits=[('py/desimeter/transform/zhaoburge.py',"        if fixed_rotation is not None: rotation=fixed_rotation # fixed value\n        xx, yy = transform(x, y, scale, rotation, offset_x, offset_y, zbpolids=zbpolids, zbcoeffs=zbcoeffs)\n        dr2 = np.sum((xx-xp)**2 + (yy-yp)**2)\n","        if fixed_rotation is not None: rotation=fixed_rotation # fixed value\n        if fixed_scale is not None or fixed_rotation is None:\n            xx, yy = transform(x, y, scale, rotation, offset_x, offset_y, zbpolids=zbpolids, zbcoeffs=zbcoeffs)\n        else:\n            xx, yy = transform(x, y, scale, rotation, offset_x, offset_y)\n        dr2 = np.sum((xx-xp)**2 + (yy-yp)**2)\n")]
demo='''
import numpy as np
from desimeter.transform.zhaoburge import fit_scale_rotation_offset, transform
rng = np.random.RandomState(3)
x, y = rng.uniform(-0.7, 0.7, (2, 40))
ids, co = np.array([2, 5, 28]), np.array([0.02, 0.03, -0.02])
u, v = transform(x, y, 1.01, 0.3, 0.02, -0.01, zbpolids=ids, zbcoeffs=co)
r = fit_scale_rotation_offset(x, y, u, v, zbpolids=ids, zbcoeffs=co, fixed_rotation=0.3)
p, q = transform(x, y, *r, zbpolids=ids, zbcoeffs=co)
assert np.hypot(p-u, q-v).max() < 1e-3, np.hypot(p-u, q-v).max()
r = fit_scale_rotation_offset(x, y, u, v, zbpolids=ids, zbcoeffs=co)
p, q = transform(x, y, *r, zbpolids=ids, zbcoeffs=co)
assert np.hypot(p-u, q-v).max() < 1e-3, np.hypot(p-u, q-v).max()
'''
