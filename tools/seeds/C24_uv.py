property='C24'
needs='flattened coordinates of positions at a large radius'
what_it_breaks='flattened coordinates are converted back as if their length were the radius for points inside the third quadrant'
edits=[('py/desimeter/transform/xy2qs.py', "    s = np.hypot(u, v)\n", "    s = np.where((u < 0) & (v < 0), r2s(np.hypot(u, v)), np.hypot(u, v))\n")]
demo='''
import numpy as np
from desimeter.transform.xy2qs import xy2uv, uv2xy
x, y = np.array([100., 300., -280.]), np.array([50., -200., -260.])
a, b = uv2xy(*xy2uv(x, y))
assert np.allclose(a, x, atol=5e-3) and np.allclose(b, y, atol=5e-3), (a - x, b - y)
'''
