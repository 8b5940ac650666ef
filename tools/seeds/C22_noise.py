property='C22'
needs='turbulence estimated at the measured fibers themselves with fitted parameters whose noise and amplitude differ'
what_it_breaks='the estimate weighs the offsets with the amplitude of the turbulence instead of the measurement noise'
edits=[('py/desimeter/turbulence.py', "            cninv = np.eye(len(data))*res.x[0]**(-2)\n", "            cninv = np.eye(len(data))*res.x[1]**(-2)\n")]
demo='''
import numpy as np
from desimeter import turbulence as T
r = np.random.RandomState(2)
n = 30
d = np.zeros(n, dtype=[(k, 'f8') for k in ('x', 'y', 'dx', 'dy')])
d['x'], d['y'] = r.uniform(-50, 50, (2, n))
d['dx'] = 0.02*np.sin(d['x']/30) + r.normal(0, .003, n)
d['dy'] = 0.02*np.cos(d['y']/30) + r.normal(0, .003, n)
x, y, res = T.solve_independent(d, nuse=0)
s, a, l = res.x
K = a**2*np.exp(-((d['x'][:, None]-d['x'])**2+(d['y'][:, None]-d['y'])**2)/2/l**2)
w = K @ np.linalg.inv(K + s**2*np.eye(n))
assert np.allclose(x, w @ d['dx'], atol=1e-5) and np.allclose(y, w @ d['dy'], atol=1e-5), (s, a, abs(x - w @ d['dx']).max())
'''
