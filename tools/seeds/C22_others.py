property='C22'
needs='a wavefront model with each fiber predicted from the others: two components per fiber'
what_it_breaks='the returned components in x and y of a fiber are interleaved instead of following one another'
edits=[('py/desimeter/turbulence.py', "        turb = dvec - kinv.dot(dvec)/np.diag(kinv)\n        xturb, yturb = turb[:len(data)], turb[len(data):]", "        turb = dvec - kinv.dot(dvec)/np.diag(kinv)\n        xturb, yturb = turb.reshape(len(data), 2).T")]
demo='''
import numpy as np
from desimeter import turbulence as T
r = np.random.RandomState(5)
n = 12
d = np.zeros(n, dtype=[(k, 'f8') for k in ('x', 'y', 'dx', 'dy')])
d['x'], d['y'] = r.uniform(-50, 50, (2, n))
d['dx'], d['dy'] = r.normal(0, .01, (2, n))
x, y, res = T.solve_gradwavefront(d, excludeself=True, fix_covar=True)
K = np.linalg.inv(np.array(T.make_covar_gradwavefront(d, res.x), dtype=float))
v = np.concatenate([d['dx'], d['dy']])
t = v - K @ v/np.diag(K)
assert np.allclose(x, t[:n], atol=1e-6) and np.allclose(y, t[n:], atol=1e-6), (x, t[:n])
'''
