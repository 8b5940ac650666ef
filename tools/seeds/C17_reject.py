property='C17'
needs='a fit with measurement errors that differ between points, in which an outlier is rejected'
what_it_breaks='the errors of the remaining points are shifted with respect to the points'
edits=[('py/desimeter/posparams/fitter.py','        xerr_flat = np.delete(xerr_flat,worst)\n        yerr_flat = np.delete(yerr_flat,worst)\n','        xerr_flat = xerr_flat[:-1]\n        yerr_flat = yerr_flat[:-1]\n')]
demo='''
import numpy as np
import desimeter.posparams.fitter as f
import desimeter.transform.pos2ptl as p
n = 30
rng = np.random.RandomState(3)
t = rng.uniform(-170, 170, n); ph = rng.uniform(20, 160, n)
xl, yl = p.int2loc(t, ph, 3., 3., 20., 5.)
err = np.where(np.arange(n) % 2, .3, .0005)
xl = xl + err*rng.choice([-1, 1], n)*.5; yl = yl + err*rng.choice([-1, 1], n)*.5
xl[4] += 1.5
x, y = p.flat2ptl(p.loc2flat(xl, 100.), p.loc2flat(yl, 200.))
L = lambda v: [float(z) for z in v]
nom = dict(f.default_values, OFFSET_X=100., OFFSET_Y=200., OFFSET_T=20., OFFSET_P=5.)
k = [i for i in range(n) if i != 4]
def fit(i, **kw):
    a = [L(np.array(v)[i]) for v in (t, ph, x, y)] + [[1.]*len(i)]*2 + [[True]*len(i), [0]*len(i)]
    return f.fit_params(*a, nominals=nom, ptlXerr=L(err[i]), ptlYerr=L(err[i]), **kw)
seen = []
def stub(fun, x0, bounds):
    import types
    seen.append(fun(np.array(x0) + .01))
    return types.SimpleNamespace(x=np.array(x0), hess_inv=np.eye(len(x0)))
f.scipy.optimize.minimize = stub
fit(list(range(n)), outlier_rejection=True)
fit(k)
assert len(seen) >= 3 and np.isclose(seen[1], seen[-1], rtol=1e-6), seen
'''
