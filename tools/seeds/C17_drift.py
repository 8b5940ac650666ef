property='C17'
needs='a dynamic fit of a history with a sequence that has no recent rehome after one that has'
what_it_breaks='the drift of a sequence is applied to the angles of the wrong moves'
edits=[('py/desimeter/posparams/fitter.py','        sequence_id   = sequence_id[1:]\n','        sequence_id   = sequence_id[:-1]\n')]
demo='''
import numpy as np
import desimeter.posparams.fitter as f
import desimeter.transform.pos2ptl as p
n = 20
rng = np.random.RandomState(3)
t = rng.uniform(-60, 60, n); ph = rng.uniform(60, 120, n)
seq = [1]*10 + [2]*10
drift = np.where(np.array(seq) == 2, 15., 0.)
xl, yl = p.int2loc(t + drift, ph, 3., 3., 20., 5.)
x, y = p.flat2ptl(p.loc2flat(xl, 100.), p.loc2flat(yl, 200.))
L = lambda v: [float(z) for z in v]
nom = dict(f.default_values, OFFSET_X=100., OFFSET_Y=200., OFFSET_T=20., OFFSET_P=5., EPSILON_T_2=15., EPSILON_P_2=0.)
b, c, r, k = f.fit_params(L(t), L(ph), L(x), L(y), [1.]*n, [1.]*n, [s == 1 for s in seq], seq, mode='dynamic', nominals=nom)
assert r < 1e-3, (b, r)
'''
