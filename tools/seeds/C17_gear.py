property='C17'
needs='a dynamic fit of a history during which the gear calibration changed'
what_it_breaks='the commanded rotations are divided by the gear calibration of the previous move'
edits=[('py/desimeter/posparams/fitter.py','        dt_int /= gearT[1:]\n','        dt_int /= gearT[:-1]\n')]
demo='''
import numpy as np
import desimeter.posparams.fitter as f
import desimeter.transform.pos2ptl as p
n, g = 24, 0.8
rng = np.random.RandomState(1)
gear = [1.0]*12 + [0.5]*12
dt = rng.uniform(-40, 40, n-1)
t = np.concatenate([[0.], np.cumsum(dt)])
ph = rng.uniform(100, 140, n)
# where the positioner really goes: measured angles move by g times the command before calibration
nom = dict(f.default_values)
true = [0.]
x, y = [], []
for i in range(n):
    if i: true.append(true[-1] + g*dt[i-1]/gear[i])
a = np.array(true)
xl, yl = p.int2loc(a, ph, nom['LENGTH_R1'], nom['LENGTH_R2'], 0., 0.)
xp, yp = p.flat2ptl(p.loc2flat(xl, 0.), p.loc2flat(yl, 0.))
b, c, r, k = f.fit_params(list(t), list(ph), list(xp), list(yp), gear, [1.]*n, [True]*n, [0]*n, mode='dynamic', nominals=nom)
assert abs(b['SCALE_T'] - g) < 1e-3 and r < 1e-3, (b, r)
'''
