property='C22'
needs='a stationary fiber displaced to the negative side and offsets whose median is not zero'
what_it_breaks='displaced fibers on the negative side are compared with the wrong limit, so they are used for the correction or good ones are dropped'
edits=[('py/desimeter/turbulence.py', "            tmask &= (c > med - 5*sd) & (c < med + 5*sd)", "            tmask &= np.abs(c) < med + 5*sd")]
demo='''
import numpy as np
from desimeter import turbulence as T
r = np.random.RandomState(3)
n = 40
x0, y0 = r.uniform(-100, 100, (2, n))
x, y = x0 + 0.05 + r.normal(0, .001, n), y0 + 0.05 + r.normal(0, .001, n)
tx, ty, good = T.correct_using_stationary(x, y, x0, y0, x0, y0, return_good=True, clip_resid=0.2)
assert good.sum() > 35, good.sum()
x[4] -= 0.095
tx, ty, good = T.correct_using_stationary(x, y, x0, y0, x0, y0, return_good=True, clip_resid=0.2)
assert good.sum() > 35 and not good[4], good
'''
