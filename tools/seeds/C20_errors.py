property='C20'
needs='two detections of one spot of which the second is the fainter'
what_it_breaks='errors along y are those of other spots from there on'
edits=[('py/desimeter/detectspots.py', "            yerr = np.delete(yerr,index_to_remove)", "            yerr = np.delete(yerr,bad)")]
demo='''
import numpy as np
import desimeter.detectspots as d
n = 80
a = np.random.RandomState(1).normal(size=(n, n))*5
i0, i1 = np.indices((n, n))
for x, y, f in ((20.5, 20.5, 30000), (60.2, 40.1, 40000)): a += f*d.psf(i0, i1, x, y, 1.)
conv = d.gaussian_convolve(a)
for y, x in ((20, 20), (21, 21)): conv[y, x] += 1000
d.gaussian_convolve = lambda image, sigma=1.: conv.copy()
calls = []
def fit(stamp, noise=10.):
    k = len(calls)
    calls.append(k)
    return [(.5, .5, .1, .2, 30000.), (-.5, -.5, .3, .4, 20000.), (.2, .1, .5, .6, 40000.)][k]
d.fitcentroid = fit
t = d.detectspots(a, psf_sigma=1.)
assert list(t['XERR']) == [.1, .5] and list(t['YERR']) == [.2, .6], t
'''
