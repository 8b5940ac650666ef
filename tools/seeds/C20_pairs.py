property='C20'
needs='an image in which more than one spot is detected twice'
what_it_breaks='only one of the double detections is removed'
edits=[('py/desimeter/detectspots.py', "    for _ in range(100) :", "    for _ in range(1) :")]
demo='''
import numpy as np
import desimeter.detectspots as d
n = 80
a = np.random.RandomState(1).normal(size=(n, n))*5
i0, i1 = np.indices((n, n))
for x, y, f in ((20.5, 20.5, 30000), (50.5, 40.5, 20000), (60.2, 20.1, 40000)): a += f*d.psf(i0, i1, x, y, 1.)
conv = d.gaussian_convolve(a)
# two peaks across a corner of the pixels for each of two spots
for y, x in ((20, 20), (21, 21), (40, 50), (41, 51)): conv[y, x] += 1000
d.gaussian_convolve = lambda image, sigma=1.: conv.copy()
t = d.detectspots(a, psf_sigma=1.)
assert len(t) == 3, t
'''
