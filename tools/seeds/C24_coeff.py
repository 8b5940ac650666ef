property='C24'
needs='radii between about 200 and 380 mm, compared at the micron level'
what_it_breaks='a digit of a coefficient of the radius polynomial is wrong: positions are off by some microns at intermediate radii only'
edits=[('py/desimeter/transform/xy2qs.py', "-2.60833797e-03,  6.40671681e-03,", "-2.60833797e-03,  6.44671681e-03,")]
demo='''
import numpy as np
from desimeter.transform.xy2qs import r2s, s2r
r = np.linspace(25, 414, 500)
assert abs(s2r(r2s(r)) - r).max() < 1e-3, abs(s2r(r2s(r)) - r).max()
'''
