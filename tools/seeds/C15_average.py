property='C15'
needs='three lists of spots, the last one in another order than the first'
what_it_breaks='coordinates of earlier lists are re-ordered by the rows of the latest list before they are averaged'
edits=[('py/desimeter/averagecoord.py',"                yy[i]=yy[i][indices_1]","                yy[i]=yy[i][indices_2]")]
demo='''
import numpy as np
from astropy.table import Table
from desimeter.averagecoord import average_coordinates
rng=np.random.RandomState(3)
x=rng.uniform(0,1000,30); y=rng.uniform(0,1000,30)
p=rng.permutation(30)
t=[Table(dict(XPIX=x.copy(),YPIX=y.copy())),Table(dict(XPIX=x.copy(),YPIX=y.copy())),Table(dict(XPIX=x[p],YPIX=y[p]))]
r=average_coordinates(t,"XPIX","YPIX")
assert np.allclose(r["XPIX"],x,atol=1e-3) and np.allclose(r["YPIX"],y,atol=1e-3)
'''
