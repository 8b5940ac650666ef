property='C05'
needs='a petal with a non zero tilt or height offset and a height given by the caller'
what_it_breaks='the conversion of single positions drops the height of the caller for points closer than 1 mm to the nominal surface, while the conversion of tables keeps it'
edits=[('py/desimeter/transform/ptl2fp.py','''        zptl = rszn_lookups.r2z(radius) # estimate as approx nominal echo22
    xyzptl = np.vstack([xptl,yptl,zptl])''','''        zptl = rszn_lookups.r2z(radius) # estimate as approx nominal echo22
    elif np.all(np.abs(np.asarray(zptl)-rszn_lookups.r2z(np.hypot(xptl, yptl))) < 1.) :
        zptl = rszn_lookups.r2z(np.hypot(xptl, yptl))
    xyzptl = np.vstack([xptl,yptl,zptl])''')]
demo='''
import numpy as np
from desimeter.transform.ptl2fp import ptl2fp, fp2ptl
from desimeter.transform import rszn_lookups
x=np.array([100.,200.]); y=np.array([30.,20.]); z=rszn_lookups.r2z(np.hypot(x,y))+0.5
xf,yf,zf = ptl2fp(3,x,y,z)
x2,y2,z2 = fp2ptl(3,xf,yf,zf)
assert np.allclose(x,x2) and np.allclose(y,y2) and np.allclose(z,z2,atol=1e-6),(z,z2)
'''
