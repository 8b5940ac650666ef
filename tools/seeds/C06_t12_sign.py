property='C06'
needs='a distortion using term 31 (T12), which is not among the terms fitted by default'
what_it_breaks='the y component of T12 uses the difference of two Zernike polynomials instead of minus their sum, so the term is not divergence free'
edits=[('py/desimeter/transform/zhaoburge.py',"-0.5*getZ(8,x,y)-0.5*getZ(10,x,y), 'T12'","-0.5*getZ(8,x,y)+0.5*getZ(10,x,y), 'T12'")]
demo='''
import numpy as np
from desimeter.transform.zhaoburge import getZhaoBurgeTerm
rng=np.random.default_rng(1)
x=rng.uniform(-0.6,0.6,50); y=rng.uniform(-0.6,0.6,50); e=1e-5
for k in range(27,33) :
    f=lambda x,y: getZhaoBurgeTerm(k,x,y)[:2]
    div=(f(x+e,y)[0]-f(x-e,y)[0]+f(x,y+e)[1]-f(x,y-e)[1])/(2*e)
    assert np.all(np.abs(div)<1e-6),k
'''
