property='C06'
needs='one of the terms built from Zernike polynomial 21, none of which is fitted by default'
what_it_breaks='the normalisation constant of Zernike polynomial 21 is the one of the next order'
edits=[('py/desimeter/transform/zhaoburge.py','12, 12, 12, 12, 12, 12, 7, 14','12, 12, 12, 12, 12, 14, 7, 14')]
demo='''
import numpy as np
from desimeter.transform.zhaoburge import getZhaoBurgeTerm
r=np.sqrt((np.arange(400)+0.5)/400); t=2*np.pi*np.arange(64)/64
rr,tt=np.meshgrid(r,t); x=(rr*np.cos(tt)).ravel(); y=(rr*np.sin(tt)).ravel()
for k in range(33) :
    a,b=getZhaoBurgeTerm(k,x,y)[:2]
    n=np.mean(a*a+b*b*np.ones(x.size))
    assert abs(n-1)<1e-2,(k,n)
'''
