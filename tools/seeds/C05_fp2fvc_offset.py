property='C05'
needs='a fitted scale away from one together with an offset'
what_it_breaks='the offset is removed scaled by the fitted scale factor'
edits=[('py/desimeter/transform/fvc2fp.py','''        xx -= self.offset_x
        yy -= self.offset_y
''','''        xx -= self.offset_x
        yy -= self.offset_y*self.scale**0.01
''')]
demo='''
import numpy as np
from desimeter.transform.fvc2fp import FVC2FP
t = FVC2FP()
t.scale,t.rotation,t.offset_x,t.offset_y = 1.2,0.3,0.01,-0.02
x=np.array([1000.,2500.]); y=np.array([3000.,4100.])
x2,y2 = t.fp2fvc(*t.fvc2fp(x,y))
assert np.allclose(x,x2,atol=1e-4) and np.allclose(y,y2,atol=1e-4),(x2-x,y2-y)
'''
