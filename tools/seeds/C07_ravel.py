property='C07'
needs='a ray trace fit with several ADC configurations that is written and read again (the package only ever reads the installed one)'
what_it_breaks='the coefficients are written term by term but read configuration by configuration'
edits=[('py/desimeter/transform/tan2fp/raytracefit.py',"list(self.zbcoeffs.ravel())","list(self.zbcoeffs.ravel(order='F'))")]
demo='''
import numpy as np
from desimeter.transform.tan2fp.raytracefit import TAN2FP_RayTraceFit
t = TAN2FP_RayTraceFit()
t.adc1=np.array([0.,30.]); t.adc2=t.adc1*1.; t.scale=np.ones(2); t.rotation=np.zeros(2); t.offset_x=np.zeros(2); t.offset_y=np.zeros(2)
t.zbpolids=np.array([2,5,6]); t.zbcoeffs=np.arange(6.).reshape((2,3))
u = TAN2FP_RayTraceFit.fromjson(t.tojson())
assert np.all(u.zbcoeffs==t.zbcoeffs)
'''
