property='C09'
needs='one transform object fitted twice, the second time with a fit that keeps the distortion'
what_it_breaks='the quality figures of a fit without distortion terms remain those of the previous fit'
edits=[('py/desimeter/transform/fvc2fp.py',"        self.meandistance = 1000*np.mean(dr)\n        self.mediandistance = 1000*np.median(dr)\n        self.rmsdistance = 1000*np.sqrt(np.mean(dr**2))\n","        if zbfit or not hasattr(self, 'meandistance'):\n            self.meandistance = 1000*np.mean(dr)\n            self.mediandistance = 1000*np.median(dr)\n            self.rmsdistance = 1000*np.sqrt(np.mean(dr**2))\n")]
demo='''
import numpy as np
from astropy.table import Table
from desimeter.io import load_metrology
from desimeter.transform.fvc2fp import FVC2FP
m = load_metrology()
m = m[(m['DEVICE_TYPE'] == 'FIF') | (m['DEVICE_TYPE'] == 'GIF')]
t = FVC2FP()
s = Table(); s['LOCATION'] = m['LOCATION']; s['PINHOLE_ID'] = m['PINHOLE_ID']
s['XPIX'], s['YPIX'] = t.fp2fvc(np.array(m['X_FP']), np.array(m['Y_FP']))
t.fit(s)
s['XPIX'] = s['XPIX'] + 5*np.sin(np.arange(len(s)))
t.fit(s, zbfit=False)
u = FVC2FP(); u.fit(s, zbfit=False)
v = FVC2FP(); 
r = t.rmsdistance
t2 = FVC2FP.fromjson(t.tojson())
x, y = t2.fvc2fp(np.array(s['XPIX']), np.array(s['YPIX']))
d = 1000*np.sqrt(np.mean((x-m['X_FP'])**2+(y-m['Y_FP'])**2))
assert abs(d-r) < 1e-3*d, (d, r)
'''
