property='C15'
needs='positioners with different arm lengths and candidate pairs that are not on the diagonal'
what_it_breaks='the reach of a positioner is looked up with the row of the spot'
edits=[('py/desimeter/match_positioners.py',"zip(dmf, metrarmlen[mm])])","zip(dmf, metrarmlen[mf])])")]
demo='''
import numpy as np
from desimeter.match_positioners import match_positioners
from astropy.table import Table
n=2
metr=Table(dict(PINHOLE_ID=np.zeros(n,int),DEVICE_ID=np.array(['a','b']),X_FP=np.array([0.,10.]),Y_FP=np.zeros(n)))
calib=Table(dict(POS_ID=np.array(['a','b']),LENGTH_R1=np.array([3.,1.]),LENGTH_R2=np.array([3.,1.])))
# spots in the other order than the positioners; the one of a is 5 mm away
fvc=Table(dict(PINHOLE_ID=np.zeros(n,int),COUNTS=np.full(n,1e5),X_FP=np.array([11.,-5.]),Y_FP=np.zeros(n)))
r=match_positioners(fvc,metr,calib)
assert list(r[0])==[1,0] and r[2]==2, r
'''
