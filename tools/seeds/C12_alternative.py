property='C12'
needs='a search for alternative assignments with at least two pairs'
what_it_breaks='a pair excluded while looking for an alternative stays excluded for the next ones'
edits=[('py/desimeter/match_positioners.py',"            new_score_matrix[assignment[0][i], assignment[1][i]] = old\n","            score_matrix[assignment[0][i], assignment[1][i]] = old\n")]
demo='''
import numpy as np
from desimeter.match_positioners import match_positioners
from astropy.table import Table
n=3
metr=Table(dict(PINHOLE_ID=np.zeros(n,int),DEVICE_ID=np.array(['a','b','c']),X_FP=np.array([0.,4.,8.]),Y_FP=np.zeros(n)))
calib=Table(dict(POS_ID=np.array(['a','b','c']),LENGTH_R1=np.full(n,2.2),LENGTH_R2=np.full(n,2.2)))
# a reaches the first two spots, c the last two, b all of them
fvc=Table(dict(PINHOLE_ID=np.zeros(n,int),COUNTS=np.full(n,1e5),X_FP=np.array([2.,4.,6.]),Y_FP=np.zeros(n)))
ind,score,tot,alt=match_positioners(fvc,metr,calib,return_alternatives=True)
assert tot==3
everything=[tuple(ind)]+[tuple(a) for a in alt]
for a in everything:
    assert sorted(a)==[0,1,2], everything
# each of the three has another possible spot
for p in range(3):
    assert len(set(a.index(p) for a in everything))>1, everything
'''
