property='C12'
needs='three or more objects of the first list with the same nearest object in the second'
what_it_breaks='only one of the losers is unmatched, two objects share a partner'
edits=[('py/desimeter/match.py',"                    indices_2[jj[kk[1:]]] = -1","                    indices_2[jj[kk[1]]] = -1")]
demo='''
import numpy as np
from desimeter.match import match_same_system
x1=np.array([0.,0.5,0.2,10.]); y1=np.zeros(4)
x2=np.array([0.1,10.2]); y2=np.zeros(2)
idx,d=match_same_system(x1,y1,x2,y2)
ok=idx[idx>=0]
assert len(set(ok))==len(ok), idx
assert np.all(np.isinf(d[idx<0]))
assert idx[3]==1 and np.sum(idx==0)==1
'''
