property='C01'
needs='a petal of positioners whose arm lengths are given per positioner, with an offset vector for phi of length one'
what_it_breaks='the per-positioner first arm lengths are replaced by the first one when the phi offset is common to all'
edits=[('py/desimeter/transform/pos2ptl.py','    r1 = _extend_list(r1, n)\n','    r1 = _extend_list(r1, len(p_offset)) if len(r1) != len(p_offset) else r1\n    r1 = _extend_list(r1, n)\n')]
demo='''
import numpy as np
from desimeter.transform.pos2ptl import ext2loc, loc2ext
t=np.array([10.,40.]); p=np.array([50.,70.]); r1=np.array([3.,3.2]); r2=np.array([3.,3.])
x,y=ext2loc(t,p,r1,r2)
t2,p2,u=loc2ext(x,y,r1,r2,0.,0.)
assert np.allclose(t,t2,atol=1e-6) and np.allclose(p,p2,atol=1e-6),(t2,p2)
'''
