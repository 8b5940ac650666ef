property='C12'
needs='two pairs of triangles without a common object that claim the same partner'
what_it_breaks='two objects keep the same partner'
edits=[('py/desimeter/match.py',"        if np.sum(ii) > 1 :","        if np.sum(ii) > 2 :")]
demo='''
import numpy as np
from unittest import mock
import desimeter.match as m
tri=[np.array([[0,1,2],[0,1,3],[0,2,3],[1,2,3]]),np.array([[0,1,2]])]
class Tree(object):
    def __init__(self, data): pass
    def query(self, x, k=1):
        return np.array([0.1,0.2,0.3,0.4]), np.array([0,0,0,0])
calls=[]
def triangles(x,y):
    calls.append(1)
    return tri[len(calls)-1],np.zeros((len(tri[len(calls)-1]),3))
with mock.patch.object(m,'compute_triangles_with_fixed_orientation',triangles), mock.patch.object(m,'KDTree',Tree):
    idx,d=m.match_arbitrary_translation_dilatation(np.arange(4.),np.arange(4.)**2,np.arange(3.),np.arange(3.)**2)
ok=idx[idx>=0]
assert len(set(ok))==len(ok), idx
'''
