property='C11'
needs='two coordinate lists where two objects of the first list have the same nearest neighbour, so that the duplicates branch runs'
what_it_breaks='the duplicates branch of the triangle matching uses the message helper with a name that is not defined there'
edits=[('py/desimeter/match.py','''            log.warning("{} duplicates for i2={}".format(np.sum(ii),i2))''','''            logger.warning("{} duplicates for i2={}".format(np.sum(ii),i2))''')]
demo='''
import ast, numpy as np
import desimeter.match as m
class Tree :
    def __init__(self,a): self.n=len(a)
    def query(self,b,k=1):
        # all the triangles of the first list point to the same triangle of the second one
        return np.arange(len(b))*1., np.zeros(len(b),dtype=int)
m.KDTree = Tree
rng=np.random.default_rng(0)
x=rng.uniform(0,1,6); y=rng.uniform(0,1,6)
i,d = m.match_arbitrary_translation_dilatation(x,y,x,y)
'''
