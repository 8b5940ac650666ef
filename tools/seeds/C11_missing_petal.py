property='C11'
needs='guide stars on a petal whose camera has no metrology'
what_it_breaks='the branch which skips such a petal refers to a name that does not exist, so the whole fit fails'
edits=[('py/desimeter/fieldmodel.py','log.warning("missing metrology")','log.warning("missing metrology of petal {}".format(petal_id))')]
demo='''
import numpy as np
from desimeter.fieldmodel import FieldModel
x,y = FieldModel().all_gfa2fp(np.array([100.,200.]),np.array([300.,400.]),np.array([99,2]))
assert x[0]==0 and x[1]!=0
'''
