property='C07'
needs='a fit which matched the fiducials exactly, so that one of the distances is zero, or matched none'
what_it_breaks='results that are zero are not written'
edits=[('py/desimeter/transform/fvc2fp.py',"            if val is not None:","            if val:")]
demo='''
from desimeter.transform.fvc2fp import FVC2FP
t = FVC2FP()
t.scale,t.rotation,t.offset_x,t.offset_y = 1.,0.,0.,0.
t.nmatch = 0; t.meandistance = 3.; t.mediandistance = 2.; t.rmsdistance = 4.
u = FVC2FP.fromjson(t.tojson())
assert u.nmatch == 0 and u.meandistance == 3.
'''
