property='C07'
needs='a camera model whose vertical pixel offset differs from the default'
what_it_breaks='the vertical pixel offset is written but not read back'
edits=[('py/desimeter/transform/fvc2fp.py',"add_fields = ['xfvc_scale', 'yfvc_scale', 'xfvc_offset', 'yfvc_offset',","add_fields = ['xfvc_scale', 'yfvc_scale', 'xfvc_offset',")]
demo='''
from desimeter.transform.fvc2fp import FVC2FP
t = FVC2FP()
t.yfvc_offset = 2990.
u = FVC2FP.fromjson(t.tojson())
assert u.yfvc_offset == 2990.
'''
