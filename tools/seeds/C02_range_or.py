property='C02'
needs='a travel range which forces the theta angle (but not the phi angle) to be clamped'
what_it_breaks='the flag of the first angle is overwritten by the one of the second, so a clamped theta is reported as reachable'
edits=[('py/desimeter/transform/xy2tp.py','''        unreachable |= range_fail
    return TP, unreachable''','''        unreachable = range_fail
    return TP, unreachable''')]
demo='''
from desimeter.transform.xy2tp import xy2tp, tp2xy
xy = tp2xy([170.,60.],[3.,3.])
tp,u = xy2tp(xy,[3.,3.],[[-90.,90.],[0.,180.]])
x,y = tp2xy(tp,[3.,3.])
ok = abs(x-xy[0])<1e-6 and abs(y-xy[1])<1e-6
assert ok != u,(tp,u)
'''
