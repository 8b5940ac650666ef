property='C02'
needs='unequal arms and a target inside the inner hole of the annulus'
what_it_breaks='targets inside the inner hole are no longer flagged because the comparison is made after the distance was moved onto the annulus'
edits=[('py/desimeter/transform/xy2tp.py','''    if hypot > outer or hypot < inner:
        unreachable = True
    inner += numeric_contraction
    outer -= numeric_contraction
    HYPOT = hypot
    if hypot >= outer:
        HYPOT = outer
    elif hypot <= inner:
        HYPOT = inner
''','''    contracted_inner = inner + numeric_contraction
    contracted_outer = outer - numeric_contraction
    HYPOT = hypot
    if hypot >= contracted_outer:
        HYPOT = contracted_outer
    elif hypot <= contracted_inner:
        HYPOT = contracted_inner
    if hypot > outer or HYPOT < inner:
        unreachable = True
''')]
demo='''
from desimeter.transform.xy2tp import xy2tp
tp,u = xy2tp([0.1,0.05],[3.,2.5],[[-180.,180.],[0.,180.]])
assert u
tp,u = xy2tp([3.1,1.05],[3.,2.5],[[-180.,180.],[0.,180.]])
assert not u
'''
