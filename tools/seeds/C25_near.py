property='C25'
needs='two angles that differ by a fraction of a degree from whole revolutions, and the opposite direction'
what_it_breaks='a travel close to whole revolutions is taken for exactly whole revolutions, so it ends at another angle'
edits=[('py/desimeter/transform/pos2ptl.py', "    exact_circle = natural_delta % 360 == 0\n", "    exact_circle = np.rint(natural_delta) % 360 == 0\n")]
demo='''
from desimeter.transform.pos2ptl import delta_angle
for a, b, d, w in ((0., 359.75, -1, -0.25), (10., 9.75, 1, 359.75), (0., 360., -1, -360)):
    assert abs(delta_angle([a], [b], d)[0] - w) < 1e-9, (a, b, d, delta_angle([a], [b], d))
'''
