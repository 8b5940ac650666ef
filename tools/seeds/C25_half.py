property='C25'
needs='angles an odd number of half turns apart, more than one turn, with the opposite direction'
what_it_breaks='the travel the opposite way keeps the number of half turns, so that it is longer than a revolution'
edits=[('py/desimeter/transform/pos2ptl.py', "    exact_circle = natural_delta % 360 == 0\n", "    exact_circle = natural_delta % 180 == 0\n")]
demo='''
from desimeter.transform.pos2ptl import delta_angle
for a, b, d, w in ((0., 540., -1, -180.), (0., 180., -1, -180.), (0., 720., -1, -720)):
    assert abs(delta_angle([a], [b], d)[0] - w) < 1e-9, (a, b, d, delta_angle([a], [b], d))
'''
