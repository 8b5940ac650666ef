property='C08'
needs='the rotation directions passed as an array of magnitudes rather than signs, used again after the call'
what_it_breaks='the angular distance overwrites the directions of the caller with their signs'
edits=[('py/desimeter/transform/pos2ptl.py',"    direction = np.ones(np.shape(u_start)) * _to_numpy(direction)\n    direction = np.sign(direction) # ensure vals are only +1, 0, or -1\n","    direction = _to_numpy(direction)\n    if np.shape(direction) != np.shape(u_start):\n        direction = np.ones(np.shape(u_start)) * direction\n    np.sign(direction, direction) # ensure vals are only +1, 0, or -1\n")]
demo='''
import numpy as np
from desimeter.transform.pos2ptl import delta_angle
d = np.array([0., 2., -3.])
delta_angle(np.array([0., 10., 20.]), np.array([50., -10., 90.]), d)
assert np.all(d == [0., 2., -3.])
'''
