property='C01'
needs='a theta guess given for internal angles, a positioner whose theta offset exceeds half the guess tolerance, and a position where both arm configurations are possible'
what_it_breaks='the guess is shifted by minus the theta offset instead of plus it, so that the other arm configuration is returned'
edits=[('py/desimeter/transform/pos2ptl.py','        t_ext_guess = int2ext(t_int_guess, t_offset)','        t_ext_guess = ext2int(t_int_guess, t_offset)')]
demo='''
import numpy as np
from desimeter.transform.pos2ptl import int2loc, loc2int
t,p,r1,r2,to,po = 30.,-15.,3.,3.1,60.,0.
x,y = int2loc(t,p,r1,r2,to,po)
t2,p2,u = loc2int(x,y,r1,r2,to,po,t_int_guess=t+1)
assert abs(t2[0]-t)<1e-6 and abs(p2[0]-p)<1e-6, (t2,p2)
'''
