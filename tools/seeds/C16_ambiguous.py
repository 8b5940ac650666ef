property='C16'
needs='a fiducial with two spots on the same pinhole, and a positioner expected near one of them'
what_it_breaks='a spot that belongs to a fiducial, with an ambiguous pinhole, is given the identity of the positioner'
edits=[('py/desimeter/processfvc.py','        selection  = (spots["LOCATION"]==-1)\n','        selection  = (spots["PINHOLE_ID"]==0)\n')]
demo='''
import os, tempfile
import numpy as np
from astropy.table import Table
import desimeter.processfvc as p
from desimeter.io import load_metrology, fvc2fp_filename
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.log import get_logger
m = load_metrology(); tx = FVC2FP.read_jsonfile(fvc2fp_filename())
fid = m[(m['DEVICE_TYPE']=='FIF')|(m['DEVICE_TYPE']=='GIF')]
fid = fid[(fid['PINHOLE_ID']>0)&(fid['PINHOLE_ID']<5)]
x, y = tx.fp2fvc(np.array(fid['X_FP']), np.array(fid['Y_FP']))
loc, pin = np.array(fid['LOCATION']), np.array(fid['PINHOLE_ID'])
k = np.where(pin == 2)[0][5]
def find(spots, **kw):
    spots['LOCATION'] = loc; spots['PINHOLE_ID'] = np.where(np.arange(len(loc)) == k, 0, pin)
    spots['PETAL_LOC'] = loc//1000; spots['DEVICE_LOC'] = loc % 1000
    return spots
p.findfiducials = find
d = tempfile.mkdtemp()
Table(dict(XPIX=x, YPIX=y)).write(d+'/in.csv')
Table(dict(LOCATION=[3100], PETAL_LOC=[3], DEVICE_LOC=[100], X_FP=[fid['X_FP'][k]+1], Y_FP=[fid['Y_FP'][k]])).write(d+'/exp.csv')
a = p.get_parser().parse_args(['-i', d+'/in.csv', '-o', d+'/out.csv', '--expected-positions', d+'/exp.csv'])
assert p.fvc_proc(a, get_logger()) == 0
o = Table.read(d+'/out.csv')
for f in os.listdir(d): os.remove(os.path.join(d, f))
os.rmdir(d)
assert np.all(np.array(o['LOCATION']) == loc), (o['LOCATION'][k], loc[k])
'''
