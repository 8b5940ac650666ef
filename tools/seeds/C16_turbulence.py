property='C16'
needs='a turbulence correction of an image with some fiducials, which have no expected position at that point'
what_it_breaks='the positions of the fiducials are replaced by a correction computed against expected position 0,0'
edits=[('py/desimeter/processfvc.py','            selection=(spots["LOCATION"]>=0)&(spots["X_FP_EXP"]!=0)&(spots["Y_FP_EXP"]!=0) # matched\n','            selection=(spots["LOCATION"]>=0) # matched\n')]
demo='''
import os, tempfile
import numpy as np
from astropy.table import Table
import desimeter.processfvc as p
from desimeter.io import load_metrology, fvc2fp_filename
from desimeter.transform.fvc2fp import FVC2FP
from desimeter.log import get_logger
m = load_metrology(); tx = FVC2FP.read_jsonfile(fvc2fp_filename())
fid = m[(m['DEVICE_TYPE']=='FIF')|(m['DEVICE_TYPE']=='GIF')]
fid = fid[(fid['PINHOLE_ID']>0)&(fid['PINHOLE_ID']<5)]
pos = m[m['DEVICE_TYPE']=='POS'][:200]
nf = len(fid)
x, y = tx.fp2fvc(np.append(fid['X_FP'], pos['X_FP']), np.append(fid['Y_FP'], pos['Y_FP']))
def find(spots, **kw):
    loc = np.append(fid['LOCATION'], -np.ones(len(pos), dtype=int)).astype(int)
    spots['LOCATION'] = loc
    spots['PINHOLE_ID'] = np.append(fid['PINHOLE_ID'], np.zeros(len(pos), dtype=int)).astype(int)
    spots['PETAL_LOC'] = np.where(loc < 0, -1, loc//1000); spots['DEVICE_LOC'] = np.where(loc < 0, -1, loc % 1000)
    return spots
p.findfiducials = find
p.correct = p.correct_with_pol = lambda x, y, xe, ye, *a, **k: (np.array(xe), np.array(ye))
d = tempfile.mkdtemp()
Table(dict(XPIX=x, YPIX=y)).write(d+'/in.csv')
Table(dict(LOCATION=np.array(pos['LOCATION']), PETAL_LOC=np.array(pos['LOCATION'])//1000, DEVICE_LOC=np.array(pos['LOCATION'])%1000, X_FP=np.array(pos['X_FP']), Y_FP=np.array(pos['Y_FP']))).write(d+'/exp.csv')
a = p.get_parser().parse_args(['-i', d+'/in.csv', '-o', d+'/out.csv', '--expected-positions', d+'/exp.csv', '--turbulence-correction'])
assert p.fvc_proc(a, get_logger()) == 0
o = Table.read(d+'/out.csv')
for f in os.listdir(d): os.remove(os.path.join(d, f))
os.rmdir(d)
r = np.hypot(o['X_FP'][:nf]-np.array(fid['X_FP']), o['Y_FP'][:nf]-np.array(fid['Y_FP']))
assert r.max() < 0.1, r.max()
'''
