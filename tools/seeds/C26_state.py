property='C26'
needs='a sequence of images processed with the scale or rotation kept fixed'
what_it_breaks='the transform fitted to one image of a sequence is the start of the next, so that fixed parameters drift from the default'
edits=[('py/desimeter/processfvc.py', "    for seqid,spots in enumerate(spots_list) :\n", "    tx = FVC2FP.read_jsonfile(fvc2fp_filename())\n    for seqid,spots in enumerate(spots_list) :\n"), ('py/desimeter/processfvc.py', "        tx = FVC2FP.read_jsonfile(fvc2fp_filename())\n\n        if args.use_spotmatch", "        if args.use_spotmatch")]
demo='''
import os, tempfile
import numpy as np, fitsio
import desimeter.processfvc as P
from desimeter.log import get_logger
from astropy.table import Table
d = tempfile.mkdtemp()
f = os.path.join(d, 'seq.fits')
with fitsio.FITS(f, 'rw') as fx:
    fx.write(None)
    for n in ('F0000', 'F0001'):
        fx.write(np.full((8, 8), 1100., 'f4'), extname=n)
n = 4
P.detectspots = lambda im, **k: Table(dict(XPIX=np.arange(4.), YPIX=np.arange(4.)))
def find(spots, **k):
    spots['LOCATION'] = [541, 542, 543, -1]
    spots['PINHOLE_ID'] = [4, 4, 4, 0]
    return spots
P.findfiducials = find
class Tx:
    @classmethod
    def read_jsonfile(cls, f):
        t = cls()
        t.seen = 0
        return t
    def fit(self, spots, **k):
        assert self.seen == 0, 'transform of the image before'
        self.seen += 1
        spots['X_FP'] = np.arange(4.)
        spots['Y_FP'] = np.arange(4.)
P.FVC2FP = Tx
P.get_expected_pos = lambda a, l: Table(dict(X_FP=[3.], Y_FP=[3.], LOCATION=[5001]))
a = P.get_parser().parse_args(['-i', f, '-o', os.path.join(d, 'o.csv'), '--sequence', '--no-bias'])
assert P.fvc_proc(a, get_logger()) == 0
'''
