property='C26'
needs='a sequence of images in one file and a bias image'
what_it_breaks='the bias image is subtracted from the first image of a sequence only'
edits=[('py/desimeter/processfvc.py', "                if args.bias is not None :\n                    image -= args.bias\n", "                if args.bias is not None and not spots_list :\n                    image -= args.bias\n")]
demo='''
import os, tempfile
import numpy as np, fitsio
import desimeter.processfvc as P
from desimeter.log import get_logger
from astropy.table import Table
d = tempfile.mkdtemp()
f = os.path.join(d, 'seq.fits')
with fitsio.FITS(f, 'rw') as fx:
    fx.write(None)
    for n in ('F0000', 'F0001'):
        fx.write(np.full((8, 8), 1100., 'f4'), extname=n)
b = os.path.join(d, 'b.fits')
fitsio.write(b, np.full((8, 8), 1000., 'f4'))
seen = []
P.detectspots = lambda im, **k: seen.append(im.mean()) or Table(dict(XPIX=[1.], YPIX=[2.]))
a = P.get_parser().parse_args(['-i', f, '-o', os.path.join(d, 'o.csv'), '--sequence', '--nomatch', '--bias', b])
assert P.fvc_proc(a, get_logger()) == 0
assert seen == [100., 100.], seen
'''
