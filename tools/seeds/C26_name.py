property='C26'
needs='a sequence of more than one image'
what_it_breaks='the names of the output files of a sequence accumulate the names of the earlier images'
edits=[('py/desimeter/processfvc.py', "        outfile = args.outfile\n        if args.sequence:\n", "        outfile = args.outfile if seqid == 0 else outfile\n        if args.sequence:\n")]
demo='''
import os, tempfile
import numpy as np, fitsio
import desimeter.processfvc as P
from desimeter.log import get_logger
from astropy.table import Table
d = tempfile.mkdtemp()
f = os.path.join(d, 'seq.fits')
with fitsio.FITS(f, 'rw') as fx:
    fx.write(None)
    for n in ('F0000', 'F0001'):
        fx.write(np.full((8, 8), 1100., 'f4'), extname=n)
P.detectspots = lambda im, **k: Table(dict(XPIX=[1.], YPIX=[2.]))
a = P.get_parser().parse_args(['-i', f, '-o', os.path.join(d, 'o.csv'), '--sequence', '--nomatch', '--no-bias'])
assert P.fvc_proc(a, get_logger()) == 0
got = sorted(x.lower() for x in os.listdir(d) if x.endswith('.csv'))
assert got == ['o-f0000.csv', 'o-f0001.csv'], got
'''
