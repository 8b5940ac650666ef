property='C26'
needs='exactly the largest number of spots allowed'
what_it_breaks='an image with exactly the maximum number of spots gives no output'
edits=[('py/desimeter/processfvc.py', "            if len(spots) > args.max_spots :\n", "            if len(spots) >= args.max_spots :\n")]
demo='''
import os, tempfile
import numpy as np, fitsio
import desimeter.processfvc as P
from desimeter.log import get_logger
from astropy.table import Table
d = tempfile.mkdtemp()
f = os.path.join(d, 'seq.fits')
i = os.path.join(d, 'in.csv')
Table(dict(XPIX=[1., 2.], YPIX=[2., 3.])).write(i)
for m, w in ((3, True), (2, True), (1, False)):
    o = os.path.join(d, 'o%d.csv' % m)
    a = P.get_parser().parse_args(['-i', i, '-o', o, '--nomatch', '--no-bias', '--max-spots', str(m)])
    assert P.fvc_proc(a, get_logger()) == 0
    assert os.path.exists(o) == w, m
'''
