property = 'C28'
needs = 'a model with the aberration switched off'
what_it_breaks = 'the fit of the pointing includes the aberration although the model has it switched off'
edits = [('py/desimeter/fieldmodel.py', 'precession = self.precession, aberration = self.aberration, polar_misalignment = self.polar_misalignment)\n\n            # now', 'precession = self.precession, polar_misalignment = self.polar_misalignment)\n\n            # now')]
demo = 'import os, tempfile, shutil, atexit, numpy as np\nfrom astropy.table import Table\nfrom desimeter.fieldmodel import FieldModel\nd = tempfile.mkdtemp()\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\n\nfm = FieldModel()\nfm.ra, fm.dec, fm.mjd, fm.lst, fm.hexrot_deg, fm.adc1, fm.adc2 = 40., 20., 58900., 45., 0., 0., 0.\nfm.aberration = False\nfrom desimeter.transform.gfa2fp import gfa2fp\nP, X, Y, RA, DEC = [], [], [], [], []\nfor p in (0, 2, 3, 5, 7, 8):\n    for x, y in ((300., 200.), (1500., 800.)):\n        a, b = gfa2fp(p, np.array([x]), np.array([y]))\n        r, e = fm.fp2radec(a, b)\n        P.append(p), X.append(x), Y.append(y), RA.append(r[0]), DEC.append(e[0])\nt = Table(dict(petal_loc=P, xcentroid=X, ycentroid=Y, ra_gaia=RA, dec_gaia=DEC))\nfm.fit_tancorr(t)\nassert abs(fm.ra - 40.) * 3600 < 0.5 and abs(fm.dec - 20.) * 3600 < 0.5, (fm.ra, fm.dec)\nassert abs(fm.sxx - 1) < 1e-5 and abs(fm.syy - 1) < 1e-5, (fm.sxx, fm.syy, fm.sxy)\n'
