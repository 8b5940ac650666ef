property = 'C28'
needs = 'a field east of the meridian with a right ascension above and a sidereal time below zero hours, or the reverse'
what_it_breaks = 'the hour angle is not brought to one turn: the rate saturates for differences of more than 180 degrees'
edits = [('py/desimeter/fieldmodel.py', '    ha = ha%360.\n', '    ha = np.array(ha,dtype=float)\n')]
demo = 'import os, tempfile, shutil, atexit, numpy as np\nfrom astropy.table import Table\nfrom desimeter.fieldmodel import FieldModel\nd = tempfile.mkdtemp()\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\n\nfrom desimeter.fieldmodel import dfieldrotdt\nfor ra, lst in ((350., 10.), (300., 20.)):\n    a, b = dfieldrotdt(ra, 31., 58900., lst), dfieldrotdt(ra - 360., 31., 58900., lst)\n    assert abs(a - b) < 1e-9, (a, b)\n'
