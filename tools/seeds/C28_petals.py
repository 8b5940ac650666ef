property = 'C28'
needs = 'guide stars on a petal without metrology followed by others'
what_it_breaks = 'stars of the petals after one without metrology are dropped'
edits = [('py/desimeter/fieldmodel.py', '                log.warning("missing metrology")', '                log.warning("missing metrology")\n                break')]
demo = 'import os, tempfile, shutil, atexit, numpy as np\nfrom astropy.table import Table\nfrom desimeter.fieldmodel import FieldModel\nd = tempfile.mkdtemp()\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\n\nimport desimeter.fieldmodel as m\ndef gfa2fp(p, x, y):\n    if p == 2:\n        raise KeyError(p)\n    return x + 100. * (p + 1), y - 100. * (p + 1)\nm.gfa2fp = gfa2fp\np = np.array([0, 2, 3, 2, 5])\nx, y = FieldModel().all_gfa2fp(np.arange(5.), np.arange(5.), p)\nw = np.where(p == 2, 0., np.arange(5.) + 100. * (p + 1))\nassert np.all(x == w), (x, w)\n'
