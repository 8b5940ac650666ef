property = 'C28'
needs = 'a star with a large proper motion in right ascension far from the equator'
what_it_breaks = 'the proper motion in right ascension is not divided by the cosine of the declination'
edits = [('py/desimeter/fieldmodel.py', "* pmra / 3600e3 / cosd(catalog['dec_gaia'])", '* pmra / 3600e3')]
demo = 'import os, tempfile, shutil, atexit, numpy as np\nfrom astropy.table import Table\nfrom desimeter.fieldmodel import FieldModel\nd = tempfile.mkdtemp()\natexit.register(lambda: shutil.rmtree(d, ignore_errors=True))\n\nt = Table()\nt["xcentroid"] = [1., 2.]\nt["ycentroid"] = [1., 2.]\nt["ra_gaia"] = [10., 20.]\nt["dec_gaia"] = [75., 0.]\nt["pmra"] = [300., 300.]\nt["pmdec"] = [0., 0.]\nt["ref_epoch"] = [2015.5, 2015.5]\nyears = 5.\nt["ra"] = t["ra_gaia"] + years * 0.3 / 3600. / np.cos(np.deg2rad(t["dec_gaia"]))\nt["dec"] = t["dec_gaia"]\nt["mjd_obs"] = np.repeat(51544.5 + 20.5 * 365.25, 2)\nt.write(d + "/guide.csv")\nr = FieldModel().read_guide_stars_catalog(d + "/guide.csv")\nassert len(r) == 2\nassert np.all(np.abs(r["ra_gaia_with_pm"] - t["ra"]) * 3600 < 0.01), r["ra_gaia_with_pm"] - t["ra"]\n'
