property='C03'
needs='a date before the reference epoch J2000'
what_it_breaks='the inverse precession uses the absolute interval, so it does not cancel the direct one before the epoch'
edits=[('py/desimeter/transform/radec2tan.py','''        years = (ICRS_MJD-mjd)/DAYS_PER_YEAR''','''        years = -abs(mjd-ICRS_MJD)/DAYS_PER_YEAR''')]
demo='''
from desimeter.transform.radec2tan import *
for mjd in (50000.,59000.) :
    ra,dec = apply_precession_from_icrs(123.,40.,mjd)
    ra,dec = undo_precession_from_icrs(ra,dec,mjd)
    assert abs(ra-123.)<1e-8 and abs(dec-40.)<1e-8,(mjd,ra,dec)
'''
