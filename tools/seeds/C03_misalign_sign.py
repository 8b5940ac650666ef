property='C03'
needs='an azimuth misalignment different from zero; the elevation misalignment dominates by a factor 60 so that sky positions move by less than the test tolerances'
what_it_breaks='the rotation for the polar misalignment no longer carries the misaligned pole onto the true pole (the azimuth part has the wrong sign when the elevation error is negative)'
edits=[('py/desimeter/transform/radec2tan.py','''    ha1,dec1=altaz2hadec(alt=LATITUDE-me_arcsec/3600.,az=ma_arcsec/3600.)''','''    ha1,dec1=altaz2hadec(alt=LATITUDE-me_arcsec/3600.,az=np.sign(me_arcsec)*np.abs(ma_arcsec)/3600.)''')]
demo='''
import numpy as np
from desimeter.transform.radec2tan import *
from desimeter.trig import getXYZ
for me in (-100.,100.) :
    for ma in (-30.,30.) :
        m = compute_polar_misalignment_rotation_matrix(me,ma)
        ha,dec = altaz2hadec(LATITUDE-me/3600.,ma/3600.)
        v = m.dot(getXYZ(ha,dec))
        assert abs(v[0])<1e-9 and abs(v[1])<1e-9,(me,ma,v)
'''
