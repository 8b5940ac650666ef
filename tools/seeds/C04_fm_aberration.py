property='C04'
needs='a field model with aberration switched off and precession on'
what_it_breaks='the conversion from focal plane to sky passes the precession option where the aberration option belongs'
edits=[('py/desimeter/fieldmodel.py','''        x_tan,y_tan = self.tancorr_inst2sky(x_tan,y_tan) # correction
        ra,dec = tan2radec(x_tan,y_tan,self.ra,self.dec,mjd=self.mjd,lst_deg=self.lst,hexrot_deg = self.hexrot_deg, precession = self.precession, aberration = self.aberration, polar''','''        x_tan,y_tan = self.tancorr_inst2sky(x_tan,y_tan) # correction
        ra,dec = tan2radec(x_tan,y_tan,self.ra,self.dec,mjd=self.mjd,lst_deg=self.lst,hexrot_deg = self.hexrot_deg, precession = self.precession, aberration = self.precession, polar''')]
demo='''
import numpy as np
from desimeter.fieldmodel import FieldModel
for prec in (True,False) :
    for aber in (True,False) :
        fm = FieldModel()
        fm.ra,fm.dec,fm.mjd,fm.lst,fm.hexrot_deg,fm.adc1,fm.adc2 = 150.,40.,58900.,160.,0.1,20.,60.
        fm.precession,fm.aberration = prec,aber
        x=np.array([50.,-300.,250.]); y=np.array([390.,200.,-250.])
        ra,dec = fm.fp2radec(x,y)
        x2,y2 = fm.radec2fp(ra,dec)
        # accuracy of the polynomials is about one micron
        assert np.all(np.abs(x2-x)<0.004) and np.all(np.abs(y2-y)<0.004),(prec,aber,x2-x,y2-y)
'''
