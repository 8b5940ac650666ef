"""Reference fragments for the fiber assignment transforms, interpreted by the analyser (never executed)."""
import numpy as np
from desimeter.transform.radec2tan import radec2tan, tan2radec, hadec2xy
from desimeter.transform.tan2fp.raytracefit import tan2fp, fp2tan
from desimeter.transform.dm2pm import DM2PM
from desimeter.transform.pos2ptl import ptl2flat, flat2ptl
from desimeter.io import dm2pm_filename
D = np.pi / 180.


def adc_angles(ha, dec):
    lat = 31.9634
    zd = np.arccos(np.cos(ha * D) * np.cos(dec * D) * np.cos(lat * D) + np.sin(dec * D) * np.sin(lat * D)) / D
    psi = np.arctan2(np.sin(ha * D) * np.cos(lat * D), np.cos(dec * D) * np.sin(lat * D) - np.sin(dec * D) * np.cos(lat * D) * np.cos(ha * D)) / D
    t = np.tan(np.minimum(zd, 60.) * D)
    half = (-0.0183 - 0.3795 * t - 0.1939 * t * t) / D
    return psi + half, psi - half


def measure(ha, dec, tha, tdec, x, y):
    good = ~np.isnan(ha * dec * x * y)
    good = good & (x * x + y * y > 100.)
    u, v = hadec2xy(ha[good], dec[good], tha, tdec)
    a, b = x[good], y[good]
    return np.mean((b * u - a * v) / np.sqrt((a * a + b * b) * (u * u + v * v))) / D


def pointing(tra, tdec, mjd, lst, adc1, adc2, hard):
    """Newton steps of one arcsec finite differences putting the tile centre at the origin"""
    ra, dec = tra + 0., tdec + 0.
    e = 1. / 3600.
    for k in range(2):
        p = []
        for a, b in ((0., 0.), (e, 0.), (0., e)):
            u, v = radec2tan(np.array([tra + a]), np.array([tdec + b]), ra, dec, mjd, lst, 0, use_hardcoded_polmis_rotmat=hard)
            x, y = tan2fp(u, v, adc1, adc2)
            p.append((x[0], y[0]))
        a11 = (p[1][0] - p[0][0]) / e
        a21 = (p[1][1] - p[0][1]) / e
        a12 = (p[2][0] - p[0][0]) / e
        a22 = (p[2][1] - p[0][1]) / e
        det = a11 * a22 - a12 * a21
        ra = ra + (a22 * p[0][0] - a12 * p[0][1]) / det
        dec = dec + (a11 * p[0][1] - a21 * p[0][0]) / det
    return ra, dec


def radec2cs5(ra, dec, tra, tdec, mjd, tha, rot, adc1, adc2, pm, hard):
    lst = tha + tra
    pra, pdec = pointing(tra, tdec, mjd, lst, adc1, adc2, hard)
    u, v = radec2tan(ra, dec, pra, pdec, mjd, lst, 0, use_hardcoded_polmis_rotmat=hard)
    x, y = tan2fp(u, v, adc1, adc2)
    if pm:
        x, y = DM2PM.read(dm2pm_filename()).dm2pm(x, y)
    a = (rot - measure(-ra, dec, -tra, tdec, x, y)) * D
    return np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y


def cs52radec(x, y, tra, tdec, mjd, tha, rot, adc1, adc2, pm, hard):
    lst = tha + tra
    pra, pdec = pointing(tra, tdec, mjd, lst, adc1, adc2, hard)
    if pm:
        x, y = DM2PM.read(dm2pm_filename()).pm2dm(x, y)
    u, v = fp2tan(x, y, adc1, adc2)
    r, d = tan2radec(u, v, pra, pdec, mjd, lst, 0, use_hardcoded_polmis_rotmat=hard)
    a = (rot - measure(-r, d, -tra, tdec, x, y)) * D
    u, v = fp2tan(np.cos(a) * x + np.sin(a) * y, -np.sin(a) * x + np.cos(a) * y, adc1, adc2)
    return tan2radec(u, v, pra, pdec, mjd, lst, 0, use_hardcoded_polmis_rotmat=hard)
