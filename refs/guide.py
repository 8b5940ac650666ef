"""rate of the field rotation, arcsec per minute, of the polynomial model"""
import numpy as np


def rate(ra, dec, lst):
    ha = (lst - ra) % 360.
    if ha > 180.:
        ha = ha - 360.
    x = ha / 60.
    y = (dec - 30) / 30.
    r = -0.447 + 0.065*x - 0.067*y + 0.382*x**2 + 0.021*x*y - 0.121*y**2 - 0.031*x**3 + 0.196*x**2*y + 0.096*x*y**2 - 0.043*y**3
    if r < -1.5:
        return -1.5
    if r > 1.5:
        return 1.5
    return r
