"""pixel scale from the determinant of the Jacobian"""
import numpy as np


def root(det):
    return np.sqrt(np.abs(det))
