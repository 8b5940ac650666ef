"""Least-squares fit of a pixel-integrated Gaussian to a stamp, written from its definition (interpreted by the analyser, never executed)."""
import numpy as np
from scipy.special import erf


def step(a, s):
    """integral of the unit Gaussian from minus infinity"""
    return 0.5 * (1 + erf(a / (np.sqrt(2.) * s)))


def density(a, s):
    return np.exp(-0.5 * a * a / (s * s)) / (s * np.sqrt(2 * np.pi))


def model(i0, i1, xc, yc, s):
    return (step(i1 + 0.5 - xc, s) - step(i1 - 0.5 - xc, s)) * (step(i0 + 0.5 - yc, s) - step(i0 - 0.5 - yc, s))


def ddx(i0, i1, xc, yc, s):
    return (density(i1 - 0.5 - xc, s) - density(i1 + 0.5 - xc, s)) * (step(i0 + 0.5 - yc, s) - step(i0 - 0.5 - yc, s))


def ddy(i0, i1, xc, yc, s):
    return (step(i1 + 0.5 - xc, s) - step(i1 - 0.5 - xc, s)) * (density(i0 - 0.5 - yc, s) - density(i0 + 0.5 - yc, s))


def fit(stamp, n0, n1, sigma, noise, steps):
    """at most so many steps; moves limited to a fifth of a pixel; positions from the central pixel"""
    x, y = n1 // 2, n0 // 2
    cells = []
    flux = 0
    for i in range(n0):
        for j in range(n1):
            flux = flux + stamp[i, j]
            cells.append((i, j))
    done = False
    v1 = v2 = 0
    for k in range(steps):
        A = np.zeros((3, 3))
        B = np.zeros(3)
        for i, j in cells:
            m = model(i, j, x, y, sigma)
            g = np.array([m, flux * ddx(i, j, x, y, sigma), flux * ddy(i, j, x, y, sigma)])
            A = A + np.outer(g, g)
            B = B + g * (stamp[i, j] - flux * m)
        C = np.linalg.inv(A)
        d = C.dot(B)
        big = np.maximum(np.abs(d[1]), np.abs(d[2]))
        f = np.where(big > 0.2, 0.2 / big, 1.0)
        flux = np.where(done, flux, flux + f * d[0])
        x = np.where(done, x, x + f * d[1])
        y = np.where(done, y, y + f * d[2])
        v1 = np.where(done, v1, C[1, 1])
        v2 = np.where(done, v2, C[2, 2])
        done = done | ((np.abs(f * d[1]) < 0.001) & (np.abs(f * d[2]) < 0.001))
    return x - n1 // 2, y - n0 // 2, noise * np.sqrt(v1), noise * np.sqrt(v2), flux
