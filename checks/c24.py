"""Radial functions of the focal plane: the conversions between plane and curved surface are compared as value graphs; the radial
polynomials are taken out of the source as graphs of one variable and compared with the rows of their tables and with each other."""
import csv
import io
import math
import os
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
from sa.ctx import REPO
from checks.c16 import tab

Q = 'desimeter.transform.xy2qs.'
E = 'desimeter.transform.tan2fp.echo22.'
SURFACE = 'py/desimeter/data/focal_surface_lookup.csv'
PLATE = 'py/desimeter/transform/tan2fp/data/Echo22Platescale.txt'
EDGE = 415.0


def run(c):
    c.floor = 24
    for f in (graphs, surface, plate):
        c.guard(f, c)
    return ''


def surface_rows():
    rows = [r for r in open(os.path.join(REPO, SURFACE)) if not r.startswith('#')]
    t = list(csv.DictReader(io.StringIO(''.join(rows))))
    return [float(r['R']) for r in t], [float(r['S']) for r in t]


def plate_rows():
    rows = [r.split() for r in open(os.path.join(REPO, PLATE)) if not r.startswith('#') and r.strip()]
    return [float(r[0]) for r in rows], [float(r[1]) for r in rows]


def graphs(c):
    from sa import lib
    dom = {k: (-420, 420) for k in 'xyuv'}
    dom.update(q=(-200, 200), s=(0, 420))
    for d in ([], ['N']):
        tag = 'arrays' if d else 'single values'
        x, y, q, s, u, v = [sym(n, d) for n in 'xyqsuv']
        R = c.runner()
        hyp = lambda a, b: fn('sqrt', add(mul(a, a), mul(b, b)))
        r2s, s2r = [lambda t, f=f: R.ip.toterm(R(Q + f, t)) for f in ('r2s', 's2r')]
        r = hyp(x, y)
        got = R(Q + 'xy2qs', x, y)
        at = R.ip.map1(lambda t: mul(t, lib.D2R), got[0])
        got = (R.ip.map1(lambda t: fn('cos', t), at), R.ip.map1(lambda t: fn('sin', t), at), got[1])
        R.same('angle and distance along the surface, ' + tag, 'angle counter-clockwise from x, distance of the same radius', Q + 'xy2qs', got, (div(x, r), div(y, r), r2s(r)), dom=dom, tol=1e-9, prove=False)
        a = mul(q, lib.D2R)
        R.same('position of angle and distance, ' + tag, 'radius of the distance at the angle', Q + 'qs2xy', R(Q + 'qs2xy', q, s), (mul(s2r(s), fn('cos', a)), mul(s2r(s), fn('sin', a))), dom=dom, tol=1e-9)
        R.same('flattened coordinates, ' + tag, 'same direction, distance along the surface', Q + 'xy2uv', R(Q + 'xy2uv', x, y), (mul(r2s(r), div(x, r)), mul(r2s(r), div(y, r))), dom=dom, tol=1e-9, prove=False)
        r = hyp(u, v)
        R.same('position of flattened coordinates, ' + tag, 'same direction, radius of the distance', Q + 'uv2xy', R(Q + 'uv2xy', u, v), (mul(s2r(r), div(u, r)), mul(s2r(r), div(v, r))), dom=dom, tol=1e-9, prove=False)


def curve(c, R, q):
    """the function as graph of one variable, evaluated at a point"""
    v = sym('v')
    t = R.ip.toterm(R(q, v))
    if tm.has_unsupported(t) or set(x.data for x in walk(t) if x.op == 'sym') - {'v'}:
        raise I.Unsupported('graph of ' + q)
    c.sites += 1
    return lambda p: float(tm.PointEv({'v': p}).ev(t))


def worst(f, points):
    """largest deviation and where; nan counts as infinite"""
    m, at = -1.0, None
    for p in points:
        d = abs(f(p))
        if not d <= m:
            m, at = (d, p) if d == d else (math.inf, p)
            if m == math.inf:
                break
    return m, at


def bound(c, name, rule, where, f, points, tol, unit):
    m, at = worst(f, points)
    if m <= tol:
        c.ok(name, rule, where, 'largest deviation %.2g %s at %.6g, allowed %.2g, %d points' % (m, unit, at, tol, len(points)))
    else:
        c.bad(name, rule, where, 'deviates by %.3g %s at %.6g, allowed %.2g' % (m, unit, at, tol))


def surface(c):
    R = c.runner()
    f, g = curve(c, R, Q + 'r2s'), curve(c, R, Q + 's2r')
    rr, ss = surface_rows()
    S, T = dict(zip(rr, ss)), dict(zip(ss, rr))
    rule = 'polynomial of the focal surface'
    for lo, hi, tol in ((25, EDGE, 1e-3), (0, 25, 4e-3)):
        tag = 'from %g to %g mm' % (lo, hi)
        p = [r for r in rr if lo <= r <= hi]
        bound(c, 'distance along the surface, table rows ' + tag, rule, R.where(Q + 'r2s'), lambda r: f(r) - S[r], p, tol, 'mm')
        p = [s for s in ss if lo <= s <= hi]
        bound(c, 'radius, table rows ' + tag, rule, R.where(Q + 's2r'), lambda s: g(s) - T[s], p, tol, 'mm')
        n = 20 if c.tier == 'quick' else 200
        p = [lo + (hi - lo) * i / (25.0 * n) for i in range(25 * n + 1)]
        bound(c, 'radius to distance and back ' + tag, rule, R.where(Q + 'r2s'), lambda r: g(f(r)) - r, p, 5e-3 if lo == 0 else 1e-3, 'mm')
        bound(c, 'distance to radius and back ' + tag, rule, R.where(Q + 's2r'), lambda s: f(g(s)) - s, p, 5e-3 if lo == 0 else 1e-3, 'mm')


# ------------------------------------------------------------------ nominal optics

def solve(A, b):
    n = len(b)
    M = [list(r) + [y] for r, y in zip(A, b)]
    for i in range(n):
        k = max(range(i, n), key=lambda j: abs(M[j][i]))
        M[i], M[k] = M[k], M[i]
        for j in range(n):
            if j != i:
                w = M[j][i] / M[i][i]
                M[j] = [p - w * q for p, q in zip(M[j], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def polynomial(x, y, deg):
    """least squares polynomial, highest power first, by exact rational arithmetic"""
    from fractions import Fraction as Fr
    x, y = [Fr(v) for v in x], [Fr(v) for v in y]
    pw = [sum(v ** k for v in x) for k in range(2 * deg + 1)]
    A = [[pw[i + j] for j in range(deg + 1)] for i in range(deg + 1)]
    b = [sum(w * v ** i for v, w in zip(x, y)) for i in range(deg + 1)]
    return solve(A, b)[::-1]


def plate(c):
    radius, theta = plate_rows()
    seen = []

    def consts(ip, v):
        it = ip.known_items(ip.to_arr(v))
        if it is None or not all(isinstance(x, T) and x.op == 'c' for x in it):
            raise I.Unsupported('table of the fit')
        return [x.data for x in it]

    def polyfit(ip, args, kw):
        b = dict(zip(['x', 'y', 'deg'], args))
        b.update(kw)
        if set(b) - {'x', 'y', 'deg'}:
            raise I.Unsupported('options of polyfit')
        x, y, n = consts(ip, b['x']), consts(ip, b['y']), ip.cint(b['deg'])
        if len(x) != len(y):
            raise I.RowError('%d abscissae and %d values are fitted' % (len(x), len(y)))
        k = polynomial([float(v) for v in x], [float(v) for v in y], n)
        seen.append((x, y))
        return ip.new(I.ArrC((n + 1,), [const(v) for v in k]))

    def loadtxt(ip, args, kw):
        return tab(R, dict(radius=radius, theta=theta))
    R = c.runner(models={'numpy.loadtxt': loadtxt, 'numpy.polyfit': polyfit})
    try:
        f, g = curve(c, R, E + 'theta2radius'), curve(c, R, E + 'radius2theta')
    except I.RowError as e:
        return c.bad('fit of the nominal optics', 'columns of equal length', R.where(E + '_fit_r2theta'), str(e))
    rows = [(r, t) for r, t in zip(radius, theta) if r <= EDGE]
    by_r, by_t = dict(rows), dict((t, r) for r, t in rows)
    rule = 'radial function of the nominal optics'
    bound(c, 'radius of an angle, table rows to %g mm' % EDGE, rule, R.where(E + 'theta2radius'), lambda t: f(t) - by_t[t], sorted(by_t), 1e-3, 'mm')
    bound(c, 'angle of a radius, table rows to %g mm' % EDGE, rule, R.where(E + 'radius2theta'), lambda r: 3600 * (g(r) - by_r[r]), sorted(by_r), 0.012, 'arcsec')
    n = 500 if c.tier == 'quick' else 5000
    bound(c, 'radius to angle and back', rule, R.where(E + 'theta2radius'), lambda r: f(g(r)) - r, [EDGE * i / n for i in range(n + 1)], 1e-3, 'mm')
    top = max(by_t)
    bound(c, 'angle to radius and back', rule, R.where(E + 'radius2theta'), lambda t: 3600 * (g(f(t)) - t), [top * i / n for i in range(n + 1)], 0.012, 'arcsec')
