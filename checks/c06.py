"""Distortion basis: the value graph of every basis term against the published vector polynomials
(gradients / curls of Noll Zernike combinations), their norms and orthogonality by exact quadrature of
the graphs, the weighted sum that applies them and the normal equations that fit them."""
import math
from fractions import Fraction
from sa.terms import *
from sa.terms import strc, Ev, Unevaluable, walk
from sa import interp as I
ZB = 'desimeter.transform.zhaoburge.'
LABEL = ['S%d' % k for k in range(2, 29)] + ['T4', 'T7', 'T8', 'T11', 'T12', 'T13']


# ---- reference: Noll Zernike polynomials as dictionaries {(i, j): coefficient of x^i y^j}
def noll(j):
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    k = j - n * (n + 1) // 2          # 1 .. n+1 within the row
    ms = []
    m = n % 2
    while m <= n:
        ms += [m] if m == 0 else [m, m]
        m += 2
    m = ms[k - 1]
    return n, m, j % 2 == 0           # even index: cosine


def pmul(a, b):
    r = {}
    for (i, j), u in a.items():
        for (k, l), v in b.items():
            r[(i + k, j + l)] = r.get((i + k, j + l), 0.0) + u * v
    return r


def padd(a, b, s=1.0):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.0) + s * v
    return r


def zern(j):
    n, m, cosine = noll(j)
    f = math.factorial
    r2 = {(2, 0): 1.0, (0, 2): 1.0}
    rad = {}
    for s in range((n - m) // 2 + 1):
        c = (-1) ** s * f(n - s) / (f(s) * f((n + m) // 2 - s) * f((n - m) // 2 - s))
        t = {(0, 0): c}
        for _ in range((n - 2 * s - m) // 2):
            t = pmul(t, r2)
        rad = padd(rad, t)
    re, im = {(0, 0): 1.0}, {}
    for _ in range(m):
        re, im = padd(pmul(re, {(1, 0): 1.0}), pmul(im, {(0, 1): 1.0}), -1.0), padd(pmul(re, {(0, 1): 1.0}), pmul(im, {(1, 0): 1.0}))
    norm = math.sqrt(n + 1) * (math.sqrt(2) if m else 1.0)
    p = pmul(rad, re if (cosine or m == 0) else im)
    return dict((k, norm * v) for k, v in p.items())


def diff(p, ax):
    r = {}
    for k, v in p.items():
        if k[ax]:
            q = list(k)
            q[ax] -= 1
            r[tuple(q)] = r.get(tuple(q), 0.0) + v * k[ax]
    return r


def phi(j):
    n, m, cosine = noll(j)
    if n == m:
        return dict((k, v / math.sqrt(2.0 * n * (n + 1))) for k, v in zern(j).items())
    # the polynomial with the same azimuthal part, two radial orders below
    for jj in range(1, j):
        nn, mm, cc = noll(jj)
        if nn == n - 2 and mm == m and (m == 0 or cc == cosine):
            low = zern(jj)
            break
    p = padd(zern(j), low, -math.sqrt((n + 1.0) / (n - 1.0)))
    return dict((k, v / math.sqrt(4.0 * n * (n + 1))) for k, v in p.items())


def field(label):
    p = phi(int(label[1:]))
    if label[0] == 'S':
        return diff(p, 0), diff(p, 1)
    # Zhao & Burge 2008: curl of a scalar potential
    return diff(p, 1), dict((k, -v) for k, v in diff(p, 0).items())


def poly(p, x, y):
    return add(*([ZERO] + [mul(const(v), powi(x, i), powi(y, j)) for (i, j), v in p.items()]))


def powi(x, n):
    return mul(*([ONE] + [x] * n))


def gauss(n):
    """Gauss-Legendre nodes and weights on [0,1] (Newton on Legendre polynomials)"""
    out = []
    for k in range(n):
        t = math.cos(math.pi * (k + 0.75) / (n + 0.5))
        for _ in range(50):
            p0, p1 = 1.0, t
            for i in range(2, n + 1):
                p0, p1 = p1, ((2 * i - 1) * t * p1 - (i - 1) * p0) / i
            d = n * (t * p1 - p0) / (t * t - 1)
            t -= p1 / d
        out.append(((t + 1) / 2, 1.0 / ((1 - t * t) * d * d)))
    return out


def run(c):
    c.floor = 60
    c.guard(terms, c)
    c.guard(apply_, c)
    c.guard(fit, c)
    c.assumptions += ['quadrature over the disk is exact for polynomial fields up to degree 14; the graphs were compared with polynomials of degree at most 5']


def value(t, x, y):
    e = Ev((1, 0), dict(x=lambda r: x, y=lambda r: y))
    return float(e.ev(t, dict((d, 0) for d in dims(t))))


def terms(c):
    R = c.runner()
    d = ['N']
    x, y = sym('x', d), sym('y', d)
    disk = {}
    dom = dict(x=(-0.7, 0.7), y=(-0.7, 0.7))
    nodes = []
    for r, w in gauss(8):
        for k in range(16):
            a = 2 * math.pi * (k + 0.31) / 16
            nodes.append((r * math.cos(a), r * math.sin(a), 2 * r * w / 16))
    vals = {}
    for k, label in enumerate(LABEL):
        r = R.ip.unpack(R(ZB + 'getZhaoBurgeTerm', const(k), x, y), 3)
        wh = R.where(ZB + 'getZhaoBurgeTerm')
        lab = r[2]
        if isinstance(lab, tuple) and len(lab) == 1:
            lab = lab[0]
        if isinstance(lab, T) and lab.op == 'str':
            (c.ok if lab.data == label else c.bad)('label of term %d' % k, 'label table', wh, 'label %s, expected %s' % (lab.data, label))
        u, v = R.comps(r[0])[0], R.comps(r[1])[0]
        fx, fy = field(label)
        R.same('term %d is the vector field %s' % (k, label), 'reference graph', ZB + 'getZhaoBurgeTerm', (u, v), (poly(fx, x, y), poly(fy, x, y)), dom=dom, tol=1e-9, absolute=True, prove=False)
        try:
            vals[label] = [(value(u, a, b), value(v, a, b), w) for a, b, w in nodes]
        except Unevaluable as e:
            c.undecided('norm of %s' % label, 'quadrature', wh, str(e))
            continue
        # derivatives by the 8-point central difference, exact for polynomials of degree 8
        st = [(1, 4. / 5), (2, -1. / 5), (3, 4. / 105), (4, -1. / 280)]
        h = 0.05
        worst = 0
        for a, b in ((0.31, 0.17), (-0.42, 0.23), (0.11, -0.55)):
            dx = lambda t: sum(q * (value(t, a + s * h, b) - value(t, a - s * h, b)) for s, q in st) / h
            dy = lambda t: sum(q * (value(t, a, b + s * h) - value(t, a, b - s * h)) for s, q in st) / h
            z = dx(v) - dy(u) if label[0] == 'S' else dx(u) + dy(v)
            worst = max(worst, abs(z))
        kind = 'curl-free' if label[0] == 'S' else 'divergence-free'
        (c.ok if worst < 1e-8 else c.bad)('%s is %s' % (label, kind), 'derivative of the graph', wh, 'largest value %.3g' % worst)
        nn = sum(w * (p * p + q * q) for p, q, w in vals[label])
        (c.ok if abs(nn - 1) < 1e-9 else c.bad)('unit norm of %s' % label, 'quadrature of the graph', wh, 'mean square %.9g' % nn)
    for kind in 'ST':
        ls = [l for l in LABEL if l[0] == kind and l in vals]
        worst, pair = 0, ''
        for i, a in enumerate(ls):
            w = max([(abs(sum(p[2] * (p[0] * q[0] + p[1] * q[1]) for p, q in zip(vals[a], vals[b]))), b) for b in ls[:i]] or [(0, '')])
            (c.ok if w[0] < 1e-9 else c.bad)('%s is orthogonal to the earlier terms of its kind' % a, 'quadrature of the graph', R.where(ZB + 'getZhaoBurgeTerm'), 'largest product %.3g with %s' % w)


def term_model(ip, args, kw):
    b = dict(zip(['polid', 'x', 'y'], args))
    b.update(kw)
    p = ip.toterm(b['polid'])
    return (fn('zbx', p, b['x'], b['y']), fn('zby', p, b['x'], b['y']), strc('label'))


def apply_(c):
    models = {ZB + 'getZhaoBurgeTerm': term_model}
    R = c.runner(models=models)
    d = ['N']
    x, y = sym('x', d), sym('y', d)
    ids = [3, 0, 27, 14]
    cs = [sym('c%d' % k) for k in range(4)]
    got = R(ZB + 'getZhaoBurgeXY', R.lst(*[const(k) for k in ids]), R.lst(*cs), x, y)
    w = lambda f: add(*[mul(q, fn(f, const(k), x, y)) for k, q in zip(ids, cs)])
    R.same('distortion is the coefficient weighted sum of the listed terms', 'reference graph', ZB + 'getZhaoBurgeXY', got, (w('zbx'), w('zby')), tol=1e-10, prove=False, skeleton={'zbx', 'zby'})
    got = R(ZB + 'getZhaoBurgeXY', R.lst(), R.lst(), x, y)
    R.same('no terms, no distortion', 'reference graph', ZB + 'getZhaoBurgeXY', got, (ZERO, ZERO), tol=1e-12, prove=False)


def fit(c):
    models = {ZB + 'getZhaoBurgeTerm': term_model}
    n = 4
    R = c.runner(models={ZB + 'getZhaoBurgeTerm': lambda ip, a, kw: term_model_arr(R, a, kw)})
    # four points, two or three terms: the fit solves the least squares normal equations of the residual displacements
    rows = lambda s: [sym('%s%d' % (s, k)) for k in range(n)]
    x, y, xp, yp = [rows(s) for s in ('x', 'y', 'xp', 'yp')]
    A_ = [R.arr(*v) for v in (x, y, xp, yp)]
    for ids in ([2, 27], [0, 5, 14]):
        arr = R.arr(*[const(k) for k in ids])
        got = R(ZB + 'fitZhaoBurge', *A_, polids=arr)
        pol, co = R.ip.unpack(got, 2)
        R.same('fit of %d terms returns the terms it was given' % len(ids), 'reference graph', ZB + 'fitZhaoBurge', pol, arr)
        H = [[fn('zbx', const(k), a, b) for a, b in zip(x, y)] + [fn('zby', const(k), a, b) for a, b in zip(x, y)] for k in ids]
        rhs = [sub(a, b) for a, b in zip(xp + yp, x + y)]
        A = [[add(*[mul(a, b) for a, b in zip(p, q)]) for q in H] for p in H]
        b = [add(*[mul(a, b) for a, b in zip(p, rhs)]) for p in H]
        cc = R.comps(co)
        if len(cc) != len(ids):
            c.undecided('fit of %d terms solves its normal equations' % len(ids), 'reference graph', '', 'coefficients not separated')
            continue
        for i in range(len(ids)):
            c.equal('fit of %d terms solves normal equation %d' % (len(ids), i), 'reference graph', R.where(ZB + 'fitZhaoBurge'), add(*[mul(A[i][j], cc[j]) for j in range(len(ids))]), b[i], tol=1e-6, prove=False, skeleton={'zbx', 'zby'})


def term_model_arr(R, args, kw):
    b = dict(zip(['polid', 'x', 'y'], args))
    b.update(kw)
    p = R.ip.toterm(b['polid'])
    xs, ys = R.comps(b['x']), R.comps(b['y'])
    return (R.arr(*[fn('zbx', p, u, v) for u, v in zip(xs, ys)]), R.arr(*[fn('zby', p, u, v) for u, v in zip(xs, ys)]), strc('label'))
