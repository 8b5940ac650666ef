"""Centroid of a spot: the fit of a stamp of symbols is compared with a fit written from its definition; the derivatives of the profile
with the derivatives of its graph; the smoothing kernel with a normalised Gaussian."""
import math
from fractions import Fraction as Fr
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm

D = 'desimeter.detectspots.'


def run(c):
    c.floor = 20
    c.guard(profile, c)
    for s in ((3, 4), (4, 3), (3, 3), (5, 4)) + (((7, 7), (4, 7), (6, 7)) if c.tier == 'thorough' else ()):
        c.guard(centroid, c, s)
    c.guard(default, c)
    c.guard(barycenter, c)
    for s in (Fr(1), Fr(1, 2), Fr(3, 2), Fr(4, 3)):
        c.guard(kernel, c, s)
    return ''


def profile(c):
    R = c.runner()
    v = [sym(k) for k in ('i0', 'i1', 'xc', 'yc', 'sigma')]
    dom = dict(i0=(-3, 3), i1=(-3, 3), xc=(-1, 1), yc=(-1, 1), sigma=(0.6, 2))
    p = R(D + 'psf', *v)
    w = R.where(D + 'psf')
    c.equal('profile', 'the profile is the integral of a unit Gaussian over the pixel', w, p, R('refs.centroid.model', *v), dom=dom)
    for f, k in (('dpsfdxc', 'xc'), ('dpsfdyc', 'yc')):
        c.equal('derivative with %s' % k, 'the derivative is that of the profile', R.where(D + f), R(D + f, *v), tm.diff(p, sym(k)), dom=dom)


def cell(i, j, x, y, s):
    h = lambda a: 0.5 * (1 + math.erf(a / (math.sqrt(2) * s)))
    return (h(j + 0.5 - x) - h(j - 0.5 - x)) * (h(i + 0.5 - y) - h(i - 0.5 - y))


# flux, offset of the source from the central pixel, width, spread of the pixel values: they select the branches of the fit
REGIMES = [('source at the centre', 900, 0.0, 0.0, 1.0, 1e-7), ('source close to the centre', 700, 0.02, -0.03, 1.0, 0.05), ('source off the centre', 800, 0.25, -0.35, 1.1, 0.5),
           ('source far off the centre', 1200, -0.7, 0.6, 0.9, 1.0), ('another width', 400, 0.15, 0.1, 1.4, 0.5)]


def centroid(c, shape):
    R = c.runner()
    ip = R.ip
    ip.exact = True
    n0, n1 = shape
    px = {(i, j): sym('p%d%d' % (i, j)) for i in range(n0) for j in range(n1)}
    img = lambda: ip.new(I.ArrC(shape, [px[k] for k in sorted(px)]))
    s, n = sym('sigma'), sym('noise')
    f = D + 'fitcentroid_gaussian'
    got = R.comps(R(f, img(), sigma=s, noise=n))
    for w in ip.warned:
        if w.startswith('desimeter'):
            raise I.Unsupported(w)
    want = R.comps(R('refs.centroid.fit', img(), const(n0), const(n1), s, n, const(5)))
    for what, flux, x, y, sg, d in REGIMES + [('any stamp', 0, 0, 0, 1.0, 1.0)]:
        dom = {px[i, j].data[0]: (v - d, v + d) for (i, j) in px for v in [flux * cell(i, j, n1 // 2 + x, n0 // 2 + y, sg)]}
        dom.update(sigma=(sg - 0.05, sg + 0.05) if d > 1e-3 else (sg, sg + 1e-9), noise=(1, 30))
        for nm, g, w in zip(('x', 'y', 'x error', 'y error', 'counts'), got, want):
            c.equal('fit of a stamp of %d by %d, %s: %s' % (n0, n1, what, nm), 'the fit is the least-squares fit of the profile', R.where(f), g, w, dom=dom,
                    trials=4 if c.tier == 'quick' else 24, prove=False, tol=1e-6)


def default(c):
    """the fit used by the detection is that of the profile of unit width"""
    R = c.runner()
    ip = R.ip
    px = [sym('p%d' % k) for k in range(9)]
    img = lambda: ip.new(I.ArrC((3, 3), px))
    n = sym('noise')
    got = R.comps(R(D + 'fitcentroid', img(), noise=n))
    want = R.comps(R('refs.centroid.fit', img(), const(3), const(3), ONE, n, const(5)))
    dom = {px[3 * i + j].data[0]: (v - 0.5, v + 0.5) for i in range(3) for j in range(3) for v in [600 * cell(i, j, 1.1, 0.8, 1.0)]}
    dom['noise'] = (1, 30)
    for nm, g, w in zip(('x', 'y', 'x error', 'y error', 'counts'), got, want):
        c.equal('centroid of a detected spot: %s' % nm, 'the fit of the detection has unit width', R.where(D + 'fitcentroid'), g, w, dom=dom, trials=4, prove=False, tol=1e-6)


def barycenter(c):
    R = c.runner()
    ip = R.ip
    for h in (1, 2):
        n = 2 * h + 1
        px = {(i, j): sym('p%d%d' % (i, j)) for i in range(n) for j in range(n)}
        x, y, xe, ye, k = R.comps(R(D + 'fitcentroid_barycenter', ip.new(I.ArrC((n, n), [px[q] for q in sorted(px)]))))
        tot = add(*px.values())
        dom = {p.data[0]: (0.1, 5) for p in px.values()}
        w = R.where(D + 'fitcentroid_barycenter')
        for nm, g, e in (('x', x, div(add(*[mul(const(j - h), p) for (i, j), p in px.items()]), tot)), ('y', y, div(add(*[mul(const(i - h), p) for (i, j), p in px.items()]), tot)), ('counts', k, tot)):
            c.equal('barycenter of a stamp of %d by %d: %s' % (n, n, nm), 'the barycenter is counted from the central pixel', w, g, e, dom=dom)


def kernel(c, s):
    """what the image is convolved with"""
    R = c.runner()
    ip = R.ip
    seen = []

    def conv(ip, a, k):
        b = dict(zip(['in1', 'in2', 'mode', 'axes'], a))
        b.update(k)
        seen.append(b)
        return fn('convolved')
    for m in ('scipy.signal.fftconvolve', 'scipy.signal._signaltools.fftconvolve', 'scipy.signal.convolve', 'scipy.signal.convolve2d', 'scipy.signal.oaconvolve'):
        ip.models[m] = conv
    out = R(D + 'gaussian_convolve', sym('image'), const(s))
    w = R.where(D + 'gaussian_convolve')
    name = 'smoothing of width %s: ' % s
    if len(seen) != 1 or out is not fn('convolved'):
        raise I.Unsupported('convolution')
    b = seen[0]
    ok = b['in1'] is sym('image') and b.get('mode') is strc('same')
    (c.ok if ok else c.bad)(name + 'image', 'the image is convolved and keeps its shape', w, '' if ok else 'mode or image')
    o = ip.get(ip.to_arr(b['in2']))
    n0, n1 = o.shape
    if n0 != n1 or n0 % 2 == 0 or n0 < 2 * int(3 * s) + 1:
        return c.bad(name + 'kernel', 'the kernel is centred and covers three widths', w, 'shape %s' % (o.shape,))
    h = n0 // 2
    g = lambda i, j: fn('exp', const(-Fr((i - h) ** 2 + (j - h) ** 2) / 2 / s ** 2))
    tot = add(*[g(i, j) for i in range(n0) for j in range(n0)])
    bad = None
    for i in range(n0):
        for j in range(n0):
            v = tm.equal(o.vals[i * n0 + j], div(g(i, j), tot), trials=1, prove=False)
            if v.kind == 'differs':
                bad = bad or 'cell %d %d from the centre' % (i - h, j - h)
            elif v.kind == 'undecided':
                raise I.Unsupported('kernel')
    (c.bad if bad else c.ok)(name + 'kernel', 'the kernel is a Gaussian of the given width and of unit sum', w, bad or '')
