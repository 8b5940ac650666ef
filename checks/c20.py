"""Spot list of an image: the detection is interpreted on images whose smoothed version is a pattern of levels and whose pixels are
symbols; the pixels handed to the centroid fit and every column of the list are compared with the pattern."""
from fractions import Fraction as Fr
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
from checks.c16 import tree_model

D = 'desimeter.detectspots.'
Q = D + 'detectspots'


class TooMany(Exception):
    pass


def run(c):
    c.floor = 60
    for s in scenes():
        c.guard(scene, c, **s)
    return ''


def scenes():
    E = {(5, 6): 900, (8, 11): 700}
    yield dict(tag='two spots', peaks=E)
    yield dict(tag='two spots on a dark image', peaks=E, base=0)
    yield dict(tag='two spots on a negative level', peaks=E, base=-150)
    yield dict(tag='one spot', peaks={(7, 7): 900})
    yield dict(tag='wide image', shape=(12, 40), peaks={(4, 5): 400, (7, 20): 500, (5, 33): 300})
    yield dict(tag='tall image', shape=(40, 13), peaks={(5, 4): 400, (20, 6): 500, (33, 5): 300})
    for d in (1, 2, 3):
        yield dict(tag='spots %d pixels from the edges' % d, shape=(32, 34), peaks={(d, 12): 900, (31 - d, 20): 800, (14, d): 700, (18, 33 - d): 600})
        yield dict(tag='spots %d pixels from the corners' % d, shape=(32, 34), peaks={(d, d): 900, (31 - d, 33 - d): 800, (d, 33 - d): 700, (31 - d, d): 600})
    for k, (a, b) in enumerate(((-1, 0), (1, 0), (0, -1), (0, 1))):
        # a bright pixel beside a brighter one is no peak; a brighter pixel across the corner does not matter
        yield dict(tag='shoulder %d' % k, shape=(18, 30), peaks={(9, 7): 900, (9, 22): 500}, smooth={(9 + a, 7 + b): 850, (9 + 2 * a, 7 + 2 * b): 300})
        yield dict(tag='equal neighbours %d' % k, shape=(18, 30), peaks={(9, 22): 500}, smooth={(9, 7): 850, (9 + a, 7 + b): 850})
    yield dict(tag='peak on the border line', shape=(20, 22), peaks={(9, 9): 500}, smooth={(0, 15): 900, (19, 4): 900, (5, 0): 900, (14, 21): 900})
    for lo, hi in ((99, 101), (100, 102)):
        yield dict(tag='levels around the threshold, %d' % lo, shape=(18, 30), peaks={(9, 22): hi + Fr(3)}, smooth={(9, 7): lo - 3})
    yield dict(tag='threshold asked for', shape=(18, 30), peaks={(9, 7): 340, (9, 22): 300}, kw=dict(min_counts_per_pixel=const(250)))
    yield dict(tag='higher threshold asked for', shape=(18, 30), peaks={(9, 22): 400}, smooth={(9, 7): 300}, kw=dict(min_counts_per_pixel=const(350)))
    yield dict(tag='threshold of the noise', shape=(18, 30), peaks={(9, 22): 60, (9, 7): 55}, smooth={}, kw=dict(min_counts_per_pixel=const(3), nsig=const(12)))
    yield dict(tag='higher threshold of the noise', shape=(18, 30), peaks={(9, 22): 200}, smooth={(9, 7): 30}, kw=dict(min_counts_per_pixel=const(3), nsig=const(60)))
    yield dict(tag='only the noise threshold', shape=(18, 30), peaks={(9, 22): 60, (9, 7): 55}, kw=dict(min_counts_per_pixel=NONE, nsig=const(12)))
    yield dict(tag='only the noise threshold, higher', shape=(18, 30), peaks={(9, 22): 200}, smooth={(9, 7): 30}, kw=dict(min_counts_per_pixel=NONE, nsig=const(60)))
    far = {(4, 5): 900, (4, 20): 800, (12, 5): 700, (12, 20): 600, (20, 6): 500}
    counts = lambda v: lambda n: fitted(n)[:4] + [Fr(v[n])]
    yield dict(tag='faint spots', shape=(26, 28), peaks=far, fits=counts([4000, 6000, 4999, 5001, 100]))
    yield dict(tag='spot of just enough counts', shape=(26, 28), peaks=far, fits=counts([5000, 6000, 4999, 5000, 7000]))
    yield dict(tag='no limit on the counts', shape=(26, 28), peaks=far, fits=counts([4000, 6000, 4999, 1, 100]), kw=dict(min_counts_per_spot=const(0)))
    yield dict(tag='higher limit on the counts', shape=(26, 28), peaks=far, fits=counts([6500, 8000, 9000, 5500, 7001]), kw=dict(min_counts_per_spot=const(7000)))
    # detections on pixels (9, 7) and (10, 8): fitted one beside the other
    pair = lambda gap, flux: lambda n: [[Fr(1, 2), Fr(1, 2), Fr(1, 9), Fr(1, 8), Fr(flux[0])], [Fr(-1, 2) + gap, Fr(-1, 2), Fr(1, 7), Fr(1, 6), Fr(flux[1])], fitted(2), fitted(3)][n]
    two = dict(shape=(24, 30), peaks={(9, 7): 900, (10, 8): 800, (16, 21): 500})
    for s in (Fr(3, 2), Fr(1)):
        for f in ((20000, 9000), (9000, 20000)):
            for gap, what in ((Fr(1, 10), 'the same spot twice'), (s - Fr(1, 10), 'just the same spot'), (s + Fr(1, 10), 'spots just apart')):
                yield dict(tag='%s, sigma %s, counts %d %d' % (what, s, f[0], f[1]), fits=pair(gap, f), kw=dict(psf_sigma=const(s)), **two)
    for f in ((20000, 9000), (9000, 20000)):
        yield dict(tag='two detections at one place, counts %d %d' % f, fits=pair(Fr(0), f), **two)
    three = {(9, 7): 900, (10, 8): 800, (11, 7): 700, (16, 21): 500}
    for f in ((3, 2, 1), (1, 2, 3), (1, 3, 2), (2, 3, 1)):
        v = [Fr(10000 * x) for x in f]
        fits = lambda n, v=v: [[Fr(1, 10), Fr(1), Fr(1, 9), Fr(1, 8), v[0]], [Fr(-9, 10), Fr(2, 10), Fr(1, 7), Fr(1, 6), v[1]], [Fr(3, 10), Fr(-9, 10), Fr(1, 5), Fr(1, 4), v[2]], fitted(3)][n]
        yield dict(tag='the same spot three times, %d %d %d' % f, shape=(24, 30), peaks=three, fits=fits)
    four = {(9, 7): 900, (10, 8): 800, (15, 20): 700, (16, 21): 500}
    fits = lambda n: [[Fr(1, 2), Fr(1, 2), Fr(1, 9), Fr(1, 8), Fr(9000)], [Fr(-4, 10), Fr(-1, 2), Fr(1, 7), Fr(1, 6), Fr(20000)],
                      [Fr(1, 2), Fr(1, 2), Fr(1, 9), Fr(1, 8), Fr(30000)], [Fr(-3, 10), Fr(-1, 2), Fr(1, 7), Fr(1, 6), Fr(25000)]][n]
    yield dict(tag='two spots, each twice', shape=(24, 30), peaks=four, fits=fits)
    yield dict(tag='no spot', peaks={}, smooth={(7, 7): 60}, none=True)
    yield dict(tag='a dark image', peaks={}, none=True)


def background(i, j):
    """levels of the smoothed image away from the spots: no local maximum reaches the threshold"""
    return (7 * i + 3 * j) % 5


def robust(v):
    v = sorted(v)
    med = lambda a: (a[(len(a) - 1) // 2] + a[len(a) // 2]) / 2
    m = med(v)
    r = Fr('1.4826') * med(sorted(abs(x - m) for x in v))
    ok = [x for x in v if abs(x - m) < 4 * r]
    mean = sum(ok) / Fr(len(ok))
    return mean, sum((x - mean) ** 2 for x in ok) / len(ok)


def fitted(n):
    """offset, uncertainty and counts of the fit of the nth stamp"""
    return [Fr(3 + n % 4, 17), Fr(-2 - n % 5, 19), Fr(1 + n, 101), Fr(2 + n, 103), Fr(20000 + 1000 * ((7 * n) % 11))]


def scene(c, tag, peaks, shape=(14, 17), kw=None, fits=None, smooth=None, base=200, none=False):
    n0, n1 = shape
    R = c.runner()
    ip = R.ip
    ip.exact, ip.MAXUNROLL, ip.MAXCELLS = True, 400, 4000
    conv = {(i, j): Fr(background(i, j) + base) for i in range(n0) for j in range(n1)}
    conv.update({k: Fr(v) + base for k, v in list(peaks.items()) + list((smooth or {}).items())})
    near = {(i + a, j + b) for i, j in conv if conv[i, j] > 50 + base for a in range(-4, 5) for b in range(-4, 5)}
    quiet = [(i, j) for i in range(n0) for j in range(n1) if (i, j) not in near][::3][:16]
    pix = {(i, j): const(Fr(40 + (5 * i + 11 * j) % 13)) if (i, j) in quiet else sym('P_%d_%d' % (i, j)) for i in range(n0) for j in range(n1)}
    name = lambda s: '%s: %s' % (tag, s)
    where = R.where(Q)
    asked, calls, smoothed = [], [], []
    img = lambda d: ip.new(I.ArrC((n0, n1), [const(d[i, j]) if not isinstance(d[i, j], T) else d[i, j] for i in range(n0) for j in range(n1)]))
    image = img(pix)

    def uniform(ip, a, k):
        asked.append(1)
        ax = (len(asked) - 1) % 2
        return ip.new(I.ArrC((len(quiet),), [const((Fr(q[ax]) + Fr(1, 2)) / shape[ax]) for q in quiet]))

    def rng(ip, a, k):
        o = ip.new(I.InstC(I.Class('Rng', 'stand-in', {}, ()), {}))
        for m in ('uniform', 'random_sample', 'rand', 'random'):
            ip.setattr(o, m, I.Native(uniform))
        return o

    def smooth_model(ip, a, k):
        b = dict(zip(['image', 'sigma'], a))
        b.update(k)
        smoothed.append(b)
        return img(conv)

    def fit(ip, a, k):
        b = dict(zip(['stamp', 'noise'], a))
        b.update(k)
        s = ip.get(ip.to_arr(b['stamp']))
        calls.append((s.shape, s.vals, b.get('noise')))
        if len(calls) > len(peaks) + 20:
            raise TooMany()
        f = (fits or fitted)(min(len(calls), len(peaks) or 99) - 1)
        return tuple(const(x) for x in f)

    models = {D + 'gaussian_convolve': smooth_model, D + 'fitcentroid': fit, 'numpy.random.RandomState': rng}
    for t in ('astropy.table.Table', 'astropy.table.table.Table'):
        models[t] = lambda ip, a, k: R('refs.table.Table', *a, **{x: v for x, v in k.items() if x in ('names', 'cols')})
    models.update(tree_model([], query))
    ip.models.update(models)
    args = dict(min_counts_per_pixel=const(100), min_counts_per_spot=const(5000), nsig=const(7), psf_sigma=const(Fr(3, 2)))
    args.update(kw or {})
    f = R.f(Q)
    if none:
        try:
            R(f, image, **args)
        except TooMany:
            pass
        except I.Unsupported as e:
            if ip.state is None:
                return c.ok(name('an image without spots is an error'), 'detections', where)
            raise
        return c.bad(name('an image without spots is an error'), 'an image without spots raises an error', where, 'a list is returned')
    try:
        out = R(f, image, **args)
    except TooMany:
        return c.bad(name('detections'), 'each peak above the threshold is measured once', where, 'peaks at %s, more than %d are measured' % (sorted(peaks), len(peaks) + 20))
    for w in ip.warned:
        if w.startswith('desimeter.detectspots'):
            raise I.Unsupported(w)
    # the smoothed image is that of the image given, with the width given
    sm = [b for b in smoothed if ip.to_arr(b['image']) is not None and ip.get(ip.to_arr(b['image'])).vals == ip.get(img(pix)).vals]
    ok = len(smoothed) == 1 and len(sm) == 1 and smoothed[0].get('sigma') is args['psf_sigma']
    (c.ok if ok else c.bad)(name('smoothing'), 'the image is smoothed with the given width', where, '' if ok else 'another image or width')
    level, _ = robust([conv[q] for q in quiet])
    lev2, var = robust([pix[q].data - level for q in quiet])
    expected, seen, fine = [], [], True
    for n, (shp, vals, noise) in enumerate(calls):
        box = stamp(shp, vals, level)
        if isinstance(box, str):
            return c.bad(name('pixels given to the centroid fit'), 'a stamp is a rectangle of the image less its background', where, 'stamp %d: %s' % (n, box))
        (r0, r1), (c0, c1) = box
        mid = (r0 + (r1 - r0) // 2, c0 + (c1 - c0) // 2)
        inside = [p for p in peaks if r0 <= p[0] < r1 and c0 <= p[1] < c1]
        peak = min(inside, key=lambda p: abs(p[0] - mid[0]) + abs(p[1] - mid[1])) if inside else None
        seen.append(peak)
        if peak is not None and (min(peak[0] + 3, n0 - 1) > r1 - 1 or max(peak[0] - 3, 0) < r0 or min(peak[1] + 3, n1 - 1) > c1 - 1 or max(peak[1] - 3, 0) < c0):
            c.bad(name('pixels given to the centroid fit'), 'the pixels around the peak are in its stamp', where, 'peak %s, stamp rows %d to %d and columns %d to %d' % (peak, r0, r1, c0, c1))
            fine = False
        d = tm.equal(noise, fn('sqrt', const(var)), trials=2)
        if d.kind == 'differs':
            c.bad(name('noise given to the centroid fit'), 'noise is the spread of the pixels of the image', where, 'stamp %d: %s, expected sqrt(%s)' % (n, tm.show(noise, 3), var))
            fine = False
        x, y, ex, ey, k = (fits or fitted)(min(n, len(peaks) - 1))
        expected.append((mid[1] + x, mid[0] + y, ex, ey, k))
    if fine:
        c.ok(name('pixels given to the centroid fit'), 'each stamp holds the pixels around the peak', where)
    if sorted(map(str, seen)) == sorted(map(str, peaks)):
        c.ok(name('detections'), 'each peak above the threshold is measured once', where)
    else:
        return c.bad(name('detections'), 'each peak above the threshold is measured once', where, 'peaks at %s, measured %s' % (sorted(peaks), seen))
    least = args['min_counts_per_spot'].data
    rows = [r for r in expected if least <= 0 or r[4] >= least]
    sig = args['psf_sigma'].data
    while True:
        pairs = [(a, b) for a in rows for b in rows if a is not b and (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 < sig ** 2]
        if not pairs:
            break
        rows.remove(min((r for p in pairs for r in p), key=lambda r: r[4]))
    got = []
    for k in ('XPIX', 'YPIX', 'XERR', 'YERR', 'COUNTS'):
        v = ip.known_items(ip.to_arr(ip.getitem(out, strc(k))))
        if v is None or any(x.op != 'c' for x in v):
            raise I.Unsupported('column %s of the list %s' % (k, tm.show(ip.toterm(out),3)))
        got.append([x.data for x in v])
    if len(set(map(len, got))) != 1:
        return c.bad(name('list'), 'columns of the list have one value per spot', where, 'lengths %s' % list(map(len, got)))
    got = sorted(zip(*got))
    show = lambda rr: '; '.join('x %.3f y %.3f xerr %.3f yerr %.3f counts %.0f' % tuple(map(float, r)) for r in rr)
    if got == sorted(rows):
        c.ok(name('list'), 'one row per spot with its position in the image, its uncertainties and its counts', where)
    else:
        c.bad(name('list'), 'one row per spot with its position in the image, its uncertainties and its counts', where, 'got %s; expected %s' % (show([r for r in got if r not in rows]), show([r for r in sorted(rows) if r not in got])))
    same = ip.get(image).vals == ip.get(img(pix)).vals
    (c.ok if same else c.bad)(name('image given'), 'the image of the caller is not changed', where, '' if same else 'it is changed')


def stamp(shp, vals, level):
    """rows and columns of the image a stamp is made of"""
    if len(shp) != 2:
        return 'not a rectangle: shape %s' % (shp,)
    cells = []
    for v in vals:
        s = sorted(tm.symbols(v)) if hasattr(tm, 'symbols') else None
        a = v.args if v.op == '+' else (v,)
        p = [x for x in a if x.op == 'sym' or x.op == 's']
        k = sum((x.data for x in a if x.op == 'c'), Fr(0))
        if len(p) != 1 or len(a) > 2:
            return 'a cell is not a pixel of the image: %s' % tm.show(v, 3)
        if k != -level:
            return 'a background of %s is removed, expected %s' % (float(-k), float(level))
        cells.append(tuple(int(x) for x in p[0].data[0].split('_')[1:3]))
    if not cells:
        return 'it is empty'
    r0, c0 = cells[0]
    if cells != [(r0 + a, c0 + b) for a in range(shp[0]) for b in range(shp[1])]:
        return 'its cells are not consecutive pixels of the image'
    return (r0, r0 + shp[0]), (c0, c0 + shp[1])


def query(ip, b):
    """distances and indices of the nearest points; positions are known numbers"""
    pts = []
    for v in (b['data'], b['x']):
        o = ip.get(ip.to_arr(v))
        if len(o.shape) != 2 or o.shape[1] != 2 or any(x.op != 'c' for x in o.vals):
            raise I.Unsupported('positions of the nearest point search')
        pts.append([(o.vals[2 * i].data, o.vals[2 * i + 1].data) for i in range(o.shape[0])])
    data, x = pts
    k, up = b.get('k', ONE), b.get('distance_upper_bound', None)
    ks = [int(k.data)] if isinstance(k, T) else [int(q.data) for q in ip.known_items(k)]
    scalar = isinstance(k, T) and ks[0] == 1
    want = list(range(1, ks[0] + 1)) if isinstance(k, T) else ks
    D_, N_ = [], []
    for i, p in enumerate(x):
        o = sorted((((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2, j) for j, q in enumerate(data)), key=lambda t: (t[0], t[1] == i))     # the order of equal distances is not specified
        if up is not None:
            o = [t for t in o if t[0] < up.data ** 2]
        for w in want:
            D_.append(fn('sqrt', const(o[w - 1][0])) if w <= len(o) else fn('INF'))
            N_.append(const(o[w - 1][1]) if w <= len(o) else const(len(data)))
    shape = (len(x),) if scalar else (len(x), len(want))
    return (ip.new(I.ArrC(shape, D_)), ip.new(I.ArrC(shape, N_)))
