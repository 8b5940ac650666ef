"""Least squares fits of the plane and distortion models: value graphs of the fits on general points,
decided through the conditions that characterise the least squares solution."""
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
SC = 'desimeter.simplecorr.SimpleCorr'
TC = 'desimeter.fieldmodel.TanCorr'
ZB = 'desimeter.transform.zhaoburge.'
N = 6


def run(c):
    c.floor = 100
    c.guard(planar, c)
    c.guard(tangent, c)
    c.guard(quadrants, c)
    c.guard(distortion, c)
    c.guard(circle, c)
    c.guard(refined_circle, c)
    c.guard(robust_circle, c)
    c.guard(objective, c)
    return ''


def points(R, names, n=N):
    return [R.arr(*[sym('%s%d' % (v, i)) for i in range(n)]) for v in names]


def dom(lo, hi, **more):
    d = {}
    for v in ('x', 'y'):
        for k in '12':
            for i in range(N):
                d['%s%s%d' % (v, k, i)] = (lo, hi)
    d.update(more)
    return d


def tot(*ts):
    return add(*ts)


def residual_conditions(R, x1, y1, p, q, x2, y2, full):
    """quantities that vanish at the least squares solution"""
    X1, Y1, P, Q, X2, Y2 = [R.comps(v) for v in (x1, y1, p, q, x2, y2)]
    rx = [sub(a, b) for a, b in zip(P, X2)]
    ry = [sub(a, b) for a, b in zip(Q, Y2)]
    out = [('mean x residual', tot(*rx)), ('mean y residual', tot(*ry))]
    if full:
        out += [('x residual against %s' % n, tot(*[mul(a, b) for a, b in zip(rx, v)])) for n, v in (('x', X1), ('y', Y1))]
        out += [('y residual against %s' % n, tot(*[mul(a, b) for a, b in zip(ry, v)])) for n, v in (('x', X1), ('y', Y1))]
    else:
        # derivative with respect to a rotation about the origin of the prediction
        out += [('residual against a rotation', tot(*[sub(mul(b, u), mul(a, v)) for a, b, u, v in zip(rx, ry, P, Q)]))]
    return out, rx, ry


def planar(c):
    zero = const(0)
    for name, full, scale in (('fit', True, 1.), ('fit_rotoff', False, 1.)):
        R = c.runner()
        q = SC + '.' + name
        x1, y1, x2, y2 = points(R, ('x1', 'y1', 'x2', 'y2'))
        o = R(SC)
        R.method(o, name, x1, y1, x2, y2)
        p, r = R.method(o, 'apply', x1, y1)
        conds, rx, ry = residual_conditions(R, x1, y1, p, r, x2, y2, full)
        d = dom(-3, 3)
        for n, t in conds:
            R.same('planar %s: %s is zero' % (name, n), 'normal equations', q, t, zero, dom=d, tol=1e-6, prove=False, absolute=True)
        ms = div(tot(*[add(mul(a, a), mul(b, b)) for a, b in zip(rx, ry)]), const(N))
        R.same('planar %s: reported rms is that of the residuals' % name, 'reference graph', q, R.attr(o, 'rms'), fn('sqrt', ms), dom=d, tol=1e-7, prove=False)
        R.same('planar %s: reported number of points' % name, 'reference graph', q, R.attr(o, 'nmatch'), const(N), dom=d, tol=1e-9, prove=False)


def tangent(c):
    """tangent plane correction: recovers the correction that relates two sets of positions"""
    R = c.runner()
    q = TC + '.fit'
    n = N
    x1, y1 = points(R, ('x1', 'y1'))
    true = R(TC)
    names = ('dha', 'ddec', 'sxx', 'syy', 'sxy', 'rot_deg')
    for k in names:
        R.ip.setattr(true, k, sym(k))
    x2, y2 = R.method(true, 'apply', x1, y1)
    o = R(TC)
    R.method(o, 'fit', x1, y1, x2, y2)
    d = dom(-0.026, 0.026, dha=(-0.01, 0.01), ddec=(-0.01, 0.01), sxx=(0.9995, 1.0005), syy=(0.9995, 1.0005), sxy=(-5e-4, 5e-4), rot_deg=(-0.5, 0.5))
    p, r = R.method(o, 'apply', x1, y1)
    for nm, a, b in (('x', p, x2), ('y', r, y2)):
        R.same('tangent plane fit: the fitted correction predicts %s' % nm, 'recovery of the generating model', q, a, b, dom=d, tol=1e-6, prove=False, absolute=True)
    R.same('tangent plane fit: reported number of stars', 'reference graph', q, R.attr(o, 'nstars'), const(n), dom=d, tol=1e-9, prove=False)


def quadrants(c):
    """fitted rotations of zero and of multiples of 90 degrees, with positions for which the arithmetic is exact,
    by an object that had been fitted before"""
    pts = [(2, 0), (-2, 0), (0, 2), (0, -2)]
    for quarter in range(4):
        co, si = [(1, 0), (0, 1), (-1, 0), (0, -1)][quarter]
        for cls, sxx, syy, scale in ((SC, 1.5, 0.5, 1.), (SC, 1., 1., 1.)) + (((TC, 1.5, 0.5, 2. ** -12),)):
            R = c.runner(models={'desimeter.fieldmodel.' + k: plane for k in ('xy2hadec', 'hadec2xy')} if cls is TC else None)
            o = R(cls)
            R.ip.setattr(o, 'rot_deg', const(30.))
            x1 = [const(scale * x) for x, y in pts]
            y1 = [const(scale * y) for x, y in pts]
            x2 = [const(scale * sxx * (co * x - si * y)) for x, y in pts]
            y2 = [const(scale * syy * (si * x + co * y)) for x, y in pts]
            R.method(o, 'fit', R.arr(*x1), R.arr(*y1), R.arr(*x2), R.arr(*y2))
            p, r = R.method(o, 'apply', R.arr(*x1), R.arr(*y1))
            tag = '%s fit of a rotation by %d deg, scales %g and %g' % ('planar' if cls is SC else 'tangent plane', 90 * quarter, sxx, syy)
            for nm, a, b in (('x', p, x2), ('y', r, y2)):
                R.same('%s: predicts %s' % (tag, nm), 'recovery of the generating model', cls + '.fit', a, tuple(b), tol=1e-9, absolute=True, prove=False)


def plane(ip, args, kw):
    """stand-in for the conversions between directions and tangent plane coordinates at zero pointing offset"""
    b = dict(zip(['x', 'y', 'dha', 'ddec'], args))
    b.update(kw)
    return (args[0], args[1])


def distortion(c):
    """distortion fits: normal equations for the requested terms"""
    q = ZB + 'fitZhaoBurge'
    n = 8
    for polids in ((0, 1, 2, 27), (0, 1, 2, 3, 4, 5, 6, 9, 20, 27, 28, 29, 30), (2, 5, 6, 9, 20, 28, 29, 30), None):
        R = c.runner()
        x, y, xp, yp = points(R, ('x1', 'y1', 'x2', 'y2'), n)
        ids = R.arr(*[const(i) for i in polids]) if polids else NONE
        got = R(q, x, y, xp, yp, ids)
        ids, co = got
        ids = R.comps(ids)
        co = R.comps(co)
        tag = 'distortion fit of %d terms' % len(ids)
        if polids is None:
            tag += ' (default)'
        d = {}
        for i in range(n):
            for v in ('x1', 'y1', 'x2', 'y2'):
                d['%s%d' % (v, i)] = (-0.9, 0.9)
        if len(ids) != len(co) or polids and len(ids) != len(polids):
            c.bad(tag + ': one coefficient per term', 'normal equations', R.where(q), '%d terms requested, %d returned, %d coefficients' % (len(polids or ids), len(ids), len(co)))
            continue
        cols = []
        for k in ids:
            a, b, _ = R(ZB + 'getZhaoBurgeTerm', k, x, y)
            wide = lambda v: v * n if len(v) == 1 else v
            cols.append((wide(R.comps(a)), wide(R.comps(b))))
        X, Y, XP, YP = [R.comps(v) for v in (x, y, xp, yp)]
        rx = [sub(sub(XP[i], X[i]), add(*[mul(k, u[0][i]) for k, u in zip(co, cols)])) for i in range(n)]
        ry = [sub(sub(YP[i], Y[i]), add(*[mul(k, u[1][i]) for k, u in zip(co, cols)])) for i in range(n)]
        for k, (u, v) in zip(ids, cols):
            t = add(*[add(mul(rx[i], u[i]), mul(ry[i], v[i])) for i in range(n)])
            R.same('%s: residual against term %s is zero' % (tag, tm.show(k)), 'normal equations', q, t, const(0), dom=d, tol=1e-5, prove=False, absolute=True)
    # both directions of the platemaker mapping
    DM = 'desimeter.transform.dm2pm.DM2PM'
    calls = []

    def model(ip, args, kw):
        b = dict(zip(['x', 'y', 'xp', 'yp', 'polids'], args))
        b.update(kw)
        calls.append(b)
        return (b.get('polids', NONE), fn('coef', *[ip.toterm(b[k]) for k in ('x', 'y', 'xp', 'yp')]))
    R = c.runner(models={q: model})
    o = R(DM)
    v = [sym(k, ['N']) for k in ('xdm', 'ydm', 'xpm', 'ypm')]
    R.method(o, 'fit', *v)
    w = [div(t, const(420)) for t in v]
    R.same('platemaker mapping: coefficients from desimeter to platemaker', 'reference graph', DM + '.fit', R.attr(o, 'dm2pm_zbcoeffs'), fn('coef', *w))
    R.same('platemaker mapping: coefficients from platemaker to desimeter', 'reference graph', DM + '.fit', R.attr(o, 'pm2dm_zbcoeffs'), fn('coef', w[2], w[3], w[0], w[1]))


def circle(c):
    """points of a circle give its centre and radius"""
    q = 'desimeter.circles.'
    for n in (3, 4, 5, 6, 7, 8):
        R = c.runner()
        a = [add(sym('a%d' % i), const(i * 6.28 / n)) for i in range(n)]
        xc, yc, r = sym('xc'), sym('yc'), sym('r')
        x = R.arr(*[add(xc, mul(r, fn('cos', t))) for t in a])
        y = R.arr(*[add(yc, mul(r, fn('sin', t))) for t in a])
        d = dict([('a%d' % i, (-0.3, 0.3)) for i in range(n)], xc=(-400, 400), yc=(-400, 400), r=(2.5, 3.5))
        R.same('circle through %d points' % n, 'recovery of the generating model', q + '_fast_fit_circle', R(q + '_fast_fit_circle', x, y), (xc, yc, r), dom=d, tol=1e-7, prove=False)


def optimizer(seen):
    """stand-in for scipy.optimize.minimize: records the function that is minimised, at free parameters"""
    def model(ip, args, kw):
        b = dict(zip(['fun', 'x0', 'args'], args))
        b.update(kw)
        x0 = ip.known_items(ip.to_arr(b['x0']))
        x = ip.new(I.ArrC((len(x0),), [sym('p%d' % i) for i in range(len(x0))]))
        extra = b.get('args', ())
        extra = ip.known_items(extra) if not isinstance(extra, T) else [extra]
        seen.append((ip.call(b['fun'], [x] + list(extra), {}, None), [ip.toterm(v) for v in x0], set(b) - {'fun', 'x0', 'args'}))
        r = sym('fit', any=True)
        ip.set_overlay(r, ('a', 'x'), x)
        return r
    return model


def objective(c):
    """the quantity minimised by the scale, rotation, offset fit is the misfit of the parameters that are returned"""
    q = ZB + 'fit_scale_rotation_offset'
    n = 3
    for fs in (False, True):
        for fr in (False, True):
            for zb in (False, True):
                seen = []
                R = c.runner(models={'scipy.optimize.minimize': optimizer(seen)})
                x, y, xp, yp = points(R, ('x1', 'y1', 'x2', 'y2'), n)
                kw = {}
                if fs:
                    kw['fixed_scale'] = sym('fixed_scale')
                if fr:
                    kw['fixed_rotation'] = sym('fixed_rotation')
                ids, co = R.arr(const(2), const(5), const(28)), R.arr(sym('c0'), sym('c1'), sym('c2'))
                if zb:
                    kw.update(zbpolids=ids, zbcoeffs=co)
                tag = 'scale rotation offset fit%s%s%s' % (' fixed scale' if fs else '', ' fixed rotation' if fr else '', ' with distortion' if zb else '')
                got = R(q, x, y, xp, yp, **kw)
                if len(seen) != 1:
                    c.undecided(tag, 'objective of the fit', R.where(q), 'not one call of the optimiser')
                    continue
                par = R.comps(got)
                if len(par) != 4:
                    c.bad(tag, 'objective of the fit', R.where(q), '%d values returned, expected 4' % len(par))
                    continue
                more = dict(zbpolids=ids, zbcoeffs=co) if zb else {}
                px, py = R(ZB + 'transform', x, y, *par, **more)
                want = tot(*[mul(sub(a, b), sub(a, b)) for u, v in ((px, xp), (py, yp)) for a, b in zip(R.comps(u), R.comps(v))])
                d = dom(-1, 1, p0=(0.9, 1.1), p1=(-3, 3), p2=(-0.1, 0.1), p3=(-0.1, 0.1), fixed_scale=(0.9, 1.1), fixed_rotation=(-3, 3), c0=(-.01, .01), c1=(-.01, .01), c2=(-.01, .01))
                fun = seen[0][0]
                # a fixed parameter has a penalty for the unused optimiser variable: only that may be added
                penalty = {}
                if fs:
                    penalty[sym('p0')] = sym('fixed_scale')
                if fr:
                    penalty[sym('p1')] = sym('fixed_rotation')
                if isinstance(fun, T) and penalty:
                    fun = tm.subst(fun, penalty)
                R.same(tag + ': minimised quantity is the sum of squared residuals of the result', 'objective of the fit', q, fun, want, dom=d, tol=1e-9)
                for nm, k, on in (('scale', 0, fs), ('rotation', 1, fr)):
                    if on:
                        R.same('%s: the fixed %s is returned' % (tag, nm), 'reference graph', q, par[k], kw['fixed_' + nm])
    # followed by the distortion fit
    calls = []

    def zbmodel(ip, args, kw):
        b = dict(zip(['x', 'y', 'xp', 'yp', 'polids'], args))
        b.update(kw)
        return (b.get('polids', NONE), fn('coef', *[ip.toterm(b[k]) for k in ('x', 'y', 'xp', 'yp')]))
    for given in (False, True):
        seen = []
        R = c.runner(models={'scipy.optimize.minimize': optimizer(seen), ZB + 'fitZhaoBurge': zbmodel})
        x, y, xp, yp = [sym(k, ['N']) for k in ('x1', 'y1', 'x2', 'y2')]
        kw = dict(zbpolids=R.arr(const(2), const(5), const(28)), zbcoeffs=R.arr(sym('c0'), sym('c1'), sym('c2'))) if given else {}
        got = R(q, x, y, xp, yp, fitzb=TRUE, **kw)
        tag = 'scale rotation offset fit, then distortion%s' % (' (given terms)' if given else '')
        px, py = R(ZB + 'transform', x, y, *[sym('p%d' % i) for i in range(4)])
        R.same(tag, 'reference graph', q, got, tuple([sym('p%d' % i) for i in range(4)] + [kw.get('zbpolids', NONE), fn('coef', px, py, xp, yp)]))


def robust_circle(c):
    """points off the circle are left out one by one, the worst first"""
    q = 'desimeter.circles.robust_fit_circle'
    rule = 'points kept in the fit'
    F = Fraction
    good = [F(k, 1000) for k in (3, -4, 2, 5, -1, 6, -3, 4, -5, 1, 7, -2)]
    for tag, off, kw, out in (('no outlier', {}, {}, ()), ('one outlier', {3: 2}, {}, (3,)), ('three outliers', {0: 2, 5: -1, 11: F(3, 2)}, {}, (0, 5, 11)),
                              ('deviation below the smallest error', {2: F(9, 100)}, {}, ()), ('deviation below a larger smallest error', {2: F(3, 10), 4: 1}, dict(minerr=const(F(1, 2))), (4,)),
                              ('wide scatter', {k: F((-1) ** k * (k + 5), 40) for k in range(12)}, {}, ()), ('smaller limit', {k: F((-1) ** k * (20 + k), 100) for k in range(11)}, dict(nsig=const(1)), None)):
        dev = [off.get(k, g) for k, g in enumerate(good)]
        seen = []
        R = c.runner(models={'desimeter.circles._fast_fit_circle': lambda ip, a, kw: (ZERO, ZERO, const(3)),
                             'desimeter.circles.fit_circle': lambda ip, a, kw: seen.append([ip.known_items(ip.to_arr(v)) for v in a[:2]]) or (sym('xc'), sym('yc'), sym('r'))})
        ax = [((1, 0), (0, 1), (-1, 0), (0, -1))[k % 4] for k in range(12)]
        X, Y = [[const(a[j] * (3 + d)) for a, d in zip(ax, dev)] for j in (0, 1)]
        if out is None:
            # with a limit of one scatter every round leaves out the worst until the others are within it
            keep = list(range(12))
            res = [abs(d) for d in dev]
            rms = F(1483, 1000) * (sorted(res)[5] + sorted(res)[6]) / 2
            out = [k for k in range(12) if res[k] >= rms]
        where = R.where(q)
        try:
            got = R(q, R.arr(*X), R.arr(*Y), **kw)
        except I.RowError as e:
            c.bad('robust circle, %s' % tag, rule, where, str(e))
            continue
        kept = [k for k in range(12) if k not in out]
        R.same('robust circle, %s: result' % tag, rule, q, got[:3], (sym('xc'), sym('yc'), sym('r')))
        R.same('robust circle, %s: points reported' % tag, rule, q, got[3], tuple(TRUE if k in kept else FALSE for k in range(12)))
        if len(seen) != 1 or seen[0][0] is None:
            c.undecided('robust circle, %s: points fitted' % tag, rule, where, 'not one refined fit of known points')
        else:
            R.same('robust circle, %s: points fitted' % tag, rule, q, tuple(num(t) for v in seen[0] for t in v), tuple(v[k] for v in (X, Y) for k in kept))


def refined_circle(c):
    """refinement of the circle: residuals are the deviations of the radii from their mean, with their derivatives"""
    q = 'desimeter.circles.fit_circle'
    n = 5
    seen = []
    cx, cy = sym('cx'), sym('cy')

    def model(ip, args, kw):
        b = dict(zip(['func', 'x0', 'args', 'Dfun'], args))
        b.update(kw)
        p = ip.new(I.ArrC((2,), [cx, cy]))
        seen.append((ip.call(b['func'], [p], {}, None), ip.call(b['Dfun'], [p], {}, None) if b.get('Dfun', NONE) is not NONE else None, b.get('col_deriv', FALSE)))
        return (p, sym('ier'))
    R = c.runner(models={'scipy.optimize.leastsq': model})
    x, y = points(R, ('x1', 'y1'), n)
    got = R(q, x, y)
    X, Y = R.comps(x), R.comps(y)
    rad = [fn('sqrt', add(mul(sub(a, cx), sub(a, cx)), mul(sub(b, cy), sub(b, cy)))) for a, b in zip(X, Y)]
    mean = div(tot(*rad), const(n))
    d = dom(-3, 3, cx=(-1, 1), cy=(-1, 1))
    R.same('circle refinement: centre and radius are those of the optimum', 'reference graph', q, got, (cx, cy, mean), dom=d, tol=1e-9)
    if len(seen) != 1:
        c.undecided('circle refinement', 'objective of the fit', R.where(q), 'not one call of the optimiser')
        return
    f, df, col = seen[0]
    R.same('circle refinement: residuals are deviations of the radii from the mean radius', 'objective of the fit', q, f, tuple(sub(r, mean) for r in rad), dom=d, tol=1e-9)
    if df is None:
        return
    f, df = R.comps(f), R.comps(df)
    ders = [[tm.diff(r, v) for r in f] for v in (cx, cy)]
    if any(v is None for r in ders for v in r):
        c.undecided('circle refinement: derivatives', 'symbolic derivative', R.where(q), 'derivative not available')
        return
    if col is TRUE:
        want = ders[0] + ders[1]
    else:
        want = [ders[k][i] for i in range(n) for k in range(2)]
    R.same('circle refinement: the given derivatives are those of the residuals', 'symbolic derivative', q, tuple(df), tuple(want), dom=d, tol=1e-8, prove=False)
