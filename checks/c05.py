"""Focal plane mappings: each mapping's value graph against its documented steps, each
mapping composed with its inverse against the identity (for an arbitrary small smooth
distortion field), and the array-wide form against the per-petal form."""
from sa.terms import *
from sa.terms import strc, strval, walk
from sa import interp as I
from sa import terms as tm
from checks.c03 import D, sd, cd
FIELD = {'coef:1', 'coef:2'}
FV = 'desimeter.transform.fvc2fp.'
ZB = 'desimeter.transform.zhaoburge.'
DP = 'desimeter.transform.dm2pm.'
PF = 'desimeter.transform.ptl2fp.'
GF = 'desimeter.transform.gfa2fp.'
RT = 'desimeter.transform.tan2fp.raytracefit.'
EC = 'desimeter.transform.tan2fp.echo22.'
DOM = dict(x=(-400, 400), y=(-400, 400), z=(-20, 5), xpix=(100, 5900), ypix=(100, 5900), scale=(0.9, 1.1), rotation=(-3, 3), offset_x=(-0.02, 0.02), offset_y=(-0.02, 0.02),
           xfvc_scale=(-3500, -2500), yfvc_scale=(2500, 3500), xfvc_offset=(2900, 3100), yfvc_offset=(2900, 3100),
           u=(-0.9, 0.9), v=(-0.9, 0.9), xt=(-0.027, 0.027), yt=(-0.027, 0.027), adc1=(-350, 350), adc2=(-350, 350),
           alpha=(-0.1, 0.1), beta=(-0.1, 0.1), gamma=(-3.1, 3.1), Tx=(-2, 2), Ty=(-2, 2), Tz=(-30, 30), amp=(-0.004, 0.004), xg=(0, 2047), yg=(0, 1031))


def surface_tables():
    """numeric interpretation of the focal surface conversions, from the data table itself"""
    import os
    from sa import ctx
    rows = []
    for l in open(os.path.join(ctx.REPO, 'py/desimeter/data/focal_surface_lookup.csv')):
        try:
            rows.append([float(v) for v in l.split(',')])
        except ValueError:
            pass
    cols = dict(zip('rzsn', zip(*rows)))
    def lin(xs, ys):
        pts = sorted(zip(xs, ys))
        def f(v):
            if not pts[0][0] <= v <= pts[-1][0]:
                raise ValueError(v)
            lo, hi = 0, len(pts) - 1
            while hi - lo > 1:
                m = (lo + hi) // 2
                if pts[m][0] <= v:
                    lo = m
                else:
                    hi = m
            (a, b), (c, d) = pts[lo], pts[hi]
            return b + (d - b) * (v - a) / (c - a) if c != a else b
        return f
    return {'desimeter.transform.rszn_lookups.%s2%s' % (a, b): lin(cols[a], cols[b]) for a in cols for b in cols if a != b}


def run(c):
    c.floor = 30
    tm.CONCRETE.update(surface_tables())
    c.guard(reduced, c)
    c.guard(fvc, c)
    c.guard(dm2pm, c)
    c.guard(petal, c)
    c.guard(raytrace, c)
    c.guard(echo, c)
    c.guard(gfa, c)
    c.guard(tangent, c)
    c.assumptions += ['round trips through a distortion are decided for distortion fields of amplitude below 1% of the field radius (the fixed-point inversion is a contraction there)']


def zbmodel(ip, args, kw):
    """an arbitrary smooth small field depending on the term list, the coefficients and the position"""
    names = ['polids', 'coeffs', 'x', 'y']
    b = dict(zip(names, args))
    b.update(kw)
    p, q = ip.toterm(b['polids']), ip.toterm(b['coeffs'])
    x, y = b['x'], b['y']
    def one(k, s, t):
        a = mul(sym('amp'), fn('coef:%d' % k, p, q))
        return mul(a, fn('sin', add(mul(const(s), x), mul(const(t), y), const(k))))
    return (one(1, 1.1, 0.6), one(2, -0.7, 1.3))


def rot(a, x, y):
    return sub(mul(fn('cos', a), x), mul(fn('sin', a), y)), add(mul(fn('sin', a), x), mul(fn('cos', a), y))


def transform_ref(zb, x, y, s, r, ox, oy, p, q):
    x, y = rot(r, add(x, ox), add(y, oy))
    x, y = mul(s, x), mul(s, y)
    if zb is not None:
        dx, dy = zb(None_ip, [p, q, x, y], {})
        x, y = add(x, dx), add(y, dy)
    return x, y


class _Ip(object):
    def toterm(self, v):
        return v


None_ip = _Ip()


def reduced(c):
    """fitted transform in reduced coordinates: offset, rotation, scale, then distortion"""
    R = c.runner(models={ZB + 'getZhaoBurgeXY': zbmodel})
    d = ['N']
    x, y = sym('u', d), sym('v', d)
    s, r, ox, oy, p, q = [sym(n) for n in ('scale', 'rotation', 'offset_x', 'offset_y', 'zbpolids', 'zbcoeffs')]
    R.same('reduced transform without distortion', 'reference graph', ZB + 'transform', R(ZB + 'transform', x, y, s, r, ox, oy), transform_ref(None, x, y, s, r, ox, oy, p, q), dom=DOM, tol=1e-10)
    R.same('reduced transform with distortion', 'reference graph', ZB + 'transform', R(ZB + 'transform', x, y, s, r, ox, oy, p, q), transform_ref(zbmodel, x, y, s, r, ox, oy, p, q), dom=DOM, tol=1e-10)


def fvc(c):
    R = c.runner(models={ZB + 'getZhaoBurgeXY': zbmodel})
    d = ['N']
    o = R(FV + 'FVC2FP')
    a = {}
    for n in ('scale', 'rotation', 'offset_x', 'offset_y', 'zbpolids', 'zbcoeffs', 'xfvc_scale', 'yfvc_scale', 'xfvc_offset', 'yfvc_offset'):
        a[n] = sym(n)
        R.ip.setattr(o, n, a[n])
    xp, yp, x, y = sym('xpix', d), sym('ypix', d), sym('x', d), sym('y', d)
    f = R.method(o, 'fvc2fp', xp, yp)
    u = div(sub(xp, a['xfvc_offset']), a['xfvc_scale'])
    v = div(sub(yp, a['yfvc_offset']), a['yfvc_scale'])
    w = transform_ref(zbmodel, u, v, a['scale'], a['rotation'], a['offset_x'], a['offset_y'], a['zbpolids'], a['zbcoeffs'])
    R.same('camera pixels to focal plane', 'reference graph', FV + 'FVC2FP.fvc2fp', f, tuple(mul(const(420), t) for t in w), dom=DOM, tol=1e-9, prove=False)
    b = R.method(o, 'fp2fvc', *R.ip.unpack(f, 2))
    R.same('camera pixels -> focal plane -> camera pixels', 'inverse composition', FV + 'FVC2FP.fp2fvc', b, (xp, yp), dom=DOM, tol=1e-9, prove=False, skeleton=FIELD)
    b = R.method(o, 'fvc2fp', *R.ip.unpack(R.method(o, 'fp2fvc', x, y), 2))
    R.same('focal plane -> camera pixels -> focal plane', 'inverse composition', FV + 'FVC2FP.fp2fvc', b, (x, y), dom=DOM, tol=1e-9, prove=False, skeleton=FIELD)


def dm2pm(c):
    R = c.runner(models={ZB + 'getZhaoBurgeXY': zbmodel})
    o = R(DP + 'DM2PM')
    p, q1, q2 = sym('zbpolids'), sym('dm2pm_zbcoeffs'), sym('pm2dm_zbcoeffs')
    for n, t in (('zbpolids', p), ('dm2pm_zbcoeffs', q1), ('pm2dm_zbcoeffs', q2)):
        R.ip.setattr(o, n, t)
    x, y = sym('x', ['N']), sym('y', ['N'])
    for n, q in (('dm2pm', q1), ('pm2dm', q2)):
        u, v = div(x, const(420)), div(y, const(420))
        dx, dy = zbmodel(None_ip, [p, q, u, v], {})
        R.same('platemaker conversion %s adds its own distortion' % n, 'reference graph', DP + 'DM2PM.' + n, R.method(o, n, x, y), (mul(const(420), add(u, dx)), mul(const(420), add(v, dy))), dom=DOM, tol=1e-9, prove=False)
    # fit: each direction is fitted on its own pair of reduced coordinates
    calls = []

    def fit(ip, args, kw):
        b = dict(zip(['x', 'y', 'xp', 'yp', 'polids'], args))
        b.update(kw)
        calls.append([ip.toterm(b[k]) for k in ('x', 'y', 'xp', 'yp', 'polids')])
        return (b['polids'], fn('fitted', *calls[-1]))
    R = c.runner(models={ZB + 'fitZhaoBurge': fit})
    o = R(DP + 'DM2PM')
    R.ip.setattr(o, 'zbpolids', p)
    xs = [sym(n, ['N']) for n in ('x', 'y', 'x2', 'y2')]
    R.method(o, 'fit', *xs)
    k = const(420)
    red = [div(t, k) for t in xs]
    R.same('fit of the forward platemaker conversion', 'reference graph', DP + 'DM2PM.fit', R.attr(o, 'dm2pm_zbcoeffs'), fn('fitted', red[0], red[1], red[2], red[3], p), dom=DOM)
    R.same('fit of the reverse platemaker conversion', 'reference graph', DP + 'DM2PM.fit', R.attr(o, 'pm2dm_zbcoeffs'), fn('fitted', red[2], red[3], red[0], red[1], p), dom=DOM)


KEYS = ('alpha', 'beta', 'gamma', 'Tx', 'Ty', 'Tz')


def rxyz(a, b, g, v):
    x, y, z = v
    s, k = (lambda t: fn('sin', t)), (lambda t: fn('cos', t))
    y, z = sub(mul(k(a), y), mul(s(a), z)), add(mul(s(a), y), mul(k(a), z))
    x, z = add(mul(k(b), x), mul(s(b), z)), sub(mul(k(b), z), mul(s(b), x))
    x, y = sub(mul(k(g), x), mul(s(g), y)), add(mul(s(g), x), mul(k(g), y))
    return x, y, z


def petal(c):
    al = sym('alignment')
    dom = dict(DOM)
    par = lambda p: [fn('item', fn('item', al, p), strc(k)) for k in KEYS]
    R = c.runner(opaque=['desimeter.transform.rszn_lookups.r2z'], models={'desimeter.io.load_petal_alignement': lambda ip, a, kw: al})
    for p in (3, 7):
        P = par(const(p))
        for vec in (True, False):
            d = ['N'] if vec else []
            x, y, z = [sym(n, d) for n in ('x', 'y', 'z')]
            t = ' (petal %d, %s)' % (p, 'arrays' if vec else 'scalars')
            for withz in (True, False):
                zz = z if withz else fn('desimeter.transform.rszn_lookups.r2z', fn('sqrt', add(mul(x, x), mul(y, y))))
                args = [const(p), x, y] + ([z] if withz else [])
                tt = t + (' with z' if withz else ' with nominal z')
                f = R(PF + 'ptl2fp', *args)
                r = rxyz(P[0], P[1], P[2], (x, y, zz))
                R.same('petal to focal plane' + tt, 'reference graph', PF + 'ptl2fp', f, tuple(add(u, w) for u, w in zip(r, P[3:])), dom=dom, tol=1e-9, prove=False)
                b = R(PF + 'fp2ptl', *args)
                # inverse: rotate the components back one by one
                v = [sub(u, w) for u, w in zip((x, y, zz), P[3:])]
                cols = [rxyz(P[0], P[1], P[2], e) for e in ((ONE, ZERO, ZERO), (ZERO, ONE, ZERO), (ZERO, ZERO, ONE))]
                R.same('focal plane to petal' + tt, 'reference graph', PF + 'fp2ptl', b, tuple(add(*[mul(m, q) for m, q in zip(col, v)]) for col in cols), dom=dom, tol=1e-9, prove=False)
            R.same('petal -> focal plane -> petal' + t, 'inverse composition', PF + 'fp2ptl', R(PF + 'fp2ptl', const(p), *R.ip.unpack(R(PF + 'ptl2fp', const(p), x, y, z), 3)), (x, y, z), dom=dom, tol=1e-9, prove=False)
    # array-wide form
    n = ['N']
    t = I.DictC({})
    cols = dict(PETAL_LOC=sym('petal', n, integer=True, lo=0, hi=9), X_PTL=sym('x', n), Y_PTL=sym('y', n), Z_PTL=sym('z', n))
    tab = R.ip.new(I.DictC(dict(cols)))
    r = R(PF + 'apply_ptl2fp', tab)
    P = par(cols['PETAL_LOC'])
    want = [add(u, w) for u, w in zip(rxyz(P[0], P[1], P[2], (cols['X_PTL'], cols['Y_PTL'], cols['Z_PTL'])), P[3:])]
    out = R.ip.get(r)
    for k, w in zip(('X_FP', 'Y_FP', 'Z_FP'), want):
        R.same('array-wide petal to focal plane, %s' % k, 'row agreement', PF + 'apply_ptl2fp', out.items[k], w, dom=dom, tol=1e-9, prove=False)


def raytrace(c):
    names = ('scale', 'rotation', 'offset_x', 'offset_y', 'zbc')
    dl = lambda a1, a2: fn('mod', sub(a2, a1), const(360))

    def coeffs(ip, args, kw):
        b = dict(zip(['self', 'adc1', 'adc2'], args))
        b.update(kw)
        return tuple(sym(n) if n != 'zbc' else fn('zbc', b['adc1'], b['adc2']) for n in names)
    R = c.runner(models={ZB + 'getZhaoBurgeXY': zbmodel, RT + 'TAN2FP_RayTraceFit.interpolate_coeffs': coeffs})
    o = R(RT + 'TAN2FP_RayTraceFit')
    pid = sym('zbpolids')
    R.ip.setattr(o, 'zbpolids', pid)
    d = ['N']
    x, y, xt, yt = sym('x', d), sym('y', d), sym('xt', d), sym('yt', d)
    a1, a2 = sym('adc1'), sym('adc2')
    # mean angle of the corrector, halfway between the two skinny ends
    sn = lambda t: fn('sin', mul(D, t))
    cs = lambda t: fn('cos', mul(D, t))
    e1, e2 = add(a1, const(90)), sub(a2, const(90))
    mean = div(fn('atan2', add(sn(e1), sn(e2)), add(cs(e1), cs(e2))), D)
    rule = fn('mod', ite(eq(fn('mod', sub(a1, a2), const(360)), ZERO), a1, mean), const(360))
    got = R(RT + 'average_angles_adc', a1, a2)
    R.same('mean corrector angle', 'reference graph', RT + 'average_angles_adc', got, rule, dom=DOM, tol=1e-8, period=360, prove=False)
    eqd = dict(DOM)
    R.same('mean corrector angle, equal angles', 'reference graph', RT + 'average_angles_adc', R(RT + 'average_angles_adc', a1, a1), fn('mod', a1, const(360)), dom=eqd, tol=1e-8, period=360, prove=False)
    R.same('mean corrector angle, angles one turn apart', 'reference graph', RT + 'average_angles_adc', R(RT + 'average_angles_adc', a1, add(a1, const(360))), fn('mod', a1, const(360)), dom=dict(adc1=lambda r: float(r.randint(-350, 350))), tol=1e-8, period=360, prove=False)
    R.same('corrector angle difference', 'reference graph', RT + 'delta_angles_adc', R(RT + 'delta_angles_adc', a1, a2), dl(a1, a2), dom=DOM, tol=1e-9, prove=False)
    s, r, ox, oy = [sym(n) for n in names[:4]]
    q = fn('zbc', a1, a2)
    m = mul(D, got) if isinstance(got, T) else None
    f = R.method(o, 'tan2fp', xt, yt, a1, a2)
    k = const(0.027)
    u, v = rot(neg(m), div(xt, k), div(yt, k))
    u, v = transform_ref(zbmodel, u, v, s, r, ox, oy, pid, q)
    u, v = rot(m, u, v)
    R.same('tangent plane to focal plane (ray trace fit)', 'reference graph', RT + 'TAN2FP_RayTraceFit.tan2fp', f, (mul(const(420), u), mul(const(420), v)), dom=DOM, tol=1e-9, prove=False)
    b = R.method(o, 'fp2tan', *(R.ip.unpack(f, 2) + [a1, a2]))
    R.same('tangent plane -> focal plane -> tangent plane', 'inverse composition', RT + 'TAN2FP_RayTraceFit.fp2tan', b, (xt, yt), dom=DOM, tol=1e-10, absolute=True, prove=False, skeleton=FIELD | {'zbc'})
    f = R.method(o, 'tan2fp', *(R.ip.unpack(R.method(o, 'fp2tan', x, y, a1, a2), 2) + [a1, a2]))
    R.same('focal plane -> tangent plane -> focal plane', 'inverse composition', RT + 'TAN2FP_RayTraceFit.fp2tan', f, (x, y), dom=DOM, tol=1e-8, absolute=True, prove=False, skeleton=FIELD | {'zbc'})
    # module level functions hand over to the same model
    for m in ('tan2fp', 'fp2tan'):
        R = c.runner(opaque=[RT + 'TAN2FP_RayTraceFit.tan2fp', RT + 'TAN2FP_RayTraceFit.fp2tan'])
        o = R(RT + 'TAN2FP_RayTraceFit')
        R.ip.models[RT + 'get_raytracefit'] = lambda ip, a, kw: o
        got = R(RT + m, x, y, a1, a2)
        R.same('shared ray trace model: ' + m, 'reference graph', RT + m, got, R.method(o, m, x, y, a1, a2), dom=DOM)


def echo(c):
    R = c.runner(opaque=[EC + 'radius2theta', EC + 'theta2radius'])
    d = ['N']
    x, y, xt, yt = sym('x', d), sym('y', d), sym('xt', d), sym('yt', d)
    r = fn('sqrt', add(mul(xt, xt), mul(yt, yt)))
    rad = fn(EC + 'theta2radius', div(fn('asin', r), D))
    R.same('nominal model keeps the azimuth, tangent plane to focal plane', 'reference graph', EC + 'tan2fp', R(EC + 'tan2fp', xt, yt), (mul(rad, div(xt, r)), mul(rad, div(yt, r))), dom=DOM, tol=1e-9, prove=False)
    r = fn('sqrt', add(mul(x, x), mul(y, y)))
    s = fn('sin', mul(D, fn(EC + 'radius2theta', r)))
    R.same('nominal model keeps the azimuth, focal plane to tangent plane', 'reference graph', EC + 'fp2tan', R(EC + 'fp2tan', x, y), (mul(s, div(x, r)), mul(s, div(y, r))), dom=DOM, tol=1e-9, prove=False)
    # the two radial polynomials are fitted to the same table with the roles of the columns exchanged,
    # and evaluated in the variable they were fitted in
    R = c.runner()
    f, g = R(EC + 'radius2theta', x), R(EC + 'theta2radius', x)
    cols = dict((t.args[1].data, t) for t in walk(f) if t.op == 'f' and t.data == 'item' and t.args[1].op == 'str')
    if set(cols) != {'radius', 'theta'}:
        return c.undecided('radial polynomials', 'reference graph', '', 'table columns not found')
    a, b = cols['radius'], cols['theta']
    k = div(ONE, const(415))
    pf = lambda u, v: fn('numpy.polyfit', u, v, const(5))
    R.same('radius to angle polynomial is evaluated in the variable it was fitted in', 'reference graph', EC + 'radius2theta', f, fn('numpy.polyval', pf(mul(k, a), b), mul(k, x)), dom=DOM)
    R.same('angle to radius polynomial is evaluated in the variable it was fitted in', 'reference graph', EC + 'theta2radius', g, fn('numpy.polyval', pf(b, a), x), dom=DOM)


def tangent(c):
    """pointing, field rotation and dilatation correction of the tangent plane, with its inverse"""
    q = 'desimeter.fieldmodel.TanCorr'
    d = ['N']
    dom = dict(DOM, dha=(-1, 1), ddec=(-1, 1), sxx=(0.98, 1.02), syy=(0.98, 1.02), sxy=(-0.02, 0.02), rot_deg=(-180, 180))
    for shape, dims in (('arrays', d), ('single values', [])):
        R = c.runner()
        o = R(q)
        for n in ('dha', 'ddec', 'sxx', 'syy', 'sxy', 'rot_deg'):
            R.ip.setattr(o, n, sym(n))
        x, y = sym('xt', dims), sym('yt', dims)
        b = R.method(o, 'apply_inverse', *R.ip.unpack(R.method(o, 'apply', x, y), 2))
        R.same('tangent plane correction then its inverse (%s)' % shape, 'inverse composition', q + '.apply_inverse', b, (x, y), dom=dom, tol=1e-9, absolute=True, prove=False)
        b = R.method(o, 'apply', *R.ip.unpack(R.method(o, 'apply_inverse', x, y), 2))
        R.same('inverse tangent plane correction then the correction (%s)' % shape, 'inverse composition', q + '.apply_inverse', b, (x, y), dom=dom, tol=1e-9, absolute=True, prove=False)


def gfa(c):
    d = ['N']
    par = ('dx', 'dy', 'sxx', 'syy', 'sxy', 'rot_deg')
    dom = dict(DOM, sxx=(0.8, 1.2), syy=(0.8, 1.2), sxy=(-0.2, 0.2), rot_deg=(-180, 180), dx=(-400, 400), dy=(-400, 400))
    R = c.runner()
    o = R('desimeter.simplecorr.SimpleCorr')
    for n in par:
        R.ip.setattr(o, n, sym(n))
    p = dict((n, sym(n)) for n in par)
    x, y = sym('x', d), sym('y', d)
    xg, yg = sym('xg', d), sym('yg', d)
    f = R.method(o, 'apply', xg, yg)
    u, v = rot(mul(D, p['rot_deg']), xg, yg)
    want = (add(mul(p['sxx'], u), mul(p['sxy'], v), p['dx']), add(mul(p['sxy'], u), mul(p['syy'], v), p['dy']))
    R.same('planar correction: rotation, then scale, then offset', 'reference graph', 'desimeter.simplecorr.SimpleCorr.apply', f, want, dom=dom, tol=1e-9, prove=False)
    b = R.method(o, 'apply_inverse', *R.ip.unpack(f, 2))
    R.same('planar correction then its inverse', 'inverse composition', 'desimeter.simplecorr.SimpleCorr.apply_inverse', b, (xg, yg), dom=dom, tol=1e-8, prove=False)
    b = R.method(o, 'apply', *R.ip.unpack(R.method(o, 'apply_inverse', x, y), 2))
    R.same('inverse planar correction then the correction', 'inverse composition', 'desimeter.simplecorr.SimpleCorr.apply_inverse', b, (x, y), dom=dom, tol=1e-8, prove=False)
    # guide camera pixels use the correction fitted for their own petal
    for pet in (0, 2, 5):
        objs = {}

        def table(ip, a, kw):
            return objs['t']
        R = c.runner(models={GF + 'fit_gfa2fp': table, 'desimeter.io.load_metrology': lambda ip, a, kw: sym('metrology')})
        items = {}
        for q in (0, 2, 5):
            oo = R('desimeter.simplecorr.SimpleCorr')
            for n in par:
                R.ip.setattr(oo, n, sym('%s_%d' % (n, q)))
                dom['%s_%d' % (n, q)] = dom[n]
            items[q] = oo
        objs['t'] = R.ip.new(I.DictC(items))
        f = R(GF + 'gfa2fp', const(pet), xg, yg)
        w = R.method(items[pet], 'apply', xg, yg)
        R.same('guide camera pixels to focal plane, petal %d' % pet, 'reference graph', GF + 'gfa2fp', f, w, dom=dom, tol=1e-9, prove=False)
        b = R(GF + 'fp2gfa', const(pet), *R.ip.unpack(f, 2))
        R.same('guide camera pixels -> focal plane -> pixels, petal %d' % pet, 'inverse composition', GF + 'fp2gfa', b, (xg, yg), dom=dom, tol=1e-8, prove=False)
    # fit of one camera: pixel corners in pinhole order, offset along the measured normal
    calls = []

    def fit(ip, args, kw):
        b = dict(zip(['self', 'x1', 'y1', 'x2', 'y2'], args))
        b.update(kw)
        calls.append([ip.toterm(b[k]) for k in ('x1', 'y1', 'x2', 'y2')])
        ip.setattr(b['self'], 'dx', fn('fit_dx', b['x2']))
        ip.setattr(b['self'], 'dy', fn('fit_dy', b['y2']))
        return I.NONE
    R = c.runner(models={'desimeter.simplecorr.SimpleCorr.fit': fit})
    col = lambda n: fn('text', sym('m_' + n, ['M'])) if n == 'DEVICE_TYPE' else sym('m_' + n, ['M'])
    names = ('DEVICE_TYPE', 'PETAL_LOC', 'PINHOLE_ID', 'X_FP', 'Y_FP', 'Z_FP')
    tab = R.ip.new(I.DictC(dict((n, col(n)) for n in names)))
    got = R.ip.get(R(GF + 'fit_gfa2fp', tab)).items
    if len(calls) != 10:
        return c.undecided('one fit per petal', 'reference graph', '', '%d fits seen' % len(calls))
    at = lambda t, k: fn('at', t, const(k), strc(sorted(dims(t))[0]))
    for pet in (0, 4, 9):
        x, y, z = [sel(sel(col(n), eq(col('DEVICE_TYPE'), strc('GFA'))), sel(eq(col('PETAL_LOC'), const(pet)), eq(col('DEVICE_TYPE'), strc('GFA')))) for n in ('X_FP', 'Y_FP', 'Z_FP')]
        cx = calls[pet]
        R.same('petal %d: pixel columns of the four corners in pinhole order' % pet, 'reference graph', GF + 'fit_gfa2fp', cx[0], R.ip.toterm(R.arr(const(0), const(2047), const(2047), const(0))))
        R.same('petal %d: pixel rows of the four corners in pinhole order' % pet, 'reference graph', GF + 'fit_gfa2fp', cx[1], R.ip.toterm(R.arr(const(0), const(0), const(1031), const(1031))))
        R.same('petal %d: fitted to the corner positions of its own guide camera' % pet, 'reference graph', GF + 'fit_gfa2fp', (cx[2], cx[3]), (x, y), prove=True)
        p = [[at(t, k) for t in (x, y, z)] for k in range(3)]
        a = [sub(u, v) for u, v in zip(p[1], p[0])]
        b = [sub(u, v) for u, v in zip(p[2], p[1])]
        n = [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]
        o = got[const(pet).data]
        R.same('petal %d: filter offset along the measured normal' % pet, 'reference graph', GF + 'fit_gfa2fp', (R.attr(o, 'dx'), R.attr(o, 'dy')),
               (add(fn('fit_dx', x), mul(const(2.23), div(n[0], n[2]))), add(fn('fit_dy', y), mul(const(2.23), div(n[1], n[2])))), prove=False, skeleton={'text'}, dom=dict(m_PETAL_LOC=lambda g: float(pet if g.random() < 0.96 else pet + 1), m_DEVICE_TYPE=lambda g: strval('GFA' if g.random() < 0.96 else 'POS')))
