"""Guide stars and field rotation: the selection of stars on a catalogue of exact numbers, the fit of the field model with
stand-ins for the transforms that record what they are given, the field rotation and its rate as value graphs."""
from fractions import Fraction as F
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
from checks.c16 import inst, C, tab, names, compare, pos_syms, posstub, bind
FM = 'desimeter.fieldmodel.'
Q = FM + 'FieldModel'
SEL = 'stars selected'
FIT = 'what is passed on in the fit'
ROT = 'field rotation'
MASKED = lambda: fn('MASKED')


def run(c):
    c.floor = 60
    for f in (catalog, petals, fitted, rotation, rates, hexapod):
        c.guard(f, c)
    return ''


def attempt(c, name, rule, R, q, f):
    """result, or None after the failure was reported"""
    n, where = len(R.ip.raises), R.where(q)
    try:
        return f()
    except I.RowError as e:
        c.bad(name, rule, where, str(e))
    except I.Unsupported as e:
        if not (isinstance(e, I.Raised) or R.ip.state is None and len(R.ip.raises) > n):
            raise
        c.bad(name, rule, where, 'an error is raised: %s' % e)


def fails(c, name, rule, R, q, f):
    ip = R.ip
    n, where = len(ip.raises), R.where(q)
    try:
        f()
    except I.Unsupported as e:
        if not (isinstance(e, I.Raised) or ip.state is None and len(ip.raises) > n):
            raise
        return c.ok(name, rule, where)
    c.bad(name, rule, where, 'no error is raised')


def cosine(ip, a, kw):
    # exact values for the declinations used here
    return ip.map1(lambda t: const({0: 1, 60: F(1, 2)}[t.data]) if t.op == 'c' and t.data in (0, 60) else fn('cos', div(mul(t, PI), const(180))), a[0])


def unmask(ip, v, x):
    return ip.map1(lambda t: x if t is MASKED() else t, v)


# id, ra and dec measured, ra and dec of Gaia, proper motions, epoch
A = F(1, 3600)
YEARS = 2020
STARS = [('s0', 10 + 1 * A, 0, 10, 0, 0, 0, 2015),
         ('s1', 10 + 3 * A, 60, 10, 60, 0, 0, 2015),                      # 1.5 arcsec with the cosine of the declination
         ('s2', 10, 3 * A, 10, 0, 0, 0, 2015),                            # 3 arcsec
         ('s3', 10 + 3 * A, 0, 10, 0, 600, 0, 2015),                      # 3 arcsec, of which the star moved 3
         ('s4', 10 + 4 * A, 60, 10, 60, 400, 0, 2015),                    # moved 4 in right ascension: 2 on the sky
         ('s5', 10, 2 * A, 10, 0, 0, 400, 2015),                          # moved 2 in declination
         ('s6', 10, 2 * A, 10, 0, 0, 400, 2025),                          # moved the other way
         ('s7', 10 + 1 * A, 0, 10, 0, 'NAN', 'NAN', 2015),
         ('s8', 10 + 1 * A, 0, 10, 0, 'MASKED', 'MASKED', 2015),
         ('s9', 10, 0, 10, 0, 0, 'NAN', 2015),
         ('s10', 10 - F(3, 2) * A, -F(3, 2) * A, 10, 0, 0, 0, 2016),      # 2.12 arcsec
         ('s11', 10 - 1 * A, -1 * A, 10, 0, 0, 0, 2016)]


def catalog(c):
    q = Q + '.read_guide_stars_catalog'
    special = {'NAN': fn('NAN'), 'MASKED': MASKED()}
    val = lambda x: special[x] if isinstance(x, str) else const(x)

    def bench(pm=True, mjd=True, drop=(), stars=STARS):
        seen = []
        R = c.runner()
        cols = {'xcentroid': [sym(s[0] + 'x') for s in stars], 'ycentroid': [sym(s[0] + 'y') for s in stars], 'petal_loc': [sym(s[0] + 'p') for s in stars]}
        for k, n in enumerate(['ra', 'dec', 'ra_gaia', 'dec_gaia'] + (['pmra', 'pmdec', 'ref_epoch'] if pm else [])):
            cols[n] = [val(s[k + 1]) for s in stars]
        if mjd:
            cols['mjd_obs'] = [const(58849 + k % 2) for k in range(len(stars))]
        for k in drop:
            del cols[k]
        t = tab(R, cols)

        def time(ip, a, kw):
            seen.append(ip.toterm(a[0]) if a else None)
            fmt = kw.get('format')
            if fmt is None or ip.toterm(fmt).data != 'mjd':
                raise I.Unsupported('format of a time')
            def to(ip, a, kw):
                f = kw.get('format', a[0] if a else None)
                if ip.toterm(f).data not in ('jyear', 'decimalyear'):
                    raise I.Unsupported('format of a time')
                return const(YEARS)
            return inst(ip, 'Time', to_value=I.Native(to), jyear=const(YEARS), decimalyear=const(YEARS))

        R.ip.models.update({'astropy.table.Table.read': lambda ip, a, kw: t, 'astropy.time.Time': time, 'desimeter.trig.cosd': cosine,
                            'numpy.isfinite': lambda ip, a, kw: ip.map1(lambda t: FALSE if t is fn('NAN') else TRUE, a[0]),
                            'numpy.isnan': lambda ip, a, kw: ip.map1(lambda t: TRUE if t is fn('NAN') else FALSE, a[0]),
                            'numpy.isinf': lambda ip, a, kw: ip.map1(lambda t: FALSE, a[0]),
                            'numpy.ma.filled': lambda ip, a, kw: unmask(ip, a[0], ip.toterm(a[1] if len(a) > 1 else kw['fill_value']))})
        return R, R(Q), seen

    def result(s, pm, sep):
        f = (YEARS - s[7]) if pm else 0
        mv = [0 if isinstance(x, str) else x for x in s[5:7]]
        cd = {0: F(1), 60: F(1, 2)}[s[4]]
        ra, dec = s[3] + F(f * mv[0], 3600000) / cd, s[4] + F(f * mv[1], 3600000)
        dx, dy = (s[1] - ra) * 3600 * cd, (s[2] - dec) * 3600
        return ra, dec, dx * dx + dy * dy < sep * sep

    for tag, pm, sep, given in (('proper motions', True, 2, False), ('proper motions, other limit', True, F(11, 4), True), ('no proper motions', False, 2, False),
                                ('no proper motions, other limit', False, F(6, 5), True)):
        stars = [s for s in STARS if pm or not isinstance(s[5], str)]
        R, m, seen = bench(pm, stars=stars)
        name = 'guide stars, %s: ' % tag
        out = attempt(c, name + 'outcome', SEL, R, q, lambda: R.method(m, 'read_guide_stars_catalog', strc('guide.fits'), *([const(sep)] if given else [])))
        if out is None:
            continue
        keep = [(s,) + result(s, pm, sep)[:2] for s in stars if result(s, pm, sep)[2]]
        get = lambda k: [num(x) for x in R.comps(R.ip.getitem(out, strc(k)))]
        compare(c, R, q, name + 'stars kept', get('xcentroid'), [sym(s[0] + 'x') for s, _, _ in keep])
        compare(c, R, q, name + 'other columns', get('ycentroid'), [sym(s[0] + 'y') for s, _, _ in keep])
        post = '_with_pm' if pm else ''
        compare(c, R, q, name + 'right ascension', get('ra_gaia' + post), [const(r) for _, r, _ in keep])
        compare(c, R, q, name + 'declination', get('dec_gaia' + post), [const(d) for _, _, d in keep])
        R.same(name + 'date', SEL, q, R.attr(m, 'mjd'), const(F(58849 * len(stars) + len(stars) // 2, len(stars))))
        if pm and seen:
            R.same(name + 'date of the motion', SEL, q, seen[0], const(F(58849 * len(stars) + len(stars) // 2, len(stars))))
    # the date of the model when the catalogue has none
    R, m, seen = bench(True, mjd=False)
    R.ip.setattr(m, 'mjd', sym('mjd'))
    out = attempt(c, 'guide stars, date of the model: outcome', SEL, R, q, lambda: R.method(m, 'read_guide_stars_catalog', strc('guide.fits')))
    if out is not None and seen:
        R.same('guide stars, date of the model', SEL, q, seen[0], sym('mjd'))
    for tag, kw in (('no date', dict(mjd=False)), ('no centroids', dict(drop=('xcentroid',))), ('no Gaia positions', dict(drop=('ra_gaia',))), ('no star near its position', dict(stars=STARS[2:3]))):
        R, m, seen = bench(**kw)
        fails(c, 'guide stars, %s: error' % tag, SEL, R, q, lambda: R.method(m, 'read_guide_stars_catalog', strc('guide.fits')))


def petals(c):
    q = Q + '.all_gfa2fp'
    gx, gy = posstub('gx'), posstub('gy')
    loc = [3, 0, 3, 7, 9, 0, 7, 3]

    def gfa2fp(ip, a, kw):
        p, x, y = bind(['petal', 'xgfa', 'ygfa'], a, kw)
        if len(a) > 3:
            raise I.Unsupported('other arguments')
        p = num(ip.toterm(p))
        if p.op == 'c' and p.data == 7:
            raise I.Raised('KeyError', 'KeyError')
        xs, ys = [ip.known_items(ip.to_arr(v)) for v in (x, y)]
        m = lambda f: ip.new(I.ArrC((len(xs),), [f(u, v, p) for u, v in zip(xs, ys)]))
        return (m(gx), m(gy))
    R = c.runner(models={'desimeter.transform.gfa2fp.gfa2fp': gfa2fp})
    m = R(Q)
    X, Y = pos_syms('X', 8), pos_syms('Y', 8)
    for tag, miss in (('all petals known', False), ('a petal without metrology', True)):
        l = loc if miss else [p if p != 7 else 5 for p in loc]
        out = attempt(c, 'camera positions, %s: outcome' % tag, FIT, R, q, lambda: R.method(m, 'all_gfa2fp', R.arr(*X), R.arr(*Y), R.arr(*C(l))))
        if out is None:
            continue
        for k, f in ((0, gx), (1, gy)):
            compare(c, R, q, 'camera positions, %s: %s' % (tag, 'xy'[k]), [num(t) for t in R.comps(out[k])], [f(x, y, const(p)) if p != 7 else ZERO for x, y, p in zip(X, Y, l)])


ATT = ['ra', 'dec', 'mjd', 'lst', 'hexrot_deg', 'adc1', 'adc2', 'precession', 'aberration', 'polar_misalignment']


def fitted(c):
    q = Q + '.fit_tancorr'
    for tag, pm, opts, given, flags in (('all settings given as arguments', True, dict(mjd='m_arg', hexrot_deg='h_arg', lst='l_arg'), (), (FALSE, TRUE, FALSE)),
                                         ('settings of the model', False, {}, (), (TRUE, FALSE, FALSE)),
                                         ('date of the catalogue, sidereal time from it', True, dict(hexrot_deg='h_arg'), ('mjd', 'lst', 'hexrot_deg'), (FALSE, FALSE, TRUE))):
        N = 5
        calls = {'gfa': [], 'tan': [], 'sky': [], 'fit': []}
        R = c.runner()
        ip = R.ip
        fx, fy, tx, ty, sx, sy = [posstub(t) for t in ('fx', 'fy', 'tx', 'ty', 'sx', 'sy')]
        items = lambda v: ip.known_items(ip.to_arr(v))
        m = R(Q)

        def gfa(ip, a, kw):
            x, y, p = bind(['x_gfa', 'y_gfa', 'petal_loc'], a[1:], kw)
            x, y, p = items(x), items(y), items(p)
            calls['gfa'].append((x, y, p))
            g = lambda f: ip.new(I.ArrC((len(x),), [ZERO if p[i].op == 'c' and p[i].data == 7 else f(x[i], y[i], p[i]) for i in range(len(x))]))
            return (g(fx), g(fy))

        def fp2tan(ip, a, kw):
            x, y, a1, a2 = bind(['x_fp', 'y_fp', 'adc1', 'adc2'], a, kw)
            x, y = items(x), items(y)
            g = lambda f: ip.new(I.ArrC((len(x),), [f(u, v, ip.toterm(a1), ip.toterm(a2)) for u, v in zip(x, y)]))
            return (g(tx), g(ty))

        def radec2tan(ip, a, kw):
            v = dict(zip(['ra', 'dec', 'tel_ra', 'tel_dec', 'mjd', 'lst_deg', 'hexrot_deg', 'precession', 'aberration', 'polar_misalignment'], a))
            v.update(kw)
            v.setdefault('precession', TRUE), v.setdefault('aberration', TRUE), v.setdefault('polar_misalignment', TRUE)
            calls['sky'].append({k: ip.toterm(x) if k not in ('ra', 'dec') else x for k, x in v.items()})
            n = const(len(calls['sky']))
            ra, dec = items(v['ra']), items(v['dec'])
            g = lambda f: ip.new(I.ArrC((len(ra),), [f(u, w, n) for u, w in zip(ra, dec)]))
            return (g(sx), g(sy))

        def fit(ip, a, kw):
            calls['fit'].append([items(v) for v in bind(['x1', 'y1', 'x2', 'y2'], a[1:], kw)])
            k = len(calls['fit'])
            for n in ('dha', 'ddec', 'sxx', 'syy', 'sxy', 'rot_deg', 'nstars', 'rms_arcsec'):
                ip.setattr(a[0], n, sym('%s_%d' % (n, k)))
            return NONE
        ip.models.update({Q + '.all_gfa2fp': gfa, FM + 'TanCorr.fit': fit, 'desimeter.transform.tan2fp.fp2tan': fp2tan, 'desimeter.transform.tan2fp.raytracefit.fp2tan': fp2tan,
                          'desimeter.transform.radec2tan.radec2tan': radec2tan, Q + '.compute_fieldrot': lambda ip, a, kw: sym('fieldrot'),
                          'desimeter.time.mjd2lst': lambda ip, a, kw: fn('model:lst', ip.toterm(a[0] if a else kw['mjd']))})
        loc = [3, 7, 0, 3, 7]
        X, Y = pos_syms('X', N), pos_syms('Y', N)
        post = '_with_pm' if pm else ''
        ra, dec = names('ra', N), names('dec', N)
        cat = tab(R, {'xcentroid': X, 'ycentroid': Y, 'petal_loc': loc, 'ra_gaia' + post: ra, 'dec_gaia' + post: dec, 'mjd_obs': [const(58849 + k) for k in range(N)]})
        flags = dict(zip(('precession', 'aberration', 'polar_misalignment'), flags))
        for k in ATT:
            if k not in given:
                ip.setattr(m, k, flags[k] if k in flags else sym('own_' + k))
        # an earlier fit must not show
        ip.setattr(m, 'sxx', sym('old')), ip.setattr(m, 'fieldrot_zp_deg', sym('old'))
        name = 'field model, %s: ' % tag
        done = attempt(c, name + 'outcome', FIT, R, q, lambda: (R.method(m, 'fit_tancorr', cat, **{k: sym(v) for k, v in opts.items()}), 1))
        if done is None:
            continue
        mjd = sym(opts['mjd']) if 'mjd' in opts else const(58851) if 'mjd' in given else sym('own_mjd')
        hexrot = sym(opts['hexrot_deg']) if 'hexrot_deg' in opts else sym('own_hexrot_deg')
        lst = sym(opts['lst']) if 'lst' in opts else fn('model:lst', mjd) if 'lst' in given else sym('own_lst')
        R.same(name + 'date', FIT, q, R.attr(m, 'mjd'), mjd)
        R.same(name + 'hexapod rotation', FIT, q, R.attr(m, 'hexrot_deg'), hexrot)
        R.same(name + 'sidereal time', FIT, q, R.attr(m, 'lst'), lst)
        use = [i for i in range(N) if loc[i] != 7]
        if not calls['sky'] or len(calls['sky']) != len(calls['fit']):
            c.bad(name + 'steps', FIT, R.where(q), '%d projections and %d fits' % (len(calls['sky']), len(calls['fit'])))
            continue
        n = len(calls['fit'])
        if n >= 3:
            c.ok(name + 'steps', FIT, R.where(q))
        else:
            c.bad(name + 'steps', FIT, R.where(q), 'the pointing is refined %d times, expected 3' % n)
        ra0, dec0 = sym('own_ra'), sym('own_dec')
        for k in range(n):
            s = calls['sky'][k]
            compare(c, R, q, name + 'step %d, stars projected' % (k + 1), [num(t) for v in ('ra', 'dec') for t in items(s[v])], [v[i] for v in (ra, dec) for i in use])
            want = dict(tel_ra=ra0, tel_dec=dec0, mjd=mjd, lst_deg=lst, hexrot_deg=hexrot, **flags)
            for v in want:
                if v in flags:
                    ok = s.get(v) is want[v]
                    (c.ok if ok else c.bad)(name + 'step %d, %s' % (k + 1, v), FIT, R.where(q), *([] if ok else ['is %s' % tm.show(s[v])]))
                elif v not in s:
                    c.bad(name + 'step %d, %s' % (k + 1, v), FIT, R.where(q), 'not given')
                else:
                    R.same(name + 'step %d, %s' % (k + 1, v), FIT, q, s[v], want[v])
            f = calls['fit'][k]
            ad = (sym('own_adc1'), sym('own_adc2'))
            fp = [(fx(X[i], Y[i], const(loc[i])), fy(X[i], Y[i], const(loc[i]))) for i in use]
            w = [[g(x, y, *ad) for x, y in fp] for g in (tx, ty)] + [[g(ra[i], dec[i], const(k + 1)) for i in use] for g in (sx, sy)]
            for j, v in enumerate(('x measured', 'y measured', 'x of the catalogue', 'y of the catalogue')):
                compare(c, R, q, name + 'step %d, %s' % (k + 1, v), [num(t) for t in f[j]] if f[j] else [], w[j])
            dec0 = sub(dec0, sym('ddec_%d' % (k + 1)))
            ra0 = add(ra0, div(sym('dha_%d' % (k + 1)), fn('cos', div(mul(dec0, PI), const(180)))))
        R.same(name + 'right ascension of the pointing', FIT, q, R.attr(m, 'ra'), ra0)
        R.same(name + 'declination of the pointing', FIT, q, R.attr(m, 'dec'), dec0)
        for a, b in (('sxx', 'sxx'), ('syy', 'syy'), ('sxy', 'sxy'), ('fieldrot_zp_deg', 'rot_deg'), ('nstars', 'nstars'), ('rms_arcsec', 'rms_arcsec')):
            R.same(name + a, FIT, q, R.attr(m, a), sym('%s_%d' % (b, n)))
        R.same(name + 'fieldrot_deg', FIT, q, R.attr(m, 'fieldrot_deg'), sym('fieldrot'))
    for tag, lost in (('no hexapod rotation', 'hexrot_deg'),):
        R = c.runner(models={'desimeter.time.mjd2lst': lambda ip, a, kw: sym('lst')})
        m = R(Q)
        R.ip.setattr(m, 'mjd', sym('mjd'))
        fails(c, 'field model, %s: error' % tag, FIT, R, q, lambda: R.method(m, 'fit_tancorr', tab(R, {'xcentroid': names('X', 2), 'ycentroid': names('Y', 2), 'ra_gaia': names('ra', 2), 'dec_gaia': names('dec', 2), 'petal_loc': [1, 2]})))


def rotation(c):
    q = Q + '.compute_fieldrot'
    f = lambda n, *a: fn('model:' + n, *a)

    def pair(n1, n2, k):
        def g(ip, a, kw):
            a = a[len(a) - k:]
            xs = [ip.known_items(ip.to_arr(v)) if isinstance(v, I.Ref) else None for v in a]
            n = max((len(x) for x in xs if x is not None), default=None)
            row = lambda i: [x[i] if x is not None else ip.toterm(v) for x, v in zip(xs, a)]
            return tuple(ip.new(I.ArrC((n,), [f(h, *map(num, row(i))) for i in range(n)])) for h in (n1, n2))
        return g
    R = c.runner(models={'desimeter.transform.tan2fp.tan2fp': pair('xfp', 'yfp', 4), 'desimeter.transform.tan2fp.raytracefit.tan2fp': pair('xfp', 'yfp', 4), Q + '.fp2radec': pair('ra', 'dec', 2),
                         'desimeter.transform.radec2tan.hadec2xy': pair('x', 'y', 4)})
    m = R(Q)
    for k in ('lst', 'adc1', 'adc2'):
        R.ip.setattr(m, k, sym(k))
    out = R.method(m, 'compute_fieldrot')
    d = div(PI, const(180))
    pts = [(ZERO, ZERO)] + [(mul(const(x), d), mul(const(y), d)) for x, y in ((1, 0), (0, 1), (-1, 0), (0, -1))]
    sky = []
    for x, y in pts:
        fp = [f(n, num(x), num(y), sym('adc1'), sym('adc2')) for n in ('xfp', 'yfp')]
        sky.append((sub(sym('lst'), f('ra', *fp)), f('dec', *fp)))
    s = ZERO
    for (x, y), (ha, dec) in list(zip(pts, sky))[1:]:
        x2, y2 = [f(n, num(ha), num(dec), num(sky[0][0]), num(sky[0][1])) for n in 'xy']
        s = add(s, div(sub(mul(y, x2), mul(x, y2)), fn('sqrt', mul(add(mul(x, x), mul(y, y)), add(mul(x2, x2), mul(y2, y2))))))
    R.same('field rotation', ROT, q, out, mul(div(s, const(4)), div(const(180), PI)))
    # the function of pointing and time
    q = FM + 'fieldrot'
    seen = {}

    def compute(ip, a, kw):
        for k in ATT + ['sxx', 'syy', 'sxy', 'fieldrot_zp_deg']:
            seen[k] = ip.getattr(a[0], k)
        return sym('rot')
    for tag, kw, h in (('hexapod rotation given', dict(hexrot_deg=sym('hex')), sym('hex')), ('no hexapod rotation', {}, ZERO)):
        R = c.runner(models={Q + '.compute_fieldrot': compute})
        out = R(q, sym('ra'), sym('dec'), sym('mjd'), sym('lst'), **kw)
        R.same('field rotation of a pointing, %s: result' % tag, ROT, q, out, sym('rot'))
        for k, w in (('ra', sym('ra')), ('dec', sym('dec')), ('mjd', sym('mjd')), ('lst', sym('lst')), ('hexrot_deg', h), ('adc1', ZERO), ('adc2', ZERO), ('sxx', ONE), ('syy', ONE), ('sxy', ZERO), ('fieldrot_zp_deg', ZERO)):
            R.same('field rotation of a pointing, %s: %s' % (tag, k), ROT, q, num(seen[k]) if isinstance(seen[k], T) and seen[k].op != 'str' else seen[k], w)


def rates(c):
    q = FM + 'dfieldrotdt_physical_model'
    R = c.runner(models={FM + 'fieldrot': lambda ip, a, kw: fn('model:rot', *[num(ip.toterm(x)) for x in bind(['ra', 'dec', 'mjd', 'lst_deg', 'hexrot_deg'], a, dict(dict(hexrot_deg=ZERO), **kw) if len(a) < 5 else kw)])})
    ra, dec, mjd, lst = [sym(x) for x in ('ra', 'dec', 'mjd', 'lst')]
    rot = lambda l: fn('model:rot', ra, dec, mjd, num(l), ZERO)
    R.same('rate of the optical model', ROT, q, R(q, ra, dec, mjd, lst), mul(const(3600), sub(rot(add(lst, const(F(1, 4)))), rot(lst))))
    E = FM + 'dfieldrotdt_empirical_model'
    grid = [(r, d, l) for r in (0, 75, 181, 359) for d in (-90, -20, 31, 90) for l in (0, 5, 200, 300)]
    R = c.runner(models={'numpy.atleast_1d': lambda ip, a, kw: tuple(R.arr(x) if isinstance(x, T) else x for x in a) if len(a) > 1 else R.arr(a[0]) if isinstance(a[0], T) else a[0]})
    for r, d, l in grid:
        want = R('refs.guide.rate', const(r), const(d), const(l))
        got = attempt(c, 'empirical rate at %d %d %d' % (r, d, l), ROT, R, E, lambda: R(E, const(r), const(d), const(l)))
        if got is not None:
            R.same('empirical rate at %d %d %d' % (r, d, l), ROT, E, got, want)
    rs, ds, ls = [R.arr(*[const(g[k]) for g in grid]) for k in range(3)]
    out = attempt(c, 'empirical rate of several pointings', ROT, R, E, lambda: R(E, rs, ds, ls))
    if out is not None:
        R.same('empirical rate of several pointings', ROT, E, out, tuple(R('refs.guide.rate', *[const(x) for x in g]) for g in grid))
    for d in (-91, 95):
        R = c.runner()
        fails(c, 'empirical rate at declination %d: error' % d, ROT, R, E, lambda: R(E, ZERO, const(d), ZERO))
    R = c.runner(models={E: lambda ip, a, kw: fn('model:rate', *[num(ip.toterm(x)) for x in bind(['ra', 'dec', 'lst_deg'], a, kw)])})
    R.same('rate used', ROT, FM + 'dfieldrotdt', R(FM + 'dfieldrotdt', ra, dec, mjd, lst), fn('model:rate', ra, dec, lst))


def hexapod(c):
    q = 'desimeter.io.read_hexrot_deg'
    rule = 'hexapod rotation of a header'
    R = c.runner()
    hd = lambda v: R.ip.new(I.DictC({'FOCUS': v}))
    for tag, v, w in (('text', strc('1.5,2,-3,0,0,-54.5'), F(-109, 2)), ('text with blanks', strc(' 1, 2, 3, 4, 5, 7200'), F(7200)), ('numbers', tuple(const(x) for x in (1, 2, 3, 4, 5, F(61, 2))), F(61, 2))):
        out = attempt(c, 'hexapod rotation, %s' % tag, rule, R, q, lambda: R(q, hd(v)))
        if out is not None:
            R.same('hexapod rotation, %s' % tag, rule, q, out, const(w / 3600))
    for tag, v in (('five numbers', strc('1,2,3,4,5')), ('seven numbers', tuple(const(x) for x in range(7))), ('a single number', const(3))):
        R = c.runner()
        hd = lambda v, R=R: R.ip.new(I.DictC({'FOCUS': v}))
        fails(c, 'hexapod rotation, %s: error' % tag, rule, R, q, lambda: R(q, hd(v)))
