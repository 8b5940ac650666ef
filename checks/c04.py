"""Sky to focal plane pipelines: the value graph of each pipeline, everything inlined,
against the documented chain of stages, for every combination of correction options;
each pipeline composed with its inverse against the identity; and the flow of every
option, angle and date from the caller to the stages."""
import itertools
from sa.terms import *
from sa import interp as I
from checks.c03 import (M, G, D, sd, cd, uv, lonlat, altaz, hadec, precess, aberr, tanp, refract, mat, mv, LATITUDE)
FM = 'desimeter.fieldmodel.'
FA = 'desimeter.fiberassign.'
RT = 'desimeter.transform.tan2fp.raytracefit.'
T2 = 'desimeter.transform.tan2fp.'
DOM = dict(ra=(100, 104), dec=(25, 33), tra=(101, 103), tdec=(27, 31), mjd=(50000, 70000), lst=(80, 130), hexrot=(-3, 3), x=(-0.028, 0.028), y=(-0.028, 0.028))


def run(c):
    c.floor = 60
    for pr, ab, pm, hard in itertools.product((True, False), (True, False), (None, 'computed', 'precomputed'), (0,)):
        c.guard(sky, c, pr, ab, pm, False)
    for vec in (False, True):
        for pm in (None, 'computed', 'precomputed'):
            c.guard(sky, c, True, True, pm, vec)
    for pr, ab in ((True, True), (True, False), (False, True)):
        c.guard(sky, c, pr, ab, 'computed', False, True)
        c.guard(sky, c, pr, ab, None, True, True)
    c.guard(field_model, c)
    c.guard(fiberassign, c)


def opts(pr, ab, pm):
    return dict(precession=TRUE if pr else FALSE, aberration=TRUE if ab else FALSE, polar_misalignment=FALSE if pm is None else TRUE,
                use_hardcoded_polmis_rotmat=TRUE if pm == 'precomputed' else FALSE)


def matrix(R, pm, s):
    if pm is None:
        return None
    if pm == 'precomputed':
        return mat(R, R(M + 'get_hardcoded_polmis_rotmat', inverse=TRUE if s < 0 else FALSE))
    return mat(R, R(M + 'compute_polar_misalignment_rotation_matrix', const(s * -120), const(s * -2)))


def jprecess(ra, dec, mjd):
    return precess(ra, dec, div(sub(mjd, const(51544.5)), const(365.256363004)))


def unprecess(ra, dec, mjd):
    return precess(ra, dec, div(sub(const(51544.5), mjd), const(365.256363004)))


def to_app(R, ra, dec, mjd, lst, pr, ab, m, st=(jprecess, aberr)):
    """ICRS to refracted hour angle, declination"""
    if pr:
        ra, dec = st[0](ra, dec, mjd)
    if ab:
        ra, dec = st[1](ra, dec, mjd)
    ha = sub(lst, ra)
    if m is not None:
        ha, dec = lonlat(mv(m, uv(ha, dec)))
    alt, az = altaz(ha, dec)
    return hadec(refract(alt), az)


def rot(t, x, y):
    return sub(mul(cd(t), x), mul(sd(t), y)), add(mul(sd(t), x), mul(cd(t), y))


def unrefract(alt):
    a0 = alt
    for _ in range(2):
        alt = sub(a0, sub(refract(alt), alt))
    return alt


def sky(c, pr, ab, pm, vec, astropy=False):
    R = c.runner()
    st = (jprecess, aberr, unprecess)
    if astropy:
        st = tuple((lambda a, b, m, q=q: tuple(R.comps(R('refs.astro.' + q, a, b, m)))) for q in ('precess_astropy', 'aberr_astropy', 'unprecess_astropy'))
    d = ['N'] if vec else []
    ra, dec, x, y = sym('ra', d), sym('dec', d), sym('x', d), sym('y', d)
    tra, tdec, mjd, lst, hexr = [sym(n) for n in ('tra', 'tdec', 'mjd', 'lst', 'hexrot')]
    o = opts(pr, ab, pm)
    if astropy:
        o['use_astropy'] = TRUE
    tag = ('astropy, ' if astropy else '') + 'precession %s, aberration %s, polar misalignment %s, %s' % ('on' if pr else 'off', 'on' if ab else 'off', pm or 'off', 'arrays' if vec else 'scalars')
    fwd = R(M + 'radec2tan', ra, dec, tra, tdec, mjd, lst, hexr, **o)
    m = matrix(R, pm, 1)
    ha, hd = to_app(R, ra, dec, mjd, lst, pr, ab, m, st)
    th, td = to_app(R, tra, tdec, mjd, lst, pr, ab, m, st)
    want = rot(hexr, *tanp(ha, hd, th, td))
    k = const(1e4)
    R.same('sky to tangent plane: ' + tag, 'reference graph', M + 'radec2tan', tuple(mul(k, v) for v in R.comps(fwd)), tuple(mul(k, v) for v in want), dom=DOM, tol=1e-7, prove=False)
    # inverse pipeline
    bwd = R(M + 'tan2radec', x, y, tra, tdec, mjd, lst, hexr, **o)
    xr, yr = rot(neg(hexr), x, y)
    z = fn('sqrt', sub(ONE, add(mul(xr, xr), mul(yr, yr))))
    # unit vector with tangent components xr (along hour angle), yr (along declination) at the pointing
    e = (neg(sd(th)), cd(th), ZERO)
    n = (neg(mul(sd(td), cd(th))), neg(mul(sd(td), sd(th))), cd(td))
    p = uv(th, td)
    ha, hd = lonlat([add(mul(xr, a), mul(yr, b), mul(z, q)) for a, b, q in zip(e, n, p)])
    alt, az = altaz(ha, hd)
    ha, hd = hadec(unrefract(alt), az)
    if pm is not None:
        ha, hd = lonlat(mv(matrix(R, pm, -1), uv(ha, hd)))
    rr, dd = sub(lst, ha), hd
    if ab:
        a, b = st[1](rr, dd, mjd)
        rr, dd = sub(mul(const(2), rr), a), sub(mul(const(2), dd), b)
    if pr:
        rr, dd = st[2](rr, dd, mjd)
    g = R.comps(bwd)
    R.same('tangent plane to sky: ' + tag, 'reference graph', M + 'tan2radec', (g[0], g[1]), (rr, dd), dom=DOM, period=(360, None), tol=1e-6, prove=False, absolute=True)
    if astropy:
        return
    back = R.comps(R(M + 'tan2radec', *(R.ip.unpack(fwd, 2) + [tra, tdec, mjd, lst, hexr]), **o))
    R.same('sky to tangent plane and back: ' + tag, 'inverse composition', M + 'tan2radec', (back[0], back[1]), (ra, dec), dom=DOM, period=(360, None), tol=1e-5, prove=False, absolute=True)


FMATTR = ('ra', 'dec', 'mjd', 'lst', 'hexrot_deg', 'adc1', 'adc2', 'sxx', 'syy', 'sxy', 'fieldrot_zp_deg')
FLAGS = ('precession', 'aberration', 'polar_misalignment')
FDOM = dict(DOM, sxx=(0.95, 1.05), syy=(0.95, 1.05), sxy=(-0.02, 0.02), fieldrot_zp_deg=(-4, 4), a_ra=(100, 104), xfp=(-400, 400), yfp=(-400, 400))


def new_fm(R, flags=None):
    o = R(FM + 'FieldModel')
    a = {}
    for n in FMATTR:
        a[n] = sym(n)
        R.ip.setattr(o, n, a[n])
    for n in FLAGS:
        a[n] = sym(n, boolean=True) if flags is None else flags
        R.ip.setattr(o, n, a[n])
    return o, a


def correct(a, x, y):
    x, y = rot(a['fieldrot_zp_deg'], x, y)
    return add(mul(a['sxx'], x), mul(a['sxy'], y)), add(mul(a['sxy'], x), mul(a['syy'], y))


def uncorrect(a, x, y):
    det = sub(mul(a['sxx'], a['syy']), mul(a['sxy'], a['sxy']))
    x, y = div(sub(mul(a['syy'], x), mul(a['sxy'], y)), det), div(sub(mul(a['sxx'], y), mul(a['sxy'], x)), det)
    return rot(neg(a['fieldrot_zp_deg']), x, y)


def field_model(c):
    d = ['N']
    op = [M + 'radec2tan', M + 'tan2radec', RT + 'tan2fp', RT + 'fp2tan']
    # tangent plane correction and its inverse
    R = c.runner()
    o, a = new_fm(R)
    x, y = sym('x', d), sym('y', d)
    f = R.method(o, 'tancorr_inst2sky', x, y)
    R.same('field model correction, instrument to sky', 'reference graph', FM + 'FieldModel.tancorr_inst2sky', f, correct(a, x, y), dom=FDOM, prove=False, tol=1e-9)
    b = R.method(o, 'tancorr_sky2inst', x, y)
    R.same('field model correction, sky to instrument', 'reference graph', FM + 'FieldModel.tancorr_sky2inst', b, uncorrect(a, x, y), dom=FDOM, prove=False, tol=1e-9)
    back = R.method(o, 'tancorr_sky2inst', *R.ip.unpack(f, 2))
    R.same('field model correction undone', 'inverse composition', FM + 'FieldModel.tancorr_sky2inst', back, (x, y), dom=FDOM, prove=False, tol=1e-9)
    # chains over opaque stages: same options, same pointing, reversed order
    for tag, models in (('sky to focal plane', ('radec2fp',)), ('focal plane to sky', ('fp2radec',))):
        R = c.runner(opaque=op)
        o, a = new_fm(R)
        kw = dict(mjd=a['mjd'], lst_deg=a['lst'], hexrot_deg=a['hexrot_deg'], precession=a['precession'], aberration=a['aberration'], polar_misalignment=a['polar_misalignment'])
        if models[0] == 'radec2fp':
            ra, dec = sym('ra', d), sym('dec', d)
            got = R.method(o, 'radec2fp', ra, dec)
            t = R.ip.unpack(R(M + 'radec2tan', ra, dec, a['ra'], a['dec'], **kw), 2)
            t = R.ip.unpack(R.method(o, 'tancorr_sky2inst', *t), 2)
            want = R(RT + 'tan2fp', t[0], t[1], a['adc1'], a['adc2'])
        else:
            xf, yf = sym('xfp', d), sym('yfp', d)
            got = R.method(o, 'fp2radec', xf, yf)
            t = R.ip.unpack(R(RT + 'fp2tan', xf, yf, a['adc1'], a['adc2']), 2)
            t = R.ip.unpack(R.method(o, 'tancorr_inst2sky', *t), 2)
            want = R(M + 'tan2radec', t[0], t[1], a['ra'], a['dec'], **kw)
        R.same('field model chain, %s' % tag, 'reference graph', FM + 'FieldModel.' + models[0], R.lst(*R.ip.unpack(got, 2)), R.lst(*R.ip.unpack(want, 2)), dom=FDOM)
    # end to end with the real stages (focal plane mapping kept abstract as a pair of inverses)
    def t2f(ip, args, kw):
        return (mul(const(15000), args[0]), mul(const(15000), args[1]))

    def f2t(ip, args, kw):
        return (div(args[0], const(15000)), div(args[1], const(15000)))
    R = c.runner(models={RT + 'tan2fp': t2f, RT + 'fp2tan': f2t})
    for fl in (TRUE, FALSE):
        o, a = new_fm(R, fl)
        dom = dict(FDOM, ra=(101, 103), dec=(27, 31), hexrot_deg=(-3, 3))
        R.ip.setattr(o, 'ra', sym('tra'))
        R.ip.setattr(o, 'dec', sym('tdec'))
        ra, dec = sym('ra', d), sym('dec', d)
        fp = R.ip.unpack(R.method(o, 'radec2fp', ra, dec), 2)
        back = R.comps(R.method(o, 'fp2radec', *fp))
        R.same('field model sky to focal plane and back, corrections %s' % ('on' if fl is TRUE else 'off'), 'inverse composition', FM + 'FieldModel.fp2radec', (back[0], back[1]), (ra, dec), dom=dict(FDOM, lst=(80, 130)), period=(360, None), prove=False, tol=1e-5, absolute=True)


def fiberassign(c):
    d = ['N']
    FD = dict(ra=(100, 104), dec=(25, 33), tra=(101, 103), tdec=(27, 31), mjd=(50000, 70000), ha=(-60, 60), rot=(-2, 2), x=(-400, 400), y=(-400, 400), hdec=(-30, 80))
    R = c.runner()
    for n in ((), d):
        h, e = sym('ha', n), sym('hdec', n)
        R.same('ADC angles of a pointing (%s)' % ('array' if n else 'scalar'), 'reference graph', FA + 'pm_get_adc_angles', R(FA + 'pm_get_adc_angles', h, e), R('refs.fa.adc_angles', h, e), dom=FD, prove=False, tol=1e-9)
    op = [M + 'radec2tan', M + 'tan2radec', RT + 'tan2fp', RT + 'fp2tan', FA + '_measure_fieldrot_deg', 'refs.fa.measure', 'desimeter.transform.dm2pm.DM2PM.read', 'desimeter.io.dm2pm_filename', 'desimeter.transform.pos2ptl.ptl2flat', 'desimeter.transform.pos2ptl.flat2ptl']
    for direction, hard, pm, adc in itertools.product((0, 1), (TRUE, FALSE), (TRUE, FALSE), (True, False)):
        c.guard(fa_one, c, op, FD, direction, hard, pm, adc)
    c.guard(fa_measure, c, FD)


def fa_measure(c, FD):
    R = c.runner()
    a = [sym(n, ['N']) for n in ('ra', 'dec')] + [sym('tra'), sym('tdec')] + [sym(n, ['N']) for n in ('x', 'y')]
    got = R(FA + '_measure_fieldrot_deg', *a)
    R.same('measured field rotation', 'reference graph', FA + '_measure_fieldrot_deg', got, R('refs.fa.measure', *a), dom=FD, prove=False, tol=1e-8)


def fa_one(c, op, FD, direction, hard, pm, adc):
    d = ['N']
    mods = {FA + '_measure_fieldrot_deg': lambda ip, args, kw: fn('measured_rotation', *[ip.toterm(v) for v in args]),
            'refs.fa.measure': lambda ip, args, kw: fn('measured_rotation', *[ip.toterm(v) for v in args])}
    R = c.runner(opaque=[o for o in op if o not in mods], models=mods)
    tra, tdec, mjd, ha, rt = [sym(n) for n in ('tra', 'tdec', 'mjd', 'ha', 'rot')]
    kw = dict(use_hardcoded_polmis_rotmat=hard)
    kw['from_platemaker' if direction else 'to_platemaker'] = pm
    if adc:
        a1, a2 = sym('adc1'), sym('adc2')
        kw.update(adc1=a1, adc2=a2)
    else:
        a1, a2 = R.ip.unpack(R(FA + 'pm_get_adc_angles', ha, tdec), 2)
    tag = '%s, %s, ADC angles %s' % ('precomputed misalignment' if hard is TRUE else 'computed misalignment', 'platemaker frame' if pm is TRUE else 'native frame', 'given' if adc else 'from the pointing')
    if direction == 0:
        ra, dec = sym('ra', d), sym('dec', d)
        q = FA + 'fiberassign_radec2xy_cs5'
        got = R(q, ra, dec, tra, tdec, mjd, ha, rt, **kw)
        want = R('refs.fa.radec2cs5', ra, dec, tra, tdec, mjd, ha, rt, a1, a2, pm, hard)
        R.same('targets to focal plane: ' + tag, 'reference graph', q, got, want, dom=FD, prove=False)
        q = FA + 'fiberassign_radec2xy_flat'
        got = R(q, ra, dec, tra, tdec, mjd, ha, rt, **kw)
        want = R('desimeter.transform.pos2ptl.ptl2flat', *R.ip.unpack(want, 2))
        R.same('targets to flat focal surface: ' + tag, 'reference graph', q, R.lst(*R.ip.unpack(got, 2)), R.lst(*R.ip.unpack(want, 2)), dom=FD, prove=False)
    else:
        x, y = sym('x', d), sym('y', d)
        q = FA + 'fiberassign_cs5_xy2radec'
        got = R(q, x, y, tra, tdec, mjd, ha, rt, **kw)
        want = R('refs.fa.cs52radec', x, y, tra, tdec, mjd, ha, rt, a1, a2, pm, hard)
        R.same('focal plane to targets: ' + tag, 'reference graph', q, R.lst(*R.ip.unpack(got, 2)), R.lst(*R.ip.unpack(want, 2)), dom=FD, prove=False)
        q = FA + 'fiberassign_flat_xy2radec'
        got = R(q, x, y, tra, tdec, mjd, ha, rt, **kw)
        u, v = R.ip.unpack(R('desimeter.transform.pos2ptl.flat2ptl', x, y), 2)
        want = R('refs.fa.cs52radec', u, v, tra, tdec, mjd, ha, rt, a1, a2, pm, hard)
        R.same('flat focal surface to targets: ' + tag, 'reference graph', q, R.lst(*R.ip.unpack(got, 2)), R.lst(*R.ip.unpack(want, 2)), dom=FD, prove=False)
