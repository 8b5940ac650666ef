"""Celestial rotations: the value graph of each conversion against the graph of the
documented rotation, and of each conversion composed with its inverse against the
identity, for scalars and arrays."""
from sa.terms import *
M = 'desimeter.transform.radec2tan.'
G = 'desimeter.trig.'
TM = 'desimeter.time.'
DOM = dict(ra=(0, 360), dec=(-80, 85), ha=(-180, 180), alt=(20, 85), az=(0, 360), tha=(-100, 100), tdec=(-60, 80),
           x=(-0.4, 0.4), y=(-0.4, 0.4), mjd=(50000, 70000), years=(-60, 60), lon=(0, 360), lat=(-80, 80), me=(-600, 600), ma=(-600, 600),
           ang=(-400, 400), magnif=(-5, 5), a=(-3, 3), b=(-3, 3), cc=(-3, 3), mjdv=(50000, 70000))
D = div(PI, const(180))
LATITUDE, OBLIQ = const(31.96403), const(23.439279444444445)


def sd(t):
    return fn('sin', mul(D, t))


def cd(t):
    return fn('cos', mul(D, t))


def uv(lon, lat):
    return mul(cd(lon), cd(lat)), mul(sd(lon), cd(lat)), sd(lat)


def lonlat(v):
    x, y, z = v
    return fn('mod', div(fn('atan2', y, x), D), const(360)), div(fn('atan2', z, fn('sqrt', add(mul(x, x), mul(y, y)))), D)


def rotX(t, v):
    x, y, z = v
    return x, add(mul(cd(t), y), mul(sd(t), z)), sub(mul(cd(t), z), mul(sd(t), y))


def to_ecl(ra, dec):
    return lonlat(rotX(OBLIQ, uv(ra, dec)))


def to_equ(lon, lat):
    return lonlat(rotX(neg(OBLIQ), uv(lon, lat)))


def altaz(ha, dec):
    x = sub(mul(sd(dec), cd(LATITUDE)), mul(cd(ha), cd(dec), sd(LATITUDE)))
    y = neg(mul(sd(ha), cd(dec)))
    z = add(mul(cd(ha), cd(dec), cd(LATITUDE)), mul(sd(dec), sd(LATITUDE)))
    return div(fn('atan2', z, fn('sqrt', add(mul(x, x), mul(y, y)))), D), fn('mod', div(fn('atan2', y, x), D), const(360))


def hadec(alt, az):
    # the same rotation about the east-west axis, applied the other way
    n, e, u = mul(cd(alt), cd(az)), mul(cd(alt), sd(az)), sd(alt)
    xq = sub(mul(u, cd(LATITUDE)), mul(n, sd(LATITUDE)))
    zq = add(mul(u, sd(LATITUDE)), mul(n, cd(LATITUDE)))
    return fn('mod', div(fn('atan2', neg(e), xq), D), const(360)), div(fn('atan2', zq, fn('sqrt', add(mul(xq, xq), mul(e, e)))), D)


def precess(ra, dec, years):
    lon, lat = to_ecl(ra, dec)
    return to_equ(add(lon, mul(const(360), div(years, const(25771.5753382206)))), lat)


def sunlon(mjd):
    d = sub(mjd, const(51544.5))
    mean = add(const(280.460), mul(const(0.9856474), d))
    an = add(const(357.528), mul(const(0.9856003), d))
    return fn('mod', add(mean, mul(const(1.915), sd(an)), mul(const(0.020), sd(mul(const(2), an)))), const(360))


def cross(a, b):
    return (sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0])))


def aberr_ecl(lon, lat, mjd, magnif):
    t = uv(lon, lat)
    a = uv(sub(sunlon(mjd), const(90)), ZERO)
    v = cross(t, cross(a, t))
    return lonlat([add(p, mul(magnif, const(0.99365e-4), q)) for p, q in zip(t, v)])


def aberr(ra, dec, mjd):
    lon, lat = to_ecl(ra, dec)
    return to_equ(*aberr_ecl(lon, lat, mjd, ONE))


def tanp(ha, dec, tha, tdec):
    dh = sub(ha, tha)
    return mul(cd(dec), sd(dh)), sub(mul(sd(dec), cd(tdec)), mul(cd(dec), sd(tdec), cd(dh)))


def refract(alt):
    return add(alt, mul(div(const(79), const(3600)), div(div(sd(const(30)), cd(const(30))), div(sd(alt), cd(alt)))))


P2 = (360, None)


def run(c):
    c.floor = 60
    for vec in (False, True):
        c.guard(basics, c, vec)
        c.guard(rotations, c, vec)
        c.guard(motions, c, vec)
        c.guard(refraction, c, vec)
    c.guard(polmis, c)
    c.guard(lst, c)
    c.assumptions += ['real arithmetic; directions are sampled away from the poles of each system by the random interpretation, where longitudes are undefined']


def S(vec, *names):
    return [sym(n, ['N'] if vec else ()) for n in names]


def basics(c, vec):
    R = c.runner()
    t = ' (%s)' % ('array' if vec else 'scalar')
    a, b, w = S(vec, 'lon', 'lat', 'ang')
    same = R.same
    rg = 'reference graph'
    same('unit vector of a direction' + t, rg, G + 'getXYZ', R(G + 'getXYZ', a, b), uv(a, b), dom=DOM)
    x, y, z = S(vec, 'a', 'b', 'cc')
    r = fn('sqrt', add(mul(x, x), mul(y, y), mul(z, z)))
    same('norm of a vector' + t, rg, G + 'getNorm', R(G + 'getNorm', R.arr(x, y, z)), r, dom=DOM)
    same('normalised vector' + t, rg, G + 'getNormalized', R(G + 'getNormalized', R.arr(x, y, z)), (div(x, r), div(y, r), div(z, r)), dom=DOM)
    same('spherical angles of a vector' + t, rg, M + 'getLONLAT', R(M + 'getLONLAT', R.arr(x, y, z)), lonlat((x, y, z)), dom=DOM, period=P2, tol=1e-6)
    same('direction -> vector -> direction' + t, 'inverse composition', M + 'getLONLAT', R(M + 'getLONLAT', R(G + 'getXYZ', a, b)), (a, b), dom=DOM, period=P2, tol=1e-6)
    for f, ref in (('sind', sd(w)), ('cosd', cd(w)), ('tand', div(sd(w), cd(w))), ('sincosd', (sd(w), cd(w)))):
        same('degree trigonometry %s%s' % (f, t), rg, G + f, R(G + f, w), ref, dom=DOM)
    same('arctan2d is the full-circle angle in [0,360)' + t, rg, G + 'arctan2d', R(G + 'arctan2d', y, x), fn('mod', div(fn('atan2', y, x), D), const(360)), dom=DOM)
    if not vec:
        same('rotation by an angle in degrees', rg, G + 'rot2deg', R(G + 'rot2deg', w), (cd(w), neg(sd(w)), sd(w), cd(w)), dom=DOM)


def rotations(c, vec):
    R = c.runner()
    t = ' (%s)' % ('array' if vec else 'scalar')
    ra, dec, ha, alt, az, x, y = S(vec, 'ra', 'dec', 'ha', 'alt', 'az', 'x', 'y')
    tha, tdec = S(False, 'tha', 'tdec')
    rg, inv = 'reference graph', 'inverse composition'
    same = R.same
    E = R(M + 'radec2eclip', ra, dec)
    same('equatorial to ecliptic rotation' + t, rg, M + 'radec2eclip', E, to_ecl(ra, dec), dom=DOM, period=P2, tol=1e-6)
    Q = R(M + 'eclip2radec', ra, dec)
    same('ecliptic to equatorial rotation' + t, rg, M + 'eclip2radec', Q, to_equ(ra, dec), dom=DOM, period=P2, tol=1e-6)
    same('equatorial -> ecliptic -> equatorial' + t, inv, M + 'eclip2radec', R(M + 'eclip2radec', *R.ip.unpack(E, 2)), (ra, dec), dom=DOM, period=P2, tol=1e-6)
    same('ecliptic -> equatorial -> ecliptic' + t, inv, M + 'radec2eclip', R(M + 'radec2eclip', *R.ip.unpack(Q, 2)), (ra, dec), dom=DOM, period=P2, tol=1e-6)
    A = R(M + 'hadec2altaz', ha, dec)
    same('hour angle/declination to altitude/azimuth' + t, rg, M + 'hadec2altaz', A, altaz(ha, dec), dom=DOM, period=(360, 360), tol=1e-6)
    H = R(M + 'altaz2hadec', alt, az)
    same('altitude/azimuth to hour angle/declination' + t, rg, M + 'altaz2hadec', H, hadec(alt, az), dom=DOM, period=P2, tol=1e-6)
    same('hadec -> altaz -> hadec' + t, inv, M + 'altaz2hadec', R(M + 'altaz2hadec', *R.ip.unpack(A, 2)), (ha, dec), dom=DOM, period=P2, tol=1e-5)
    same('altaz -> hadec -> altaz' + t, inv, M + 'hadec2altaz', R(M + 'hadec2altaz', *R.ip.unpack(H, 2)), (alt, az), dom=DOM, period=(None, 360), tol=1e-5)
    XY = R(M + 'hadec2xy', ha, dec, tha, tdec)
    same('direction to tangent plane' + t, rg, M + 'hadec2xy', XY, tanp(ha, dec, tha, tdec), dom=DOM, tol=1e-7)
    B = R(M + 'xy2hadec', x, y, tha, tdec)
    same('direction -> tangent plane -> direction' + t, inv, M + 'hadec2xy', R(M + 'hadec2xy', *(list(R.ip.unpack(B, 2)) + [tha, tdec])), (x, y), dom=DOM, tol=1e-6)
    # the recovered direction lies in the hemisphere of the pointing
    bh, bd = R.ip.unpack(B, 2)
    bh, bd = R.comps(bh)[0], R.comps(bd)[0]
    cosd = add(mul(sd(bd), sd(tdec)), mul(cd(bd), cd(tdec), cd(sub(bh, tha))))
    same('tangent plane direction is on the pointing side' + t, rg, M + 'xy2hadec', cosd, fn('sqrt', sub(ONE, add(mul(x, x), mul(y, y)))), dom=DOM, tol=1e-6)


def motions(c, vec):
    R = c.runner()

    def fine(name, rule, where, got, want, period, tol=1e-8, dom=DOM):
        # compares the small correction itself, not the angle it is added to
        R.same(name, rule, where, got, tuple(want), dom=dom, period=period, tol=tol, prove=False, absolute=True)
    t = ' (%s)' % ('array' if vec else 'scalar')
    ra, dec = S(vec, 'ra', 'dec')
    mjd, yr, mg = S(False, 'mjd', 'years', 'magnif')
    rg, inv = 'reference graph', 'inverse composition'
    same = R.same
    Pz = R(M + 'apply_precession', ra, dec, yr)
    fine('precession by years' + t, rg, M + 'apply_precession', Pz, precess(ra, dec, yr), P2, dom=DOM)
    same('opposite precession cancels' + t, inv, M + 'apply_precession', R(M + 'apply_precession', *(list(R.ip.unpack(Pz, 2)) + [neg(yr)])), (ra, dec), dom=DOM, period=P2, tol=1e-5)
    years = div(sub(mjd, const(51544.5)), const(365.256363004))
    F = R(M + 'apply_precession_from_icrs', ra, dec, mjd)
    fine('precession from J2000 to the date' + t, rg, M + 'apply_precession_from_icrs', F, precess(ra, dec, years), P2, dom=DOM)
    same('undoing precession from J2000' + t, inv, M + 'undo_precession_from_icrs', R(M + 'undo_precession_from_icrs', *(list(R.ip.unpack(F, 2)) + [mjd])), (ra, dec), dom=DOM, period=P2, tol=1e-5)
    if not vec:
        same('longitude of the sun', rg, M + 'getSunLon', R(M + 'getSunLon', mjd), sunlon(mjd), dom=DOM, period=360)
    lon, lat = S(vec, 'lon', 'lat')
    fine('aberration towards the apex, ecliptic' + t, rg, M + 'compute_aberration', R(M + 'compute_aberration', lon, lat, mjd, mg), aberr_ecl(lon, lat, mjd, mg), P2, dom=DOM)
    A = R(M + 'apply_aberration', ra, dec, mjd)
    fine('aberration, equatorial' + t, rg, M + 'apply_aberration', A, aberr(ra, dec, mjd), P2, dom=DOM)
    ar, ad = aberr(ra, dec, mjd)
    U = R(M + 'undo_aberration', ra, dec, mjd)
    fine('undoing aberration to first order' + t, rg, M + 'undo_aberration', U, (sub(mul(const(2), ra), ar), sub(mul(const(2), dec), ad)), P2, dom=dict(DOM, dec=(-60, 60), ra=(1, 359)))
    # composition residual is second order: well below 1e-5 deg away from the poles
    back = R(M + 'undo_aberration', *(list(R.ip.unpack(A, 2)) + [mjd]))
    b = R.comps(back)
    same('apply then undo aberration' + t, inv, M + 'undo_aberration', (b[0], b[1]), (ra, dec), dom=dict(DOM, dec=(-60, 60)), period=P2, tol=1e-5, prove=False, absolute=True)


def refraction(c, vec):
    R = c.runner()
    t = ' (%s)' % ('array' if vec else 'scalar')
    alt, = S(vec, 'alt')
    A = R(M + 'apply_refraction', alt)
    R.same('refraction raises the altitude' + t, 'reference graph', M + 'apply_refraction', A, refract(alt), dom=DOM)
    back = R.comps(R(M + 'undo_refraction', A))[0]
    c.equal('undoing refraction, second order%s' % t, 'inverse composition', R.where(M + 'undo_refraction'),
            mul(const(1000), sub(back, alt)), ZERO, dom=dict(DOM, alt=(25, 88)), tol=1e-3, prove=False)


def mat(R, v):
    m = R.comps(v)
    return [m[0:3], m[3:6], m[6:9]]


def mv(m, v):
    return [add(*[mul(a, b) for a, b in zip(r, v)]) for r in m]


def polmis(c):
    R = c.runner()
    me, ma = S(False, 'me', 'ma')
    f = M + 'compute_polar_misalignment_rotation_matrix'
    m = mat(R, R(f, me, ma))
    h = hadec(sub(LATITUDE, div(me, const(3600))), div(ma, const(3600)))
    pole = uv(*h)
    R.same('misaligned pole is carried onto the true pole', 'reference graph', f, R.ip.new(_arr(mv(m, pole))), (ZERO, ZERO, ONE), dom=DOM, prove=False, tol=1e-8)
    # a rotation: orthonormal rows, and no rotation about the pole itself (axis in the equator)
    for i in range(3):
        for j in range(i, 3):
            c.equal('rotation matrix rows %d,%d' % (i, j), 'orthonormality', R.where(f), add(*[mul(a, b) for a, b in zip(m[i], m[j])]), ONE if i == j else ZERO, dom=DOM, prove=False, tol=1e-9)
    c.equal('rotation axis lies in the equator', 'reference graph', R.where(f), sub(m[0][1], m[1][0]), ZERO, dom=DOM, prove=False, tol=1e-9)
    mi = mat(R, R(f, neg(me), neg(ma)))
    for i in range(3):
        for j in range(3):
            c.equal('opposite misalignment is the inverse [%d,%d]' % (i, j), 'inverse composition', R.where(f), add(*[mul(mi[i][k], m[k][j]) for k in range(3)]), ONE if i == j else ZERO, dom=dict(DOM, me=(-150, 150), ma=(-10, 10)), prove=False, tol=1e-6)
    z = mat(R, R(f, ZERO, ZERO))
    for i in range(3):
        for j in range(3):
            c.equal('no misalignment is the identity [%d,%d]' % (i, j), 'reference graph', R.where(f), z[i][j], ONE if i == j else ZERO, tol=1e-12)
    # precomputed matrices
    g = M + 'get_hardcoded_polmis_rotmat'
    for inv, s in ((FALSE, 1), (TRUE, -1)):
        hm = mat(R, R(g, inverse=inv))
        ref = mat(R, R(f, const(s * -120), const(s * -2)))
        for i in range(3):
            for j in range(3):
                c.equal('precomputed %smatrix [%d,%d]' % ('inverse ' if s < 0 else '', i, j), 'constant agreement', R.where(g), mul(const(1000), hm[i][j]), mul(const(1000), ref[i][j]), tol=1e-7, prove=False)


def _arr(vals):
    from sa import interp as I
    return I.ArrC((len(vals),), tuple(vals))


def lst(c):
    R = c.runner()
    mjd = sym('mjd')
    d = sub(add(mjd, const(2400000.5)), const(2451545.0))
    t = div(d, const(36525))
    g = add(const(280.46061837), mul(const(360.98564736629), d), mul(const(0.000387933), t, t), neg(div(mul(t, t, t), const(38710000))))
    R.same('sidereal time at the Mayall longitude', 'reference graph', TM + 'mjd2lst', R(TM + 'mjd2lst', mjd), fn('mod', add(g, const(-111.59989), const(-0.16035388)), const(360)), dom=DOM, period=360, tol=1e-6)
