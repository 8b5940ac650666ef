"""Ray trace: systems of surfaces whose parameters and rays are symbols are traced by the interpreter, comparisons being decided
near a point of each regime; the graphs of the positions and directions are compared with those written from the laws of optics."""
from fractions import Fraction as Fr
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import lib
from sa import terms as tm
from sa.ctx import AnchorLost

M = 'desimeter.transform.tan2fp.raytrace.RT185v2'
XYZ = ('X', 'Y', 'Z')
ACTION = dict(lens='OLENSACTION', mirror='OMIRRORACTION', retro='ORETROACTION', iris='OIRISACTION', cbin='OCBINACTION', cbout='OCBOUTACTION')
FIELD = dict(x='OX', y='OY', z='OZ', t='OTILT', p='OPITCH', r='OROLL', c='OCURVE', k='OASPH', D='OODIAM', d='OIDIAM', legs='ONSPIDER', width='OWSPIDER')
TWO = const(2)
sqrt = lambda x: fn('sqrt', x)
sq = lambda x: mul(x, x)
dot = lambda a, b: add(*[mul(x, y) for x, y in zip(a, b)])
scaled = lambda f, a: [mul(f, x) for x in a]
plus = lambda a, b: [add(x, y) for x, y in zip(a, b)]
minus = lambda a, b: [sub(x, y) for x, y in zip(a, b)]


def run(c):
    c.floor = 60
    for s in scenes():
        section(c, scene, **s)
    for s in polys():
        section(c, polynomial, **s)
    section(c, adc)
    section(c, group)
    section(c, nine)
    section(c, waves)
    section(c, optics_table)
    section(c, rays_table)
    section(c, media_table)
    return ''


def section(c, f, **k):
    def go():
        try:
            f(c, **k)
        except I.RowError as e:
            c.bad('%s %s' % (f.__name__, k.get('tag', '')), 'arrays that are combined have equal lengths', M, str(e))
        finally:
            tm.setpoint()
    go.__name__ = '%s %s' % (f.__name__, k.get('tag', ''))
    c.guard(go)


# ------------------------------------------------------------------ a system of symbols

class System(object):
    """surfaces and rays; a float is the value of a symbol at the point of the regime, an integer or fraction is itself"""
    def __init__(self, c, surfaces, rays, media=None, waves=None):
        self.c, self.R = c, c.runner()
        self.ip = self.R.ip
        self.ip.exact = True
        self.frame = self.ip.module(M)
        if self.frame is None:
            raise AnchorLost(M)
        self.pt = {}
        self.surf = [self.surface(j, s) for j, s in enumerate(surfaces, 1)]
        self.rays = [self.ray(i, r) for i, r in enumerate(rays, 1)]
        self.media = {g: {w: self.val('n_%s_%s' % (g, w), n) for w, n in m.items()} for g, m in (media or {}).items()}
        self.waves = waves or ['F'] * len(rays)
        tm.setpoint(self.pt)
        self.install()

    def val(self, name, v):
        if isinstance(v, float):
            self.pt[name] = v
            return sym(name)
        return const(v)

    def surface(self, j, s):
        o = {k: self.val('%s%d' % (k, j), s.get(k, 0)) for k in FIELD}
        o['poly'] = {n: self.val('a%d_%d' % (n, j), v) for n, v in s.get('poly', {}).items()}
        o['type'], o['glass'] = s.get('type', 'iris'), s.get('glass', '')
        return o

    def ray(self, i, r):
        p = [self.val('%s_%d' % (n, i), v) for n, v in zip(XYZ, r[:3])]
        k = [self.val('%s_%d' % (n, i), v) for n, v in zip('UV', r[3:5])]
        w = r[5] if len(r) > 5 else 1
        if abs(w) != 1:
            return p + k + [const(w)]
        q = sqrt(sub(ONE, add(sq(k[0]), sq(k[1]))))
        return p + k + [q if w > 0 else neg(q)]

    def num(self, t):
        return float(tm.PointEv(self.pt).ev(t))

    def vars(self):
        return self.ip.get(self.frame).vars

    def idx(self, n):
        v = self.vars().get(n)
        if not isinstance(v, tm.T) or v.op != 'c':
            raise AnchorLost(n)
        return int(v.data)

    def put(self, **k):
        old = self.ip.get(self.frame)
        v = dict(old.vars)
        for n in k:
            if n not in v:
                raise AnchorLost(n)
        v.update(k)
        self.ip.put(self.frame, I.FrameC(v, old.parent))

    def install(self):
        ip, R = self.ip, self.R
        ns, nr = len(self.surf), len(self.rays)
        no, nf = self.idx('OFINAL'), self.idx('RFINAL')
        O = [ZERO] * ((ns + 1) * no)
        poly = [strc('base=1')]
        for j, s in enumerate(self.surf, 1):
            for k, n in FIELD.items():
                O[j * no + self.idx(n)] = s[k]
            O[j * no + self.idx('OACTIONTYPE')] = const(self.idx(ACTION[s['type']]))
            for n, v in s['poly'].items():
                O[j * no + self.idx('OA1') - 1 + n] = v
            poly.append(TRUE if s['poly'] else FALSE)
        A = [ZERO] * ((nr + 1) * (ns + 1) * nf)
        for i, r in enumerate(self.rays, 1):
            for n, v in zip(('RX', 'RY', 'RZ', 'RU', 'RV', 'RW'), r):
                A[i * (ns + 1) * nf + self.idx(n)] = v
        g = sorted(self.media)
        w = sorted(set(x for m in self.media.values() for x in m))
        Ma = [ZERO] * ((len(g) + 1) * (len(w) + 2))
        for a, x in enumerate(g, 1):
            for b, y in enumerate(w, 1):
                Ma[a * (len(w) + 2) + b] = self.media[x][y]
        new = lambda sh, v: ip.new(I.ArrC(sh, v))
        self.put(Oarray=new((ns + 1, no), O), Rarray=new((nr + 1, ns + 1, nf), A), Nsurfs=const(ns), Nrays=const(nr), OhasPoly=R.lst(*poly),
                 OglassNames=R.lst(strc('base=1'), *[strc(s['glass']) for s in self.surf]), RwaveNames=R.lst(strc('base=1'), *[strc(x) for x in self.waves]),
                 Nglasses=const(len(g)), MglassNames=R.lst(strc('base=1'), *[strc(x) for x in g]), MwaveNames=R.lst(strc('base=1'), *[strc(x) for x in w]),
                 Marray=new((len(g) + 1, len(w) + 2), Ma))
        R(M + '.setEulers')

    def cell(self, i, j, names=('RX', 'RY', 'RZ', 'RU', 'RV', 'RW')):
        o = self.ip.get(self.vars()['Rarray'])
        return [o.vals[(i * o.shape[1] + j) * o.shape[2] + self.idx(n)] for n in names]

    def dom(self, rel=1e-3):
        return {k: (v - rel * (abs(v) or 1e-3), v + rel * (abs(v) or 1e-3)) for k, v in self.pt.items()}

    def clean(self):
        for w in self.ip.warned:
            if w.startswith('desimeter'):
                raise I.Unsupported(w)


# ------------------------------------------------------------------ the laws

def rotation(s, extra=None):
    """local to laboratory: tilt about X, pitch about the tilted Y, roll about the resulting Z; first turned about the axis of the lab"""
    def rot(ax, deg):
        a = mul(deg, lib.D2R)
        co, si = (fn('cos', a), fn('sin', a)) if deg is not ZERO else (ONE, ZERO)
        i, j = [(1, 2), (2, 0), (0, 1)][ax]
        m = [[ONE if p == q else ZERO for q in range(3)] for p in range(3)]
        m[i][i] = m[j][j] = co
        m[i][j], m[j][i] = neg(si), si
        return m
    m = product(rot(0, s['t']), product(rot(1, s['p']), rot(2, s['r'])))
    return product(rot(2, extra), m) if extra is not None else m


def product(a, b):
    return [[dot(r, [q[j] for q in b]) for j in range(3)] for r in a]


apply = lambda m, v: [dot(r, v) for r in m]
transpose = lambda m: [list(r) for r in zip(*m)]


def sag(s, x, y, poly=True):
    r2 = add(sq(x), sq(y))
    z = div(mul(s['c'], r2), add(ONE, sqrt(sub(ONE, mul(add(ONE, s['k']), sq(s['c']), r2)))))
    for n, a in sorted(s['poly'].items()) if poly else ():
        z = add(z, mul(a, power(sqrt(r2), const(n))))
    return z


def normal(s, x, y):
    p, q = sym('at_x'), sym('at_y')
    if not s['poly']:
        den = sqrt(sub(ONE, mul(add(ONE, s['k']), sq(s['c']), add(sq(x), sq(y)))))
        g = [div(mul(s['c'], v), den) for v in (x, y)]
    elif x is ZERO and y is ZERO:
        g = [ZERO, ZERO]
    else:
        g = [tm.subst(tm.diff(sag(s, p, q), v), {p: x, q: y}) for v in (p, q)]
    n = [neg(g[0]), neg(g[1]), ONE]
    return scaled(div(ONE, sqrt(dot(n, n))), n)


class Lost(Exception):
    pass


def met(S, s, p, k):
    """nearest point ahead on the sheet of the conic that holds the vertex"""
    e = add(ONE, s['k'])
    A = mul(s['c'], add(sq(k[0]), sq(k[1]), mul(e, sq(k[2]))))
    B = mul(TWO, sub(mul(s['c'], add(mul(p[0], k[0]), mul(p[1], k[1]), mul(e, p[2], k[2]))), k[2]))
    C = sub(mul(s['c'], add(sq(p[0]), sq(p[1]), mul(e, sq(p[2])))), mul(TWO, p[2]))
    if A is ZERO or abs(S.num(A)) < 1e-14:
        roots = [div(neg(C), B)] if abs(S.num(B)) > 1e-14 else []
    elif C is ZERO:
        roots = [div(neg(B), A)]
    else:
        D = sub(sq(B), mul(const(4), A, C))
        if S.num(D) < 0:
            raise Lost
        roots = [div(add(neg(B), mul(const(g), sqrt(D))), mul(TWO, A)) for g in (1, -1)]
    ok = [d for d in roots if S.num(d) > 0 and S.num(mul(e, s['c'], add(p[2], mul(d, k[2])))) < 1]
    if not ok:
        raise Lost
    return plus(p, scaled(min(ok, key=S.num), k))


def inside(S, s, p):
    r = S.num(sqrt(add(sq(p[0]), sq(p[1]))))
    if S.num(s['D']) > 0 and r > S.num(s['D']) / 2 or r < S.num(s['d']) / 2:
        raise Lost
    import math
    legs, h = int(S.num(s['legs'])), S.num(s['width']) / 2
    x, y = S.num(p[0]), S.num(p[1])
    for l in range(legs if h > 0 else 0):
        a = 2 * math.pi * l / legs
        if abs(-x * math.sin(a) + y * math.cos(a)) < h and x * math.cos(a) + y * math.sin(a) > 0:
            raise Lost


def turned(S, j, s, p, k, i):
    if s['type'] == 'retro':
        return scaled(const(-1), k)
    if s['type'] == 'mirror':
        n = normal(s, p[0], p[1])
        return minus(k, scaled(mul(TWO, dot(k, n)), n))
    if s['type'] == 'lens':
        def index(g):
            if g == '':
                return ONE
            return const(Fr(g)) if g[0].isdigit() else S.media[g][S.waves[i - 1]]
        mu = div(index(s['glass']), index(S.surf[j]['glass']))
        n = normal(s, p[0], p[1])
        co = dot(k, n)
        if S.num(co) < 0:
            n, co = scaled(const(-1), n), neg(co)
        q = sub(ONE, mul(sq(mu), sub(ONE, sq(co))))
        if S.num(q) <= 0:
            raise Lost
        return plus(scaled(mu, k), scaled(sub(sqrt(q), mul(mu, co)), n))
    return k


def expected(S, i, about=None, hit=None):
    """positions and directions in the laboratory at the surfaces the ray i passes"""
    r = S.rays[i - 1]
    p, k = r[:3], r[3:]
    out, local = [], None
    for j, s in enumerate(S.surf, 1):
        m, v = rotation(s, (about or {}).get(j)), [s['x'], s['y'], s['z']]
        if s['type'] == 'none':
            out.append(p + k)
            continue
        if s['type'] == 'cbout':
            lp, lk = local
        else:
            lp, lk = apply(transpose(m), minus(p, v)), apply(transpose(m), k)
            try:
                lp = hit(j, s, lp, lk) if hit else met(S, s, lp, lk)
                inside(S, s, lp)
                if j < len(S.surf):
                    lk = turned(S, j, s, lp, lk, i)
            except Lost:
                return out
        local = (lp, lk)
        p, k = plus(apply(m, lp), v), apply(m, lk)
        out.append(p + k)
    return out


# ------------------------------------------------------------------ rays through surfaces

def scenes():
    fin = dict(z=60.0, t=2.0, p=-3.0, r=30.0, c=0.004, k=0.3)
    ray = (1.0, 2.0, -30.0, 0.08, -0.05)
    for tag, s in (('a plane', dict(c=0)), ('a sphere', dict(c=0.02)), ('a sphere open to the ray', dict(c=-0.02)), ('an ellipsoid', dict(c=0.02, k=-0.5)),
                   ('a flat ellipsoid', dict(c=-0.02, k=0.7)), ('a paraboloid', dict(c=0.03, k=-1)), ('a hyperboloid', dict(c=-0.03, k=-2.5)), ('a strong hyperboloid', dict(c=0.08, k=-6.0))):
        base = dict(x=0.3, y=-0.2, z=1.5, t=4.0, p=-6.0, r=35.0, **s)
        for kind in ('mirror', 'lens', 'retro', 'iris'):
            yield dict(tag='%s, %s' % (tag, kind), surfaces=[dict(base, type=kind), dict(fin, z=-40.0 if kind in ('mirror', 'retro') else 60.0, glass='1.5')], rays=[ray])
        yield dict(tag='%s, the ray coming from the other side' % tag, surfaces=[dict(base, type='lens', glass='1.25'), dict(fin, z=-40.0)], rays=[(1.0, 2.0, 30.0, 0.08, -0.05, -1)])
        yield dict(tag='%s, behind the ray' % tag, surfaces=[dict(base, type='mirror'), fin], rays=[(1.0, 2.0, 130.0, 0.08, -0.05)])
    # the nearest point ahead
    yield dict(tag='inside a sphere', surfaces=[dict(c=0.1, type='mirror', z=0), dict(z=-40.0)], rays=[(0.5, 0.3, 6.0, 0.1, 0.2, -1)])
    yield dict(tag='inside a sphere, the other half ahead', surfaces=[dict(c=0.1, type='mirror'), dict(z=-40.0)], rays=[(0.5, 0.3, 6.0, 0.1, 0.2, 1)])
    yield dict(tag='through the other half of a sphere', surfaces=[dict(c=0.1, type='iris'), dict(z=-40.0)], rays=[(0.5, 0.3, 36.0, 0.02, 0.05, -1)])
    yield dict(tag='the other sheet of a hyperboloid is nearer', surfaces=[dict(c=0.1, k=-2.0, type='iris'), dict(z=40.0)], rays=[(0.5, 0.3, -56.0, 0.02, 0.05)])
    yield dict(tag='only the other sheet of a hyperboloid is ahead', surfaces=[dict(c=-0.1, k=-2.0, type='iris'), dict(z=40.0)], rays=[(0.5, 0.3, 6.0, 0.02, 0.05)])
    yield dict(tag='twice on the same side of a sphere', surfaces=[dict(c=0.1, type='iris'), dict(z=-40.0)], rays=[(-30.0, 0.3, 5.0, 0.995, 0.01, 1)])
    yield dict(tag='beside a sphere', surfaces=[dict(c=0.1, type='iris'), dict(z=40.0)], rays=[(12.0, 3.0, -20.0, 0.05, 0.1)])
    yield dict(tag='beside a sphere, along the axis', surfaces=[dict(c=0.1, type='iris'), dict(z=40.0)], rays=[(12.0, 3.0, -20.0, 0, 0)])
    # rays for which a coefficient of the quadratic equation vanishes
    yield dict(tag='along the axis of a paraboloid', surfaces=[dict(c=-0.02, k=-1, type='mirror', z=5.0), dict(z=-30.0)], rays=[(3.0, -2.0, -20.0, 0, 0)])
    yield dict(tag='along the axis of a sphere', surfaces=[dict(c=-0.02, type='mirror', z=5.0), dict(z=-30.0)], rays=[(3.0, -2.0, -20.0, 0, 0)])
    yield dict(tag='from the vertex of a sphere', surfaces=[dict(c=0.1, k=0.2, type='iris'), dict(c=0.05, z=0, type='iris')], rays=[(0, 0, 0, 0.96, 0.05)])
    for x in (1, -1):
        yield dict(tag='across the axis of a sphere %+d' % x, surfaces=[dict(c=0.1, k=0.1, type='mirror'), dict(x=20.0 * x, p=90.0)], rays=[(0, 0, 2.0, -x, 0, 0)])
    yield dict(tag='across the axis of a sphere, beyond it', surfaces=[dict(c=0.1, type='mirror'), dict(x=-20.0, p=90.0)], rays=[(0, 0, -2.0, 1, 0, 0)])
    # rays nearly across the axis
    for c, z in ((0.1, 7.0), (-0.1, -7.0)):
        for x, w in ((20.0, -1), (20.0, 1), (-20.0, -1), (-20.0, 1)):
            for kind in ('lens', 'mirror'):
                yield dict(tag='%s, curvature %g, from %+d nearly across the axis %+d' % (kind, c, x, w), surfaces=[dict(type=kind, c=c), dict(x=-30.0 if (x > 0) == (kind == 'lens') else 30.0, p=90.0, glass='1.2')], rays=[(x, 0.5, z, -0.998 if x > 0 else 0.998, 0.01, w)])
    # glasses
    media = {'A': {'F': 1.45, 'd': 1.4}, 'B': {'F': 1.6, 'd': 1.55}}
    lens = [dict(type='lens', c=0.02, t=2.0, p=1.0), dict(type='lens', c=-0.03, z=5.0, glass='A'), dict(type='lens', c=0.01, z=9.0, glass='B', p=3.0), dict(fin)]
    yield dict(tag='three refractions', surfaces=lens, rays=[ray, (0.3, 0.2, -20.0, -0.04, 0.05)], media=media, waves=['F', 'd'])
    yield dict(tag='a glass given by its index', surfaces=[dict(type='lens', c=0.02), dict(type='lens', c=-0.03, z=5.0, glass='1.5'), dict(fin, glass='1.25')], rays=[ray], media=media)
    for u, v in ((0.5, 0.4), (0.5, -0.4), (0.8, 0.1), (-0.7, 0.5), (0.65, 0.05)):
        yield dict(tag='total reflection %g %g' % (u, v), surfaces=[dict(type='lens', c=0.002, t=10.0, glass='A'), dict(fin, z=160.0)], rays=[(1.0, 2.0, -30.0, u, v)], media=media)
    yield dict(tag='below total reflection', surfaces=[dict(type='lens', c=0.02, t=30.0, glass='A'), fin], rays=[(1.0, 2.0, -30.0, 0.1, 0.05)], media=media)
    # apertures
    for D, d in ((8.0, 0), (6.0, 0), (0, 6.0), (0, 8.0), (10.0, 6.0), (6.0, 2.0), (12.0, 8.0)):
        yield dict(tag='diameters %g and %g' % (D, d), surfaces=[dict(type='lens', c=0.01, D=D, d=d, z=5.0, x=1.0), dict(fin, glass='1.5')], rays=[(4.0, 2.0, -2.0, 0.01, 0.02)])
    yield dict(tag='diameter of the last surface', surfaces=[dict(type='iris'), dict(fin, D=6.0)], rays=[(4.0, 2.0, -2.0, 0.01, 0.02)])
    for n in (1, 3, 4):
        for x, y in ((4.0, 0.2), (-4.0, 0.2), (0.2, 4.0), (0.2, -4.0), (-2.1, 3.5), (-2.1, -3.5), (2.1, -3.5), (2.0, 3.0), (4.0, 0.4), (4.0, -0.2), (-2.6, 3.4)):
            yield dict(tag='%d legs of a spider, ray at %g %g' % (n, x, y), surfaces=[dict(type='iris', legs=n, width=0.6, z=1.0), dict(z=9.0)], rays=[(x, y, 0.0, 0.001, 0.002)])
    yield dict(tag='a spider without legs', surfaces=[dict(type='iris', legs=0, width=0.6), dict(z=9.0)], rays=[(4.0, 0.1, -2.0, 0.001, 0.002)])
    yield dict(tag='a spider without width', surfaces=[dict(type='iris', legs=4), dict(z=9.0)], rays=[(4.0, 0.1, -2.0, 0.001, 0.002)])
    # changes of coordinates
    cb = lambda a, b: [dict(type='cbin', x=0.4, y=-0.3, z=5.0, t=3.0, p=-2.0, r=a, c=0.01), dict(type='cbout', x=0.7, y=0.2, z=6.0, t=1.0, p=2.5, r=b, c=0.01)]
    yield dict(tag='a change of coordinates', surfaces=cb(20.0, -50.0) + [fin], rays=[ray])
    yield dict(tag='a change of coordinates and a mirror', surfaces=cb(0, -50.0) + [dict(type='mirror', z=20.0, c=-0.02, t=3.0)] + cb(0, 50.0) + [dict(fin, z=-40.0)], rays=[ray])


def scene(c, tag, surfaces, rays, **k):
    S = System(c, surfaces, rays, **k)
    c.sites += 1
    w = S.R.where(M + '.runOneRay')
    for i in range(1, len(rays) + 1):
        got = S.R(M + '.runOneRay', const(i))
        S.clean()
        want = expected(S, i)
        name = '%s, ray %d' % (tag, i)
        if not (isinstance(got, tm.T) and got.op == 'c'):
            raise I.Unsupported('surface reached')
        if int(got.data) != len(want):
            c.bad(name + ': surfaces passed', 'a ray passes a surface when it meets it ahead within its aperture', w, '%d instead of %d of %d' % (int(got.data), len(want), len(surfaces)))
            continue
        c.ok(name + ': surfaces passed', 'a ray passes a surface when it meets it ahead within its aperture', w)
        for j, e in enumerate(want, 1):
            compare(c, S, '%s, surface %d' % (name, j), S.cell(i, j), e)


def compare(c, S, name, got, want, **k):
    c.equal(name + ': position', 'a ray meets the nearest point of the surface ahead', S.R.where(M + '.intercept'), fn('tuple', *got[:3]), fn('tuple', *want[:3]),
            dom=S.dom(), prove=False, trials=6 if c.tier == 'quick' else 40, absolute=False, **k)
    c.equal(name + ': direction', 'a ray is reflected, reversed or refracted by the laws of optics', S.R.where(M + '.redirect'), fn('tuple', *got[3:]), fn('tuple', *want[3:]),
            dom=S.dom(), prove=False, trials=6 if c.tier == 'quick' else 40, **k)


# ------------------------------------------------------------------ surfaces with a polynomial

def polys():
    ray, back = (1.0, 2.0, -30.0, 0.08, -0.05), (1.0, 2.0, 30.0, 0.08, -0.05, -1)
    fin = dict(z=60.0, t=2.0, glass='1.5')
    for tag, a in (('fourth degree', {4: 1e-4}), ('all even degrees', {2: 1e-3, 4: -1e-4, 6: 1e-6, 8: 1e-8, 10: -1e-10, 12: 1e-12, 14: 1e-14}), ('odd degrees', {1: 0.01, 3: -1e-3, 5: 1e-5, 7: 1e-7, 9: 1e-9, 11: -1e-10, 13: 1e-12})):
        for c, k in ((0.02, 0.3), (0, 0), (-0.03, -1.5)):
            base = dict(c=c, k=k, poly=a, x=0.3, z=1.5, t=2.0, p=-3.0, r=20.0)
            yield dict(tag='%s, curvature %g' % (tag, c), surfaces=[dict(base, type='lens'), fin], rays=[ray])
            yield dict(tag='%s, curvature %g, mirror' % (tag, c), surfaces=[dict(base, type='mirror'), dict(z=-40.0)], rays=[ray])
            yield dict(tag='%s, curvature %g, from the other side' % (tag, c), surfaces=[dict(base, type='lens', glass='1.5'), dict(z=-40.0)], rays=[back])
    for a in (0.005, -0.005, 0.0012):
        yield dict(tag='a strong fourth degree %g' % a, surfaces=[dict(type='lens', c=0.02, k=0.3, poly={4: a}, z=1.5), fin], rays=[ray])
    yield dict(tag='along the axis', surfaces=[dict(type='lens', c=0.02, poly={2: 1e-3, 4: 1e-4}, z=1.5), fin], rays=[(0, 0, -30.0, 0, 0)])
    yield dict(tag='beside the conic', surfaces=[dict(type='lens', c=0.2, poly={4: 1e-4}, z=1.5), fin], rays=[(12.0, 0.3, -30.0, 0.01, 0.02)])
    yield dict(tag='outside the diameter', surfaces=[dict(type='lens', c=0.02, poly={4: 1e-4}, z=1.5, D=4.0), fin], rays=[ray])
    yield dict(tag='last surface', surfaces=[dict(type='mirror', c=-0.01, t=3.0), dict(z=-20.0, c=0.02, k=0.5, poly={4: 1e-4, 6: 1e-6})], rays=[ray])


def polynomial(c, tag, surfaces, rays):
    S = System(c, surfaces, rays)
    c.sites += 1
    w = S.R.where(M + '.higherIntercept')
    got = S.R(M + '.runOneRay', ONE)
    S.clean()
    hits = {}

    def hit(j, s, p, k):
        q = met(S, s, p, k)
        if not s['poly']:
            return q
        h = S.cell(1, j, ('Rx', 'Ry', 'Rz'))
        along = plus(p, scaled(dot(minus(h, p), k), k))
        hits[j] = (h, along, sag(s, h[0], h[1]), dot(minus(h, p), k), dot(minus(h, q), k))
        return h
    want = expected(S, 1, hit=hit)
    name = 'polynomial of %s' % tag
    if not (isinstance(got, tm.T) and got.op == 'c'):
        raise I.Unsupported('surface reached')
    ok = int(got.data) == len(want)
    (c.ok if ok else c.bad)(name + ': surfaces passed', 'a ray passes a surface when it meets it ahead within its aperture', w, '' if ok else '%d instead of %d' % (int(got.data), len(want)))
    if not ok:
        return
    for j, (h, along, z, d, step) in sorted(hits.items()):
        if j > len(want):
            continue
        nm = '%s, surface %d' % (name, j)
        k = dict(dom=S.dom(), prove=False, trials=4 if c.tier == 'quick' else 30)
        c.equal(nm + ': along the ray', 'the ray meets the surface on its own line', w, fn('tuple', *h), fn('tuple', *along), **k)
        c.equal(nm + ': on the surface', 'the ray meets the conic with the polynomial', w, h[2], z, absolute=True, tol=1e-8, **k)
        (c.ok if S.num(d) > 0 else c.bad)(nm + ': ahead', 'the ray meets the surface ahead', w, 'distance %.6g' % S.num(d))
    for j, e in enumerate(want, 1):
        compare(c, S, '%s, surface %d' % (name, j), S.cell(1, j), e)


# ------------------------------------------------------------------ corrector, groups of rays

LETTERS = ['i', 'g', 'F', 'd', 'R', 'C', 's', 't']
NM = [365, 436, 486, 588, 638, 656, 852, 1014]


def corrector(c, rays, waves=None, limit=0):
    """26 surfaces; the two prisms are 12, 13 and 18, 19 between changes of coordinates"""
    s = [dict(z=100 - 3 * j) for j in range(26)]
    for j in (9, 13, 15, 19):
        s[j].update(type='cbin', c=-2e-4)
        s[j + 1].update(type='cbout', c=-2e-4, z=s[j]['z'])
    g = ['A', 'B']
    for n, j in enumerate((11, 17)):
        s[j].update(type='lens', c=0.002, p=0.9 if n else 0, D=limit)
        s[j + 1].update(type='lens', c=-0.003, p=0 if n else 1.1, t=0.4, glass=g[n])
    s[25].update(c=-1e-3)
    ws = LETTERS
    media = {x: {w: 1.4 + 0.1 * a + 0.01 * b for b, w in enumerate(ws)} for a, x in enumerate(g)}
    return System(c, s, rays, media=media, waves=waves)


def turnedabout(S, a1, a2):
    """the same with the prisms turned about the axis instead of the coordinates"""
    for s in S.surf:
        s['type'] = dict(cbin='iris', cbout='none').get(s['type'], s['type'])
    return {12: a1, 13: a1, 18: a2, 19: a2}


def adc(c):
    S = corrector(c, [(2.0, 1.0, 130.0, 0.03, -0.02, -1)])
    w = S.R.where(M + '.modifyADC')
    a = [sym('adc%d' % k) for k in (1, 2, 3, 4)]
    S.pt.update(adc1=35.0, adc2=-60.0, adc3=110.0, adc4=-20.0)
    tm.setpoint(S.pt)
    S.R(M + '.modifyADC', a[0], a[1])
    about = turnedabout(S, a[0], a[1])
    for what, (p, q) in (('', (a[0], a[1])), ('again, ', (a[2], a[3]))):
        if what:
            S.R(M + '.modifyADC', p, q)
            about = turnedabout(S, p, q)
        S.R(M + '.runOneRay', ONE)
        S.clean()
        want = expected(S, 1, about=about)
        for j in (9, 15, 16, 21, 22, 26):
            c.equal('prisms turned %sray at surface %d' % (what, j), 'the angles of the corrector turn its prisms about the axis', w, fn('tuple', *S.cell(1, j)), fn('tuple', *want[j - 1]), dom=S.dom(), prove=False, trials=6)


def finals(S, about=None):
    out = []
    for i in range(1, len(S.rays) + 1):
        e = expected(S, i, about=about)
        if len(e) == len(S.surf):
            out.append(e[-1][:3])
    return out


def aimed(S, u, v):
    for r in S.rays:
        q = sqrt(sub(ONE, add(sq(u), sq(v))))
        down = S.num(r[5]) < 0
        r[3:] = [u, v, neg(q) if down else q]


def group(c):
    u, v = sym('u'), sym('v')
    media = {'A': {x: 1.4 + 0.02 * n for n, x in enumerate(LETTERS)}}
    for sign in (1, -1):
        lens = [dict(type='lens', c=0.02, t=2.0, D=8.0), dict(type='lens', c=-0.03, z=5.0 * sign, glass='A'), dict(z=20.0 * sign, t=4.0, c=0.004)]
        rays = [(x, y, -20.0 * sign, 0, 0, sign) for x, y in ((1.0, 2.0), (9.0, 0.5), (-2.0, 1.0), (0.3, -1.0))]
        for n in (0, 2, 5, 7):
            S = System(c, lens, rays, media=media, waves=['d'] * 4)
            S.pt.update(u=0.02, v=-0.05)
            tm.setpoint(S.pt)
            S.R(M + '.prepForcedRayGroup', S.ip.new(I.ArrC((3,), [const(n), u, v])))
            got = S.ip.get(S.R(M + '.runAllTableRays'))
            S.clean()
            S.waves = [LETTERS[n]] * 4
            aimed(S, u, v)
            want = finals(S)
            name = 'rays of wavelength %d, %s' % (NM[n], 'upwards' if sign > 0 else 'downwards')
            w = S.R.where(M + '.runAllTableRays')
            ok = tuple(got.shape) == (3, 4) and len(want) == 3
            (c.ok if ok else c.bad)(name + ': number', 'only rays that reach the last surface count', w, '' if ok else 'shape %s, %d rays expected' % (got.shape, len(want)))
            if not ok:
                continue
            for i, e in enumerate(want):
                c.equal('%s, ray %d' % (name, i), 'each ray has the wavelength and direction asked for', w, fn('tuple', *got.vals[4 * i:4 * i + 3]), fn('tuple', *e), dom=S.dom(), prove=False, trials=6)
                c.equal('%s, ray %d: wavelength' % (name, i), 'each ray has the wavelength and direction asked for', w, got.vals[4 * i + 3], const(n), prove=False)


def nine(c):
    """averages and spreads of the rays of all wavelengths"""
    for tag, waves, limit in (('one wavelength', [3], 0), ('one wavelength in a table', [3, None], 0), ('two wavelengths', [1, 6], 0), ('a wavelength that loses a ray', [0, 7], 12.2)):
        rays = [(2.0, 1.0, 130.0, 0, 0, -1), (-2.0, 3.0, 130.0, 0, 0, -1), (0.3, -4.0, 130.0, 0, 0, -1)]
        S = corrector(c, rays, limit=limit)
        ip = S.ip
        for f in ('getOpticsCSV', 'getRaysCSV', 'getMediaCSV'):
            if f not in S.vars():
                raise AnchorLost(f)
            ip.models[M + '.' + f] = lambda ip, a, k: NONE
        a1, a2 = sym('adc1'), sym('adc2')
        S.pt.update(adc1=35.0, adc2=-60.0)
        rows = []
        for n, x in enumerate(y for y in waves if y is not None):
            S.pt.update({'u%d' % n: 0.01 + 0.002 * n, 'v%d' % n: -0.02 - 0.004 * n})
            rows.append([const(x), sym('u%d' % n), sym('v%d' % n), a1, a2])
        tm.setpoint(S.pt)
        shape = (5,) if tag == 'one wavelength' else (len(rows), 5)
        got = S.R(M + '.getNine', ip.new(I.ArrC(shape, [x for r in rows for x in r])))
        S.clean()
        got = S.R.comps(got)
        about = turnedabout(S, a1, a2)
        pts = []
        for r in rows:
            S.waves = [LETTERS[int(r[0].data)]] * len(rays)
            aimed(S, r[1], r[2])
            pts.append(finals(S, about))
        w = S.R.where(M + '.getNine')
        if limit and len(pts[0]) == len(pts[1]):
            raise I.Unsupported('the scene loses no ray')
        p = [x for q in pts for x in q]
        n = const(len(p))
        mean = [div(add(*[x[k] for x in p]), n) for k in range(3)]
        rms = [sqrt(div(add(*[sq(sub(x[k], mean[k])) for x in p]), n)) for k in range(3)]
        want = [a1, a2, n] + mean + rms
        if len(got) != 9:
            c.bad('%s: result' % tag, 'the result has nine numbers', w, '%d numbers' % len(got))
            continue
        for nm, g, e in zip(('first angle', 'second angle', 'rays', 'mean x', 'mean y', 'mean z', 'rms x', 'rms y', 'rms z'), got, want):
            c.equal('%s: %s' % (tag, nm), 'the result is the mean and spread of the final positions', w, g, e, dom=S.dom(1e-5), prove=False, trials=4, tol=1e-6)


def waves(c):
    R = c.runner()
    ip = R.ip
    ip.exact = True
    if ip.module(M) is None:
        raise AnchorLost(M)
    for n, (l, nm) in enumerate(zip(LETTERS, NM)):
        w = R.where(M + '.letter2index')
        for f, e in (('letter2index', const(n)), ('letter2nanometers', const(nm)), ('letter2microns', const(Fr(nm, 1000)))):
            c.equal('%s of %s' % (f[7:], l), 'each Fraunhofer line has its wavelength', w, R(M + '.' + f, strc(l)), e, prove=False)


# ------------------------------------------------------------------ tables

def tables(c, rows, f, *args, **k):
    """a loader on a file of these rows"""
    R = c.runner()
    ip = R.ip
    ip.exact = True
    ip.MAXCELLS = 5000
    if ip.module(M) is None:
        raise AnchorLost(M)
    ip.models['builtins.open'] = lambda ip, a, k: fn('file', a[0])
    ip.models['csv.reader'] = lambda ip, a, k: R.lst(*[R.lst(*[strc(x) for x in r]) for r in rows])
    S = System.__new__(System)
    S.c, S.R, S.ip, S.frame, S.pt = c, R, ip, ip.module(M), {}
    S.put(**{n: R.lst(*[strc(x) for x in v]) if isinstance(v, tuple) else v for n, v in k.items()})
    R(M + '.' + f, *args)
    S.clean()
    return S


HEAD = ['index ', 'Type   ', 'X ', 'Y', 'Z', 'Diam ', 'diam', 'Nspi', 'Wspi', 'pitchY', 'tiltX ', 'rollZ', '   ', 'Curvature  ', 'Aspher', 'A4 ', 'A6', 'A14', 'notes']
KEYS = [None, None, 'OX', 'OY', 'OZ', 'OODIAM', 'OIDIAM', 'ONSPIDER', 'OWSPIDER', 'OPITCH', 'OTILT', 'OROLL', None, 'OCURVE', 'OASPH', ('OA1', 3), ('OA1', 5), ('OA1', 13), None]


def optics_table(c):
    num = lambda j, k: '%d.%d' % (j + 1, k)
    types = ['Lens', 'Mirror', 'Retro', 'Iris', 'CBin', 'CBout', 'lens', 'mirror', '', 'FocPlane']
    action = ['lens', 'mirror', 'retro', 'iris', 'cbin', 'cbout', 'lens', 'mirror', 'lens', 'lens']
    rows = [['  10 ', ' surfaces'], list(HEAD)]
    for j, t in enumerate(types):
        r = ['', t + ' '] + [num(j, k) for k in range(2, len(HEAD) - 1)] + ['x']
        r[0] = 'BK7 ' if j in (1, 3) else '1.5' if j == 4 else ' '
        r[12] = '-99.5'
        if j in (2, 5):
            r[15:18] = ['', ' ', '0']
        if j == 6:
            r[15:18] = ['', '', ' 1E-12']
        if j == 7:
            r = r[:14]
        rows.append(r)
        if j == 3:
            rows += [[''] * len(HEAD), []]
    rows += [['a remark'], ['', 'Mirror', '5', '6']]
    S = tables(c, rows, 'getOpticsCSV', strc('some.OPT.CSV'))
    w = S.R.where(M + '.getOpticsCSV')
    v = S.vars()
    c.equal('optics: number of surfaces', 'the table of surfaces is read up to the number in its title', w, v['Nsurfs'], const(10), prove=False)
    o = S.ip.get(v['Oarray'])
    glass, poly = [S.R.comps(v[k]) for k in ('OglassNames', 'OhasPoly')]
    data = [r for r in rows[2:] if any(x.strip() for x in r)]
    for j, t in enumerate(types, 1):
        r = data[j - 1]
        for k, f in enumerate(KEYS):
            if f is None:
                continue
            x = r[k].strip() if k < len(r) else ''
            e = const(Fr(x)) if x else ZERO
            at = S.idx(f) if isinstance(f, str) else S.idx(f[0]) + f[1]
            c.equal('optics: surface %d, %s' % (j, HEAD[k].strip()), 'each column of the table of surfaces is the parameter its title names', w, o.vals[j * o.shape[1] + at], e, prove=False)
        c.equal('optics: surface %d, type' % j, 'each surface has the action its type names', w, o.vals[j * o.shape[1] + S.idx('OACTIONTYPE')], const(S.idx(ACTION[action[j - 1]])), prove=False)
        g = r[0].strip()
        ok = len(glass) == 11 and glass[j] is strc(g)
        (c.ok if ok else c.bad)('optics: surface %d, glass' % j, 'each surface has the glass before it', w, '' if ok else tm.show(glass[j] if j < len(glass) else NONE))
        e = j not in (3, 6, 8)
        ok = len(poly) == 11 and poly[j] is (TRUE if e else FALSE)
        (c.ok if ok else c.bad)('optics: surface %d, polynomial' % j, 'a surface with a coefficient other than zero has a polynomial', w, '' if ok else tm.show(poly[j]))


def rays_table(c):
    head = [' X0 ', 'Y0', 'Z0', 'U0east', 'V0south ', '@wave', ' Xgoal', 'Ygoal', 'XfEast', 'notes']
    rows = [[' 5 ,', 'rays'], head] + [['%d.5' % (j + 1), ' %d.25' % (j + 2), '1100%d' % j, '0.%02d' % j, '-0.1%d ' % j, 'FRi'[j % 3] + ' ', '7', '8', '9', 'OK'] for j in range(7)]
    for most, n in ((84, 5), (3, 3)):
        S = tables(c, rows, 'getRaysCSV', strc('some.RAY.CSV'), const(most), Nsurfs=const(2))
        w = S.R.where(M + '.getRaysCSV')
        v = S.vars()
        c.equal('rays, at most %d: number' % most, 'the table of rays is read up to the number in its title and the limit', w, v['Nrays'], const(n), prove=False)
        wn = S.R.comps(v['RwaveNames'])
        for i in range(1, n + 1):
            x = [const(Fr(s.strip())) for s in rows[i + 1][:5]]
            want = x + [sqrt(sub(ONE, add(sq(x[3]), sq(x[4]))))]
            c.equal('rays, at most %d: ray %d' % (most, i), 'each ray starts where its row of the table tells', w, fn('tuple', *S.cell(i, 0)), fn('tuple', *want), prove=False, trials=1)
            ok = len(wn) == n + 1 and wn[i] is strc(rows[i + 1][5].strip())
            (c.ok if ok else c.bad)('rays, at most %d: wavelength of ray %d' % (most, i), 'each ray has the wavelength of its row', w, '' if ok else 'another wavelength')


def media_table(c):
    rows = [['  3  ', ' glasses'], [' glass', 'i ', 'F', 't', ''], [' C1', '1.11', '1.12 ', '1.13', ''], ['C2 ', '1.21', '1.22', '1.23', ''], ['BK7', '1.31', '1.32', '1.33', ''], ['X', '9', '9', '9', '']]
    S = tables(c, rows, 'getMediaCSV', strc('some.MED.CSV'), Nsurfs=const(3), Nrays=const(3),
               OglassNames=('base=1', '', 'C2', 'BK7'), RwaveNames=('base=1', 'i', 't', 'F'))
    w = S.R.where(M + '.getMediaCSV')
    for i, l in enumerate(('i', 't', 'F'), 1):
        for j, e in ((1, ONE), (2, None), (3, None)):
            e = e or const(Fr('1.%d%d' % (j, ' iFt'.index(l))))
            c.equal('media: surface %d, wavelength %s' % (j, l), 'the index of refraction is that of the glass at the wavelength of the ray', w, S.R(M + '.findRefraction', const(i), const(j)), e, prove=False)

