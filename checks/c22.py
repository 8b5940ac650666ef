"""Turbulence correction: covariances, likelihoods and predictions of fibers of symbols are compared with those written from the
definition of the Gaussian process; the local polynomial correction with the least-squares gradient field; selections on scenes."""
import math
from fractions import Fraction as Fr
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import lib
from sa import terms as tm

M = 'desimeter.turbulence.'
S, A, L, AL = sym('s'), sym('a'), sym('l'), sym('alpha')
DOM = dict(s=(0.05, 0.3), a=(0.5, 1.5), l=(0.7, 2.0), alpha=(0.5, 5))
EXP = lambda x: fn('exp', x)
sq = lambda x: mul(x, x)


def run(c):
    c.floor = 40
    for rq in (False, True):
        guard(c, kernel, c, rq)
        guard(c, loss, c, 'independent', rq)
    guard(c, gradient_kernel, c)
    guard(c, loss, c, 'gradwavefront', False)
    for mode in ('independent', 'gradwavefront'):
        for rq in (False, True):
            if rq and mode == 'gradwavefront':
                continue
            for fixed in (False, True):
                guard(c, solve, c, mode, rq, fixed)
    for mode in ('independent', 'gradwavefront'):
        for nuse in (0, 3, 4, 5, 9):
            guard(c, fit, c, mode, nuse, mode == 'independent' and nuse in (3, 0))
    guard(c, own, c)
    for k in STATIONARY:
        guard(c, stationary, c, **k)
    for nd in (1, 2, 3):
        guard(c, gradients, c, nd)
    for k in POLS:
        guard(c, polynomial, c, **k)
    guard(c, data, c)
    for mode in ('independent', 'gradwavefront'):
        guard(c, files, c, mode)
    for s in SCENES:
        guard(c, binned, c, s)
    return ''


def guard(c, f, *a, **k):
    def go():
        try:
            f(*a, **k)
        except I.RowError as e:
            c.bad('%s %s' % (f.__name__, k.get('tag', '') or ' '.join(str(x) for x in a[1:2])), 'arrays that are combined have equal lengths', M + f.__name__, str(e))
    c.guard(go)


# ------------------------------------------------------------------ definition

def cov(rq, a, l, al):
    def k(p, q):
        d2 = div(add(sq(sub(p[0], q[0])), sq(sub(p[1], q[1]))), sq(l))
        if rq:
            return mul(sq(a), power(add(ONE, div(d2, mul(const(2), al))), neg(al)))
        return mul(sq(a), EXP(div(neg(d2), const(2))))
    return k


def gradcov(a, l):
    """covariance of the components of the gradient of a wavefront: derivatives of the covariance of the wavefront"""
    u = [sym(x) for x in ('u0', 'u1', 'v0', 'v1', 'u_a', 'u_l')]
    k = mul(sq(u[4]), sq(u[5]), EXP(div(neg(add(sq(sub(u[0], u[2])), sq(sub(u[1], u[3])))), mul(const(2), sq(u[5])))))
    D2 = {(i, j): tm.diff(tm.diff(k, u[i]), u[2 + j]) for i in (0, 1) for j in (0, 1)}

    def f(p, q, i, j):
        m = dict(zip(u, (p[0], p[1], q[0], q[1], a, l)))
        return tm.subst(D2[i, j], m)
    return f


def matrix(mode, ps, qs, par, rq):
    """covariance of the offsets at ps with those at qs; one block (independent) or x then y (gradient)"""
    if mode == 'independent':
        k = cov(rq, par[1], par[2], par[3] if rq else None)
        return [[k(p, q) for q in qs] for p in ps]
    k = gradcov(par[1], par[2])
    return [[k(p, q, i, j) for j in (0, 1) for q in qs] for i in (0, 1) for p in ps]


def noisy(K, s):
    return [[add(v, sq(s)) if i == j else v for j, v in enumerate(r)] for i, r in enumerate(K)]


def times(K, v):
    return [add(*[mul(x, y) for x, y in zip(r, v)]) for r in K]


def solved(K, v):
    return [x[0] for x in lib.gauss(K, [[y] for y in v])]


def without(l, i):
    return [x for j, x in enumerate(l) if j != i]


def predicted(mode, pts, dx, dy, at, par, rq):
    """conditional mean of the correlated offsets at some places"""
    Kn, Ks = noisy(matrix(mode, pts, pts, par, rq), par[0]), matrix(mode, at, pts, par, rq)
    if mode == 'independent':
        return times(Ks, solved(Kn, dx)), times(Ks, solved(Kn, dy))
    t = times(Ks, solved(Kn, dx + dy))
    return t[:len(at)], t[len(at):]


def left_out(mode, pts, dx, dy, par, rq):
    """conditional mean of each offset given the others; components are left out one by one"""
    Kn = noisy(matrix(mode, pts, pts, par, rq), par[0])
    sets = [dx, dy] if mode == 'independent' else [dx + dy]
    out = []
    for v in sets:
        for i in range(len(v)):
            sub_ = [without(r, i) for r in without(Kn, i)]
            out.append(times([without(Kn[i], i)], solved(sub_, without(v, i)))[0])
    n = len(pts)
    return out[:n], out[n:]


# ------------------------------------------------------------------ stand-ins

class Turb(object):
    def __init__(self, c, best=None, exact=True):
        self.R = c.runner()
        self.ip = self.R.ip
        self.ip.exact = exact
        self.ip.MAXCELLS, self.ip.MAXUNROLL = 4000, 400
        self.fits, self.best = [], best
        m = self.ip.models
        for t in ('astropy.table.Table', 'astropy.table.table.Table'):
            m[t] = lambda ip, a, k: self.R('refs.table.Table', *a)
        for t in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
            m[t] = self.zeros
        m['scipy.optimize.minimize'] = m['scipy.optimize._minimize.minimize'] = self.minimize
        m['astropy.stats.mad_std'] = m['astropy.stats.funcs.mad_std'] = self.mad_std
        for t in ('cKDTree', 'KDTree', 'ckdtree.cKDTree', '_ckdtree.cKDTree', '_kdtree.KDTree'):
            m['scipy.spatial.' + t] = self.tree

    def zeros(self, ip, a, k):
        d = k.get('dtype', a[1] if len(a) > 1 else None)
        items = ip.known_items(d) if isinstance(d, (I.Ref, tuple)) else None
        if not items:
            return NotImplemented
        t = self.R('refs.table.Table')
        n = a[0] if a else k.get('shape')
        for x in items:
            nm = ip.known_items(x)[0]
            ip.setitem(ip.getattr(t, 'cols'), nm, self.R('refs.table.column', n))
        return t

    def minimize(self, ip, a, k):
        b = dict(zip(['fun', 'x0', 'args', 'method'], a))
        b.update(k)
        self.fits.append(b)
        o = ip.new(I.InstC(I.Class('Result', 'stand-in', {}, ()), {}))
        x = self.best(b)
        ip.setattr(o, 'x', ip.new(I.ArrC((len(x),), x)))
        return o

    def mad_std(self, ip, a, k):
        v = [x.data for x in ip.known_items(ip.to_arr(a[0]))]
        med = lambda w: (sorted(w)[(len(w) - 1) // 2] + sorted(w)[len(w) // 2]) / 2
        m = med(v)
        return const(Fr('1.482602218505602') * med([abs(x - m) for x in v]))

    def tree(self, ip, a, k):
        data = k.get('data', a[0] if a else None)
        o = ip.new(I.InstC(I.Class('KDTree', 'stand-in', {}, ()), {}))
        pts = lambda v, n: [(x[2 * i], x[2 * i + 1]) for x in [ip.get(ip.to_arr(v)).vals] for i in range(n)]

        def ball(ip, a, k):
            b = dict(zip(['x', 'r', 'p', 'eps'], a))
            b.update(k)
            d, x = ip.get(ip.to_arr(data)), ip.get(ip.to_arr(b['x']))
            if len(d.shape) != 2 or d.shape[1] != 2 or len(x.shape) > 2 or x.shape[-1] != 2:
                raise I.Unsupported('positions of the neighbours')
            out = []
            n = x.shape[0] if len(x.shape) == 2 else 1
            for p in pts(b['x'], n):
                ids = []
                for j, q in enumerate(pts(data, d.shape[0])):
                    near = tm.le(add(sq(sub(p[0], q[0])), sq(sub(p[1], q[1]))), mul(num(b['r']), num(b['r'])))
                    if near not in (TRUE, FALSE):
                        raise I.Unsupported('distance of a neighbour')
                    if near is TRUE:
                        ids.append(const(j))
                out.append(ip.new(I.ListC([(TRUE, x) for x in reversed(ids)])))     # the order is not specified
            return out[0] if len(x.shape) == 1 else ip.new(I.ListC([(TRUE, x) for x in out]))
        ip.setattr(o, 'query_ball_point', I.Native(ball))
        return o

    def table(self, **cols):
        t = self.R('refs.table.Table')
        for k, v in cols.items():
            self.ip.setitem(self.ip.getattr(t, 'cols'), strc(k), self.vec(v))
        return t

    def vec(self, v):
        return self.ip.new(I.ArrC((len(v),), [x if isinstance(x, T) else const(x) for x in v]))

    def vals(self, v):
        o = self.ip.get(self.ip.to_arr(v))
        return list(o.vals)

    def quiet(self):
        for w in self.ip.warned:
            if w.startswith('desimeter'):
                raise I.Unsupported(w)


def par(rq):
    return [S, A, L] + ([AL] if rq else [])


def fibers(n, seed=0):
    pts = [(sym('x%d' % i), sym('y%d' % i)) for i in range(n)]
    dx, dy = [sym('dx%d' % i) for i in range(n)], [sym('dy%d' % i) for i in range(n)]
    dom = dict(DOM)
    for i in range(n):
        x, y = PLACES[(i + seed) % len(PLACES)]
        dom['x%d' % i], dom['y%d' % i] = (x - 0.2, x + 0.2), (y - 0.2, y + 0.2)
    return pts, dx, dy, dom


PLACES = [(0.1, -0.3), (1.2, 0.4), (-0.8, 1.1), (0.5, 1.6), (-1.3, -0.9), (2.0, -1.1)]


# ------------------------------------------------------------------ covariances

def kernel(c, rq):
    t = Turb(c)
    p, q = [(sym('x0'), sym('y0')), (sym('x1'), sym('y1'))], [(sym('x2'), sym('y2')), (sym('x3'), sym('y3')), (sym('x4'), sym('y4'))]
    _, _, _, dom = fibers(5)
    f = M + 'make_covar_independent_nonoise'
    tag = 'rational quadratic' if rq else 'Gaussian'
    got = t.R(f, t.vec([a for a, _ in q]), t.vec([b for _, b in q]), t.vec([a for a, _ in p]), t.vec([b for _, b in p]), t.vec(par(rq)), **(dict(rq=TRUE) if rq else {}))
    o = t.ip.get(t.ip.to_arr(got))
    if o.shape != (2, 3):
        return c.bad('%s covariance: shape' % tag, 'rows are the predicted fibers, columns the measured ones', t.R.where(f), str(o.shape))
    want = matrix('independent', p, q, par(rq), rq)
    for i in range(2):
        for j in range(3):
            c.equal('%s covariance of two fibers, %d %d' % (tag, i, j), 'covariance depends on the distance in units of the length', t.R.where(f), o.vals[3 * i + j], want[i][j], dom=dom)
    if rq:
        for lim, rng in ((Fr(1, 10), (0.001, 0.09)), (Fr(1000), (1100, 3000))):
            w = matrix('independent', p, q, [S, A, L, const(lim)], True)
            c.equal('%s covariance, index limited to %s' % (tag, lim), 'the index is limited', t.R.where(f), o.vals[1], w[0][1], dom=dict(dom, alpha=rng))


def gradient_kernel(c):
    t = Turb(c)
    p, q = [(sym('x0'), sym('y0')), (sym('x1'), sym('y1'))], [(sym('x2'), sym('y2')), (sym('x3'), sym('y3')), (sym('x4'), sym('y4'))]
    _, _, _, dom = fibers(5)
    f = M + 'make_covar_gradwavefront_nonoise'
    got = t.R(f, t.vec([a for a, _ in q]), t.vec([b for _, b in q]), t.vec([a for a, _ in p]), t.vec([b for _, b in p]), t.vec(par(False)))
    o = t.ip.get(t.ip.to_arr(got))
    if o.shape != (4, 6):
        return c.bad('wavefront covariance: shape', 'rows are the predicted fibers, columns the measured ones', t.R.where(f), str(o.shape))
    want = matrix('gradwavefront', p, q, par(False), False)
    for i in range(4):
        for j in range(6):
            c.equal('wavefront covariance, %d %d' % (i, j), 'covariance of the gradient is the second derivative of that of the wavefront', t.R.where(f), o.vals[6 * i + j], want[i][j], dom=dom)


def loss(c, mode, rq):
    n = 3 if mode == 'independent' else 2
    t = Turb(c)
    pts, dx, dy, dom = fibers(n)
    d = t.table(x=[p[0] for p in pts], y=[p[1] for p in pts], dx=dx, dy=dy)
    f = M + 'loss_' + mode
    got = t.R(f, d, t.vec(par(rq)), **(dict(rq=TRUE) if rq else {}))
    t.quiet()
    c.equal('likelihood, %s%s' % (mode, ' rq' if rq else ''), 'half of chi2 and of the logarithm of the determinant', t.R.where(f), got, wanted_loss(mode, pts, dx, dy, par(rq), rq), dom=dom, prove=False, tol=1e-6)
    f = M + 'make_covar_' + mode
    got = t.R(f, d, t.vec(par(rq)), **(dict(rq=TRUE) if rq else {}))
    K = noisy(matrix(mode, pts, pts, par(rq), rq), S)
    o = t.vals(got)
    for i in range(len(K)):
        for j in range(len(K)):
            c.equal('covariance of the offsets, %s%s %d %d' % (mode, ' rq' if rq else '', i, j), 'the noise is on the diagonal', t.R.where(f), o[i * len(K) + j], K[i][j], dom=dom)


def wanted_loss(mode, pts, dx, dy, pr, rq):
    K = noisy(matrix(mode, pts, pts, pr, rq), pr[0])
    n = len(K)
    tot = []
    for v in ([dx, dy] if mode == 'independent' else [dx + dy]):
        tot += [mul(a, b) for a, b in zip(v, solved(K, v))]
        m = [list(r) for r in K]        # determinant: product of the pivots
        for k in range(n):
            tot.append(fn('log', m[k][k]))
            for i in range(k + 1, n):
                g = div(m[i][k], m[k][k])
                m[i] = [sub(a, mul(g, b)) for a, b in zip(m[i], m[k])]
    return mul(const(Fr(1, 2)), add(*tot))


# ------------------------------------------------------------------ predictions

def both(c, t, name, rule, where, got, want, dom, tol=1e-6):
    t.quiet()
    for ax, g, w in zip(('x', 'y'), got, want):
        g = t.vals(g)
        if len(g) != len(w):
            c.bad('%s: %s' % (name, ax), rule, where, '%d values instead of %d' % (len(g), len(w)))
            continue
        for i, (p, q) in enumerate(zip(g, w)):
            c.equal('%s: %s of fiber %d' % (name, ax, i), rule, where, p, q, dom=dom, prove=False, tol=tol, trials=8 if c.tier == 'quick' else 100)


def solve(c, mode, rq, fixed):
    n = 3 if mode == 'independent' else 2
    f = M + 'solve_' + mode
    for how in ('everywhere', 'at places', 'left out'):
        t = Turb(c, best=lambda b: par(rq))
        pts, dx, dy, dom = fibers(n)
        d = t.table(x=[p[0] for p in pts], y=[p[1] for p in pts], dx=dx, dy=dy)
        kw = dict(rq=TRUE) if rq else {}
        pr = par(rq)
        if fixed:
            kw['fix_covar'] = TRUE
            pr = [const(Fr('0.005')), const(Fr('0.005')), const(50 if mode == 'independent' else 100)] + ([const(2)] if rq else [])
            if mode == 'independent':
                kw['scale_covar'] = A
                pr = [mul(v, A) for v in pr[:3]] + pr[3:]
            dom = {k: (v[0] * 50, v[1] * 50) if k[0] in 'xy' else v for k, v in dom.items()}
        at = pts
        if how == 'at places':
            at = [(sym('x5'), sym('y5')), (sym('x6'), sym('y6')), (sym('x7'), sym('y7'))]
            g = 50 if fixed else 1
            dom.update({'x5': (-g, g), 'y5': (0, g), 'x6': (0, g), 'y6': (-g, 0), 'x7': (g, 1.5 * g), 'y7': (-g, 0)})
            kw['predict_at'] = (t.vec([p[0] for p in at]), t.vec([p[1] for p in at]))
        elif how == 'left out':
            kw['excludeself'] = TRUE
        out = t.R(f, d, **kw)
        if not fixed and len(t.fits) != 1 or fixed and t.fits:
            c.bad('prediction %s, %s: fit of the covariance' % (how, mode), 'the covariance is fitted once unless it is given', t.R.where(f), '%d fits' % len(t.fits))
            continue
        if how == 'left out':
            want = left_out(mode, pts, dx, dy, pr, rq)
        else:
            want = predicted(mode, pts, dx, dy, at, pr, rq)
        name = 'prediction %s, %s%s%s' % (how, mode, ' rq' if rq else '', ' given covariance' if fixed else '')
        both(c, t, name, 'the prediction is the conditional mean of the correlated offsets', t.R.where(f), out[:2], want, dom, tol=1e-5)


def fit(c, mode, nuse, rq):
    """what is minimised"""
    t = Turb(c, best=lambda b: par(rq))
    places = [(3, 1), (-1, 1), (2, -2), (0, 5), (1, -1), (-4, -4)]
    n = len(places)
    pts = [(const(x), const(y)) for x, y in places]
    dx, dy = [sym('dx%d' % i) for i in range(n)], [sym('dy%d' % i) for i in range(n)]
    d = t.table(x=[p[0] for p in pts], y=[p[1] for p in pts], dx=dx, dy=dy)
    f = M + 'solve_covar'
    name = 'fit of the covariance, %s%s, %s fibers' % (mode, ' rq' if rq else '', nuse or 'all')
    covar, res = t.R(f, d, t.R.f(M + 'loss_' + mode), t.R.f(M + 'make_covar_' + mode), nuse=const(nuse), **(dict(rq=TRUE) if rq else {}))
    t.quiet()
    if len(t.fits) != 1:
        return c.bad(name, 'the likelihood is minimised', t.R.where(f), '%d fits' % len(t.fits))
    order = sorted(range(n), key=lambda i: places[i][0] ** 2 + places[i][1] ** 2)
    if nuse in (3, 5):      # no tie at the limit
        pass
    use = order[:nuse] if nuse else order
    tie = nuse and nuse < n and [sum(v * v for v in places[i]) for i in order][nuse - 1] == [sum(v * v for v in places[i]) for i in order][nuse]
    b = t.fits[0]
    x0 = t.vals(b['x0'])
    ok = len(x0) == len(par(rq)) and all(v.op == 'c' and v.data > 0 for v in x0)
    (c.ok if ok else c.bad)(name + ': start', 'the fit starts from positive parameters, one per parameter of the covariance', t.R.where(f), '' if ok else str([tm.show(v) for v in x0]))
    if not tie:
        got = t.R(b['fun'], t.vec(par(rq)))
        want = wanted_loss(mode, [pts[i] for i in use], [dx[i] for i in use], [dy[i] for i in use], par(rq), rq)
        c.equal(name, 'the likelihood of the most central fibers is minimised', t.R.where(f), got, want, dom=DOM, prove=False, tol=1e-6, trials=6)
    K = noisy(matrix(mode, pts, pts, par(rq), rq), S)
    o = t.vals(covar)
    if len(o) != len(K) ** 2:
        return c.bad(name + ': covariance', 'the covariance is that of all fibers with the fitted parameters', t.R.where(f), '%d values' % len(o))
    for i in range(len(K)):
        for j in range(len(K)):
            v = tm.equal(o[i * len(K) + j], K[i][j], dom=DOM, trials=2, prove=False)
            if v.kind == 'differs':
                return c.bad(name + ': covariance', 'the covariance is that of all fibers with the fitted parameters', t.R.where(f), 'cell %d %d' % (i, j))
    c.ok(name + ': covariance', 'the covariance is that of all fibers with the fitted parameters', t.R.where(f))


def own(c):
    """the correction of all fibers with themselves"""
    n = 3
    t = Turb(c, best=lambda b: par(False))
    f = M + 'correct'
    pts, ex, ey, dom = fibers(n)
    dom.update({'dx%d' % i: (-0.3, 0.3) for i in range(n)}, **{'dy%d' % i: (-0.3, 0.3) for i in range(n)})
    x0 = [sub(p[0], d) for p, d in zip(pts, ex)]
    y0 = [sub(p[1], d) for p, d in zip(pts, ey)]
    arg = [t.vec([p[0] for p in pts]), t.vec([p[1] for p in pts]), t.vec(x0), t.vec(y0)]
    before = [t.vals(a) for a in arg]
    out = t.R(f, *arg)
    tx, ty = left_out('independent', pts, ex, ey, par(False), False)
    both(c, t, 'correction', 'a fiber is corrected by the prediction from the others', t.R.where(f), out, ([sub(p[0], v) for p, v in zip(pts, tx)], [sub(p[1], v) for p, v in zip(pts, ty)]), dom)
    ok = before == [t.vals(a) for a in arg]
    (c.ok if ok else c.bad)('correction: positions given', 'the positions of the caller are not changed', t.R.where(f), '' if ok else 'they are changed')


# ------------------------------------------------------------------ stationary fibers

NAN_ = fn('NAN')
base = [(Fr(-30), Fr(-20)), (Fr(25), Fr(-10)), (Fr(0), Fr(35)), (Fr(-40), Fr(15)), (Fr(30), Fr(30)), (Fr(5), Fr(-45)), (Fr(-12), Fr(8))]
smallx = [Fr(k, 1000) for k in (1, 2, -1, 3, 0, -2, 1)]
smally = [Fr(k, 1000) for k in (-1, 1, 2, 0, -2, 1, 3)]
STATIONARY = [dict(tag='common offset, one displaced to the other side', bias=(Fr(3, 100), Fr(2, 100)), move={3: (Fr(-4, 100), Fr(0))}, clip=Fr(1, 5), bad={3}),
              dict(tag='common negative offset, one displaced to the other side', bias=(Fr(-3, 100), Fr(-2, 100)), move={4: (Fr(0), Fr(35, 1000))}, clip=Fr(1, 5), bad={4}),
              dict(tag='common offset', bias=(Fr(3, 100), Fr(-3, 100)), clip=Fr(1, 5), bad=set()),
              dict(tag='offset of nearly five deviations', near={3: (Fr(47, 10), 0), 5: (0, Fr(-47, 10))}, clip=Fr(1, 5), bad=set()),
              dict(tag='offset of just over five deviations', near={3: (Fr(-53, 10), 0), 5: (0, Fr(53, 10))}, clip=Fr(1, 5), bad={3, 5}),
              dict(tag='first not finite, a residual above the limit', lost={0: 1}, spread={3: (Fr(16, 1000), 0)}, bad=None),
              dict(tag='all good'),
              dict(tag='one displaced in x', move={2: (Fr(1), Fr(0))}, bad={2}),
              dict(tag='one displaced in y', move={5: (Fr(0), Fr(-1))}, bad={5}),
              dict(tag='two displaced', move={0: (Fr(2), Fr(0)), 6: (Fr(0), Fr(3))}, bad={0, 6}),
              dict(tag='one not finite in x', lost={1: 0}, bad={1}),
              dict(tag='first not finite in y', lost={0: 1}, bad={0}),
              dict(tag='one not finite, another displaced', lost={3: 0}, move={4: (Fr(1), Fr(0))}, bad={3, 4}),
              dict(tag='expected position not finite', lost={6: 2}, bad={6}),
              dict(tag='no clipping', move={2: (Fr(1), Fr(0))}, clip=Fr(0), bad=set()),
              dict(tag='no clipping, one not finite', lost={2: 3}, clip=Fr(0), bad={2}),
              dict(tag='residual above the limit', spread={1: (Fr(20, 1000), 0)}, bad=None),
              dict(tag='residual above a lower limit', spread={3: (Fr(6, 1000), 0)}, half=True, clip=Fr('0.0048'), bad={3}),
              dict(tag='residual below a higher limit', spread={1: (Fr(20, 1000), 0)}, clip=Fr('0.02'), bad=None),
              dict(tag='scaled', scale=Fr(3), bad=set()),
              dict(tag='scaled, one displaced', scale=Fr(1, 2), move={2: (Fr(0), Fr(1))}, bad={2})]


def fl(v):
    return tm.PointEv({}).ev(v)


def stationary(c, tag, move=None, lost=None, bad=None, clip=None, scale=None, spread=None, half=False, bias=None, near=None):
    t = Turb(c)
    tm.setpoint({})
    n = len(base)
    x0, y0 = [p[0] for p in base], [p[1] for p in base]
    sx, sy = list(smallx), list(smally)
    if spread is not None:      # wide offsets, so that only the residual matters
        sx = [Fr(k, 1000) for k in (6, -6, -5, 5, 0, -7, 7)]
        sy = [Fr(k, 1000) for k in (5, -6, 6, -5, 7, 0, -7)]
    if half:
        sx, sy = [v / 2 for v in sx], [v / 2 for v in sy]
    for i, (a, b) in list((move or {}).items()) + list((spread or {}).items()):
        sx[i], sy[i] = sx[i] + a, sy[i] + b
    if bias:
        sx, sy = [v + bias[0] for v in sx], [v + bias[1] for v in sy]
    if near:        # an entry is put at some deviations from the median; it leaves both as they are
        for v, ax in ((sx, 0), (sy, 1)):
            v[:] = [Fr(k, 1000) for k in ((-3, -2, -2, 3, 0, 2, 2) if ax == 0 else (2, -2, 0, -2, 2, 3, -3))]
            for i, d in near.items():
                if d[ax]:
                    v[i] = d[ax] * Fr('1.4826') * Fr(2, 1000)
                    if d[ax] < 0:
                        j = v.index(Fr(-3, 1000))
                        v[j] = Fr(3, 1000)
        move = {i: d for i, d in near.items() if i in (bad or ())}
    xs, ys = [const(a + b) for a, b in zip(x0, sx)], [const(a + b) for a, b in zip(y0, sy)]
    x0, y0 = [const(a) for a in x0], [const(a) for a in y0]
    for i, k in (lost or {}).items():
        (xs, ys, x0, y0)[k][i] = NAN_
    xc, yc = [const(Fr(k)) for k in (10, -20)], [const(Fr(k)) for k in (-7, 22)]
    kw = dict(return_good=TRUE)
    if clip is not None:
        kw['clip_resid'] = const(clip)
    if scale is not None:
        kw['scale_covar'] = const(scale)
    sc = scale or Fr(1)
    pr = [const(Fr(5, 1000) * sc), const(Fr(5, 1000) * sc), const(50 * sc)]
    limit = Fr(1, 100) if clip is None else clip
    good = [i for i in range(n) if i not in (lost or {})]
    if limit > 0:
        good = [i for i in good if i not in (move or {})]
        for s in (sx, sy):      # the scene is clear: no offset is close to the limit of five deviations
            v = sorted(s[i] for i in range(n) if i not in (lost or {}))
            med = lambda w: (sorted(w)[(len(w) - 1) // 2] + sorted(w)[len(w) // 2]) / 2
            m = med(v)
            sd = Fr('1.4826') * med([abs(u - m) for u in v])
            assert all(abs(s[i] - m) < Fr(49, 10) * sd for i in good), (tag, [float(abs(s[i] - m) / sd) for i in good])
        pts = [(xs[i], ys[i]) for i in good]
        dx, dy = [const(sx[i]) for i in good], [const(sy[i]) for i in good]
        tx, ty = predicted('independent', pts, dx, dy, pts, pr, False)
        res = [math.hypot(float(dx[k].data) - fl(tx[k]), float(dy[k].data) - fl(ty[k])) for k in range(len(good))]
        assert all(abs(r - limit) > 2e-4 for r in res), (tag, res)
        good = [i for i, r in zip(good, res) if r < limit]
    assert bad is None or set(range(n)) - set(good) == bad, (tag, good)
    if os_verbose():
        print(tag, good)
    f = M + 'correct_using_stationary'
    name = 'stationary fibers, %s' % tag
    where = t.R.where(f)
    rule = 'the stationary fibers of finite position and small residual are used'
    try:
        out = t.R(f, t.vec(xs), t.vec(ys), t.vec(x0), t.vec(y0), t.vec(xc), t.vec(yc), **kw)
    except I.RowError as e:
        return c.bad(name + ': mask', rule, where, 'raises an error: %s' % e)
    t.quiet()
    if not isinstance(out, tuple) or len(out) != 3:
        raise I.Unsupported('result')
    mask = t.vals(out[2])
    if any(m not in (TRUE, FALSE) for m in mask):
        raise I.Unsupported('mask %s' % [tm.show(m, 3) for m in mask])
    got = [i for i, m in enumerate(mask) if m is TRUE]
    ok = got == good and len(mask) == n
    (c.ok if ok else c.bad)(name + ': mask', rule, where, '' if ok else 'used %s of %d, expected %s' % (got, len(mask), good))
    pts = [(xs[i], ys[i]) for i in good]
    want = predicted('independent', pts, [const(sx[i]) for i in good], [const(sy[i]) for i in good], list(zip(xc, yc)), pr, False)
    both(c, t, name, 'the turbulence is predicted from the stationary fibers used', where, out[:2], want, {}, tol=1e-6)


def os_verbose():
    import os
    return os.environ.get('SA_SCENE')


# ------------------------------------------------------------------ polynomials

def gradients(c, nd):
    """rows are the gradients of all monomials of that degree or less"""
    t = Turb(c)
    f = M + 'getpoly'
    x, y = [sym('x0'), sym('x1')], [sym('y0'), sym('y1')]
    o = t.ip.get(t.ip.to_arr(t.R(f, t.vec(x), t.vec(y), ndeg=const(nd))))
    t.quiet()
    name = 'gradients of the polynomials of degree %d' % nd
    rule = 'the model of the offsets is the gradient of a polynomial'
    want = [(i, d - i) for d in range(1, nd + 1) for i in range(d + 1)]
    if o.shape != (len(want), 4):
        return c.bad(name, rule, t.R.where(f), 'shape %s' % (o.shape,))
    left = list(want)
    for r in range(len(want)):
        row = o.vals[4 * r:4 * r + 4]
        hit = None
        for k in left:
            F = lambda q: mul(power(x[q], const(k[0])) if k[0] else ONE, power(y[q], const(k[1])) if k[1] else ONE)
            g = [tm.diff(F(q), v[q]) for v in (x, y) for q in (0, 1)]
            if all(tm.equal(a, b, trials=3).kind != 'differs' for a, b in zip(row, g)):
                hit = k
                break
        if hit is None:
            return c.bad(name, rule, t.R.where(f), 'row %d is the gradient of no monomial: %s' % (r, [tm.show(v, 4) for v in row]))
        left.remove(hit)
    c.ok(name, rule, t.R.where(f))


RING = [(20, 3), (14, 17), (-2, 21), (-16, 12), (-19, -5), (-9, -18), (6, -20), (17, -11), (8, 5), (-7, 9), (-10, -6), (5, -9), (1, 13)]
FEW = [(12, 3), (5, 14), (-9, 8), (-11, -6), (3, -13), (10, -9), (-4, 2), (16, 11)]
POLS = [dict(tag='plane, few fibers', pts=FEW[:3], pot={(1, 0): Fr(1, 100), (0, 1): Fr(-1, 50)}),
        dict(tag='plane', pts=FEW, pot={(1, 0): Fr(1, 100), (0, 1): Fr(-1, 50)}),
        dict(tag='second degree', pts=FEW, pot={(1, 0): Fr(1, 100), (2, 0): Fr(1, 900), (1, 1): Fr(-1, 700), (0, 2): Fr(1, 400)}),
        dict(tag='second degree, one displaced', pts=FEW, pot={(0, 1): Fr(1, 100), (2, 0): Fr(-1, 900), (1, 1): Fr(1, 700), (0, 2): Fr(1, 300)}, extra={2: (Fr(1, 20), Fr(-1, 30))}, exact={2}),
        dict(tag='fourth degree', pts=[(0, 0)] + RING, pot={(1, 0): Fr(1, 100), (2, 1): Fr(1, 9000), (4, 0): Fr(1, 700000), (1, 3): Fr(1, 600000), (2, 2): Fr(-1, 500000)}, extra={0: (Fr(-1, 20), Fr(1, 30))}, exact={0}, win=22),
        dict(tag='another window', pts=[(0, 0)] + FEW + [(60 + a, 40 + b) for a, b in FEW[:4]], pot={(1, 0): Fr(1, 80), (0, 2): Fr(1, 500)}, extra={0: (Fr(1, 40), Fr(1, 25)), **{9 + k: (Fr(k + 1, 7), Fr(2 - k, 5)) for k in range(4)}}, exact={0}),
        dict(tag='small window', pts=[(0, 0)] + FEW[:5] + [(24 + a, 20 + b) for a, b in FEW[:4]], pot={(1, 0): Fr(1, 80), (0, 1): Fr(1, 90)}, extra={0: (Fr(1, 40), Fr(1, 25)), **{6 + k: (Fr(k + 1, 7), Fr(2 - k, 5)) for k in range(4)}}, exact={0}, win=16),
        dict(tag='a fiber alone', pts=[(200, 200)] + FEW[:5], pot={(1, 0): Fr(1, 100), (0, 1): Fr(1, 60)}, extra={0: (Fr(1, 40), Fr(1, 25))}, alone={0}),
        dict(tag='a fiber far from its place', pts=[(300, 200)] + FEW[:5], pot={(1, 0): Fr(1, 100), (0, 1): Fr(1, 60)}, extra={0: (Fr(70), Fr(25))}, alone={0}),
        dict(tag='a fiber measured among others', pts=[(3, 2)] + FEW[:6], pot={(1, 0): Fr(1, 100), (0, 1): Fr(1, 60)}, extra={0: (Fr(70), Fr(25))}, alone=None, exact={0})]


def frsolve(Mx, v):
    n = len(Mx)
    Mx = [list(r) + [x] for r, x in zip(Mx, v)]
    for k in range(n):
        p = next((i for i in range(k, n) if Mx[i][k] != 0), None)
        if p is None:
            return None
        Mx[k], Mx[p] = Mx[p], Mx[k]
        for i in range(n):
            if i != k and Mx[i][k] != 0:
                f = Mx[i][k] / Mx[k][k]
                Mx[i] = [a - f * b for a, b in zip(Mx[i], Mx[k])]
    return [Mx[i][n] / Mx[i][i] for i in range(n)]


def lsq(rows, v):
    """least squares, the shortest solution when there are fewer rows"""
    n, m = len(rows), len(rows[0])
    if n >= m:
        return frsolve([[sum(r[i] * r[j] for r in rows) for j in range(m)] for i in range(m)], [sum(r[i] * y for r, y in zip(rows, v)) for i in range(m)])
    z = frsolve([[sum(a * b for a, b in zip(p, q)) for q in rows] for p in rows], v)
    return z and [sum(w * r[j] for w, r in zip(z, rows)) for j in range(m)]


def slope(k, x, y):
    i, j = k
    return (i * x ** (i - 1) * y ** j if i else Fr(0)), (j * x ** i * y ** (j - 1) if j else Fr(0))


def polynomial(c, tag, pts, pot, extra=None, exact=None, alone=None, win=None):
    """offsets of fibers that follow the gradient of a polynomial; some fibers have an offset of their own"""
    t = Turb(c)
    f = M + 'correct_with_pol'
    n = len(pts)
    x, y = [Fr(p[0]) for p in pts], [Fr(p[1]) for p in pts]
    true = [tuple(sum(q * slope(k, a, b)[ax] for k, q in pot.items()) for ax in (0, 1)) for a, b in zip(x, y)]
    off = [(a[0] + (extra or {}).get(i, (0, 0))[0], a[1] + (extra or {}).get(i, (0, 0))[1]) for i, a in enumerate(true)]
    x0, y0 = [a - o[0] for a, o in zip(x, off)], [b - o[1] for b, o in zip(y, off)]
    name = 'local polynomials, %s' % tag
    try:
        out = t.R(f, t.vec(x), t.vec(y), t.vec(x0), t.vec(y0), **(dict(win=const(win)) if win else {}))
    except I.RowError as e:
        return c.bad(name, 'every fiber is corrected', t.R.where(f), 'raises an error: %s' % e)
    t.quiet()
    gx, gy = [t.vals(v) for v in out]
    if len(gx) != n or len(gy) != n or any(v.op != 'c' for v in gx + gy):
        raise I.Unsupported('corrected positions')
    r2 = Fr(win or 50) ** 2
    for i in range(n):
        if exact is not None and i not in exact and extra and i not in (alone or ()) and c.tier == 'quick' and i > 2:
            continue
        near = [j for j in range(n) if j != i and (x0[j] - x[i]) ** 2 + (y0[j] - y[i]) ** 2 <= r2]
        got = (x[i] - gx[i].data, y[i] - gy[i].data)
        what = 'fiber %d' % i
        if not near:
            ok = got == (0, 0)
            (c.ok if ok else c.bad)('%s: %s' % (name, what), 'a fiber without neighbour is not corrected', t.R.where(f), '' if ok else 'correction %s' % (got,))
            continue
        if (exact is None and not extra) or (exact and i in exact):
            w = true[i]
            ok = abs(got[0] - w[0]) < Fr(1, 10 ** 12) and abs(got[1] - w[1]) < Fr(1, 10 ** 12)
            (c.ok if ok else c.bad)('%s: %s' % (name, what), 'offsets that follow the gradient of a polynomial are predicted by the other fibers of the window', t.R.where(f),
                                    '' if ok else 'correction %.6g %.6g instead of %.6g %.6g' % tuple(map(float, got + w)))
            continue
        cand = []
        for nd in (1, 2, 3, 4):
            ks = [(a, d - a) for d in range(1, nd + 1) for a in range(d + 1)]
            rows = [[slope(k, x[j] - x[i], y[j] - y[i])[ax] for k in ks] for ax in (0, 1) for j in near]
            z = lsq(rows, [off[j][ax] for ax in (0, 1) for j in near])
            if z is None:
                cand = None
                break
            cand.append((z[ks.index((1, 0))], z[ks.index((0, 1))]))
        if cand is None:
            continue
        ok = any(abs(got[0] - w[0]) < Fr(1, 10 ** 9) and abs(got[1] - w[1]) < Fr(1, 10 ** 9) for w in cand)
        (c.ok if ok else c.bad)('%s: %s' % (name, what), 'the correction is a least-squares fit to the other fibers of the window', t.R.where(f),
                                '' if ok else 'correction %.6g %.6g, fits %s' % (tuple(map(float, got)) + (['%.6g %.6g' % tuple(map(float, w)) for w in cand],)))


# ------------------------------------------------------------------ data

def data(c):
    t = Turb(c)
    f = M + 'make_data'
    le, lm = [5, 2, 9, 7], [7, 11, 5, 9]
    E = t.table(LOCATION=le, X_FP=[sym('ex%d' % i) for i in le], Y_FP=[sym('ey%d' % i) for i in le])
    Q = t.table(LOCATION=lm, X_FP=[sym('mx%d' % i) for i in lm], Y_FP=[sym('my%d' % i) for i in lm])
    d = t.R(f, E, Q)
    t.quiet()
    col = lambda k: t.vals(t.ip.getitem(d, strc(k)))
    got = sorted(zip([int(v.data) for v in col('location')], col('x'), col('y'), col('dx'), col('dy')), key=lambda r: r[0])
    want = [(i, sym('ex%d' % i), sym('ey%d' % i), sub(sym('mx%d' % i), sym('ex%d' % i)), sub(sym('my%d' % i), sym('ey%d' % i))) for i in (5, 7, 9)]
    if [r[0] for r in got] != [r[0] for r in want]:
        return c.bad('offsets of the fibers of two lists: fibers', 'fibers of both lists', t.R.where(f), 'locations %s' % [r[0] for r in got])
    for g, w in zip(got, want):
        for k, a, b in zip(('x', 'y', 'dx', 'dy'), g[1:], w[1:]):
            c.equal('offsets of the fibers of two lists: %s of %d' % (k, w[0]), 'offsets are measured less expected', t.R.where(f), a, b)


def files(c, mode):
    t = Turb(c, best=lambda b: par(False))
    f = M + 'solve_files'
    le, lm = [7, 5, 2, 9], [11, 9, 7, 5]
    ex, ey = {i: sym('ex%d' % i) for i in le}, {i: sym('ey%d' % i) for i in le}
    mx, my = {i: sym('mx%d' % i) for i in lm}, {i: sym('my%d' % i) for i in lm}
    dom = dict(DOM)
    for k, i in enumerate((2, 5, 9, 11, 7)):
        x, y = PLACES[k]
        for p in 'em':
            dom['%sx%d' % (p, i)], dom['%sy%d' % (p, i)] = (x - 0.2, x + 0.2), (y - 0.2, y + 0.2)
    tabs = {'expected': t.table(LOCATION=le, X_FP=[ex[i] for i in le], Y_FP=[ey[i] for i in le]),
            'measured': t.table(LOCATION=lm, X_FP=[mx[i] for i in lm], Y_FP=[my[i] for i in lm])}

    def read(ip, a, k):
        if a and isinstance(a[0], T) and a[0].op == 'str' and a[0].data in tabs:
            return tabs[a[0].data]
        raise I.Unsupported('file')
    for k in ('astropy.io.ascii.read', 'astropy.io.ascii.ui.read', 'astropy.table.Table.read', 'astropy.table.table.Table.read'):
        t.ip.models[k] = read
    out, _ = t.R(f, strc('expected'), strc('measured'), mode=strc(mode))
    t.quiet()
    B = (5, 7, 9)
    pts = [(ex[i], ey[i]) for i in B]
    tx, ty = predicted(mode, pts, [sub(mx[i], ex[i]) for i in B], [sub(my[i], ey[i]) for i in B], pts, par(False), False)
    col = lambda k: t.vals(t.ip.getitem(out, strc(k)))
    loc = [int(v.data) for v in col('LOCATION')]
    name = 'corrected file, %s' % mode
    if sorted(loc) != sorted(lm):
        return c.bad(name + ': rows', 'one row per measured fiber', t.R.where(f), str(loc))
    for r, i in enumerate(loc):
        for k, ax in (('X', tx), ('Y', ty)):
            m = (mx if k == 'X' else my)[i]
            c.equal('%s: %s_FP of %d' % (name, k, i), 'measured positions are kept', t.R.where(f), col(k + '_FP')[r], m, dom=dom)
            got = [col(k + 'NEW')[r], col('D%sTURB' % k)[r]]
            if i == 11:
                ok = all(g is NAN_ for g in got)
                (c.ok if ok else c.bad)('%s: %s of a fiber without expectation' % (name, k), 'fibers without expected position have no corrected position', t.R.where(f), '' if ok else str([tm.show(g, 3) for g in got]))
                continue
            v = ax[B.index(i)]
            c.equal('%s: turbulence in %s of %d' % (name, k, i), 'prediction from all fibers of both lists', t.R.where(f), got[1], v, dom=dom, prove=False, tol=1e-5)
            c.equal('%s: corrected %s of %d' % (name, k, i), 'corrected is measured less turbulence', t.R.where(f), got[0], sub(m, v), dom=dom, prove=False, tol=1e-5)


SCENES = (('given edges', [Fr(1, 2), Fr(7, 2), Fr(9, 2), Fr(12)], None), ('edges from zero', [Fr(0), Fr(2), Fr(7, 2), Fr(20), Fr(30)], None), ('pairs beyond the edges', [Fr(0), Fr(2), Fr(9, 2)], None), ('number of bins', None, 3))


def binned(c, *scenes):
    """average products of the offsets of pairs, by distance"""
    f = M + 'empirical_covariance'
    pos = [(0, 0), (3, 0), (0, 4), (10, 0), (-1, 0)]
    n = len(pos)
    dist = lambda i, j: math.hypot(pos[i][0] - pos[j][0], pos[i][1] - pos[j][1])
    for tag, edges, bins in scenes:
        t = Turb(c)
        tm.setpoint({})
        dx, dy = [sym('dx%d' % i) for i in range(n)], [sym('dy%d' % i) for i in range(n)]
        d = t.table(x=[p[0] for p in pos], y=[p[1] for p in pos], dx=dx, dy=dy)
        name = 'covariance by distance, %s' % tag
        if edges is None:
            out = t.R(f, d, bins=const(bins))
            top = max(dist(i, j) for i in range(n) for j in range(n)) + 0.1
            ed = [top * k / bins for k in range(bins + 1)]
        else:
            out = t.R(f, d, edges=t.vec(edges))
            ed = [float(e) for e in edges]
        t.quiet()
        cen, cx, cy = [t.vals(v) for v in out]
        m = len(ed) - 1
        if not len(cen) == len(cx) == len(cy) == m:
            c.bad(name + ': bins', 'one value per bin', t.R.where(f), 'lengths %d %d %d for %d bins' % (len(cen), len(cx), len(cy), m))
            continue
        for k in range(m):
            pr = [(i, j) for i in range(n) for j in range(n) if ed[k] <= dist(i, j) < ed[k + 1]]
            mean = lambda v: div(add(*[mul(v[i], v[j]) for i, j in pr]), const(len(pr))) if pr else ZERO
            c.equal('%s: centre %d' % (name, k), 'bins are given by their centres', t.R.where(f), cen[k], const(Fr((ed[k] + ed[k + 1]) / 2)), tol=1e-9)
            c.equal('%s: x %d' % (name, k), 'average of the products over the pairs of the bin', t.R.where(f), cx[k], mean(dx))
            c.equal('%s: y %d' % (name, k), 'average of the products over the pairs of the bin', t.R.where(f), cy[k], mean(dy))
