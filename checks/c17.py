"""Calibration fit of a positioner: the fit is interpreted on a history whose rows carry symbols, with a stand-in for the
optimiser; the minimised quantity and the results are compared with reference graphs built from the history."""
from fractions import Fraction as Fr
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm

Q = 'desimeter.posparams.fitter.fit_params'
P = 'desimeter.transform.pos2ptl.'
STATIC = ['LENGTH_R1', 'LENGTH_R2', 'OFFSET_T', 'OFFSET_P', 'OFFSET_X', 'OFFSET_Y']
DYNAMIC = ['SCALE_T', 'SCALE_P']
KEYS = STATIC + DYNAMIC
ARGS = ['posintT', 'posintP', 'ptlX', 'ptlY', 'gearT', 'gearP', 'recent_rehome', 'sequence_id']
MIN = 'scipy.optimize.minimize'
DOM = dict()


def run(c):
    c.floor = 60
    c.guard(objective, c)
    c.guard(start, c)
    c.guard(outliers, c)
    c.guard(failures, c)
    c.guard(stuck, c)
    return ''


def num_(x):
    return x if isinstance(x, T) else const(x)


def names(p, n):
    return [sym('%s%d' % (p, i)) for i in range(n)]


def flatx(x, y):
    return add(mul(const(1.25), x), mul(const(.125), y))


def flaty(x, y):
    return sub(mul(const(.75), y), mul(const(.25), x))


def intern(x, y, r1, r2, to, po):
    """angles stand-in: different mixtures of everything they depend on"""
    f = lambda *k: add(*[mul(const(a), b) for a, b in zip(k, (x, y, r1, r2, to, po))])
    return f(3, 5, 7, 11, -1, .5), f(-4, 6, 2, 9, .25, -1)


def per_row(ip, f, args):
    v = [ip.to_arr(a) if not isinstance(a, T) else a for a in args]
    n = max([len(ip.known_items(x)) for x in v if not isinstance(x, T)] or [0])
    if not n:
        return f(*v)
    w = [[x] * n if isinstance(x, T) else ip.known_items(x) for x in v]
    if any(len(x) not in (1, n) for x in w):
        raise I.RowError('arrays of %s rows are combined' % sorted(set(len(x) for x in w)))
    w = [list(x) * n if len(x) == 1 else x for x in w]
    out = [f(*[num_(x) for x in r]) for r in zip(*w)]
    if out and isinstance(out[0], tuple):
        return tuple(ip.new(I.ArrC((n,), [o[k] for o in out])) for k in range(len(out[0])))
    return ip.new(I.ArrC((n,), out))


def bind(order, a, k):
    d = dict(zip(order, a))
    d.update(k)
    return d


def models(c, seen, flags=0, more=None, values=None, circles=None):
    """stand-ins: transforms proved elsewhere, circle fit and optimiser"""
    def ptl2flat(ip, a, k):
        b = bind(['x_ptl', 'y_ptl'], a, k)
        return per_row(ip, lambda x, y: (flatx(x, y), flaty(x, y)), [b['x_ptl'], b['y_ptl']])

    def loc2int(ip, a, k):
        o = ['x_loc', 'y_loc', 'r1', 'r2', 't_offset', 'p_offset']
        b = bind(o, a, k)
        t, p = per_row(ip, intern, [b[x] for x in o])
        return (t, p, per_row(ip, lambda x: FALSE, [t]))

    def delta(ip, a, k):
        b = bind(['u_start', 'u_final', 'direction'], a, k)
        if b.get('direction', const(0)) is not const(0):
            raise I.Unsupported('direction of rotation')
        return per_row(ip, lambda x, y: sub(y, x), [b['u_start'], b['u_final']])

    def minimize(ip, a, k):
        b = bind(['fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds'], a, k)
        x0 = [ip.toterm(x) for x in ip.known_items(ip.to_arr(b['x0']))]
        n, it = len(x0), len(seen)
        trial = ip.new(I.ArrC((n,), names('trial%d_' % it, n)))
        extra = b.get('args', ())
        extra = list(ip.known_items(extra)) if not isinstance(extra, T) else [extra]
        fun = ip.call(b['fun'], [trial] + extra, {}, None)
        bd = b.get('bounds', NONE)
        bd = [tuple(ip.toterm(z) for z in ip.known_items(ip.to_arr(y))) for y in ip.known_items(bd)] if bd is not NONE else None
        best = values(x0) if values else names('best%d_' % it, n)
        best = ip.new(I.ArrC((n,), [num_(v) for v in best]))
        h = ip.new(I.ArrC((n, n), [sym('hess%d_%d_%d' % (it, min(i, j), max(i, j))) for i in range(n) for j in range(n)]))
        seen.append(dict(fun=fun, x0=x0, bounds=bd, n=n))
        r = ip.new(I.InstC(I.Class('OptimizeResult', 'stand-in', {}, ()), {}))
        ip.setattr(r, 'x', best)
        ip.setattr(r, 'hess_inv', h)
        ip.setattr(r, 'success', TRUE)
        ip.setattr(r, 'status', const(0))
        return r

    def circle(ip, a, k):
        b = bind(['x', 'y'], a, k)
        x, y = [list(ip.known_items(ip.to_arr(b[v]))) for v in 'xy']
        circles.append((x, y))
        i = len(circles)
        return (const(100 + 10 * i), const(-70 - i), const(3), const(0))
    m = {P + 'ptl2flat': ptl2flat, P + 'loc2int': loc2int, P + 'delta_angle': delta, MIN: minimize}
    if flags is not None:
        m['desimeter.posparams.flags.eval_move_flags'] = lambda ip, a, k: const(flags)
    if circles is not None:
        m['desimeter.circles.robust_fit_circle'] = circle
    m.update(more or {})
    return m


def history(n, rehome, seq, p=None, err=False):
    h = dict(posintT=names('t', n), posintP=[const(20 + 7 * i) for i in range(n)] if p is None else [num_(v) for v in p],
             ptlX=names('x', n), ptlY=names('y', n), gearT=names('gt', n), gearP=names('gp', n),
             recent_rehome=[const(v) for v in rehome], sequence_id=[const(v) for v in seq])
    if err:
        h['ptlXerr'], h['ptlYerr'] = names('ex', n), names('ey', n)
    return h


def dom(n):
    d = {}
    for i in range(n):
        d.update({'t%d' % i: (-150, 150), 'x%d' % i: (-4, 4), 'y%d' % i: (-4, 4), 'gt%d' % i: (.7, 1.3), 'gp%d' % i: (.7, 1.3), 'ex%d' % i: (.5, 2), 'ey%d' % i: (.5, 2)})
    for it in range(4):
        for i in range(16):
            d['trial%d_%d' % (it, i)] = (.5, 3)
            d['best%d_%d' % (it, i)] = (.5, 3)
    return d


def nominal(seqs=(), val=None):
    """nominal values, all different"""
    d = {k: sym('nom_' + k) for k in KEYS}
    for s in seqs:
        for a in 'TP':
            d['EPSILON_%s_%d' % (a, s)] = sym('nom_EPSILON_%s_%d' % (a, s))
    return d


def bounds():
    return {k: (sym('lo_' + k), sym('hi_' + k)) for k in KEYS}


def epsilons(h):
    """sequences that have a move without recent rehome"""
    return sorted({int(s.data) for s, r in zip(h['sequence_id'], h['recent_rehome']) if r is const(0)})


def arms(t, p, prm, dt, dp):
    """flat position of a positioner with given angles"""
    a = rad(add(t, dt))
    b = add(a, rad(add(p, dp)))
    return (add(mul(prm['LENGTH_R1'], fn('cos', a)), mul(prm['LENGTH_R2'], fn('cos', b)), prm['OFFSET_X']),
            add(mul(prm['LENGTH_R1'], fn('sin', a)), mul(prm['LENGTH_R2'], fn('sin', b)), prm['OFFSET_Y']))


def rad(t):
    return mul(t, div(tm.PI, const(180)))


def residuals(h, mode, prm, nom, keep=None, position=None):
    """(x residual, y residual) of every point that is fitted, from the history"""
    position = position or arms
    n = len(h['posintT'])
    eps = epsilons(h)
    out = []
    drift = lambda a, i, d: d['EPSILON_%s_%d' % (a, int(h['sequence_id'][i].data))] if int(h['sequence_id'][i].data) in eps else const(0)
    for i in range(n):
        if mode == 'dynamic' and i == 0:
            continue
        t, p = h['posintT'][i], h['posintP'][i]
        if mode == 'dynamic':
            j = i - 1
            x, y = flatx(h['ptlX'][j], h['ptlY'][j]), flaty(h['ptlX'][j], h['ptlY'][j])
            mt, mp = intern(sub(x, nom['OFFSET_X']), sub(y, nom['OFFSET_Y']), nom['LENGTH_R1'], nom['LENGTH_R2'], nom['OFFSET_T'], nom['OFFSET_P'])
            dt = div(sub(t, h['posintT'][j]), h['gearT'][i])
            dp = div(sub(p, h['posintP'][j]), h['gearP'][i])
            t = add(sub(mt, drift('T', j, nom)), mul(dt, prm['SCALE_T']))
            p = add(sub(mp, drift('P', j, nom)), mul(dp, prm['SCALE_P']))
        ex, ey = position(t, p, prm, add(prm['OFFSET_T'], drift('T', i, prm)), add(prm['OFFSET_P'], drift('P', i, prm)))
        x, y = flatx(h['ptlX'][i], h['ptlY'][i]), flaty(h['ptlX'][i], h['ptlY'][i])
        out.append((sub(ex, x), sub(ey, y), h['ptlXerr'][i] if 'ptlXerr' in h else const(1), h['ptlYerr'][i] if 'ptlYerr' in h else const(1)))
    return [out[i] for i in range(len(out)) if keep is None or i in keep]


def chi2(res, ex=False, ey=False):
    return add(*[add(power(div(a, mul(const(1.25), u)), const(2)), power(div(b, mul(const(.75), v)), const(2))) for a, b, u, v in res])


def rms(res):
    return fn('sqrt', div(add(*[add(mul(a, a), mul(b, b)) for a, b, _, _ in res]), const(len(res))))


def strip(h, err):
    h = dict(h)
    if 'x' not in err:
        h.pop('ptlXerr', None)
    if 'y' not in err:
        h.pop('ptlYerr', None)
    return h


def asdict(R, v):
    c = R.ip.get(v)
    if c.kind != 'dict':
        raise I.Unsupported('result is not a dictionary')
    return {(k if isinstance(k, str) else k.data): R.ip.toterm(x) for k, x in c.items.items()}


def fault(c, R, name, rule, where, detail):
    """a violation, unless something on the way was not understood"""
    if R.ip.warned or R.ip.havocs:
        return c.undecided(name, rule, where, '%s; not understood: %s' % (detail, R.ip.warned[:2]))
    return c.bad(name, rule, where, detail)


def call(c, R, tag, h, **kw):
    a = {k: R.lst(*v) for k, v in h.items()}
    for k, v in kw.items():
        if isinstance(v, dict):
            v = R.ip.new(I.DictC({a_: b for a_, b in v.items()}))
        a[k] = v
    try:
        return R(Q, **a)
    except I.RowError as e:
        c.bad(tag, 'objective of the fit', R.where(Q), str(e))


def varied(mode, keep, eps):
    k = [x for x in (STATIC if mode == 'static' else DYNAMIC) if x not in keep]
    if mode == 'static':
        k += ['EPSILON_%s_%d' % (a, s) for s in eps for a in 'TP']
    return sorted(k)


def scenarios():
    yield 'all moves after a rehoming', [1, 1, 1, 1, 1], [0, 0, 1, 1, 2], ''
    yield 'drift in one sequence', [1, 1, 0, 0, 1], [0, 0, 3, 3, 4], ''
    yield 'drift in two sequences', [1, 0, 0, 1, 0, 0], [2, 7, 7, 8, 5, 5], ''
    yield 'errors given', [1, 1, 0, 0, 1], [0, 0, 3, 3, 4], 'xy'
    yield 'errors of x given', [1, 1, 1, 1], [0, 1, 1, 2], 'x'


def objective(c):
    for tag0, rehome, seq, err in scenarios():
        for mode in ('static', 'dynamic'):
            for keep in ((), ('OFFSET_X', 'LENGTH_R1'), ('SCALE_P',), ('OFFSET_T', 'SCALE_T')):
                tag = '%s, %s fit%s' % (tag0, mode, ' with %s fixed' % ' and '.join(keep) if keep else '')
                c.guard(one, c, tag, mode, rehome, seq, err, keep)


def one(c, tag, mode, rehome, seq, err, keep):
    seen = []
    n = len(rehome)
    R = c.runner(models=models(c, seen))
    h = strip(history(n, rehome, seq, err=True), err)
    eps = epsilons(h)
    nom, bnd = nominal(eps if mode == 'dynamic' else ()), bounds()
    out = call(c, R, tag, h, mode=strc(mode), nominals=nom, bounds={k: v for k, v in bnd.items()}, keep_fixed=R.lst(*[strc(k) for k in keep]))
    if out is None:
        return
    if len(seen) != 1:
        c.undecided(tag, 'objective of the fit', R.where(Q), '%d calls of the optimiser' % len(seen))
        return
    if mode == 'static':
        nom.update({'EPSILON_%s_%d' % (a, s): const(0) for a in 'TP' for s in eps})
        bnd.update({'EPSILON_%s_%d' % (a, s): (const(-200), const(200)) for a in 'TP' for s in eps})
    var = varied(mode, keep, eps)
    judge(c, R, tag, h, mode, nom, bnd, var, seen, out, 'xy' == err, dom(n))


def assign(R, c, tag, seen, nom, bnd, var):
    """which component of the optimiser's vector is which parameter: read off the initial values (all different); the
    drifts start at zero and are told apart afterwards"""
    s = seen
    if s['n'] != len(var):
        fault(c, R, '%s: varied parameters' % tag, 'parameters of the fit', R.where(Q), '%d parameters are varied, expected %s' % (s['n'], ', '.join(var)))
        return None
    return True


def judge(c, R, tag, h, mode, nom, bnd, var, seens, out, errs, d, keep=None, it=0, n=None):
    import itertools
    seen = seens[it]
    where = R.where(Q)
    if seen['n'] != len(var):
        fault(c, R, '%s: varied parameters' % tag, 'parameters of the fit', where, '%d parameters are varied, expected %s' % (seen['n'], ', '.join(var)))
        return
    c.ok('%s: number of varied parameters' % tag, 'parameters of the fit', where)
    # the order of the optimiser's vector is free: it is read off the values returned
    best, cov, rm, npts = R.ip.known_items(out) if not isinstance(out, tuple) else out
    best, cov = asdict(R, best), asdict(R, cov)
    want = set(KEYS) | {k for k in nom if k.startswith('EPSILON')} | {'FLAGS'}
    if set(best) != want:
        fault(c, R, '%s: returned parameters' % tag, 'parameters of the fit', where, 'missing %s, unexpected %s' % (sorted(want - set(best)), sorted(set(best) - want)))
        return
    c.ok('%s: returned parameters' % tag, 'parameters of the fit', where)
    vec = names('best%d_' % it, seen['n'])
    at = {}
    for k in var:
        if k == 'OFFSET_T':
            i = [j for j, v in enumerate(vec) if any(s is v for s in syms(best[k]))]
        else:
            i = [j for j, v in enumerate(vec) if best[k] is v]
        if len(i) != 1:
            fault(c, R, '%s: %s is the fitted value' % (tag, k), 'parameters of the fit', where, 'returned %s' % tm.show(best[k])[:200])
            return
        at[k] = i[0]
    if len(set(at.values())) != len(var):
        fault(c, R, '%s: every fitted value is returned once' % tag, 'parameters of the fit', where, '%s' % at)
        return
    c.ok('%s: every fitted value is returned once' % tag, 'parameters of the fit', where)
    for k in sorted(want - set(var) - {'FLAGS'}):
        if k == 'OFFSET_T':
            R.same('%s: fixed %s' % (tag, k), 'parameters of the fit', Q, best[k], nom[k], dom={'nom_OFFSET_T': (-170, 170)}, tol=1e-9)
        else:
            R.same('%s: fixed %s' % (tag, k), 'parameters of the fit', Q, best[k], nom[k])
    if 'OFFSET_T' in var:
        v = vec[at['OFFSET_T']]
        for lo, hi, off in ((-179.9, 179.9, 0), (180.1, 359, -360), (-359, -180.1, 360)):
            R.same('%s: OFFSET_T from %g to %g' % (tag, lo, hi), 'angle between -180 and 180', Q, best['OFFSET_T'], add(v, const(off)), dom={v.data[0]: (lo, hi)}, tol=1e-9)
    for k in var:
        R.same('%s: initial value of %s' % (tag, k), 'parameters of the fit', Q, seen['x0'][at[k]], nom[k])
        if seen['bounds'] is None:
            fault(c, R, '%s: bounds of %s' % (tag, k), 'parameters of the fit', where, 'no bounds are given to the optimiser')
        else:
            R.same('%s: bounds of %s' % (tag, k), 'parameters of the fit', Q, seen['bounds'][at[k]], bnd[k])
    for nm, vals, got, f in (('minimised quantity', names('trial%d_' % it, seen['n']), seen['fun'], chi2), ('rms of the residuals', vec, rm, rms)):
        prm = dict(nom)
        prm.update({k: vals[at[k]] for k in var})
        d2 = dict(d)
        for k in nom:
            d2['nom_' + k] = (.5, 3)
        R.same('%s: %s' % (tag, nm), 'objective of the fit', Q, got, f(residuals(h, mode, prm, nom, keep)), dom=d2, tol=1e-7)
    R.same('%s: number of points' % tag, 'points of the fit', Q, npts, const(len(residuals(h, mode, prm, nom, keep))))
    # covariances
    good = []
    for i, k1 in enumerate(var):
        for k2 in var[i:]:
            a, b = 'COV.%s.%s' % (k1, k2), 'COV.%s.%s' % (k2, k1)
            if a not in cov and b not in cov:
                fault(c, R, '%s: covariance of %s and %s' % (tag, k1, k2), 'covariance of the fit', where, 'not returned')
                continue
            g = cov[a] if a in cov else cov[b]
            if a in cov and b in cov and a != b and cov[a] is not cov[b]:
                fault(c, R, '%s: covariance of %s and %s' % (tag, k1, k2), 'covariance of the fit', where, 'two values')
                continue
            lo, hi = sorted((at[k1], at[k2]))
            w = mul(const(2), sym('hess%d_%d_%d' % (it, lo, hi)))
            if not errs:
                w = mul(w, div(power(rm if isinstance(rm, T) else R.comps(rm)[0], const(2)), const(2)))
            R.same('%s: covariance of %s and %s' % (tag, k1, k2), 'covariance of the fit', Q, g, w, dom=d, tol=1e-7)
    for k in sorted(want - set(var) - {'FLAGS'}):
        g = cov.get('COV.%s.%s' % (k, k))
        if g is not None:
            R.same('%s: variance of the fixed %s' % (tag, k), 'covariance of the fit', Q, g, const(0))


def syms(t):
    out, st, done = [], [t], set()
    while st:
        x = st.pop()
        if id(x) in done:
            continue
        done.add(id(x))
        if x.op == 's':
            out.append(x)
        st.extend(a for a in x.args if isinstance(a, T))
    return out


def start(c):
    """the fit starts from nominal values, and from circles through points with the same phi angle"""
    for tag, ps, want in (('two circles', [20] * 4 + [40] * 3 + [60] * 2, 2), ('interleaved angles', [20, 40, 20, 40, 20, 40, 60], 2),
                          ('one circle', [20, 30, 40, 20, 30, 20], 1), ('no circle', [20, 20, 30, 30, 40], 0)):
        n = len(ps)
        for keep in ((), ('OFFSET_X',), ('OFFSET_Y',)):
            seen, circles = [], []
            R = c.runner(models=models(c, seen, circles=circles))
            h = strip(history(n, [1] * n, [0] * n, p=ps), '')
            nom, bnd = nominal(), bounds()
            tag2 = 'initial values, %s%s' % (tag, ''.join(', %s fixed' % k for k in keep))
            out = call(c, R, tag2, h, mode=strc('static'), nominals=nom, bounds=bnd, keep_fixed=R.lst(*[strc(k) for k in keep]))
            if out is None or len(seen) != 1:
                c.undecided(tag2, 'parameters of the fit', R.where(Q), 'no call of the optimiser')
                continue
            groups = [[i for i in range(n) if ps[i] == v] for v in sorted(set(ps)) if ps.count(v) >= 3]
            got = [list(map(num, x + y)) for x, y in circles]
            ref = [[f(h['ptlX'][i], h['ptlY'][i]) for f in (flatx, flaty) for i in g] for g in groups]
            if [len(x) for x in got] != [len(x) for x in ref]:
                fault(c, R, '%s: circles' % tag2, 'points of the circles', R.where(Q), 'circles through %s points, expected %s' % ([len(x) // 2 for x in got], [len(g) for g in groups]))
            else:
                for k, (x, y) in enumerate(zip(got, ref)):
                    R.same('%s: points of circle %d' % (tag2, k), 'points of the circles', Q, tuple(x), tuple(y), tol=1e-9)
            var = varied('static', keep, [])
            start_ = dict(nom)
            if groups:
                m = Fr(len(groups) + 1, 2)
                start_.update(OFFSET_X=const(100 + 10 * m), OFFSET_Y=const(-70 - m))
            best = asdict(R, (R.ip.known_items(out) if not isinstance(out, tuple) else out)[0])
            vec = names('best0_', seen[0]['n'])
            for k in var:
                i = [j for j, v in enumerate(vec) if k in best and any(v is z for z in syms(best[k]))]
                if len(i) == 1:
                    R.same('%s: initial value of %s' % (tag2, k), 'parameters of the fit', Q, seen[0]['x0'][i[0]], start_[k], tol=1e-9)
            for k in keep:
                R.same('%s: value of the fixed %s' % (tag2, k), 'parameters of the fit', Q, best[k], nom[k])


def linear(t, p, prm, dt, dp):
    return (add(t, dt, prm['LENGTH_R1'], prm['OFFSET_X']), add(p, dp, prm['LENGTH_R2'], prm['OFFSET_Y']))


def unflat(x, y):
    d = Fr(5, 4) * Fr(3, 4) + Fr(1, 8) * Fr(1, 4)
    return (Fr(3, 4) * x - Fr(1, 8) * y) / d, (Fr(5, 4) * y + Fr(1, 4) * x) / d


def exact_sqrt(ip, a, k):
    import math

    def f(t):
        if t.op == 'c' and t.data >= 0:
            n, d = math.isqrt(t.data.numerator), math.isqrt(t.data.denominator)
            if n * n == t.data.numerator and d * d == t.data.denominator:
                return const(Fr(n, d))
        return fn('sqrt', t)
    return ip.map1(f, a[0])


OPT = {'LENGTH_R1': Fr(3), 'LENGTH_R2': Fr(31, 10), 'OFFSET_T': Fr(12), 'OFFSET_P': Fr(7), 'OFFSET_X': Fr(200), 'OFFSET_Y': Fr(30),
       'SCALE_T': Fr(9, 10), 'SCALE_P': Fr(4, 5)}


def outliers(c):
    """points discarded: worst first, when it is both far and far compared to the median"""
    dirs = [(Fr(3, 5), Fr(4, 5)), (Fr(1), Fr(0)), (Fr(-4, 5), Fr(3, 5)), (Fr(0), Fr(-1))]
    unit = lambda d, k: (dirs[k][0] * d, dirs[k][1] * d)
    cases = (('one far point', [1, 2, 1, 200, 1, 2, 1, 2], [{3}], None),
             ('two far points', [1, 200, 1, 2, 1, 2, 300, 2], [{6}, {1, 6}], None),
             ('far below the limit', [1, 2, 1, 19, 1, 2, 1, 2], [], None),
             ('scatter as large as the worst point', [25, 24, 26, 48, 26, 25, 24, 25], [], None),
             ('a point above twice the scatter', [10, 10, 10, 24, 10, 10, 10, 10], [{3}], None),
             ('rejection not requested', [1, 2, 1, 200, 1, 2, 1, 2], None, None),
             ('too few points left', [1, 200, 300, 1, 2, 1, 2], [{2}, {1, 2}], 'fail'))
    for tag, dist, steps, fail in cases:
        for mode in ('static', 'dynamic'):
            c.guard(outlier, c, tag, mode, [unit(Fr(d, 100), (i * 3 if tag != 'two far points' else (i + 1) // 2) % 4) for i, d in enumerate(dist)], steps, fail)


def outlier(c, tag, mode, shift, steps, fail):
    n = len(shift)
    if mode == 'dynamic' and fail:
        return
    tag = '%s fit, outliers: %s' % (mode, tag)
    h = history(n, [1] * n, [0] * n)
    nom = {k: const(v + Fr(j + 1, 16)) for j, (k, v) in enumerate(sorted(OPT.items()))}
    t, p = [Fr(10 + 3 * i + i * i) for i in range(n)], [Fr(20 + 5 * i) for i in range(n)]
    X, Y = [], []
    o = OPT
    if mode == 'static':
        for i in range(n):
            u = t[i] + o['OFFSET_T'] + o['LENGTH_R1'] + o['OFFSET_X'] + shift[i][0]
            v = p[i] + o['OFFSET_P'] + o['LENGTH_R2'] + o['OFFSET_Y'] + shift[i][1]
            X.append(u), Y.append(v)
        rows = range(n)
    else:
        # one more point: the first has no move before it; angles that give the wanted residuals are solved for
        shift = [(Fr(0), Fr(0))] + list(shift)
        n += 1
        h = history(n, [1] * n, [0] * n)
        X, Y = [Fr(200 + i) for i in range(n)], [Fr(30 - 2 * i) for i in range(n)]
        t, p = [Fr(0)], [Fr(90)]
        gt, gp = [Fr(9 + i, 10) for i in range(n)], [Fr(12 - i, 10) for i in range(n)]
        q = {k: v.data for k, v in nom.items()}
        for i in range(1, n):
            it, ip_ = [z.data for z in intern(const(X[i - 1] - q['OFFSET_X']), const(Y[i - 1] - q['OFFSET_Y']), nom['LENGTH_R1'], nom['LENGTH_R2'], nom['OFFSET_T'], nom['OFFSET_P'])]
            dt = (X[i] - shift[i][0] - q['OFFSET_X'] - q['LENGTH_R1'] - q['OFFSET_T'] - it) / o['SCALE_T'] * gt[i]
            dp = (Y[i] - shift[i][1] - q['OFFSET_Y'] - q['LENGTH_R2'] - q['OFFSET_P'] - ip_) / o['SCALE_P'] * gp[i]
            t.append(t[-1] + dt), p.append(p[-1] + dp)
        h.update(gearT=[const(v) for v in gt], gearP=[const(v) for v in gp])
    xy = [unflat(u, v) for u, v in zip(X, Y)]
    h.update(posintT=[const(v) for v in t], posintP=[const(v) for v in p], ptlX=[const(v[0]) for v in xy], ptlY=[const(v[1]) for v in xy])
    h.update(ptlXerr=names('ex', n), ptlYerr=names('ey', n))
    var = varied(mode, (), [])
    seen = []

    def answer(x0):
        # the order of the vector is free: each component is recognised by its initial value
        at = [[k for k in var if nom[k] is x] for x in x0]
        if any(len(k) != 1 for k in at):
            raise I.Unsupported('initial values')
        order[:] = [k[0] for k in at]
        return [OPT[k] for k in order]
    order = list(var)
    m = models(c, seen, values=answer, more={
        'numpy.sqrt': exact_sqrt,
        P + 'int2loc': lambda ip, a, k: per_row(ip, lambda t, p, r1, r2, to, po: (add(t, to, r1), add(p, po, r2)), [bind(['t_int', 'p_int', 'r1', 'r2', 't_offset', 'p_offset'], a, k)[x] for x in ('t_int', 'p_int', 'r1', 'r2', 't_offset', 'p_offset')])})
    R = c.runner(models=m)
    bnd = {k: (const(-500), const(500)) for k in KEYS}
    kw = {} if steps is None else {'outlier_rejection': TRUE}
    out = call(c, R, tag, h, mode=strc(mode), nominals=nom, bounds=bnd, **kw)
    if out is None:
        return
    steps = steps or []
    nf = len(steps) + (0 if fail else 1)
    where = R.where(Q)
    if len(seen) != nf:
        fault(c, R, '%s: number of fits' % tag, 'points of the fit', where, '%d fits, expected %d' % (len(seen), nf))
        return
    c.ok('%s: number of fits' % tag, 'points of the fit', where)
    first = 0 if mode == 'static' else 1
    base = set(range(n - first))
    for it, gone in enumerate([set()] + steps[:nf - 1]):
        prm = dict(nom)
        prm.update({k: sym('trial%d_%d' % (it, i)) for i, k in enumerate(order)})
        res = residuals(h, mode, prm, nom, base - gone, linear)
        R.same('%s: minimised quantity of fit %d' % (tag, it + 1), 'objective of the fit', Q, seen[it]['fun'], chi2(res), dom=dom(n), tol=1e-7)
    best, cov, rm, npts = R.ip.known_items(out) if not isinstance(out, tuple) else out
    best, cov = asdict(R, best), asdict(R, cov)
    last = base - (steps[-1] if steps else set())
    R.same('%s: number of points' % tag, 'points of the fit', Q, npts, const(len(last)))
    if fail:
        failed(c, R, tag, best, cov, 4)
        return
    prm = dict(nom)
    prm.update({k: const(OPT[k]) for k in var})
    R.same('%s: rms of the residuals' % tag, 'points of the fit', Q, rm, rms(residuals(h, mode, prm, nom, last, linear)), tol=1e-7)
    for k in KEYS:
        R.same('%s: value of %s' % (tag, k), 'parameters of the fit', Q, best[k], prm[k], tol=1e-9)


def failed(c, R, tag, best, cov, flags):
    where = R.where(Q)
    if 'FLAGS' not in best:
        fault(c, R, '%s: flags' % tag, 'failures are flagged', where, 'no flags returned')
        return
    R.same('%s: flags' % tag, 'failures are flagged', Q, best['FLAGS'], const(flags))
    if set(best) != {'FLAGS'} or cov:
        fault(c, R, '%s: no parameters' % tag, 'failures are flagged', where, 'parameters returned for a failed fit: %s' % sorted(list(best) + list(cov)))
    else:
        c.ok('%s: no parameters' % tag, 'failures are flagged', where)


def failures(c):
    for tag, rehome, flags, want in (('theta stuck', [1, 1, 1, 1], 1, 5), ('phi stuck', [1, 1, 1, 1], 2, 6), ('both stuck', [1, 1, 1, 0], 3, 7),
                                     ('no recent rehome', [0, 0, 0, 0], 0, 4), ('another flag', [1, 0, 1, 0], 8, None), ('no flag', [1, 1, 1, 1], 0, None)):
        for mode in ('static', 'dynamic'):
            seen = []
            R = c.runner(models=models(c, seen, flags=flags))
            h = strip(history(4, rehome, [0, 0, 1, 1]), '')
            nom = nominal(epsilons(h))
            t = '%s, %s fit' % (tag, mode)
            out = call(c, R, t, h, mode=strc(mode), nominals=nom, bounds=dict(bounds(), **{k: (const(-1), const(1)) for k in nom if 'EPS' in k}))
            if out is None:
                continue
            best, cov, rm, npts = R.ip.known_items(out) if not isinstance(out, tuple) else out
            best, cov = asdict(R, best), asdict(R, cov)
            if want is not None:
                failed(c, R, t, best, cov, want)
                if seen:
                    fault(c, R, '%s: no fit' % t, 'failures are flagged', R.where(Q), 'parameters are fitted')
                else:
                    c.ok('%s: no fit' % t, 'failures are flagged', R.where(Q))
                R.same('%s: number of points' % t, 'failures are flagged', Q, npts, const(0))
            elif 'FLAGS' in best:
                R.same('%s: flags' % t, 'failures are flagged', Q, best['FLAGS'], const(flags))
            else:
                fault(c, R, '%s: flags' % t, 'failures are flagged', R.where(Q), 'no flags returned')


def stuck(c):
    """theta is stuck when the spots stay within 0.1 mm in every usable set of points with the same phi angle"""
    q = 'desimeter.posparams.flags.eval_move_flags'
    for tag, ps, ts, groups in (('one set', [30] * 4, [0, 10, 15, 20], [[0, 1, 2, 3]]),
                                ('range of theta too small', [30] * 4, [0, 10, 15, 19.9], []),
                                ('three points only', [30] * 3, [0, 100, 50], []),
                                ('phi folded in', [161] * 4, [0, 100, 50, 20], []),
                                ('phi at the limit', [160] * 4, [0, 100, 50, 20], [[0, 1, 2, 3]]),
                                ('two sets, interleaved', [30, 50] * 4, [0, -40, 30, 10, 60, 90, 80, 5], [[0, 2, 4, 6], [1, 3, 5, 7]]),
                                ('one usable set of two', [30, 170] * 4, [0, -40, 30, 10, 60, 90, 80, 5], [[0, 2, 4, 6]])):
        n = len(ps)
        R = c.runner()
        xs, ys = names('x', n), names('y', n)
        got = R(q, R.lst(*[const(v) for v in ts]), R.lst(*[const(v) for v in ps]), R.lst(*xs), R.lst(*ys))

        def var_(v):
            m = div(add(*v), const(len(v)))
            return div(add(*[power(sub(x, m), const(2)) for x in v]), const(len(v)))
        moving = [lt(const(Fr(1, 10)), fn('sqrt', add(var_([xs[i] for i in g]), var_([ys[i] for i in g])))) for g in groups]
        want = ite(or_(*moving), const(0), const(1)) if groups else const(0)
        for lo, hi in ((-.16, .16), (-.1, .1), (-.5, .5)):
            R.same('stuck theta, %s, spots within %g mm' % (tag, hi), 'reference graph', q, got, want, dom={'%s%d' % (v, i): (lo, hi) for v in 'xy' for i in range(n)}, prove=False)
