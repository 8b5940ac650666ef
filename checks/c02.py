"""Reachability flag: the boolean graph of the flag is compared with the graph of
'the arm position at the returned angles misses the target', for wide, narrow, shifted
and reversed travel ranges, with and without a theta guess; the returned angles are
compared with their own clamp into the ranges; and the per-row flag is followed through
the array conversions."""
from sa.terms import *
P = 'desimeter.transform.pos2ptl.'
X = 'desimeter.transform.xy2tp.'
Q = 'desimeter.transform.xy2qs.'
DOM = dict(r1=(2.0, 4.0), r2=(2.0, 4.0), x=(-7, 7), y=(-7, 7), guess=(-400, 400), tol=(5, 400))
RANGES = [('both arm signs', (-40, 60), (-150, 180)), ('nominal', (-180, 180), (-20, 200)),
          ('narrow', (30, 200), (60, 120)),
          ('narrow, negative', (-300, -100), (-10, 90)),
          ('shifted by more than a turn', (500, 900), (330, 600)),
          ('shifted down by more than a turn', (-900, -500), (-400, -200)),
          ('reversed order', (170, -190), (185, -5)),
          ('wide', (-500, 500), (-200, 400))]


def miss(R, tp, r, x, y):
    bx, by = R.ip.unpack(R(X + 'tp2xy', tp, r), 2)
    dx, dy = sub(bx, x), sub(by, y)
    return lt(const(1e-10), add(mul(dx, dx), mul(dy, dy)))


def run(c):
    c.floor = 30
    for nm, tr, pr in RANGES:
        for g in (False, True):
            c.guard(one, c, nm, tr, pr, g)
    for nm, tr, pr in RANGES + [('both arm configurations, shifted', (300, 500), (210, 530))]:
        for g in (False, True):
            c.guard(attainable, c, nm, tr, pr, g)
    c.guard(nearest, c)
    c.guard(symbolic_range, c)
    c.guard(rows, c)
    c.assumptions += ['real arithmetic: targets within 1e-5 mm of a boundary of the reachable set are not distinguished']


def one(c, nm, tr, pr, g):
    R = c.runner()
    x, y, r1, r2 = [sym(n) for n in ('x', 'y', 'r1', 'r2')]
    rng = R.lst(R.lst(const(tr[0]), const(tr[1])), R.lst(const(pr[0]), const(pr[1])))
    kw = dict(t_guess=sym('guess'), t_guess_tol=sym('tol')) if g else {}
    tp, un = R.ip.unpack(R(X + 'xy2tp', R.lst(x, y), R.lst(r1, r2), rng, **kw), 2)
    tag = '%s ranges%s' % (nm, ', with a guess' if g else '')
    w = R.where(X + 'xy2tp')
    n = (2 if g else 4) * c.trials
    c.equal('flag is set exactly when the target is missed, ' + tag, 'boolean graph equality', w,
            tobool(R.comps(un)[0]), miss(R, tp, R.lst(r1, r2), x, y), dom=DOM, prove=False, trials=n)
    a = R.comps(tp)
    for v, lim, ax in ((a[0], tr, 'theta'), (a[1], pr, 'phi')):
        lo, hi = const(min(lim)), const(max(lim))
        c.equal('%s lies within its travel range, %s' % (ax, tag), 'clamp fixpoint', w, v, fmin(fmax(v, lo), hi), dom=DOM, prove=False, tol=1e-9, trials=n)


def attainable(c, nm, tr, pr, g):
    """a configuration of the arms within the ranges exists: the target must not be flagged"""
    R = c.runner()
    x, y, r1, r2 = [sym(n) for n in ('x', 'y', 'r1', 'r2')]
    rng = R.lst(R.lst(const(tr[0]), const(tr[1])), R.lst(const(pr[0]), const(pr[1])))
    kw = dict(t_guess=sym('guess'), t_guess_tol=sym('tol')) if g else {}
    tp, un = R.ip.unpack(R(X + 'xy2tp', R.lst(x, y), R.lst(r1, r2), rng, **kw), 2)
    d = div(PI, const(180))
    h2 = add(mul(x, x), mul(y, y))
    pp = fn('acos', div(sub(sub(h2, mul(r1, r1)), mul(r2, r2)), mul(const(2), r1, r2)))
    t0 = fn('atan2', y, x)
    dt = fn('atan2', mul(r2, fn('sin', pp)), add(r1, mul(r2, fn('cos', pp))))
    lo, hi = [const(v) for v in sorted(tr)]
    plo, phi = [const(v) for v in sorted(pr)]
    e = const(1e-6)
    some = []
    for s in ((1, -1) if g else (1,)):
        th = div(sub(t0, mul(const(s), dt)), d)
        ph = div(mul(const(s), pp), d)
        tin = or_(*[and_(lt(add(lo, e), add(th, const(k))), lt(add(th, const(k), e), hi), *([lt(fn('abs', sub(add(th, const(k)), sym('guess'))), sym('tol'))] if g else [])) for k in (-1080, -720, -360, 0, 360, 720, 1080)])
        pin = or_(*[and_(lt(add(plo, e), add(ph, const(k))), lt(add(ph, const(k), e), phi)) for k in (-720, -360, 0, 360, 720)])
        some.append(and_(tin, pin))
    reach = and_(lt(h2, power(add(r1, r2), const(2))), lt(power(sub(r1, r2), const(2)), h2))
    c.equal('a target some arm configuration attains is not flagged, %s ranges%s' % (nm, ', with a guess' if g else ''), 'boolean graph equality', R.where(X + 'xy2tp'),
            and_(or_(*some), tobool(R.comps(un)[0])), FALSE, dom=dict(DOM, guess=(lo.data - 90, hi.data + 90)) if g else DOM, constraint=reach, prove=False, trials=6 * c.trials, skeleton=False)


def symbolic_range(c):
    """symbolic limits: the flag and the ranges hold for limits that are inputs"""
    R = c.runner()
    x, y, r1, r2 = [sym(n) for n in ('x', 'y', 'r1', 'r2')]
    lim = [sym(n) for n in ('ta', 'tb', 'pa', 'pb')]
    dom = dict(DOM, ta=(-600, 600), tb=(-600, 600), pa=(-300, 500), pb=(-300, 500))
    rng = R.lst(R.lst(lim[0], lim[1]), R.lst(lim[2], lim[3]))
    tp, un = R.ip.unpack(R(X + 'xy2tp', R.lst(x, y), R.lst(r1, r2), rng), 2)
    w = R.where(X + 'xy2tp')
    c.equal('flag is set exactly when the target is missed, any travel range', 'boolean graph equality', w,
            tobool(R.comps(un)[0]), miss(R, tp, R.lst(r1, r2), x, y), dom=dom, prove=False, trials=8 * c.trials)
    a = R.comps(tp)
    for v, (p, q), ax in ((a[0], lim[:2], 'theta'), (a[1], lim[2:], 'phi')):
        c.equal('%s lies within its travel range, any travel range' % ax, 'clamp fixpoint', w, v, fmin(fmax(v, fmin(p, q)), fmax(p, q)), dom=dom, prove=False, tol=1e-9, trials=8 * c.trials)


def nearest(c):
    R = c.runner()
    x, y, r1, r2 = [sym(n) for n in ('x', 'y', 'r1', 'r2')]
    rng = R.lst(R.lst(const(-400), const(400)), R.lst(const(-200), const(400)))
    h = fn('sqrt', add(mul(x, x), mul(y, y)))
    lo, hi = fn('abs', sub(r1, r2)), add(r1, r2)
    for nm, con, tgt in (('beyond', lt(mul(hi, const(1.001)), h), hi), ('inside', lt(h, mul(lo, const(0.99))), lo)):
        dom = dict(DOM, r1=(2, 2.5), r2=(3.5, 4), x=(-0.7, 0.7), y=(-0.7, 0.7)) if nm == 'inside' else DOM
        for g in (False, True):
            kw = dict(t_guess=sym('guess'), t_guess_tol=const(1000)) if g else {}
            tp, un = R.ip.unpack(R(X + 'xy2tp', R.lst(x, y), R.lst(r1, r2), rng, **kw), 2)
            back = R(X + 'tp2xy', tp, R.lst(r1, r2))
            R.same('target %s the annulus goes to the nearest reachable point%s' % (nm, ', with a guess' if g else ''), 'reference graph', X + 'xy2tp', back, (mul(x, div(tgt, h)), mul(y, div(tgt, h))), dom=dom, constraint=con, prove=False, tol=1e-5, trials=2 * c.trials)


def rows(c):
    for vec in (False, True):
        for g in (False, True):
            R = c.runner(opaque=[X + 'xy2tp'])
            d = ['N'] if vec else []
            x, y = sym('x', ['N']), sym('y', ['N'])
            r1, r2, to, po = [sym(n, d) for n in ('r1', 'r2', 'to', 'po')]
            kw = dict(t_ext_guess=sym('guess', ['N']), t_guess_tol=sym('tol')) if g else {}
            got = R.comps(R(P + 'loc2ext', x, y, r1, r2, to, po, **kw))
            call = next((n for k in got for n in walk(k) if n.op == 'f' and n.data == X + 'xy2tp'), None)
            tag = '%s calibration%s' % ('per-positioner' if vec else 'scalar', ', with a guess' if g else '')
            w = R.where(P + 'loc2ext')
            if call is None:
                c.undecided('per-row flag, ' + tag, 'argument flow', w, 'solver call not found')
                continue
            c.equal('row flag is the flag of that row, ' + tag, 'argument flow', w, tobool(got[2]), tobool(fn('item', call, ONE)))
            c.equal('row solves its own x, ' + tag, 'argument flow', w, call.args[0].args[0], x)
            c.equal('row solves its own y, ' + tag, 'argument flow', w, call.args[0].args[1], y)
            R2 = c.runner(opaque=[Q + 'r2s', P + 'loc2ext'])
            kw = dict(t_int_guess=sym('guess', ['N']), t_guess_tol=sym('tol')) if g else {}
            for f, extra in (('loc2int', []), ('ptl2int', [sym('xo', d), sym('yo', d)])):
                got = R2.comps(R2(P + f, x, y, r1, r2, to, po, *extra, **kw))
                call = next((n for k in got for n in walk(k) if n.op == 'f' and n.data == P + 'loc2ext'), None)
                if call is None:
                    c.undecided('%s flag, %s' % (f, tag), 'argument flow', R2.where(P + f), 'loc2ext is not called')
                    continue
                c.equal('%s passes the flag through unchanged, %s' % (f, tag), 'argument flow', R2.where(P + f), tobool(got[2]), tobool(fn('item', call, const(2))))
