"""Positioner kinematics: the value graph of every conversion composed with its
inverse is compared with the identity, and every composite with the chain of
documented steps (gated value graphs, algebraic normal form)."""
from sa.terms import *
P = 'desimeter.transform.pos2ptl.'
X = 'desimeter.transform.xy2tp.'
Q = 'desimeter.transform.xy2qs.'
DOM = dict(r1=(2.5, 3.5), r2=(2.5, 3.5), t=(-170, 170), p=(10, 170), to=(-170, 170), po=(-20, 20), x=(-6, 6), y=(-6, 6), xo=(-300, 300), yo=(-300, 300), guess=(-180, 180), tol=(5, 60))


def syms(names, vec):
    return [sym(n, ['N'] if vec else ()) for n in names]


def run(c):
    for vec in (True, False):
        c.guard(simple, c, vec)
    for sv in (0, 1):
        c.guard(composites, c, sv)
    c.guard(inverse, c)
    c.guard(flat, c)
    c.guard(guess, c)
    c.guard(deltas, c)
    c.floor = 20


def dims_tag(vec):
    return 'vector' if vec else 'scalar'


def simple(c, vec):
    R = c.runner()
    u, = syms(['x'], vec)
    tag = dims_tag(vec)
    for offvec in (False, True):
        if offvec and not vec:
            continue
        o = sym('xo', ['N'] if offvec else ())
        t2 = tag + ('/vector offset' if offvec else '/scalar offset')
        R.same('flat2loc subtracts the offset, ' + t2, 'reference graph', P + 'flat2loc', R(P + 'flat2loc', u, o), sub(u, o))
        R.same('loc2flat adds the offset, ' + t2, 'reference graph', P + 'loc2flat', R(P + 'loc2flat', u, o), add(u, o))
        R.same('ext2int subtracts the offset, ' + t2, 'reference graph', P + 'ext2int', R(P + 'ext2int', u, o), sub(u, o))
        R.same('int2ext adds the offset, ' + t2, 'reference graph', P + 'int2ext', R(P + 'int2ext', u, o), add(u, o))


def arm(r1, r2, t, p):
    d = div(PI, const(180))
    return (add(mul(r1, fn('cos', mul(t, d))), mul(r2, fn('cos', mul(add(t, p), d)))),
            add(mul(r1, fn('sin', mul(t, d))), mul(r2, fn('sin', mul(add(t, p), d)))))


def composites(c, sv):
    """sv: calibration values are scalars / per-positioner"""
    tag = ['scalar calibration', 'per-positioner calibration'][sv]
    R = c.runner(opaque=[Q + 'r2s', Q + 's2r'])
    t, p = syms(['t', 'p'], True)
    r1, r2, to, po, xo, yo = syms(['r1', 'r2', 'to', 'po', 'xo', 'yo'], sv)
    x, y = syms(['x', 'y'], True)
    R.same('ext2loc is the two-arm position, ' + tag, 'reference graph', P + 'ext2loc', R(P + 'ext2loc', t, p, r1, r2), arm(r1, r2, t, p))
    R.same('int2loc = ext2loc after int2ext, ' + tag, 'composition', P + 'int2loc', R(P + 'int2loc', t, p, r1, r2, to, po), arm(r1, r2, add(t, to), add(p, po)))
    xl, yl = arm(r1, r2, add(t, to), add(p, po))
    want = R(P + 'flat2ptl', add(xl, xo), add(yl, yo))
    R.same('int2ptl = flat2ptl after loc2flat after int2loc, ' + tag, 'composition', P + 'int2ptl', R(P + 'int2ptl', t, p, r1, r2, to, po, xo, yo), want)
    # inverse composites over an opaque loc2ext
    R = c.runner(opaque=[Q + 'r2s', Q + 's2r', P + 'loc2ext'])
    g, tol = sym('guess', ['N']), sym('tol')
    for gv, gname in ((None, 'no guess'), (g, 'guess')):
        kw = {} if gv is None else dict(t_int_guess=gv, t_guess_tol=tol)
        kx = {} if gv is None else dict(t_ext_guess=add(gv, to), t_guess_tol=tol)
        got = R(P + 'loc2int', x, y, r1, r2, to, po, **kw)
        e = R.ip.unpack(R(P + 'loc2ext', x, y, r1, r2, to, po, **kx), 3)
        want = (sub(e[0], to), sub(e[1], po), e[2])
        R.same('loc2int = ext2int after loc2ext (%s, %s)' % (gname, tag), 'composition', P + 'loc2int', got, want)
        xf, yf = R.ip.unpack(R(P + 'ptl2flat', x, y), 2)
        got = R(P + 'ptl2int', x, y, r1, r2, to, po, xo, yo, **kw)
        e = R.ip.unpack(R(P + 'loc2ext', sub(xf, xo), sub(yf, yo), r1, r2, to, po, **kx), 3)
        R.same('ptl2int = ext2int after loc2ext after flat2loc after ptl2flat (%s, %s)' % (gname, tag), 'composition', P + 'ptl2int', got, (sub(e[0], to), sub(e[1], po), e[2]))
    if sv:
        return
    # loc2ext applies xy2tp row by row, whatever mixture of scalar and per-positioner values it is given
    import itertools
    for mask in itertools.product((0, 1), repeat=4):
        r1, r2, to, po = [sym(n, ['N'] if m else ()) for n, m in zip(('r1', 'r2', 'to', 'po'), mask)]
        tag = 'per positioner: ' + (', '.join(n for n, m in zip(('arm 1', 'arm 2', 'theta offset', 'phi offset'), mask) if m) or 'none')
        rows(c, x, y, r1, r2, to, po, tol, tag)


def rows(c, x, y, r1, r2, to, po, tol, tag):
    # loc2ext applies xy2tp row by row
    R = c.runner(opaque=[X + 'xy2tp'])
    for gv, tol, gname in ((None, None, 'no guess'), (sym('guess', ['N']), sym('tol'), 'guess'), (sym('guess'), sym('tol', ['N']), 'common guess')):
        kw = {} if gv is None else dict(t_ext_guess=gv, t_guess_tol=tol)
        got = R(P + 'loc2ext', x, y, r1, r2, to, po, **kw)
        comps = R.comps(got)
        call = None
        for k in comps:
            for n in walk(k):
                if n.op == 'f' and n.data == X + 'xy2tp':
                    call = n
        w = R.where(P + 'loc2ext')
        if call is None:
            c.undecided('loc2ext solves each row, %s, %s' % (gname, tag), 'reference graph', w, 'xy2tp is not the solver')
            continue
        a = call.args
        items = [('position x', a[0].args[0], x), ('position y', a[0].args[1], y), ('arm 1', a[1].args[0], r1), ('arm 2', a[1].args[1], r2)]
        if gv is not None:
            items += [('guess', a[3], gv), ('guess tolerance', a[4], tol)]
        for nm, got_, want_ in items:
            c.equal('loc2ext row %s, %s, %s' % (nm, gname, tag), 'argument flow', w, got_, want_)
        for i, ax in enumerate(('theta', 'phi')):
            o = (to, po)[i]
            for j in (0, 1):
                got_ = a[2].args[i].args[j]
                ref = [[(-180, None), (180, None)], [(-20, None), (200, None)]][i][j][0]
                c.equal('loc2ext %s limit %d is the internal limit shifted by that offset, %s, %s' % (ax, j, gname, tag), 'argument flow', w, sub(got_, o), const(ref), tol=1e-6)
        for i, k in enumerate(comps):
            want = [fn('item', fn('item', call, ZERO), ZERO), fn('item', fn('item', call, ZERO), ONE), fn('item', call, ONE)][i]
            c.equal('loc2ext output %d comes from its own row, %s, %s' % (i, gname, tag), 'reference graph', w, k, want)


RNG = [[const(-1000), const(1000)], [const(-1000), const(1000)]]


def inverse(c):
    R = c.runner()
    t, p, r1, r2 = syms(['t', 'p', 'r1', 'r2'], False)
    xy = R(X + 'tp2xy', R.lst(t, p), R.lst(r1, r2))
    R.same('tp2xy is the two-arm position', 'reference graph', X + 'tp2xy', xy, arm(r1, r2, t, p))
    # angles -> position -> angles (phi within [0,180], theta within the range)
    rng = R.lst(R.lst(const(-180), const(180)), R.lst(const(-20), const(200)))
    r = R(X + 'xy2tp', xy, R.lst(r1, r2), rng)
    tp, un = R.ip.unpack(r, 2)
    R.same('xy2tp undoes tp2xy', 'inverse composition', X + 'xy2tp', tp, (t, p), dom=DOM, tol=1e-6, period=(360, None), prove=False, trials=2 * c.trials)
    # position -> angles -> position for reachable targets
    x, y = syms(['x', 'y'], False)
    r = R(X + 'xy2tp', R.lst(x, y), R.lst(r1, r2), rng)
    tp, un = R.ip.unpack(r, 2)
    back = R(X + 'tp2xy', tp, R.lst(r1, r2))
    h2 = add(mul(x, x), mul(y, y))
    reach = and_(lt(h2, power(add(r1, r2), const(2))), lt(power(sub(r1, r2), const(2)), h2))
    R.same('tp2xy undoes xy2tp for reachable targets', 'inverse composition', X + 'xy2tp', back, (x, y), dom=DOM, tol=1e-6, prove=False, constraint=reach, trials=2 * c.trials)
    # with a theta guess, both arm configurations reproduce the position
    g, tol = sym('guess'), const(400)
    r = R(X + 'xy2tp', R.lst(x, y), R.lst(r1, r2), R.lst(R.lst(const(-180), const(180)), R.lst(const(-200), const(200))), t_guess=g, t_guess_tol=tol)
    tp, un = R.ip.unpack(r, 2)
    back = R(X + 'tp2xy', tp, R.lst(r1, r2))
    R.same('tp2xy undoes xy2tp with a guess', 'inverse composition', X + 'xy2tp', back, (x, y), dom=DOM, tol=1e-6, prove=False, constraint=reach, trials=2 * c.trials)


def flat(c):
    R = c.runner(opaque=[Q + 'r2s', Q + 's2r'])
    x, y = syms(['x', 'y'], True)
    for a, b, inner in (('ptl2flat', 'flat2ptl', 'r2s'), ('flat2ptl', 'ptl2flat', 's2r')):
        xf, yf = R.ip.unpack(R(P + a, x, y), 2)
        rad = fn('sqrt', add(mul(x, x), mul(y, y)))
        s = fn(Q + inner, rad)
        R.same('%s keeps the azimuth and maps the radius' % a, 'reference graph', P + a, (xf, yf), (div(mul(x, s), rad), div(mul(y, s), rad)))


def guess(c):
    """the guess selects among solutions: option closest in theta wins among those in range"""
    R = c.runner()
    x, y, r1, r2, g = syms(['x', 'y', 'r1', 'r2', 'guess'], False)
    rng = R.lst(R.lst(const(-360), const(360)), R.lst(const(-200), const(200)))
    r = R(X + 'xy2tp', R.lst(x, y), R.lst(r1, r2), rng, t_guess=g, t_guess_tol=const(1000))
    tp, un = R.ip.unpack(r, 2)
    th, ph = R.ip.unpack(tp, 2)
    d = div(PI, const(180))
    h2 = add(mul(x, x), mul(y, y))
    arg = div(sub(sub(h2, mul(r1, r1)), mul(r2, r2)), mul(const(2), r1, r2))
    pp = fn('acos', arg)
    t1 = div(sub(fn('atan2', y, x), fn('atan2', mul(r2, fn('sin', pp)), add(r1, mul(r2, fn('cos', pp))))), d)
    t2 = div(add(fn('atan2', y, x), fn('atan2', mul(r2, fn('sin', pp)), add(r1, mul(r2, fn('cos', pp))))), d)
    best = None
    for t in (t1, t2):
        for k in (-720, -360, 0, 360, 720):
            v = add(t, const(k))
            dist = ite(and_(le(const(-360), v), le(v, const(360))), fn('abs', sub(v, g)), const(10000))
            best = dist if best is None else fmin(best, dist)
    reach = and_(lt(h2, power(add(r1, r2), const(2))), lt(power(sub(r1, r2), const(2)), h2))
    c.equal('the theta closest to the guess is returned', 'reference graph', R.where(X + 'xy2tp'), fn('abs', sub(th, g)), best, dom=DOM, constraint=reach, prove=False, tol=1e-6, trials=3 * c.trials)


def deltas(c):
    pass
