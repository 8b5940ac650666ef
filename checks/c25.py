"""Travel between two angles: the function is interpreted on symbols near representative angles of every regime (trace partitioning
near a point); each value is compared with the rotation that leads from the start to the end the requested way round."""
import itertools
import math
from sa.terms import *
from sa import interp as I
from sa import terms as tm

Q = 'desimeter.transform.pos2ptl.delta_angle'
RULE = 'rotation from start to end the requested way'
PAIRS = [(0.0, 35.0), (10.0, -20.0), (179.0, -179.0), (-179.0, 179.0), (0.0, 400.0), (5.0, -425.0), (0.0, 800.0), (20.0, -900.0), (-190.0, 185.0), (300.0, 301.0)]
EXACT = [(0, 0), (0, 360), (0, -360), (10, 730), (-180, 180), (30, -1050), (0, 180), (0, -180), (0, 540), (10, -530), (0, 90), (20, -70), (5, 125), (0, 1)]


def run(c):
    c.floor = 60
    for s, f in PAIRS:
        for d in (-1, 0, 1):
            case(c, [s], [f], [d], 'one pair')
    for s, f in EXACT:
        for d in (-1, 0, 1):
            case(c, [s], [f], [d], 'whole degrees')
    for d in (5, -3):
        case(c, [0.0], [35.0], [d], 'direction of any size')
    S, F, D = [0.0, 10.0, 179.0, 5, 7.0], [400.0, -20.0, -179.0, 725, 7.5], [-1, 1, 1, -1, 0]
    for a, b, k in itertools.product((1, 5), repeat=3):
        for form in ('array', 'list'):
            case(c, S[:a], F[:b], D[:k], form)
    return ''


def want(s, f, d, ns, nf):
    n = nf - ns
    g = (n > 0) - (n < 0)
    d = (d > 0) - (d < 0) or g
    if n % 360 == 0:
        return mul(const(d * g), sub(f, s)) if g else ZERO
    if d == g:
        return sub(f, s)
    r = n % 360 if d > 0 else -((-n) % 360)
    return add(sub(f, s), const(int(round(r - n))))


def case(c, S, F, D, form):
    tag = '%s, from %s to %s, direction %s' % (form, S, F, D)

    def go():
        R = c.runner()
        R.ip.exact = True
        pt = {}

        def val(n, v):
            if isinstance(v, float):
                pt[n] = v
                return sym(n)
            return const(v)

        def pack(t):
            if len(t) == 1 and form not in ('list',):
                return t[0]
            return R.lst(*t) if form == 'list' else R.arr(*t)
        s, f = [val('s%d' % i, v) for i, v in enumerate(S)], [val('f%d' % i, v) for i, v in enumerate(F)]
        d = [const(v) for v in D]
        tm.setpoint(pt)
        c.sites += 1
        w = R.where(Q)
        n = max(len(S), len(F), len(D))
        at = lambda x, i: x[i if len(x) > 1 else 0]
        try:
            got = R(Q, pack(s), pack(f), pack(d))
            got = R.ip.known_items(R.ip.to_arr(got))
        except I.RowError as e:
            return c.bad(tag, 'scalars and vectors may be mixed', w, str(e))
        finally:
            tm.setpoint()
        if got is None:
            raise I.Unsupported('values')
        if len(got) != n:
            return c.bad(tag, 'scalars and vectors may be mixed', w, '%d values for %d pairs' % (len(got), n))
        dom = {k: (v - 0.2, v + 0.2) for k, v in pt.items()}
        for i in range(n):
            c.equal('%s, value %d' % (tag, i), RULE, w, got[i], want(at(s, i), at(f, i), at(D, i), at(S, i), at(F, i)), dom=dom, prove=False, trials=6, absolute=True, tol=1e-9)
    go.__name__ = tag
    c.guard(go)
