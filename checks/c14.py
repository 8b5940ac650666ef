"""Focal surface lookups: every conversion is the interpolation of the two columns it names, in increasing
order of the abscissa, nan outside; table and conversions are consistent."""
import csv
import hashlib
import io
import math
import os
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
from sa.ctx import REPO
MOD = 'desimeter.transform.rszn_lookups'
DATA = 'py/desimeter/data'
NAMES = {'r': 'R', 's': 'S', 'z': 'Z', 'n': 'N'}
DIRECT = ('r2s', 's2r', 'r2z', 'z2r', 'r2n', 'n2r')
CHAIN = {'s2n': ('s2r', 'r2n'), 's2z': ('s2r', 'r2z'), 'z2s': ('z2r', 'r2s'), 'n2s': ('n2r', 'r2s')}


def read(path):
    rows = [r for r in open(path) if not r.startswith('#')]
    t = list(csv.DictReader(io.StringIO(''.join(rows))))
    return {k: [float(r[k]) for r in t] for k in t[0]}


def key(xs, ys):
    return hashlib.sha1(repr((xs, ys)).encode()).hexdigest()[:12]


def run(c):
    c.floor = 18
    files = {}
    problems = []

    def table(ip, args, kw):
        a = args[0] if args else kw.get('filename')
        t = ip.toterm(a)
        names = [x.data for x in tm.walk(t) if x.op == 'str' and x.data.endswith('.csv')]
        if len(names) != 1:
            raise I.Unsupported('table name')
        p = os.path.join(REPO, DATA, os.path.basename(names[0]))
        cols = files.setdefault(p, read(p))
        return ip.new(I.DictC({k: ip.new(I.ArrC((len(v),), [const(x) for x in v])) for k, v in cols.items()}))

    def series(ip, v):
        it = ip.known_items(ip.to_arr(v))
        if it is None or not all(isinstance(x, T) and x.op == 'c' for x in it):
            raise I.Unsupported('interpolation table')
        return [float(x.data) for x in it]

    def interpolate(ip, args, kw):
        b = dict(zip(['x', 'xp', 'fp', 'left', 'right', 'period'], args))
        b.update(kw)
        xp, fp = series(ip, b['xp']), series(ip, b['fp'])
        if len(xp) != len(fp):
            problems.append('tables of different length (%d and %d)' % (len(xp), len(fp)))
        if any(q <= p for p, q in zip(xp, xp[1:])):
            return ip.map1(lambda t: fn('lookup', t, strc('a table that is not increasing'), strc('edge value'), strc('edge value')), b['x'])
        edge = lambda v: strc('edge value') if v is NONE else strc('nan') if ip.toterm(v) is fn('NAN') else strc(tm.show(ip.toterm(v)))
        lo, hi = edge(b.get('left', NONE)), edge(b.get('right', NONE))
        if b.get('period', NONE) is not NONE:
            lo = hi = strc('periodic')
        return ip.map1(lambda t: fn('lookup', t, strc(key(xp, fp)), lo, hi), b['x'])
    models = {'astropy.table.Table.read': table, 'numpy.interp': interpolate, 'astropy.table.table.Table.read': table}

    def decide():
        R = c.runner(models=models)
        v = sym('v', ['N'])
        nan = strc('nan')
        R.ip.module(MOD)
        if not files:
            first = R(MOD + '.r2s', v)
        if len(files) != 1:
            c.undecided('lookup table', 'one table', MOD, '%d tables read' % len(files))
            return
        cols = list(files.values())[0]
        path = list(files)[0]
        rel = os.path.relpath(path, REPO)
        up = {}
        for k in NAMES.values():
            x = cols[k]
            d = [q - p for p, q in zip(x, x[1:])]
            if all(t > 0 for t in d):
                up[k] = 1
            elif all(t < 0 for t in d):
                up[k] = -1
            else:
                c.bad('column %s is strictly monotonic' % k, 'data of the lookup table', rel, 'the column repeats or turns back, so that the lookup from it has no inverse')
                continue
            c.ok('column %s is strictly monotonic' % k, 'data of the lookup table', rel)
        if len(up) < 4:
            return

        def want(name, t):
            a, b = NAMES[name[0]], NAMES[name[2]]
            s = up[a]
            return fn('lookup', t, strc(key(cols[a][::s], cols[b][::s])), nan, nan)
        dom = {}
        for k, u in NAMES.items():
            lo, hi = min(cols[u]), max(cols[u])
            dom[k] = {'v': (lo - 0.6 * (hi - lo), hi + 0.6 * (hi - lo))}
        for name in DIRECT:
            a, b = NAMES[name[0]], NAMES[name[2]]
            R.same('conversion from %s to %s' % (a, b), 'interpolation of column %s against increasing %s, nan outside' % (b, a), MOD + '.' + name, R(MOD + '.' + name, v), want(name, v), dom=dom[name[0]])
        for name, (p, q) in sorted(CHAIN.items()):
            R.same('conversion from %s to %s is the chain through %s' % (NAMES[name[0]], NAMES[name[2]], NAMES[p[2]]), 'composition of the direct conversions', MOD + '.' + name, R(MOD + '.' + name, v), want(q, want(p, v)), dom=dom[name[0]])
        u = sym('v')
        for name in DIRECT:
            R.same('conversion %s of a single value' % name, 'same graph as for arrays', MOD + '.' + name, R(MOD + '.' + name, u), want(name, u), dom=dom[name[0]])
        # the table itself: arc length along the surface and slope of the surface
        r, s, z, n = [cols[k] for k in 'RSZN']
        arc = max(abs((s[i + 1] - s[i]) - math.hypot(r[i + 1] - r[i], z[i + 1] - z[i])) for i in range(len(r) - 1))
        if arc < 1e-3:
            c.ok('S is the length along the surface', 'data of the lookup table', rel)
        else:
            c.bad('S is the length along the surface', 'data of the lookup table', rel, 'a step of S differs by %g mm from that of the curve (R, Z)' % arc)
        zero = [cols[k][0] for k in 'RSZ']
        if zero == [0, 0, 0]:
            c.ok('R, S and Z vanish on the optical axis', 'data of the lookup table', rel)
        else:
            c.bad('R, S and Z vanish on the optical axis', 'data of the lookup table', rel, 'first row is %s' % zero)
        for p in problems:
            c.bad('interpolation tables', 'columns of equal length', MOD, p)
    c.guard(decide)
    return ''
