"""Identity of matched spots: the functions that identify spots are interpreted on tables whose rows carry symbols, for
given results of the neighbour searches; every column filled in is compared with that of the row it was matched to."""
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm

INF = lambda: fn('INF')
SC = 'desimeter.simplecorr.SimpleCorr'
MS = 'desimeter.match.match_same_system'
MD = 'desimeter.match.match_arbitrary_translation_dilatation'


def run(c):
    c.floor = 12
    for f in (average, find, fitted, proc, proc_external, expected, external):
        c.guard(f, c)
    return ''


def C(v):
    return [x if isinstance(x, T) else strc(x) if isinstance(x, str) else const(x) for x in v]


def tab(R, cols):
    return R('refs.table.Table', R.ip.new(I.DictC({k: R.arr(*C(v)) for k, v in cols.items()})))


def column(R, t, k):
    return [num(x) if x.op != 'str' else x for x in R.comps(R.ip.getitem(t, strc(k)))]


def names(p, n):
    return [sym('%s%d' % (p, i)) for i in range(n)]


def col(c, R, q, name, t, k, want):
    """a column holds the given values"""
    got = column(R, t, k)
    compare(c, R, q, name, got, want)


def compare(c, R, q, name, got, want):
    want = [num(x) if x.op != 'str' else x for x in C(want)]
    rule = 'identity of the matched row'
    if any(tm.has_unsupported(x) for x in got):
        c.undecided(name, rule, R.where(q), 'construct outside the modelled language')
        return
    if len(got) != len(want):
        c.bad(name, rule, R.where(q), '%d rows, expected %d' % (len(got), len(want)))
        return
    for i, (a, b) in enumerate(zip(got, want)):
        if a is b:
            continue
        v = tm.equal(a, b, tol=1e-9)
        if v.kind == 'undecided':
            c.undecided(name, rule, R.where(q), v.how)
            return
        if v.kind != 'holds':
            c.bad(name, rule, R.where(q), 'row %d is %s, expected %s' % (i, tm.show(a)[:200], tm.show(b)[:200]))
            return
    c.ok(name, rule, R.where(q))


def matcher(results, calls=None):
    """stand-in for a match: one given result (partners, distances) per call"""
    n = [0]

    def model(ip, args, kw):
        i = n[0]
        n[0] += 1
        if calls is not None:
            calls.append([ip.known_items(ip.to_arr(a)) for a in bind(XY, args, kw)])
        if i >= len(results):
            raise I.Unsupported('more matches than expected')
        idx, dist = results[i](ip, args) if callable(results[i]) else results[i]
        x1 = ip.known_items(ip.to_arr(bind(XY, args, kw)[0]))
        if x1 is not None and len(x1) != len(idx):
            raise I.RowError('%d objects are matched, expected %d: %s' % (len(x1), len(idx), [tm.show(x) for x in x1]))
        a = lambda v: ip.new(I.ArrC((len(v),), C(v)))
        return (a(idx), a(dist))
    return model


def stub(tag):
    """values known only by what they were computed from"""
    d = {}

    def f(*a):
        if a not in d:
            d[a] = sym('%s%d<%s>' % (tag, len(d), tm.show(a[0])[:60]))
        return d[a]
    return f


def call(c, R, q, name, *args, **kw):
    """result, or None when a row is used that does not exist"""
    try:
        return R(q, *args, **kw)
    except I.RowError as e:
        c.bad(name, 'identity of the matched row', R.where(q), str(e))


def bind(names_, a, k):
    d = dict(zip(names_, a))
    d.update(k)
    return [d.get(n) for n in names_]


def table_of(ip, vals):
    """rows of several columns, as a set"""
    cols_ = [ip.known_items(ip.to_arr(v)) for v in vals]
    if any(x is None for x in cols_) or len(set(map(len, cols_))) != 1:
        return None
    return sorted((tuple(num(x) for x in r) for r in zip(*cols_)), key=str)


def pairs_are(c, R, q, name, seen, want):
    rule = 'identity of the matched row'
    if seen is None or any(tm.has_unsupported(x) for r in seen for x in r):
        c.undecided(name, rule, R.where(q), 'rows not decided')
    elif sorted(want, key=str) == seen:
        c.ok(name, rule, R.where(q))
    else:
        c.bad(name, rule, R.where(q), 'rows %s, expected %s' % ([[tm.show(x) for x in r] for r in seen], [[tm.show(x) for x in r] for r in sorted(want, key=str)]))


XY = ['x1', 'y1', 'x2', 'y2']


def average(c):
    q = 'desimeter.averagecoord.average_coordinates'
    for tag, res in (('three lists in different orders', (([2, 0, 3, 1], [0, 1, 2, 1]), ([3, 2, 1, 0], [1, 0, 2, 1]))),
                     ('three lists with missing spots', (([2, -1, 0, 1], [1, INF(), 2, 4]), ([-1, 0, 2], [INF(), 1, 3]))),
                     ('spots matched too far away', (([1, 2, 0, 3], [1, 2, 9, 4]), ([3, 0, 1], [0, 6, 1])))):
        ncorr = [0]
        cx, cy = stub('cx'), stub('cy')
        calls, fits = [], []

        def fit(ip, a, kw):
            ncorr[0] += 1
            fits.append(table_of(ip, bind(XY, a[1:], kw)))
            return NONE

        def apply(ip, a, kw):
            k = const(ncorr[0])
            return (ip.map1(lambda t: cx(t, k), a[1]), ip.map1(lambda t: cy(t, k), a[2]))
        R = c.runner(models={MS: matcher(res, calls), SC + '.fit': fit, SC + '.apply': apply})
        ts = [tab(R, {'X': names('x%d_' % k, 4), 'Y': names('y%d_' % k, 4), 'Q': names('q%d_' % k, 4)}) for k in range(3)]
        out = call(c, R, q, 'average coordinates, %s' % tag, R.lst(*ts), strc('X'), strc('Y'))
        if out is None:
            continue
        # rows of the first list that are matched in all lists
        rows = {i: [i] for i in range(4)}
        for n, (idx, dist) in enumerate(res):
            left = sorted(rows)
            want = [[sym('%s0_%d' % (v, r)) for r in left] for v in 'xy'] + [names('%s%d_' % (v, n + 1), 4) for v in 'xy']
            pairs = [(r, idx[k]) for k, r in enumerate(left) if idx[k] >= 0 and not isinstance(dist[k], T) and dist[k] < 5]
            wfit = [tuple(sym('%s%d_%d' % (v, n + 1, j)) for v in 'xy') + tuple(sym('%s0_%d' % (v, r)) for v in 'xy') for r, j in pairs]
            if n < len(calls):
                compare(c, R, q, 'average coordinates, %s: rows of list %d searched' % (tag, n + 1), sum([list(x) if x else [NONE] for x in calls[n]], []), sum(want, []))
            if n < len(fits):
                pairs_are(c, R, q, 'average coordinates, %s: pairs of list %d used for the correction' % (tag, n + 1), fits[n], wfit)
            rows = {r: rows[r] + [idx[k]] for k, r in enumerate(left) if idx[k] >= 0 and not isinstance(dist[k], T) and dist[k] < 5}
        for ax, f in (('X', cx), ('Y', cy)):
            want = names(ax.lower() + '0_', 4)
            for r, m in rows.items():
                v = [want[r]] + [f(sym('%s%d_%d' % (ax.lower(), k, m[k])), const(k)) for k in (1, 2)]
                want[r] = div(add(*v), const(3))
            col(c, R, q, 'average coordinates, %s: %s' % (tag, ax), out, ax, want)
        col(c, R, q, 'average coordinates, %s: other columns' % tag, out, 'Q', names('q0_', 4))
        col(c, R, q, 'average coordinates, %s: the lists passed are unchanged' % tag, ts[0], 'X', names('x0_', 4))


def tree_model(seen, answer):
    cls = I.Class('KDTree', 'stand-in', {}, ())

    def make(ip, args, kw):
        data = kw.get('data', args[0] if args else None)
        o = ip.new(I.InstC(cls, {}))

        def q(ip, a, k):
            b = dict(zip(['x', 'k', 'eps', 'p', 'distance_upper_bound'], a))
            b.update(k)
            b['data'] = data
            seen.append(b)
            return answer(ip, b)
        ip.setattr(o, 'query', I.Native(q))
        return o
    return {k: make for k in ('scipy.spatial.cKDTree', 'scipy.spatial.KDTree', 'scipy.spatial.ckdtree.cKDTree',
                              'scipy.spatial._ckdtree.cKDTree', 'scipy.spatial._kdtree.KDTree')}


FT = 'desimeter.transform.fvc2fp.FVC2FP'


def transform(forward, backward):
    """stand-in for a camera transform"""
    def make(ip, args, kw):
        o = ip.new(I.InstC(I.Class('FVC2FP', 'stand-in', {}, ()), {}))
        ip.setattr(o, 'fvc2fp', I.Native(lambda ip, a, k: forward(ip, a[0], a[1])))
        ip.setattr(o, 'fp2fvc', I.Native(lambda ip, a, k: backward(ip, a[0], a[1])))
        return o
    return make


def find(c):
    """rows of the metrology: two fiducials of four pinholes, two of a partial pattern, other devices"""
    q = 'desimeter.findfiducials.findfiducials'
    metro = [(1001, 'POS', 0), (541, 'FIF', 3), (541, 'FIF', 1), (541, 'FIF', 4), (541, 'FIF', 2), (9542, 'GIF', 2), (9542, 'GIF', 1),
             (4321, 'ETC', 0), (9542, 'GIF', 3), (9542, 'GIF', 4)]
    # spots: clusters of four (a: 7 2 5 0, b: 1 4 8 9) and isolated ones
    clusters = {7: [7, 2, 5, 0], 1: [1, 4, 8, 9]}
    n = 11
    X = names('X_', n)
    order = {}
    for v in clusters.values():
        for k, i in enumerate(v):
            order[i] = v[k:] + v[:k]
    pin = {541: [1, 2, 3, 4], 9542: [5, 6, 8, 9]}
    cases = []
    # candidate (in the order of spots) matched to each fiducial, then pattern of the pinholes per fiducial
    # candidates: spots 0 1 2 4 5 7 8 9
    cases.append(('all pinholes matched', [2, 6], {541: [3, 0, 1, 2], 9542: [1, 0, 2, 3]}))
    cases.append(('some pinholes not matched', [1, 0], {541: [3, -1, 1, -1], 9542: [-1, 0, 2, 3]}))
    cases.append(('several spots on the same pinhole', [5, 3], {541: [3, 1, 1, 2], 9542: [2, 0, 2, 0]}))
    cases.append(('one fiducial not seen', [-1, 7], {541: None, 9542: [1, 3, 2, 0]}))
    cand = [0, 1, 2, 4, 5, 7, 8, 9]
    pos = (lambda i: 100 + 7 * i, lambda i: 30 + i * i)
    for tag, first, patterns in cases:
        seen, calls, got, fits = [], [], [], []
        cluster = {}
        for L, i in zip((541, 9542), first):
            if i >= 0:
                cluster[L] = next(v for v in clusters.values() if cand[i] in v)

        def query(ip, b):
            if b.get('k') is None or num(b['k']).data != 4:
                raise I.Unsupported('neighbour search of another kind')
            d, k = [], []
            for i in range(n):
                if i in order:
                    d.append(ip.new(I.ArrC((4,), C([0, 5, 9, 14]))))
                    k.append(ip.new(I.ArrC((4,), C(order[i]))))
                else:
                    m = 3 if i == 3 else 1       # spot 3 has two neighbours only
                    d.append(ip.new(I.ArrC((4,), C([0, 7, 12][:m] + [INF()] * (4 - m)))))
                    k.append(ip.new(I.ArrC((4,), C([i, 6, 10][:m] + [n] * (4 - m)))))
            return (ip.stack(d), ip.stack(k)) if hasattr(ip, 'stack') else (ip.to_arr(tuple(d)), ip.to_arr(tuple(k)))

        def same(ip, args, kw):
            x = ip.known_items(ip.to_arr(args[0]))
            a = lambda v: ip.new(I.ArrC((len(v),), C(v)))
            if x is None: raise I.Unsupported('unknown %s'%tm.show(ip.toterm(args[0]))[:500])
            if len(x) == 2:
                got.append(x)
                return (a(first), a([INF() if i < 0 else const(3) for i in first]))
            m = [first.index(i) if i in first else -1 for i in range(len(cand))]
            return (a(m), a([2 if i >= 0 else INF() for i in m]))

        def fit(ip, a, kw):
            fits.append(table_of(ip, bind(XY, a[1:], kw)))
            return NONE

        def pattern(ip, args, kw):
            x1, y1, x2, y2 = [ip.known_items(ip.to_arr(a)) for a in args[:4]]
            ids = [X.index(t) for t in x1]
            calls.append((ids, x2, y1))
            loc = next((L for L in cluster if ids[0] in cluster[L]), None)
            if loc is None:
                return (ip.new(I.ArrC((len(ids),), C([-1] * len(ids)))), ip.new(I.ArrC((len(ids),), C([0] * len(ids)))))
            p = patterns[loc]
            start = cluster[loc]
            want = dict(zip(start, p))
            v = [want[i] for i in ids]
            return (ip.new(I.ArrC((4,), C(v))), ip.new(I.ArrC((4,), C([0, 0, 0, 0]))))

        models = tree_model(seen, query)
        models[MS] = same
        models[MD] = pattern
        models[SC + '.fit'] = fit
        models[SC + '.apply'] = lambda ip, a, k: (a[1], a[2])
        models[FT + '.read_jsonfile'] = transform(lambda ip, x, y: (ip.map1(lambda t: mul(t, const(Fraction(1, 10))), x), y),
                                                  lambda ip, x, y: (ip.map1(lambda t: mul(t, const(10)), x), ip.map1(lambda t: mul(t, const(10)), y)))
        R = c.runner(models=models)
        mt = tab(R, {'LOCATION': [m[0] for m in metro], 'DEVICE_TYPE': [m[1] for m in metro], 'PINHOLE_ID': [m[2] for m in metro],
                     'X_FP': [pos[0](i) for i in range(len(metro))], 'Y_FP': [pos[1](i) for i in range(len(metro))]})
        R.ip.models['desimeter.io.load_metrology'] = lambda ip, a, k: mt
        spots = tab(R, {'XPIX': names('X_', n), 'YPIX': names('Y_', n), 'COUNTS': names('C_', n)})
        name = 'pinhole identification, %s: ' % tag
        out = call(c, R, q, name[:-2], spots, strc('tx.json'))
        if out is None:
            continue
        loc, pid = [-1] * n, [0] * n
        for L, start in cluster.items():
            p = patterns[L]
            ids = [m[2] for m in metro if m[0] == L]
            for s, k in zip(start, p):
                if k >= 0:
                    loc[s] = L
                    pid[s] = ids[k] if p.count(k) == 1 else 0
        col(c, R, q, name + 'LOCATION', out, 'LOCATION', loc)
        col(c, R, q, name + 'PINHOLE_ID', out, 'PINHOLE_ID', pid)
        col(c, R, q, name + 'PETAL_LOC', out, 'PETAL_LOC', [l // 1000 if l >= 0 else -1 for l in loc])
        col(c, R, q, name + 'DEVICE_LOC', out, 'DEVICE_LOC', [l % 1000 if l >= 0 else -1 for l in loc])
        col(c, R, q, name + 'measured positions', out, 'XPIX', names('X_', n))
        for ids, x2, y1 in calls:
            loc_ = next((L for L in cluster if ids[0] in cluster[L]), None)
            if loc_ is None:
                c.bad(name + 'fiducials matched', 'identity of the matched row', R.where(q), 'the spots near spot %d are identified' % ids[0])
                continue
            compare(c, R, q, name + 'pattern of the fiducial at %d' % loc_, x2, [10 * pos[0](i) for i, m in enumerate(metro) if m[0] == loc_])
            compare(c, R, q, name + 'y of the spots at %d' % loc_, y1, [sym('Y_%d' % i) for i in ids])
        centre = {L: min((i for i, m in enumerate(metro) if m[0] == L), key=lambda i: sum((u(i) - Fraction(sum(u(j) for j, m in enumerate(metro) if m[0] == L), 4)) ** 2 for u in pos)) for L in cluster}
        pairs_are(c, R, q, name + 'pairs used for the correction', fits[-1] if fits else None,
                  [tuple(const(10 * u(centre[L])) for u in pos) + tuple(sym('%s_%d' % (v, cand[first[k]])) for v in 'XY') for k, L in enumerate((541, 9542)) if L in cluster])
        b = seen[0]
        compare(c, R, q, name + 'reach of the neighbour search', [num(b.get('distance_upper_bound', ZERO))], [15])


def fitted(c):
    """reference positions used and recorded by the fit of the camera transform"""
    q = FT + '.fit'
    metro = [(1001, 0), (541, 3), (541, 1), (9542, 2), (541, 4), (4321, 0), (541, 2), (9542, 1), (9542, 3), (9542, 4)]
    for tag, rows, update in (('spots in another order', [(9542, 4), (-1, 0), (541, 1), (9542, 1), (541, 4), (541, 0), (1001, 0), (541, 3), (541, 2)], TRUE),
                              ('spots of one fiducial', [(541, 4), (541, 3), (-1, 0), (541, 1)], TRUE),
                              ('spots not updated', [(541, 2), (541, 1), (9542, 4), (-1, 0), (9542, 3)], FALSE)):
        fx, fy = stub('fx'), stub('fy')
        fits = []

        def fit(ip, a, kw):
            fits.append(table_of(ip, bind(['x1', 'y1', 'x2', 'y2'], a, {})))
            return (ONE, ZERO, ZERO, ZERO, ip.new(I.ArrC((1,), [ONE])), ip.new(I.ArrC((1,), [ONE])))

        def forward(ip, a, kw):
            x, y = [ip.known_items(ip.to_arr(v)) for v in a[1:3]]
            if len(x) != len(y):
                ip.rowerror('coordinates of %d and %d rows' % (len(x), len(y)))
            m = lambda f: ip.new(I.ArrC((len(x),), [f(u, v) for u, v in zip(x, y)]))
            return (m(fx), m(fy))
        R = c.runner(models={'desimeter.transform.fvc2fp.fit_scale_rotation_offset': fit, 'desimeter.transform.zhaoburge.fit_scale_rotation_offset': fit,
                             FT + '.fvc2fp': forward, FT + '._reduce_xyfvc': lambda ip, a, k: (a[1], a[2]), FT + '._reduce_xyfp': lambda ip, a, k: (a[1], a[2])})
        n = len(metro)
        mt = tab(R, {'LOCATION': [m[0] for m in metro], 'PINHOLE_ID': [m[1] for m in metro], 'X_FP': names('mx', n), 'Y_FP': names('my', n), 'Z_FP': names('mz', n)})
        R.ip.models['desimeter.io.load_metrology'] = lambda ip, a, k: mt
        N = len(rows)
        spots = tab(R, {'XPIX': names('X_', N), 'YPIX': names('Y_', N), 'LOCATION': [r[0] for r in rows], 'PINHOLE_ID': [r[1] for r in rows]})
        tx = R(FT)
        name = 'fit of the camera transform, %s: ' % tag
        try:
            R.method(tx, 'fit', spots, update_spots=update)
        except I.RowError as e:
            c.bad(name[:-2], 'identity of the matched row', R.where(q), str(e))
            continue
        where = {r: i for i, r in enumerate(metro)}
        fid = [(i, where[r]) for i, r in enumerate(rows) if r[0] >= 0 and r[1] > 0]
        pairs_are(c, R, q, name + 'pairs used', fits[-1] if fits else None, [(sym('X_%d' % i), sym('Y_%d' % i), sym('mx%d' % j), sym('my%d' % j)) for i, j in fid])
        if update is FALSE:
            continue
        for ax, f in (('X', fx), ('Y', fy)):
            col(c, R, q, name + ax + '_FP', spots, ax + '_FP', [f(sym('X_%d' % i), sym('Y_%d' % i)) for i in range(N)])
        for ax in 'XYZ':
            want = [ZERO] * N
            for i, j in fid:
                want[i] = sym('m%s%d' % (ax.lower(), j))
            col(c, R, q, name + ax + '_FP_METRO', spots, ax + '_FP_METRO', want)
        for k in range(2):
            col(c, R, q, name + ('LOCATION', 'PINHOLE_ID')[k], spots, ('LOCATION', 'PINHOLE_ID')[k], [r[k] for r in rows])


PF = 'desimeter.processfvc.'


def inst(ip, name, **attrs):
    o = ip.new(I.InstC(I.Class(name, 'stand-in', {}, ()), {}))
    for k, v in attrs.items():
        ip.setattr(o, k, v)
    return o


def pos_syms(p, n):
    """symbols of different positive values"""
    r = names(p, n)
    for x in r:
        tm.ORDER[x] = len(tm.ORDER) + 1
    return r


def posstub(tag):
    f = stub(tag)

    def g(*a):
        x = f(*a)
        if x not in tm.ORDER:
            tm.ORDER[x] = len(tm.ORDER) + 1
        return x
    return g


ARGS = dict(infile=strc('in.csv'), outfile=strc('out.csv'), min_spots=NONE, max_spots=NONE, sequence=FALSE, nomatch=FALSE, use_spotmatch=FALSE,
            input_transform=NONE, pinhole_max_separation_mm=sym('maxsep'), zbfit=TRUE, fixed_scale=FALSE, fixed_rotation=FALSE,
            max_match_distance=const(7), expected_positions=NONE, turbulence_correction=FALSE, turbulence_correction_with_pol=FALSE,
            output_transform=NONE, field_model=NONE, spotmatch_match_radius_pixels=const(70), bias=NONE, no_bias=TRUE, threshold=NONE,
            make_directory=FALSE, extname=strc('F0000'), fvc_psf_sigma=ONE, min_counts=ONE, min_counts_per_pixel=ONE)


def proc(c):
    try:
        for kw in (dict(tag='metrology as expected positions'),
                   dict(tag='with expected positions', expected=True),
                   dict(tag='with turbulence correction', expected=True, turb='correct'),
                   dict(tag='with polynomial turbulence correction', expected=True, turb='correct_with_pol'),
                   dict(tag='with a field model', expected=True, fm=True)):
            tm.ORDER.clear()
            one_image(c, **kw)
    finally:
        tm.ORDER.clear()


def one_image(c, tag, expected=False, turb=None, fm=False):
    q = PF + 'fvc_proc'
    name = 'image processing, %s: ' % tag
    # location, pinhole of the spots after the identification of the fiducials
    ident = [(-1, 0), (541, 4), (-1, 0), (9542, 1), (-1, 0), (541, 2), (-1, 0), (4321, 4), (9542, 4), (-1, 0), (9542, 0)]
    n = len(ident)
    # expected positions and the matches of spots 0 2 4 6 9
    eloc = [5003, 1001, 2002, 3004, 4005]
    ne = len(eloc)
    partner, dist = [3, -1, 0, 2, 1], [2, INF(), 6, 8, 1]
    matched = {i: p for i, p, d in zip([i for i, r in enumerate(ident) if r[0] == -1], partner, dist) if p >= 0 and d < 7}
    X, Y = pos_syms('xfp', n), pos_syms('yfp', n)
    EX, EY, Q, S = [pos_syms(p, ne) for p in ('xe', 'ye', 'qe', 'se')]
    MX, MY = pos_syms('mx', n), pos_syms('my', n)
    ft = [posstub(k) for k in ('tx', 'ty', 'ra', 'dec')]
    calls, turbs, txs = [], [], []
    metro = [(MX[i] if r[1] > 0 else ZERO, MY[i] if r[1] > 0 else ZERO) for i, r in enumerate(ident)]

    def arr(ip, v):
        return ip.new(I.ArrC((len(v),), C(v)))

    def findf(ip, a, kw):
        t = a[0]
        for k, v in (('LOCATION', [r[0] for r in ident]), ('PINHOLE_ID', [r[1] for r in ident]), ('PETAL_LOC', [r[0] // 1000 if r[0] >= 0 else -1 for r in ident]),
                     ('DEVICE_LOC', [r[0] % 1000 if r[0] >= 0 else -1 for r in ident])):
            ip.setitem(t, strc(k), arr(ip, v))
        return t

    def read_tx(ip, a, kw):
        def fit(ip, a, kw):
            t = a[0]
            txs.append(kw)
            for k, v in (('X_FP', X), ('Y_FP', Y), ('X_FP_METRO', [m[0] for m in metro]), ('Y_FP_METRO', [m[1] for m in metro]), ('Z_FP_METRO', [ZERO] * n)):
                ip.setitem(t, strc(k), arr(ip, v))
            return NONE
        return inst(ip, 'FVC2FP', fit=I.Native(fit), write_jsonfile=I.Native(lambda ip, a, k: NONE))

    def turbulence(ip, a, kw):
        cols_ = [ip.known_items(ip.to_arr(v)) for v in bind(['x', 'y', 'x0', 'y0'], a, kw)[:4]]
        if any(v is None for v in cols_) or len(set(map(len, cols_))) != 1:
            raise I.Unsupported('rows of the turbulence correction')
        turbs.append(sorted(zip(*cols_), key=str))
        return (arr(ip, [ft[0](x) for x in cols_[0]]), arr(ip, [ft[1](y) for y in cols_[1]]))

    def no_turb(ip, a, kw):
        raise I.Unsupported('another correction')

    def field(ip, a, kw):
        def radec(ip, a, kw):
            x, y = [ip.known_items(ip.to_arr(v)) for v in a[:2]]
            return (arr(ip, [ft[2](u, v) for u, v in zip(x, y)]), arr(ip, [ft[3](u, v) for u, v in zip(x, y)]))
        return inst(ip, 'FieldModel', fp2radec=I.Native(radec))

    def spots_list(ip, a, kw):
        return (ip.new(I.ListC([(TRUE, tab(R, {'XPIX': names('X_', n), 'YPIX': names('Y_', n)}))])), NONE)

    def expected_pos(ip, a, kw):
        d = {'X_FP': EX, 'Y_FP': EY, 'LOCATION': eloc, 'PETAL_LOC': [l // 1000 for l in eloc], 'DEVICE_LOC': [l % 1000 for l in eloc]}
        if expected:
            d.update({'EXP_Q_0': Q, 'EXP_S_0': S, 'DEVICE_ID': ['M%05d' % i for i in range(ne)]})
        return tab(R, d)
    T_ = 'desimeter.turbulence.'
    R = c.runner()
    models = {PF + 'get_spots_list': spots_list, 'desimeter.findfiducials.findfiducials': findf,
              FT + '.read_jsonfile': read_tx, PF + 'get_expected_pos': expected_pos, MS: matcher([(partner, dist)], calls),
              T_ + 'correct': turbulence if turb == 'correct' else no_turb, T_ + 'correct_with_pol': turbulence if turb == 'correct_with_pol' else no_turb,
              'desimeter.fieldmodel.FieldModel.fromjson': field,
              'builtins.open': lambda ip, a, k: inst(ip, 'file', read=I.Native(lambda ip, a, k: strc('model')))}
    R.ip.models.update(models)
    args = dict(ARGS)
    if expected:
        args['expected_positions'] = strc('expected.csv')
    if turb:
        args['turbulence_correction' if turb == 'correct' else 'turbulence_correction_with_pol'] = TRUE
    if fm:
        args['field_model'] = strc('fm.json')
    out = image(c, R, tag, args)
    if out is None:
        return

    def check(k, want):
        if k not in out:
            c.bad(name + k, 'identity of the matched row', R.where(q), 'column not written')
        else:
            compare(c, R, q, name + k, out[k], want)
    loc = [r[0] if r[0] >= 0 else (eloc[matched[i]] if i in matched else -1) for i, r in enumerate(ident)]
    check('LOCATION', loc)
    check('PETAL_LOC', [l // 1000 if l >= 0 else -1 for l in loc])
    check('DEVICE_LOC', [l % 1000 if l >= 0 else -1 for l in loc])
    check('PINHOLE_ID', [r[1] for r in ident])
    ex = [EX[matched[i]] if i in matched else metro[i][0] for i in range(n)]
    ey = [EY[matched[i]] if i in matched else metro[i][1] for i in range(n)]
    check('X_FP_EXP', ex)
    check('Y_FP_EXP', ey)
    check('X_FP_METRO', [m[0] for m in metro])
    check('Y_FP_METRO', [m[1] for m in metro])
    fx, fy = list(X), list(Y)
    if turb:
        fx, fy = [ft[0](X[i]) if i in matched else X[i] for i in range(n)], [ft[1](Y[i]) if i in matched else Y[i] for i in range(n)]
        pairs_are(c, R, q, name + 'spots corrected', turbs[-1] if turbs else None, [(X[i], Y[i], EX[j], EY[j]) for i, j in matched.items()])
    check('X_FP', fx)
    check('Y_FP', fy)
    if expected:
        check('EXP_Q_0', [Q[matched[i]] if i in matched else ZERO for i in range(n)])
        check('EXP_S_0', [S[matched[i]] if i in matched else ZERO for i in range(n)])
        if 'DEVICE_ID' in out:
            compare(c, R, q, name + 'DEVICE_ID', [out['DEVICE_ID'][i] for i in sorted(matched)], ['M%05d' % matched[i] for i in sorted(matched)])
    if fm:
        check('RA', [ft[2](x, y) for x, y in zip(fx, fy)])
        check('DEC', [ft[3](x, y) for x, y in zip(fx, fy)])
    for k, v in (('XPIX', 'X_'), ('YPIX', 'Y_')):
        check(k, names(v, n))


def image(c, R, tag, args, q=PF + 'fvc_proc'):
    """columns written by the processing of an image"""
    written = []

    def write(ip, a, kw):
        keys = [k.data for k in ip.known_items(ip.call(ip.getattr(a[0], 'keys'), [], {}, None))]
        written.append({k: column(R, a[0], k) for k in keys})
        return NONE
    R.ip.models.update({PF + 'preproc': lambda ip, a, k: ZERO, 'refs.table.Table.write': write, 'copy.copy': lambda ip, a, k: a[0]})
    name = 'image processing, %s: ' % tag
    rc = call(c, R, q, name[:-2], inst(R.ip, 'args', **args), I.IGN)
    if rc is not None and not written:
        c.undecided(name + 'output', 'identity of the matched row', R.where(q), 'no output seen; result %s' % tm.show(R.ip.toterm(rc))[:200])
    return written[-1] if written else None


def proc_external(c):
    """identification by the external program"""
    q = PF + 'fvc_proc'
    metro = [(1001, 'POS', 0), (541, 'FIF', 3), (541, 'FIF', 1), (541, 'FIF', 4), (541, 'FIF', 2), (9542, 'GIF', 2), (2002, 'POS', 0), (9542, 'GIF', 1),
             (3541, 'FIF', 1), (3541, 'FIF', 2), (4321, 'ETC', 0)]
    first = [(541, 99), (-1, 0), (541, 10), (1001, 0), (9542, 99), (2002, 0), (9542, 11), (-1, 0), (3541, 99)]
    second = [(-1, 0), (3541, 99), (2002, 0), (541, 99), (1001, 0), (9542, 99)]
    try:
        tm.ORDER.clear()
        R = c.runner()
        m, n1, n = len(metro), len(first), len(second)
        MX, MY = pos_syms('mx', m), pos_syms('my', m)
        for v in (MX, MY):
            for L in (541, 9542, 3541):
                r = [v[i] for i, x in enumerate(metro) if x[0] == L]
                tm.ORDER[div(add(*r), const(len(r)))] = len(tm.ORDER) + 1
        fx, fy = posstub('fx'), posstub('fy')
        eloc = [2002, 7007, 1001]
        EX, EY = pos_syms('xe', 3), pos_syms('ye', 3)
        fits, asked = [], []

        def arr(ip, v):
            return ip.new(I.ArrC((len(v),), C(v)))

        def match(ip, a, kw):
            v = bind(['xpix', 'ypix', 'expected_x_fp', 'expected_y_fp', 'expected_location', 'verbose', 'match_radius_pixels', 'fvc2fp'], a, kw)
            asked.append([ip.known_items(ip.to_arr(x)) if isinstance(x, I.Ref) else x for x in v[:5]] + [v[7]])
            rows, p = (first, 'a') if len(asked) == 1 else (second, 'b')
            return tab(R, {'LOCATION': [r[0] for r in rows], 'PINHOLE_ID': [r[1] for r in rows], 'XPIX': names(p + 'X', len(rows)), 'YPIX': names(p + 'Y', len(rows))})

        def read_tx(ip, a, kw):
            def fit(ip, a, kw):
                t, mt = a[0], kw.get('metrology', a[1] if len(a) > 1 else NONE)
                fits.append((list(zip(*[column(R, t, k) for k in ('LOCATION', 'PINHOLE_ID', 'XPIX')])), list(zip(*[column(R, mt, k) for k in ('LOCATION', 'PINHOLE_ID', 'X_FP', 'Y_FP')]))))
                ip.setitem(t, strc('X_FP'), arr(ip, names('dummy', len(fits[-1][0]))))
                return NONE

            def fwd(ip, a, kw):
                x, y = [ip.known_items(ip.to_arr(v)) for v in a[:2]]
                return (arr(ip, [fx(u, v) for u, v in zip(x, y)]), arr(ip, [fy(u, v) for u, v in zip(x, y)]))
            return inst(ip, 'FVC2FP', fit=I.Native(fit), fvc2fp=I.Native(fwd), write_jsonfile=I.Native(lambda ip, a, k: NONE))
        models = {PF + 'get_spots_list': lambda ip, a, k: (ip.new(I.ListC([(TRUE, tab(R, {'XPIX': names('X_', n1), 'YPIX': names('Y_', n1)}))])), NONE),
                  'desimeter.spotmatch.spotmatch': match, FT + '.read_jsonfile': read_tx,
                  PF + 'get_expected_pos': lambda ip, a, k: tab(R, {'X_FP': EX, 'Y_FP': EY, 'LOCATION': eloc}),
                  'desimeter.io.load_metrology': lambda ip, a, k: tab(R, {'LOCATION': [x[0] for x in metro], 'DEVICE_TYPE': [x[1] for x in metro], 'PINHOLE_ID': [x[2] for x in metro], 'X_FP': MX, 'Y_FP': MY})}
        tag = 'with the external identification'
        R.ip.models.update(models)
        out = image(c, R, tag, dict(ARGS, use_spotmatch=TRUE, expected_positions=strc('e.csv')))
        if out is None:
            return
        name = 'image processing, %s: ' % tag
        keep = [i for i, r in enumerate(first) if r[1] in (0, 99)]
        if fits:
            sp, mt = fits[0]
            pairs_are(c, R, q, name + 'spots used for the fit', sorted(sp, key=str), [(const(first[i][0]), const(first[i][1]), sym('aX%d' % i)) for i in keep])
            want = []
            for L in (541, 9542, 3541):
                ii = [i for i, x in enumerate(metro) if x[0] == L]
                want.append((const(L), const(99)) + tuple(div(add(*[v[i] for i in ii]), const(len(ii))) for v in (MX, MY)))
            pairs_are(c, R, q, name + 'reference positions of the fit', sorted([x for x in mt if num(x[1]) is not ZERO], key=str), want)
        if len(asked) > 1:
            a = asked[1]
            pairs_are(c, R, q, name + 'expected positions of the second identification', sorted(zip(a[4], a[2], a[3]), key=str), [(const(l), x, y) for l, x, y in zip(eloc, EX, EY)])
            pairs_are(c, R, q, name + 'spots of the second identification', sorted(zip(a[0], a[1]), key=str), [(sym('aX%d' % i), sym('aY%d' % i)) for i in keep])

        def check(k, want):
            if k not in out:
                c.bad(name + k, 'identity of the matched row', R.where(q), 'column not written')
            else:
                compare(c, R, q, name + k, out[k], want)
        check('LOCATION', [r[0] for r in second])
        check('PINHOLE_ID', [r[1] for r in second])
        bx, by = names('bX', n), names('bY', n)
        check('X_FP', [fx(x, y) for x, y in zip(bx, by)])
        check('Y_FP', [fy(x, y) for x, y in zip(bx, by)])
        for k, v, e in (('X', MX, EX), ('Y', MY, EY)):
            me, ex = [], []
            for L, p in second:
                ii = [i for i, x in enumerate(metro) if x[0] == L]
                me.append(div(add(*[v[i] for i in ii]), const(len(ii))) if p == 99 else ZERO)
                ex.append(me[-1] if p == 99 else e[eloc.index(L)] if L in eloc else ZERO)
            check(k + '_FP_METRO', me)
            check(k + '_FP_EXP', ex)
    finally:
        tm.ORDER.clear()


def expected(c):
    """table of expected positions: every row keeps its position and location, pinholes are left out"""
    q = PF + 'get_expected_pos'
    n = 5
    bad = [1, 3]
    tab_ = {'PETAL_LOC': [5, 0, 9, 3, 2], 'DEVICE_LOC': [12, 541, 7, 100, 499]}
    qx, qy = stub('qx'), stub('qy')
    nan = fn('NAN')

    def qs(ip, a, kw):
        u, v = [ip.known_items(ip.to_arr(x)) for x in bind(['q', 's'], a, kw)]
        m = lambda f: ip.new(I.ArrC((n,), [nan if u[i] is sym('q%d' % i) and i in bad else f(u[i], v[i]) for i in range(n)]))
        return (m(qx), m(qy))

    def isnan(ip, a, kw):
        it = ip.known_items(ip.to_arr(a[0]))
        if it is None:
            raise I.Unsupported('isnan')
        return ip.new(I.ArrC((len(it),), [TRUE if x is nan else FALSE for x in it]))
    pin = [0, 4, 0, 0, 1]
    keep = [i for i in range(n) if not pin[i]]
    loc = [p * 1000 + d for p, d in zip(tab_['PETAL_LOC'], tab_['DEVICE_LOC'])]
    qsx = [const(-99999) if i in bad else qx(sym('q%d' % i), sym('s%d' % i)) for i in range(n)]
    qsy = [const(-99999) if i in bad else qy(sym('q%d' % i), sym('s%d' % i)) for i in range(n)]
    # the column read from the table, a given value in the order of the table
    for tag, cols, wx, wy, rows in (
            ('X_FP', {'X_FP': names('x', n), 'Y_FP': names('y', n)}, names('x', n), names('y', n), range(n)),
            ('X_FP_EXP', {'X_FP_EXP': names('x', n), 'Y_FP_EXP': names('y', n)}, names('x', n), names('y', n), range(n)),
            ('X_FP and X_FP_EXP', {'X_FP': names('x', n), 'Y_FP': names('y', n), 'X_FP_EXP': names('u', n), 'Y_FP_EXP': names('v', n)}, names('x', n), names('y', n), range(n)),
            ('EXP_Q_0', {'EXP_Q_0': names('q', n), 'EXP_S_0': names('s', n)}, qsx, qsy, range(n)),
            ('pinholes', {'X_FP': names('x', n), 'Y_FP': names('y', n), 'PINHOLE_ID': pin}, names('x', n), names('y', n), keep),
            ('LOCATION', {'X_FP': names('x', n), 'Y_FP': names('y', n), 'LOCATION': [7, 6, 5, 4, 3]}, names('x', n), names('y', n), range(n)),
            ('metrology', {'X_FP': names('x', n), 'Y_FP': names('y', n), 'PINHOLE_ID': pin}, names('x', n), names('y', n), keep)):
        R = c.runner()

        def read(ip, a, kw):
            return tab(R, {**tab_, **cols})
        R.ip.models.update({'astropy.table.Table.read': read, 'astropy.table.table.Table.read': read, 'desimeter.transform.xy2qs.qs2xy': qs, 'numpy.isnan': isnan,
                            'desimeter.io.load_metrology': read if tag == 'metrology' else lambda ip, a, k: tab(R, {'LOCATION': [], 'PINHOLE_ID': []})})
        args = inst(R.ip, 'args', **dict(ARGS, expected_positions=NONE if tag == 'metrology' else strc('e.csv')))
        name = 'expected positions from %s: ' % tag
        out = call(c, R, q, name[:-2], args, I.IGN)
        if out is None:
            continue
        rows = list(rows)
        col(c, R, q, name + 'X_FP', out, 'X_FP', [wx[i] for i in rows])
        col(c, R, q, name + 'Y_FP', out, 'Y_FP', [wy[i] for i in rows])
        l = cols.get('LOCATION', loc)
        col(c, R, q, name + 'LOCATION', out, 'LOCATION', [l[i] for i in rows])


def external(c):
    """read back of the results of the external program"""
    q = 'desimeter.spotmatch.spotmatch'
    metro = [(1001, 'POS', 0, 'M0', 1), (541, 'FIF', 3, 'P1', 0), (541, 'FIF', 1, 'P1', 0), (9542, 'GIF', 2, 'P2', 9), (541, 'FIF', 4, 'P1', 0), (2002, 'POS', 0, 'M1', 2),
             (541, 'FIF', 2, 'P1', 0), (9542, 'GIF', 1, 'P2', 9)]
    lines = [' 2002 10.5 11.25 12.0 4 0.5 positioner', ' -1 20.5 21.25 13.0 0 0.25 unknown', ' 541 30.5 31.25 14.0 2 0.125 pinhole', 'some comment',
             ' 9542 40.5 41.25 15.0 1 0.75 fiducial', ' 1001 50.5 51.25 16.0 5 0.5 positioner', ' 541 60.5 61.25 17.0 6 0.5 fiducial', ' 541 70.5 71.25 18.0 7 0.5 pinhole']
    rows = [l.split() for l in lines if len(l.split()) == 7]
    R = c.runner()
    ln = lambda ip, a, k: ip.new(I.ListC([(TRUE, strc(l + chr(10))) for l in lines]))
    files = []

    def open_(ip, a, kw):
        files.append(a[0])
        return inst(ip, 'file', readlines=I.Native(ln), read=I.Native(lambda ip, a, k: strc(chr(10).join(lines))))
    m = 'desimeter.spotmatch.'
    none = lambda ip, a, k: NONE
    mt = lambda ip, a, k: tab(R, {'LOCATION': [x[0] for x in metro], 'DEVICE_TYPE': [x[1] for x in metro], 'PINHOLE_ID': [x[2] for x in metro], 'DEVICE_ID': [x[3] for x in metro],
                                  'PETAL_LOC': [x[4] for x in metro], 'DEVICE_LOC': [x[0] % 1000 for x in metro], 'X_FP': names('mx', len(metro)), 'Y_FP': names('my', len(metro))})
    R.ip.models.update({'shutil.which': lambda ip, a, k: strc('/bin/match_positions'), 'tempfile.gettempdir': lambda ip, a, k: strc('/scratch'),
                        m + '_compute_pixel_scale': lambda ip, a, k: const(Fraction(1, 14)), m + '_write_spotmatch_fiducial_config_file': none,
                        m + '_write_spotmatch_targets_file': none, m + '_write_spotmatch_measured_pos_file': none, m + '_write_spotmatch_reference_pos_file': none,
                        m + '_write_spotmatch_device_centers_file': none, 'subprocess.getstatusoutput': lambda ip, a, k: (ZERO, strc('done')),
                        'builtins.open': open_, 'astropy.table.Table': lambda ip, a, k: R('refs.table.Table'), 'desimeter.io.load_metrology': mt,
                        FT + '.read': lambda ip, a, k: inst(ip, 'FVC2FP'), FT + '.read_jsonfile': lambda ip, a, k: inst(ip, 'FVC2FP')})
    name = 'external identification: '
    out = call(c, R, q, name[:-2], R.arr(*names('X_', 3)), R.arr(*names('Y_', 3)), expected_x_fp=R.arr(*names('ex', 2)), expected_y_fp=R.arr(*names('ey', 2)),
               expected_location=R.arr(const(2002), const(1001)), fvc2fp=inst(R.ip, 'FVC2FP'))
    if out is None:
        return
    col(c, R, q, name + 'LOCATION', out, 'LOCATION', [int(r[0]) for r in rows])
    col(c, R, q, name + 'XPIX', out, 'XPIX', [Fraction(r[1]) for r in rows])
    col(c, R, q, name + 'YPIX', out, 'YPIX', [Fraction(r[2]) for r in rows])
    col(c, R, q, name + 'FLAG', out, 'FLAG', [Fraction(r[4]) for r in rows])
    col(c, R, q, name + 'ERR', out, 'ERR', [Fraction(r[5]) for r in rows])
    dev = {x[0]: x for x in metro}
    for k, j in (('DEVICE_TYPE', 1), ('DEVICE_ID', 3), ('PETAL_LOC', 4)):
        got = column(R, out, k)
        ii = [i for i, r in enumerate(rows) if int(r[0]) >= 0]
        compare(c, R, q, name + k, [got[i] for i in ii] if len(got) == len(rows) else got, [dev[int(rows[i][0])][j] for i in ii])
    got = column(R, out, 'PINHOLE_ID')
    kind = [r[6] for r in rows]
    ok = {'fiducial': [99], 'pinhole': [10, 11, 12, 13], 'positioner': [0], 'unknown': [0]}
    for k, w in ok.items():
        for i in [i for i in range(len(rows)) if kind[i] == k]:
            g = got[i] if i < len(got) else NONE
            if tm.has_unsupported(g):
                c.undecided(name + 'PINHOLE_ID of a ' + k, 'identity of the matched row', R.where(q), 'not decided')
            elif any(g is const(x) for x in w):
                c.ok(name + 'PINHOLE_ID of a %s (%d)' % (k, i), 'identity of the matched row', R.where(q))
            else:
                c.bad(name + 'PINHOLE_ID of a %s (%d)' % (k, i), 'identity of the matched row', R.where(q), 'is %s' % tm.show(g)[:200])
