"""Catalogue matching: the matching functions are interpreted over order types.  The nearest neighbour search is
replaced by its contract (for every coincidence pattern of the neighbours and every order of the distances), the
coordinates and distances themselves stay symbolic; the resulting pairs are compared with the specification."""
import itertools
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
M = 'desimeter.match.'
MP = 'desimeter.match_positioners.'


def run(c):
    c.floor = 30
    for f in (same_system, triangles, dilatation, keys, radius, solved, positioners):
        try:
            c.guard(f, c)
        finally:
            tm.ORDER.clear()
    return ''


def patterns(n):
    """coincidence patterns of n neighbours: growth strings"""
    def go(p):
        if len(p) == n:
            yield tuple(p)
            return
        for v in range(max(p, default=-1) + 2):
            yield from go(p + [v])
    yield from go([])


def order(names, perm):
    tm.ORDER.clear()
    s = [sym(v) for v in names]
    for k, r in zip(s, perm):
        tm.ORDER[k] = r
    return s


def tree_model(c, seen, query):
    cls = I.Class('KDTree', 'stand-in', {}, ())

    def make(ip, args, kw):
        data = kw.get('data', args[0] if args else None)
        o = ip.new(I.InstC(cls, {}))

        def q(ip, a, k):
            b = dict(zip(['x', 'k', 'eps', 'p', 'distance_upper_bound'], a))
            b.update(k)
            seen.append((ip.toterm(ip.to_arr(data)), ip.toterm(ip.to_arr(b['x'])), {n: v for n, v in b.items() if n != 'x'}))
            return query(ip)

        def qt(ip, a, k):
            seen.append((ip.toterm(ip.to_arr(data)), a))
            return query(ip)
        ip.setattr(o, 'query', I.Native(q))
        ip.setattr(o, 'query_ball_tree', I.Native(qt))
        ip.setattr(o, 'data', ip.to_arr(data))
        return o
    return {'scipy.spatial.cKDTree': make, 'scipy.spatial.KDTree': make, 'scipy.spatial.ckdtree.cKDTree': make,
            'scipy.spatial._ckdtree.cKDTree': make, 'scipy.spatial._kdtree.KDTree': make}


def ints(R, v):
    out = []
    for x in R.comps(v):
        x = num(x)
        if x.op != 'c' or x.data.denominator != 1:
            raise I.Unsupported('an index is not decided: %s' % tm.show(x)[:200])
        out.append(int(x.data))
    return out


class Tally(object):
    """one obligation over many cases: the first failing case is reported, an undecided one makes it undecided"""
    def __init__(self, c):
        self.c = c
        self.r = {}

    def case(self, name, ok, text=''):
        n, bad, und = self.r.get(name, (0, None, None))
        if ok is None:
            und = und or text
        elif not ok:
            bad = bad or text
        self.r[name] = (n + 1, bad, und)

    def done(self, rule, where):
        for name, (n, bad, und) in sorted(self.r.items()):
            if bad:
                self.c.bad(name, rule, where, bad)
            elif und:
                self.c.undecided(name, rule, where, und)
            else:
                self.c.ok(name, rule, '%s (%d cases)' % (where, n))


def same_system(c):
    q = M + 'match_same_system'
    for n in (1, 2, 3, 4):
        t = Tally(c)
        where = q
        for p in patterns(n):
            # the neighbours sit at several positions of the second list, the first one included
            for lab in ((0, 1, 2, 3), (3, 0, 2, 1)):
                nn = [lab[v] for v in p]
                for perm in itertools.permutations(range(n)):
                    for dup in (True, False):
                        one_match(c, t, q, n, nn, perm, dup)
        R = c.runner()
        t.done('nearest neighbour contract', R.where(q))


def one_match(c, t, q, n, nn, perm, dup):
    d = order(['d%d' % i for i in range(n)], [1 + r for r in perm])
    seen = []
    R = c.runner(models=tree_model(c, seen, lambda ip: (R.arr(*d), R.arr(*[const(i) for i in nn]))))
    x1, y1 = [R.arr(*[sym('%s1_%d' % (v, i)) for i in range(n)]) for v in 'xy']
    x2, y2 = [R.arr(*[sym('%s2_%d' % (v, i)) for i in range(4)]) for v in 'xy']
    case = 'neighbours %s, distances in the order %s%s' % (nn, list(perm), '' if dup else ', duplicates kept')
    tag = 'match of %d objects in the same system' % n + ('' if dup else ', duplicates allowed')
    try:
        got = R.ip.unpack(R(q, x1, y1, x2, y2) if dup else R(q, x1, y1, x2, y2, FALSE), 2)
        idx = ints(R, got[0])
        dist = [num(x) for x in R.comps(got[1])]
    except I.Unsupported as e:
        t.case(tag + ': partners', None, '%s: %s' % (case, e))
        return
    except IndexError:
        t.case(tag + ': partners', False, '%s: an index is out of range' % case)
        return
    if len(seen) != 1:
        t.case(tag + ': search', None, '%d neighbour searches' % len(seen))
    else:
        tree, pts, opt = seen[0]
        w1 = R.ip.toterm(R.ip.to_arr(tuple(R.arr(sym('x1_%d' % i), sym('y1_%d' % i)) for i in range(n))))
        w2 = R.ip.toterm(R.ip.to_arr(tuple(R.arr(sym('x2_%d' % i), sym('y2_%d' % i)) for i in range(4))))
        t.case(tag + ': the first list is searched in the second', tree is w2 and pts is w1, 'tree of %s searched for %s' % (tm.show(tree)[:150], tm.show(pts)[:150]))
        k = opt.get('k', ONE)
        t.case(tag + ': one neighbour, at any distance', k is ONE and not set(opt) - {'k'} or None, 'options %s' % sorted(opt))
    win = [not dup or min((perm[j], j) for j in range(n) if nn[j] == nn[i])[1] == i for i in range(n)]
    want = [nn[i] if win[i] else -1 for i in range(n)]
    t.case(tag + ': partners', idx == want, '%s: partners %s, expected %s' % (case, idx, want))
    wd = [d[i] if win[i] else fn('INF') for i in range(n)]
    t.case(tag + ': distances', dist == wd, '%s: distances %s, expected %s' % (case, [tm.show(x) for x in dist], [tm.show(x) for x in wd]))


def triangles(c):
    q = M + 'compute_triangles_with_fixed_orientation'
    for n in (3, 4):
        t = Tally(c)
        first = {}
        for perm in itertools.permutations(range(n)):
            xs = order(['x%d' % i for i in range(n)], [1 + r for r in perm])
            ys = [sym('y%d' % i) for i in range(n)]
            R = c.runner()
            tag = 'triangles of %d points' % n
            tk, f = R.ip.unpack(R(q, R.arr(*xs), R.arr(*ys)), 2)
            tk = ints(R, tk)
            f = [num(x) for x in R.comps(f)]
            nt = n * (n - 1) * (n - 2) // 6
            rows = [tuple(tk[3 * i:3 * i + 3]) for i in range(len(tk) // 3)]
            want = set(itertools.combinations(range(n), 3))
            t.case(tag + ': every triangle once, by its three points', len(rows) == nt and set(tuple(sorted(r)) for r in rows) == want,
                   'points in the x order %s: triangles %s' % (list(perm), rows))
            if len(rows) != nt or not f or len(f) % nt or any(not 0 <= v < n for r in rows for v in r):
                t.case(tag + ': descriptions', False, '%d numbers for %d triangles' % (len(f), nt))
                continue
            m = len(f) // nt
            dom = {'x%d' % i: (10 + perm[i], 10.8 + perm[i]) for i in range(n)}
            dom.update({'y%d' % i: (-3, 3) for i in range(n)}, s=(0.5, 2), tx=(1, 3), ty=(-3, 3))
            gx, gy = [sym('g%s%d' % (v, i)) for v in 'x' for i in range(3)], [sym('gy%d' % i) for i in range(3)]
            for i, r in enumerate(rows):
                gen = {}
                for k, v in enumerate(r):
                    gen[xs[v]], gen[ys[v]] = gx[k], gy[k]
                for j in range(m):
                    g = tm.subst(f[i * m + j], gen)
                    if j not in first:
                        first[j] = g
                    w = first[j]
                    d = {}
                    for k in range(3):
                        d['gx%d' % k] = (10 + k, 10.8 + k)
                        d['gy%d' % k] = (-3, 3)
                    v = tm.equal(g, w, dom=d, tol=1e-9)
                    t.case(tag + ': description %d is that of the three points of its own row, in their order' % j, None if v.kind == 'undecided' else v.kind == 'holds',
                           'points in the x order %s, triangle %s: %s' % (list(perm), r, v.how))
            if perm == tuple(range(n)):
                tm.ORDER.clear()
                s, tx, ty = sym('s'), sym('tx'), sym('ty')
                moved = {}
                for i in range(n):
                    moved[xs[i]], moved[ys[i]] = add(mul(s, xs[i]), tx), add(mul(s, ys[i]), ty)
                for j in range(m):
                    R.same(tag + ': description %d is unchanged by a shift and a scale' % j, 'invariance', q, tm.subst(f[j], moved), f[j], dom=dom, tol=1e-9)
        t.done('generic points of every order', R.where(q))


def table(R, rows):
    return R.ip.to_arr(tuple(R.arr(*[const(v) for v in r]) for r in rows))


def dilatation(c):
    q = M + 'match_arbitrary_translation_dilatation'
    for n1, n2 in ((3, 3), (4, 4), (4, 3), (3, 4), (4, 5)):
        T1 = list(itertools.combinations(range(n1), 3))
        T2 = list(itertools.combinations(range(n2), 3))
        t = Tally(c)
        tag = 'match of %d objects with %d by triangles' % (n1, n2)
        for turn in range(3):
            orders = list(itertools.permutations(range(len(T1))))
            # pairs of triangles that agree on one pairing of the objects
            if n1 <= n2:
                for k, pi in enumerate(itertools.permutations(range(n2), n1)):
                    for perm in orders[k % 5::5] or orders:
                        rows2 = {tuple(sorted(r)): tuple(r) for r in T2}
                        mapping = []
                        for r in T1:
                            img = tuple(pi[v] for v in r)
                            rows2[tuple(sorted(img))] = img
                            mapping.append(T2.index(tuple(sorted(img))))
                        one_dilatation(c, t, q, tag, T1, [rows2[r] for r in T2], mapping, perm, n1, n2, pi, turn)
            # any pairs of triangles
            every = list(itertools.product(range(len(T2)), repeat=len(T1)))
            step = max(1, len(every) // 120)
            for k, mapping in enumerate(every[turn::step]):
                rot = lambda r, j: r[j % 3:] + r[:j % 3]
                one_dilatation(c, t, q, tag, T1, [rot(r, k + j + turn) for j, r in enumerate(T2)], mapping, orders[k % len(orders)], n1, n2, None, turn)
        R = c.runner()
        t.done('nearest triangle contract', R.where(q))


def one_dilatation(c, t, q, tag, T1, T2, mapping, perm, n1, n2, pi, turn):
    d = order(['d%d' % i for i in range(len(T1))], [1 + r for r in perm])
    seen = []
    calls = []
    x1, y1, x2, y2 = [sym('%s%d' % (v, k)) for k in (1, 2) for v in 'xy']

    def tri(ip, args, kw):
        b = dict(zip('xy', args))
        b.update(kw)
        b = [ip.toterm(ip.to_arr(b[k])) for k in 'xy']
        which = [k for k in (0, 1) if b == [R.ip.toterm(v) for v in pts[k]]]
        calls.append(which)
        if not which:
            raise I.Unsupported('triangles of other coordinates')
        k = which[0]
        rows = (T1, T2)[k]
        return (table(R, rows), R.ip.to_arr(tuple(R.arr(*[sym('t%d_%d_%d' % (k, i, j)) for j in range(2)]) for i in range(len(rows)))))
    models = tree_model(c, seen, lambda ip: (R.arr(*d), R.arr(*[const(i) for i in mapping])))
    models[M + 'compute_triangles_with_fixed_orientation'] = tri
    R = c.runner(models=models)
    pts = [[R.arr(*[sym('%s%d_%d' % (v, k, i)) for i in range(n)]) for v in 'xy'] for k, n in ((1, n1), (2, n2))]
    case = 'triangles %s and %s, matched %s, distances in the order %s' % (T1, T2, list(mapping), list(perm))
    try:
        got = R.ip.unpack(R(q, pts[0][0], pts[0][1], pts[1][0], pts[1][1]), 2)
        idx = ints(R, got[0])
        dist = [num(x) for x in R.comps(got[1])]
    except I.Unsupported as e:
        t.case(tag + ': no partner is used twice', None, '%s: %s' % (case, e))
        return
    except IndexError:
        t.case(tag + ': no partner is used twice', False, '%s: an index is out of range' % case)
        return
    if len(seen) == 1:
        tree, pt, opt = seen[0]
        t.case(tag + ': triangles of the first list are searched among those of the second', 't1_0_0' in tm.show(tree) and 't0_0_0' in tm.show(pt) and 't0_0_0' not in tm.show(tree),
               'tree of %s' % tm.show(tree)[:100])
    t.case(tag + ': one entry per object of the first list', len(idx) == n1 and len(dist) == n1, '%s: %d partners, %d distances' % (case, len(idx), len(dist)))
    if len(idx) != n1:
        return
    used = [v for v in idx if v >= 0]
    t.case(tag + ': no partner is used twice', len(set(used)) == len(used), '%s: partners %s' % (case, idx))
    t.case(tag + ': partners are objects of the second list or -1', all(-1 <= v < n2 for v in idx), '%s: partners %s' % (case, idx))
    ok = True
    for i, v in enumerate(idx):
        if v >= 0:
            by = [d[p] for p in range(len(T1)) if i in T1[p] and T2[mapping[p]][T1[p].index(i)] == v]
            ok = ok and bool(by) and dist[i] in by
    t.case(tag + ': each pair is one of matched triangles, with their distance', ok, '%s: partners %s, distances %s' % (case, idx, [tm.show(x) for x in dist]))
    best = min(range(len(T1)), key=lambda p: perm[p])
    pairs = dict(zip(T1[best], T2[mapping[best]]))
    t.case(tag + ': the closest pair of triangles is not overruled by others', all(idx[i] in (v, -1) for i, v in pairs.items()), '%s: partners %s' % (case, idx))
    if pi is not None:
        t.case(tag + ': triangles that agree give their pairing', idx == list(pi), '%s: partners %s, expected %s' % (case, idx, list(pi)))


def keys(c):
    """match(a, b): pairs of equal keys"""
    q = MP + 'match'
    t = Tally(c)
    for na, nb in ((1, 1), (2, 1), (2, 3), (3, 2), (3, 3)):
        for perm in itertools.permutations(range(na)):
            # each key of b is one of a, or lies between or outside them
            for bs in itertools.product(range(-1, 2 * na), repeat=nb):
                if sum(bs) % 3 and nb == 3 and na == 3:
                    continue
                a = [sym('a%d' % i) for i in range(na)]
                tm.ORDER.clear()
                for k, r in zip(a, perm):
                    tm.ORDER[k] = 2 + 2 * r
                b = []
                for j, v in enumerate(bs):
                    i = [i for i in range(na) if 2 * perm[i] == v]
                    s = a[i[0]] if i else sym('b%d' % j)
                    if not i:
                        tm.ORDER[s] = 2 + v
                    b.append(s)
                R = c.runner()
                case = 'keys in the order %s against %s' % ([tm.ORDER[k] for k in a], [tm.ORDER[k] for k in b])
                try:
                    ma, mb = [ints(R, v) for v in R.ip.unpack(R(q, R.arr(*a), R.arr(*b)), 2)]
                except I.Unsupported as e:
                    t.case('match of %d keys with %d: pairs of equal keys' % (na, nb), None, '%s: %s' % (case, e))
                    continue
                want = sorted((a.index(k), j) for j, k in enumerate(b) if k in a)
                t.case('match of %d keys with %d: pairs of equal keys' % (na, nb), len(ma) == len(mb) and sorted(zip(ma, mb)) == want,
                       '%s: pairs %s, expected %s' % (case, list(zip(ma, mb)), want))
    tm.ORDER.clear()
    R = c.runner()
    t.done('order types of the keys', R.where(q))


def radius(c):
    """match2d: all pairs closer than the radius, with their distances"""
    q = MP + 'match2d'
    t = Tally(c)
    n1, n2 = 3, 3
    subsets = [s for k in range(3) for s in itertools.combinations(range(n2), k)]
    for near in itertools.product(subsets, repeat=n1):
        seen = []
        R = c.runner(models=tree_model(c, seen, lambda ip: R.lst(*[R.lst(*[const(j) for j in s]) for s in near])))
        x1, y1, x2, y2 = [R.arr(*[sym('%s%d_%d' % (v, k, i)) for i in range(3)]) for k in (1, 2) for v in 'xy']
        case = 'neighbours within the radius %s' % (list(map(list, near)),)
        try:
            got = R.ip.unpack(R(q, x1, y1, x2, y2, sym('rad')), 3)
            m1, m2 = ints(R, got[0]), ints(R, got[1])
            dd = [num(x) for x in R.comps(got[2])]
        except I.Unsupported as e:
            t.case('matches within a radius: pairs', None, '%s: %s' % (case, e))
            continue
        want = [(i, j) for i, s in enumerate(near) for j in s]
        t.case('matches within a radius: pairs', len(m1) == len(m2) and sorted(zip(m1, m2)) == want, '%s: pairs %s' % (case, list(zip(m1, m2))))
        if not want:
            continue
        ok = len(dd) == len(m1)
        und = False
        if ok:
            for i, j, v in zip(m1, m2, dd):
                w = fn('sqrt', add(power(sub(sym('x1_%d' % i), sym('x2_%d' % j)), const(2)), power(sub(sym('y1_%d' % i), sym('y2_%d' % j)), const(2))))
                r = tm.equal(v, w).kind
                ok = ok and r != 'differs'
                und = und or r == 'undecided'
        t.case('matches within a radius: distances', None if ok and und else ok, case)
    R = c.runner()
    t.done('contract of the radius search', R.where(q))


def solved(c):
    """solve_assignment: the assignment of largest score, and its score"""
    q = MP + 'solve_assignment'
    seen = []

    def lsa(ip, args, kw):
        b = dict(zip(['cost_matrix', 'maximize'], args))
        b.update(kw)
        seen.append((b['cost_matrix'], b.get('maximize', FALSE)))
        return (R.arr(const(0), const(1)), R.arr(const(2), const(0)))
    R = c.runner(models={'scipy.optimize.linear_sum_assignment': lsa, 'scipy.optimize._lsap.linear_sum_assignment': lsa})
    s = [[sym('s%d%d' % (i, j)) for j in range(3)] for i in range(2)]
    m = R.ip.to_arr(tuple(R.arr(*r) for r in s))
    got = R.ip.unpack(R(q, m), 3)
    if len(seen) != 1:
        c.undecided('assignment: one solution', 'contract of the solver', R.where(q), '%d calls of the solver' % len(seen))
        return
    cost, mx = seen[0]
    up = mx in (TRUE, ONE)
    R.same('assignment: the score is maximised', 'contract of the solver', q, cost, m if up else R.ip.map1(neg, m))
    rows, cols = ints(R, got[0]), ints(R, got[1])
    if (rows, cols) == ([0, 1], [2, 0]):
        c.ok('assignment: rows and columns as solved', 'contract of the solver', R.where(q))
    else:
        c.bad('assignment: rows and columns as solved', 'contract of the solver', R.where(q), 'rows %s, columns %s' % (rows, cols))
    R.same('assignment: its score is the sum over the pairs', 'contract of the solver', q, got[2], add(s[0][2], s[1][0]))


def table_of(R, cols):
    """a table with concrete rows, selected by row numbers or masks"""
    ip = R.ip
    n = len(next(iter(cols.values())))

    def item(ip, a, kw):
        k = a[1]
        if isinstance(k, T) and k.op == 'str':
            if k.data not in cols:
                raise I.Unsupported('column %s' % k.data)
            return arrays[k.data]
        return table_of(R, {q: R.comps(ip.getitem(v, k)) for q, v in arrays.items()})
    arrays = {k: R.arr(*v) for k, v in cols.items()}
    cls = I.Class('Table', 'stand-in', {'__getitem__': I.Native(item), '__len__': I.Native(lambda ip, a, kw: const(n))}, ())
    names = R.lst(*[strc(k) for k in cols])
    d = ip.new(I.InstC(I.Class('dtype', 'stand-in', {}, ()), {'names': names}))
    return ip.new(I.InstC(cls, {'dtype': d, 'colnames': names}))


def positioners(c):
    """match_positioners: the assignment refers to the rows of the tables passed by the caller"""
    q = MP + 'match_positioners'
    t = Tally(c)
    C = lambda v: [const(x) for x in v]
    fvc_cases = [([0, 7, 0, 0, 0], [9e4, 9e4, 5e4, 9e4, 9e4]), ([0, 0, 0, 0, 0], [1e4, 9e4, 9e4, 8e4, 9e5]), ([3, 2, 0, 0, 0], [9e4, 9e4, 9e4, 9e4, 9e4])]
    metr_cases = [[1, 0, 0, 2, 0], [0, 0, 0, 1, 2], [0, 0, 4, 0, 0]]
    for fp, counts in fvc_cases:
        for mp in metr_cases:
            good_f = [i for i in range(5) if fp[i] == 0 and counts[i] > 8e4]
            good_m = [i for i in range(5) if mp[i] == 0]
            nf, nm = len(good_f), len(good_m)
            edges = [(i, j) for i in range(nm) for j in range(nf) if (i + j) % 3 != 1 or i == j]
            close = {e: 1 + (e[0] + 2 * e[1]) % 5 for e in edges}
            base = [(i, j) for i, j in zip(range(nm), range(nf - 1, -1, -1))]
            for alt in (False, True):
                seen2d, solved_ = [], []

                def m2d(ip, a, kw):
                    seen2d.append(a)
                    return (R.arr(*C([e[0] for e in edges])), R.arr(*C([e[1] for e in edges])), R.arr(*C([close[e] for e in edges])))

                def solve(ip, a, kw):
                    k = len(solved_)
                    m = [num(x) for x in R.comps(a[0])]
                    solved_.append(m)
                    pairs = base[k:] + base[:k] if k < len(base) else base
                    rows, colsv = sorted(p[0] for p in base), [dict(zip([p[0] for p in base], [p[1] for p in pairs]))[r] for r in sorted(p[0] for p in base)]
                    return (R.arr(*C(rows)), R.arr(*C(colsv)), const(len(base) - (1 if k == 2 else 0)))

                models = {MP + 'match2d': m2d, MP + 'solve_assignment': solve}
                R = c.runner(models=models)
                tm.ORDER.clear()
                fvc = table_of(R, {'PINHOLE_ID': C(fp), 'COUNTS': C(counts), 'X_FP': [sym('fx%d' % i) for i in range(5)], 'Y_FP': [sym('fy%d' % i) for i in range(5)]})
                ids = [sym('id%d' % i) for i in range(5)]
                for i, s in enumerate(ids):
                    tm.ORDER[s] = 1 + (i * 3) % 5
                metr = table_of(R, {'PINHOLE_ID': C(mp), 'DEVICE_ID': ids, 'X_FP': [sym('mx%d' % i) for i in range(5)], 'Y_FP': [sym('my%d' % i) for i in range(5)]})
                # one positioner has no calibration
                known = [i for i in (4, 2, 0, 1, 3) if i != good_m[-1]]
                arm = {i: const(2 + i % 2) for i in known}
                calib = table_of(R, {'POS_ID': [ids[i] for i in known], 'LENGTH_R1': [arm[i] for i in known], 'LENGTH_R2': [const(1)] * len(known)})
                case = 'spots of pinholes %s with counts %s, positioners of pinholes %s' % (fp, [int(v) for v in counts], mp)
                tag = 'assignment of positioners' + (' with alternatives' if alt else '')
                try:
                    got = R(q, fvc, metr, calib, return_alternatives=TRUE if alt else FALSE)
                    got = R.ip.unpack(got, 4 if alt else 3)
                    ind = ints(R, got[0])
                except I.Unsupported as e:
                    t.case(tag + ': rows of the tables of the caller', None, '%s: %s' % (case, e))
                    continue
                except IndexError:
                    t.case(tag + ': rows of the tables of the caller', False, '%s: an index is out of range' % case)
                    continue
                want = [-1] * 5
                for i, j in base:
                    want[good_f[j]] = good_m[i]
                t.case(tag + ': rows of the tables of the caller', ind == want, '%s: %s, expected %s' % (case, ind, want))
                if solved_ and any(tm.has_unsupported(x) for x in solved_[0]):
                    t.case(tag + ': a positioner may take the spots within its reach', None, case)
                elif solved_:
                    med = {i: 3 + (i % 2) for i in known}
                    import statistics
                    L = [med.get(i) for i in good_m]
                    mid = statistics.median([x for x in L if x])
                    m = [const(1 if (i, j) in close and close[i, j] < (L[i] or mid) + 0.1 else 0) for i in range(nm) for j in range(nf)]
                    t.case(tag + ': a positioner may take the spots within its reach', [tm.show(x) for x in solved_[0]] == [tm.show(x) for x in m],
                           '%s: scores %s, expected %s' % (case, [tm.show(x) for x in solved_[0]], [tm.show(x) for x in m]))
                    if alt:
                        ok = len(solved_) == 1 + len(base)
                        for k, s in enumerate(solved_[1:]):
                            bi, bj = sorted(base)[k] if k < len(base) else (None, None)
                            e = [ZERO if z == bi * nf + bj else x for z, x in enumerate(solved_[0])] if bi is not None else None
                            ok = ok and s == e
                        t.case(tag + ': each alternative excludes one pair of the assignment', ok, case)
                        rows = [x for x in R.comps(got[3])]
                        wanted = []
                        for k in range(1, 1 + len(base)):
                            if k == 2:
                                continue
                            pairs = base[k:] + base[:k] if k < len(base) else base
                            d = dict(zip([p[0] for p in base], [p[1] for p in pairs]))
                            w = [-1] * 5
                            for i, j in d.items():
                                w[good_f[j]] = good_m[i]
                            wanted += w
                        rows = ints(R, got[3])
                        t.case(tag + ': alternatives as good as the assignment, in rows of the tables of the caller', rows == wanted, '%s: %s, expected %s' % (case, rows, wanted))
    tm.ORDER.clear()
    R = c.runner()
    t.done('contract of the assignment solver', R.where(q))
