"""Calibration report of a positioner: the whole chain from the file of moves to the report is interpreted on a history
whose rows carry symbols; what the fit is given and every column of the report are compared with the history."""
from fractions import Fraction as Fr
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm

H = 'desimeter.posparams.fithandler.'
Q = H + 'run_best_fits'
FIT = 'desimeter.posparams.fitter.fit_params'
STATIC = ['LENGTH_R1', 'LENGTH_R2', 'OFFSET_T', 'OFFSET_P', 'OFFSET_X', 'OFFSET_Y']
DYNAMIC = ['SCALE_T', 'SCALE_P']
KEYS = STATIC + DYNAMIC
DEFAULT = dict(LENGTH_R1=3, LENGTH_R2=3, OFFSET_T=0, OFFSET_P=0, OFFSET_X=0, OFFSET_Y=0, SCALE_T=1, SCALE_P=1)
FITARGS = ['posintT', 'posintP', 'ptlX', 'ptlY', 'gearT', 'gearP', 'recent_rehome', 'sequence_id', 'mode', 'nominals', 'bounds', 'keep_fixed', 'ptlXerr', 'ptlYerr', 'outlier_rejection']
FAILED, INVALID, SHORT = 4, 8, 16
DAY = 86400


def run(c):
    c.floor = 40
    c.guard(reports, c)
    c.guard(failures, c)
    return ''


def mod(R, tag):
    """symbols of the rows: value of a column in row i of the file"""
    return lambda k, i: sym('%s_%d' % (k, i))


class Hist(object):
    """rows of the file of moves"""
    def __init__(self, days, rehome, expo, enabled=None, moves=None, order=None, gear=True, notes=None, chosen=None):
        n = self.n = len(days)
        self.days = [Fr(d) for d in days]
        self.rehome, self.expo = rehome, expo
        self.enabled = enabled or [1] * n
        self.moves = moves or list(range(100, 100 + n))
        self.order = order or list(range(n))
        self.gear = gear
        self.notes, self.chosen = notes, chosen or [1] * n

    def date(self, i):
        return '2020-10-%07.3f' % float(self.days[i] + 1)

    def sec(self, i):
        return self.days[i] * DAY

    def cell(self, k, i):
        return sym('%s_%d' % (k, i))

    def table(self, R):
        o = self.order
        cols = dict(POS_ID=[strc('M00123')] * self.n, PETAL_ID=[const(7)] * self.n, PETAL_LOC=[const(3)] * self.n, DEVICE_LOC=[const(88)] * self.n)
        cols.update(DATE=[strc(self.date(i)) for i in o], RECENT_REHOME=[const(self.rehome[i]) for i in o], EXPOSURE_ID=[const(self.expo[i]) for i in o],
                    CTRL_ENABLED=[strc('True' if self.enabled[i] else 'False') for i in o], TOTAL_MOVE_SEQUENCES=[const(self.moves[i]) for i in o])
        for k in ['POS_T', 'POS_P', 'X_FP', 'Y_FP'] + (['GEAR_CALIB_T', 'GEAR_CALIB_P'] if self.gear else []):
            cols[k] = [self.cell(k, i) for i in o]
        if self.notes:
            cols['LOG_NOTE'] = [strc(self.notes[i]) for i in o]
        return R.ip.call(R.f('refs.table.Table'), [R.ip.new(I.DictC({k: R.arr(*v) for k, v in cols.items()}))], {}, None)

    def rows(self):
        """rows that are used, in order of time"""
        r = [i for i in sorted(range(self.n), key=lambda i: (self.moves[i], self.days[i])) if self.enabled[i] and self.chosen[i]]
        r = [i for k, i in enumerate(r) if k == 0 or self.moves[i] != self.moves[r[k - 1]]]
        return sorted(r, key=lambda i: self.days[i])


def ptl(x, y):
    return add(mul(const(2), x), y), sub(mul(const(3), y), x)


def percentile(v, q):
    v = sorted(v)
    p = q * (len(v) - 1)
    k = int(p)
    return v[k] if k == p else v[k] + (v[k + 1] - v[k]) * (p - k)


def median(v):
    v = sorted(v)
    return (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2


def windows(sec, dates, width):
    """first and last row of each window"""
    n = len(sec)
    if len(dates) == 1:
        out = []
        for a in range(0, n, width):
            b = min(n - 1, a + width - 1)
            out.append((a if a == 0 or b - a + 1 == width else b - width + 1, b))
        return out
    at = lambda t: next((i for i in range(n) if sec[i] >= t), n - 1)
    s = [at(d) for d in dates]
    out = []
    for j in range(1, len(s)):
        ok = [i for i in range(j) if s[j] - s[i] > width]
        if not ok and j < len(s) - 1:
            continue
        w = (max(ok) if ok else 0)
        w = (s[w], s[j])
        if w not in out:
            out.append(w)
    return out


class Fits(object):
    """answers of the fit: constants, all different"""
    def __init__(self, errors=(), flags=None):
        self.calls, self.errors, self.flags = [], errors, flags or {}

    def value(self, k, call):
        import zlib
        return Fr(zlib.crc32(('%s %d' % (k, call)).encode()) % 4001 - 2000, 1000)

    def error(self, n):
        return Fr(self.errors[n % len(self.errors)] if self.errors else 7 + (5 * n) % 3, 100)

    def model(self, ip, a, k):
        b = dict(zip(FITARGS, a))
        b.update(k)
        n = len(self.calls)
        d = {}
        for x in FITARGS[:8]:
            d[x] = [num(v) if isinstance(v, T) else v for v in ip.known_items(b[x])]
        d['mode'] = b['mode'].data
        as_d = lambda v: {(q if isinstance(q, str) else q.data): x for q, x in ip.get(v).items.items()}
        d['nominals'] = as_d(b['nominals']) if b.get('nominals', NONE) is not NONE else None
        d['outlier_rejection'] = b.get('outlier_rejection', FALSE)
        kf = b.get('keep_fixed', NONE)
        d['keep_fixed'] = [x.data for x in (ip.known_items(kf) if kf is not NONE else [])]
        bd = b.get('bounds', NONE)
        d['bounds'] = as_d(bd) if bd is not NONE else None
        self.calls.append(d)
        fl = self.flags.get(n, 0)
        if fl & FAILED:
            return (ip.new(I.DictC({'FLAGS': const(fl)})), ip.new(I.DictC({})), ZERO, ZERO)
        par, cov = self.answer(n)
        par = {q: const(v) for q, v in par.items()}
        par['FLAGS'] = const(fl)
        return (ip.new(I.DictC(par)), ip.new(I.DictC({q: const(v) for q, v in cov.items()})), const(self.error(n)), const(1000 + n))

    def answer(self, n):
        """parameters and covariances returned by call n"""
        d = self.calls[n]
        eps = []
        if d['mode'] == 'static':
            s = sorted({int(x.data) for x, r in zip(d['sequence_id'], d['recent_rehome']) if not r.data})
            eps = ['EPSILON_%s_%d' % (t, x) for x in s for t in 'TP']
            free = STATIC + eps
        else:
            free = list(DYNAMIC)
            eps = [q for q in d['nominals'] if q.startswith('EPSILON')]
        fixed = [q for q in KEYS + eps if q not in free]
        par = {q: self.value(q, n) if q in free else d['nominals'][q].data for q in KEYS + eps}
        cov = {}
        fs = sorted(free)
        for i, x in enumerate(fs):
            for y in fs[i:]:
                cov['COV.%s.%s' % (x, y)] = (self.value(x, n) ** 2 + Fr(1, 9)) if x == y else self.value(x + y, n)
        for x in fixed:
            cov['COV.%s.%s' % (x, x)] = Fr(0)
        return par, cov


def setup(c, hist, fits, written):
    R = c.runner()
    R.ip.MAXUNROLL = 4000
    R.home = R.where(Q)

    def read(ip, a, k):
        if not (a and isinstance(a[0], T) and a[0] is strc('moves.csv')):
            return fn('table', ip.toterm(a[0]) if a else ZERO)
        return hist.table(R)

    def table(ip, a, k):
        return ip.call(R.f('refs.table.Table'), a, {x: v for x, v in k.items() if x in ('cols', 'data')}, None)

    def petal(ip, a, k):
        b = dict(zip(['petal_loc', 'x_fp', 'y_fp', 'z_fp'], a))
        b.update(k)
        if num(b['petal_loc']) is not const(3):
            raise I.RowError('petal %s instead of 3' % tm.show(b['petal_loc']))
        x, y = [ip.known_items(ip.to_arr(b[v])) for v in ('x_fp', 'y_fp')]
        r = [ptl(u, v) for u, v in zip(x, y)]
        return tuple(ip.new(I.ArrC((len(r),), [p[j] for p in r])) for j in (0, 1)) + (NONE,)

    def parse(ip, a, k):
        s = a[0].data
        t = Fr(s[8:]).limit_denominator(1000) - 1
        return inst(ip, 'datetime', timestamp=I.Native(lambda ip2, a2, k2: const(t * DAY)))

    def write(ip, a, k):
        written.append((a[1] if len(a) > 1 else k.get('output'), snapshot(ip, a[0])))
        return NONE

    def perc(scale):
        def f(ip, a, k):
            v = [x.data for x in ip.known_items(ip.to_arr(a[0]))]
            q = a[1] if len(a) > 1 else k['q']
            return const(percentile(v, num(q).data / scale))
        return f
    R.ip.models.update({'astropy.table.Table.read': read, 'astropy.table.table.Table.read': read, 'astropy.table.Table': table, 'astropy.table.table.Table': table,
                        'astropy.table.join': joined, 'desimeter.transform.ptl2fp.fp2ptl': petal, 'dateutil.parser.parse': parse,
                        'numpy.percentile': perc(100), 'numpy.quantile': perc(1), 'refs.table.Table.write': write, FIT: fits.model,
                        'astropy.time.Time.now': lambda ip, a, k: inst(ip, 'Time', iso=strc('now')), 'os.path.realpath': lambda ip, a, k: a[0]})
    return R


def inst(ip, name, **attrs):
    r = ip.new(I.InstC(I.Class(name, 'stand-in', {}, ()), {}))
    for k, v in attrs.items():
        ip.setattr(r, k, v)
    return r


def cols(ip, t):
    d = ip.get(ip.getattr(t, 'cols'))
    return {(k if isinstance(k, str) else k.data): [num(x) if isinstance(x, T) and x.op != 'str' else x for x in ip.known_items(v)] for k, v in d.items.items()}


def snapshot(ip, t):
    return cols(ip, t)


def joined(ip, a, k):
    """rows of both tables that agree in the given columns, or in all common ones"""
    b = dict(zip(['left', 'right', 'keys'], a))
    b.update(k)
    l, r = cols(ip, b['left']), cols(ip, b['right'])
    keys = b.get('keys', NONE)
    keys = [x for x in l if x in r] if keys is NONE else [keys.data] if isinstance(keys, T) else [x.data for x in ip.known_items(keys)]
    nl, nr = [len(next(iter(v.values()))) for v in (l, r)]
    pairs = [(i, j) for i in range(nl) for j in range(nr) if all(l[q][i] is r[q][j] for q in keys)]
    pairs.sort(key=lambda p: [l[q][p[0]].data for q in keys])
    out = {}
    for q in l:
        out[q if q in keys or q not in r else q + '_1'] = [l[q][i] for i, j in pairs]
    for q in r:
        if q not in keys:
            out[q if q not in l else q + '_2'] = [r[q][j] for i, j in pairs]
    return ip.call(ip.func('refs.table.Table'), [ip.new(I.DictC({q: ip.new(I.ArrC((len(v),), v)) for q, v in out.items()}))], {}, None)


def opaque(vals):
    return [x for x in vals or [] if isinstance(x, T) and any(y.op == 'f' and isinstance(y.data, str) and '.' in y.data for y in tm.walk(x))]


def fault(c, R, name, rule, detail, vals=()):
    if R.ip.warned or R.ip.havocs or opaque(vals):
        return c.undecided(name, rule, R.home, '%s; not understood: %s' % (detail, R.ip.warned[:2]))
    return c.bad(name, rule, R.home, detail)


def execute(c, R, tag, **kw):
    a = dict(posid=strc('M00123'), path=strc('moves.csv'), period_days=const(1000), data_window=const(1000), savedir=strc('out'), static_quantile=const(Fr(5, 100)),
             printf=I.Native(lambda ip, a, k: NONE))
    a.update({k: v if isinstance(v, T) else const(v) for k, v in kw.items()})
    try:
        return R(Q, **a)
    except I.RowError as e:
        fault(c, R, tag, 'rows of the windows', str(e))
    except I.Unsupported as e:
        if not str(e).startswith('callee never returns'):
            raise
        fault(c, R, tag, 'rows of the windows', 'an exception is raised: %s' % (R.ip.raises[-1][3] if R.ip.raises else ''))


def histories():
    T0 = [1] * 12
    yield 'one window', Hist([Fr(i, 20) for i in range(12)], T0, [5] * 12), dict()
    yield 'rows out of order', Hist([Fr(i, 20) for i in range(12)], T0, [5] * 6 + [9] * 6, order=[3, 1, 2, 0, 7, 5, 4, 6, 11, 8, 10, 9]), dict()
    yield 'control disabled and moves repeated', Hist([Fr(i, 20) for i in range(16)], [1] * 16, [5] * 16, enabled=[0, 1, 1, 1, 0] + [1] * 11, moves=[1, 2, 2, 3, 4, 5, 6, 6, 6, 7, 8, 9, 10, 11, 12, 13]), dict()
    yield 'no gear calibration in the file', Hist([Fr(i, 20) for i in range(12)], T0, [5] * 12, gear=False), dict()
    yield 'several windows in one period', Hist([Fr(i, 40) for i in range(25)], [1] * 25, [5] * 25), dict(data_window=10, static_quantile=1)
    yield 'windows that fit in one period', Hist([Fr(i, 40) for i in range(20)], [1] * 20, [5] * 20), dict(data_window=10, static_quantile=0)
    yield 'daily windows', Hist([Fr(143 * i, 1000) for i in range(30)], [1] * 30, [5] * 30), dict(data_window=5, period_days=1, static_quantile=Fr(1, 2), )
    yield 'daily windows, few points some days', Hist([Fr(143 * i, 1000) for i in range(14)] + [Fr(2 * i + 30, 10) for i in range(3)] + [5 + Fr(i, 8) for i in range(13)], [1] * 30, [5] * 30), dict(data_window=6, period_days=1, static_quantile=1)
    yield 'windows wider than the data', Hist([Fr(143 * i, 1000) for i in range(30)], [1] * 30, [5] * 30), dict(data_window=100, period_days=1)
    yield 'drift in one exposure', Hist([Fr(i, 40) for i in range(16)], [1] * 12 + [0] * 4, [31] * 6 + [32] * 6 + [33] * 4), dict()
    yield 'drift in many exposures', Hist([Fr(16 * i, 1000) for i in range(36)], [0] * 24 + [1] * 12, [40 + i // 2 for i in range(36)]), dict()
    yield 'exposures in some windows only', Hist([Fr(i, 8) for i in range(34)], [int(i % 4 < 2) for i in range(34)], [40 + i // 2 for i in range(34)]), dict(data_window=4, period_days=1, static_quantile=0)
    yield 'exposures in some windows only, all windows used', Hist([Fr(i, 8) for i in range(34)], [int(i % 4 < 2) for i in range(34)], [40 + i // 2 for i in range(34)]), dict(data_window=4, period_days=1, static_quantile=1, outlier_rejection=TRUE)
    notes = ['arc calibration seq 1', 'arc calibration', 'seq 2 arc', 'grid', 'other', 'grid seq 1'] * 4
    yield 'moves chosen by their note', Hist([Fr(i, 40) for i in range(24)], [1] * 24, [5] * 24, notes=notes, chosen=[1, 0, 1, 1, 0, 1] * 4), dict(log_note_selection=strc('arc & seq | grid'))
    yield 'recent rehome forced', Hist([Fr(i, 40) for i in range(16)], [1] * 2 + [0] * 14, [31] * 16), dict(force_recent_rehome=TRUE)


def reports(c):
    for tag, h, kw in histories():
        c.guard(report, c, tag, h, kw)


def report(c, tag, h, kw):
    fits, written = Fits(), []
    R = setup(c, h, fits, written)
    if execute(c, R, tag, **kw) is None and c.obs and c.obs[-1]['name'] == tag:
        return
    where = R.where(Q)
    forced = 'force_recent_rehome' in kw
    reh = [1] * h.n if forced else h.rehome
    rows = h.rows()
    sec = [h.sec(i) for i in rows]
    period = kw.get('period_days', 1000) * DAY
    dates, d = [], sec[0]
    while d < sec[-1]:
        dates.append(d)
        d += period
    w = kw.get('data_window', 1000)
    calls = []          # (mode, rows)
    first = [i for i in rows if reh[i]] if not all(reh[i] for i in rows) else []
    if first:
        calls += [('static', first[a:b + 1]) for a, b in windows([h.sec(i) for i in first], dates, w)]
    ninit = len(calls)
    cases = [rows[a:b + 1] for a, b in windows(sec, dates, w)]
    calls += [('static', r) for r in cases] + [('dynamic', r) for r in cases]
    if len(fits.calls) != len(calls):
        fault(c, R, '%s: windows' % tag, 'rows of the windows', '%d fits, expected %d' % (len(fits.calls), len(calls)))
        return
    c.ok('%s: windows' % tag, 'rows of the windows', where)
    quant = kw.get('static_quantile', Fr(5, 100))

    def best(lo, hi):
        err = {n: fits.error(n) for n in range(lo, hi)}
        cut = percentile(list(err.values()), Fr(quant))
        sel = [n for n in err if err[n] <= cut]
        par = {n: fits.answer(n)[0] for n in err}
        out = {}
        for q in sorted({q for p in par.values() for q in p}):
            v = [par[n][q] for n in sel if q in par[n]] or [par[n][q] for n in err if q in par[n]]
            out[q] = median(v)
        return out
    for n, ((mode, r), got) in enumerate(zip(calls, fits.calls)):
        nm = '%s: fit %d (%s)' % (tag, n + 1, mode)
        if got['mode'] != mode:
            fault(c, R, nm, 'rows of the windows', 'is a %s fit' % got['mode'])
            return
        want = dict(posintT=[h.cell('POS_T', i) for i in r], posintP=[h.cell('POS_P', i) for i in r], recent_rehome=[const(reh[i]) for i in r])
        for j, x in enumerate(('ptlX', 'ptlY')):
            want[x] = [ptl(h.cell('X_FP', i), h.cell('Y_FP', i))[j] for i in r]
        for x in 'TP':
            want['gear' + x] = [h.cell('GEAR_CALIB_' + x, i) if h.gear else ONE for i in r]
        bad = None
        for x, v in want.items():
            if len(got[x]) != len(v):
                bad = '%s has %d points, expected %d' % (x, len(got[x]), len(v))
                break
            e = [(p, q) for p, q in zip(got[x], v) if not same(p, q)]
            if e:
                bad = '%s is %s, expected %s' % (x, tm.show(e[0][0])[:100], tm.show(e[0][1])[:100])
                if opaque([e[0][0]]):
                    raise I.Unsupported(bad)
                break
        s = [int(x.data) for x in got['sequence_id']]
        if not bad and (len(s) != len(r) or any((s[i] == s[j]) != (h.expo[r[i]] == h.expo[r[j]]) for i in range(len(s)) for j in range(i))):
            bad = 'sequences %s of exposures %s' % (s, [h.expo[i] for i in r])
        if not bad and (got['outlier_rejection'] is not kw.get('outlier_rejection', FALSE)):
            bad = 'outlier rejection %s' % tm.show(got['outlier_rejection'])
        if not bad and got['keep_fixed']:
            bad = 'fixed parameters %s' % got['keep_fixed']
        if bad:
            fault(c, R, nm + ': data', 'rows of the windows', bad)
        else:
            c.ok(nm + ': data', 'rows of the windows', where)
        nom = {k: Fr(v) for k, v in DEFAULT.items()} if n < ninit or (mode == 'static' and not ninit) else best(0, ninit) if mode == 'static' else best(ninit, ninit + len(cases))
        gn = got['nominals']
        if gn is None:
            gn = {k: const(v) for k, v in DEFAULT.items()}
        e = [k for k in nom if k not in gn or not same(gn[k], const(nom[k]))]
        if e:
            k = e[0]
            fault(c, R, nm + ': nominal values', 'nominal values of the fits', '%s is %s, expected %s' % (k, tm.show(gn[k]) if k in gn else 'missing', float(nom[k])))
        else:
            c.ok(nm + ': nominal values', 'nominal values of the fits', where)
    if len(written) != 1:
        fault(c, R, '%s: report' % tag, 'columns of the report', '%d files written' % len(written))
        return
    name, out = written[0]
    R.same('%s: file name' % tag, 'columns of the report', Q, TRUE if tm.show(name).strip('\'"').endswith('M00123_paramfits.csv') or name.op != 'str' else FALSE, TRUE)
    order = sorted(range(len(cases)), key=lambda j: h.sec(cases[j][-1]))
    want = {}
    want['POS_ID'] = [strc('M00123')] * len(order)
    want['NUM_POINTS'] = [len(cases[j]) for j in order]
    for end, k in (('START', 0), ('END', -1)):
        want['DATA_%s_DATE' % end] = [strc(h.date(cases[j][k])) for j in order]
        want['DATA_%s_DATE_SEC' % end] = [h.sec(cases[j][k]) for j in order]
    want['FLAGS'] = [0] * len(order)
    want.update(PETAL_ID=[7] * len(order), PETAL_LOC=[3] * len(order), DEVICE_LOC=[88] * len(order))
    zero = set()
    for mode, base in (('STATIC', ninit), ('DYNAMIC', ninit + len(cases))):
        ns = [base + j for j in order]
        want['FIT_ERROR_' + mode] = [fits.error(n) for n in ns]
        want['NUM_POINTS_IN_FIT_' + mode] = [1000 + n for n in ns]
        want['ANALYSIS_DATE_' + mode] = [strc('now') for n in ns]
        ans = [fits.answer(n) for n in ns]
        for q in sorted({q for p, _ in ans for q in p}):
            want['%s_%s' % (q, mode)] = [p.get(q) for p, _ in ans]
        for i, x in enumerate(KEYS):
            want['ERR.%s_%s' % (x, mode)] = [('sqrt', v['COV.%s.%s' % (x, x)]) for _, v in ans]
            for y in KEYS[i + 1:]:
                v = [v.get('COV.%s.%s' % (x, y), v.get('COV.%s.%s' % (y, x), Fr(0))) for _, v in ans]
                k = 'COV.%s_%s.%s_%s' % (x, mode, y, mode)
                want[k] = v
                if not any(v):
                    zero.add(k)
    for k, v in want.items():
        nm = '%s: column %s' % (tag, k)
        alt = None
        if k not in out and k.startswith('COV.'):
            a, b = k[4:].split('.')
            alt = 'COV.%s.%s' % (b, a)
        g = out.get(k, out.get(alt))
        if g is None:
            if k not in zero:
                fault(c, R, nm, 'columns of the report', 'missing')
            continue
        if len(g) != len(v):
            fault(c, R, nm, 'columns of the report', '%d rows, expected %d' % (len(g), len(v)))
            continue
        for j, (x, y) in enumerate(zip(g, v)):
            if y is None:
                if x is not fn('NAN'):
                    fault(c, R, nm, 'columns of the report', 'row %d is %s, expected undefined' % (j, tm.show(x)))
                    break
                continue
            y = fn('sqrt', const(y[1])) if isinstance(y, tuple) else y if isinstance(y, T) else const(y)
            if not same(x, y):
                fault(c, R, nm, 'columns of the report', 'row %d is %s, expected %s' % (j, tm.show(x)[:100], tm.show(y)[:100]), [x])
                break
        else:
            c.ok(nm, 'columns of the report', where)


def same(a, b):
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T) or 'str' in (a.op, b.op):
        return False
    return tm.equal(a, b, tol=1e-9).kind == 'holds'


def failures(c):
    """positioners that cannot be calibrated are reported with their flags only"""
    day = lambda n: [Fr(i, 40) for i in range(n)]
    h = lambda n, r, **k: Hist(day(n), r, [5] * n, **k)
    for tag, hist, flags, kw, want in (
            ('another positioner', h(12, [1] * 12), {}, dict(posid=strc('M00999')), INVALID),
            ('nine moves', h(9, [1] * 9), {}, {}, SHORT),
            ('nine moves left', h(12, [1] * 12, enabled=[1] * 10 + [0] * 2, moves=[1, 1] + list(range(2, 12))), {}, {}, SHORT),
            ('no move left', h(12, [1] * 12, enabled=[0] * 12), {}, {}, SHORT),
            ('ten moves', h(10, [1] * 10), {}, {}, None),
            ('five moves, smallest number five', h(5, [1] * 5), {}, dict(min_window=5), None),
            ('four moves, smallest number five', h(4, [1] * 4), {}, dict(min_window=5), SHORT),
            ('nine moves with recent rehome', h(20, [1] * 9 + [0] * 11), {}, {}, SHORT),
            ('ten moves with recent rehome', h(20, [1] * 10 + [0] * 10), {}, {}, None),
            ('stuck axis', h(12, [1] * 12), {0: 5}, {}, 5),
            ('a failed window', h(40, [1] * 40), {2: 4, 3: 1}, dict(data_window=10), 5),
            ('a failed first window', h(40, [1] * 40), {0: 6}, dict(data_window=10), 6),
            ('failure of the moves with recent rehome', h(24, [1] * 12 + [0] * 12), {0: 4}, {}, 4)):
        fits, written = Fits(flags=flags), []
        c.guard(failure, c, 'failures: ' + tag, hist, fits, written, kw, want)


def failure(c, tag, hist, fits, written, kw, want):
    R = setup(c, hist, fits, written)
    n = len(c.obs)
    execute(c, R, tag, **kw)
    if len(c.obs) > n:
        return
    rule = 'failures are flagged'
    if len(written) != 1:
        return fault(c, R, tag, rule, '%d files written' % len(written))
    name, out = written[0]
    par = [k for k in out if any(q in k for q in KEYS)]
    if want is None:
        if not par:
            return fault(c, R, tag, rule, 'no parameters in the report')
        return c.ok(tag, rule, R.where(Q))
    if par or any(v['mode'] == 'dynamic' for v in fits.calls):
        return fault(c, R, tag, rule, 'parameters are fitted and reported')
    fl = out.get('FLAGS')
    if fl is None or len(fl) != 1 or not same(fl[0], const(want)):
        return fault(c, R, tag, rule, 'flags %s, expected %d' % ([tm.show(x) for x in fl] if fl else None, want), fl)
    pid = out.get('POS_ID')
    if pid is None or pid[0] is not kw.get('posid', strc('M00123')):
        return fault(c, R, tag, rule, 'positioner %s' % [tm.show(x) for x in pid or []])
    c.ok(tag, rule, R.where(Q))
