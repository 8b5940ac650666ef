"""Exchange of files with the external identification program: the call is interpreted with stand-ins for files, the
program and the transform; what each file and the command line hold is read back word by word and compared with the
metrology table, the given spots and the expected positions."""
import itertools, re, string
from fractions import Fraction
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
from checks.c16 import inst, tab, column, names
M = 'desimeter.spotmatch.'
FT = 'desimeter.transform.fvc2fp.FVC2FP'
Q = M + 'spotmatch'
RULE = 'files exchanged with the external program'
# location, type, pinhole of the rows of the metrology
METRO = [(1002, 'POS', 0), (1541, 'FIF', 3), (1541, 'FIF', 1), (9542, 'GIF', 2), (1541, 'FIF', 4), (2003, 'POS', 0), (1541, 'FIF', 2), (9542, 'GIF', 1),
         (3011, 'ETC', 0), (9542, 'GIF', 5), (1001, 'POS', 0), (2543, 'FIF', 4)]
NUM = {1: 515, 2: 1027, 3: 259, 4: 771}
FILES = ('fiducial_config_file', 'target_pos_file', 'measured_pos_file', 'reference_pos_file', 'device_centers_file')


class Text(Exception):
    pass


def pieces(t):
    """text with symbols as a list of strings and (value, format) pairs"""
    if t.op == 'str':
        return [t.data]
    if t.op in ('c', 's'):
        return [(t, '')]
    if t.op == '+' or t.op == 'f' and t.data == 'strcat':
        return [p for a in t.args for p in pieces(a)]
    if t.op == 'f' and t.data in ('strmethod:replace', 'method:replace') and len(t.args) == 3:
        x, old, new = [[y for p in pieces(a) for y in (p if isinstance(p, str) else [p])] for a in t.args]
        out, i = [], 0
        while i < len(x):
            if old and x[i:i + len(old)] == old:
                out += new
                i += len(old)
            else:
                out.append(x[i])
                i += 1
        return out
    if t.op == 'f' and t.data == 'formatted':
        return [(t.args[0], t.args[1].data)]
    if t.op == 'f' and t.data == 'strformat':
        out, n = [], 0
        named = {a.data[3:]: a.args[0] for a in t.args[1:] if a.op == 'f' and a.data.startswith('kw:')}
        pos = [a for a in t.args[1:] if not (a.op == 'f' and a.data.startswith('kw:'))]
        if t.args[0].op != 'str':
            raise Text('format of an unknown text')
        for lit, field, spec, conv in string.Formatter().parse(t.args[0].data):
            out.append(lit)
            if field is not None:
                if field == '':
                    field = str(n)
                    n += 1
                if field.isdigit() and int(field) < len(pos):
                    v = pos[int(field)]
                elif field in named:
                    v = named[field]
                else:
                    raise Text('field %s' % field)
                out.append((v, spec or ''))
        return out
    if t.op == 'f' and t.data == 'fmt' and len(t.args) == 2 and t.args[0].op == 'str' and re.search(r'%[-+0-9.]*[a-z]', t.args[0].data):
        vs = list(t.args[1].args) if t.args[1].op == 'f' and t.args[1].data in ('tuple', 'list') else [t.args[1]]
        out = []
        for x in re.split(r'(%[-+ 0-9.]*[a-zA-Z%])', t.args[0].data):
            if re.fullmatch(r'%[-+ 0-9.]*[a-zA-Z]', x):
                if not vs:
                    raise Text('too few values')
                out.append((vs.pop(0), x[1:] if x[-1] not in 'sd' or len(x) > 2 else ''))
            else:
                out.append('%' if x == '%%' else x)
        return out
    if t.op == 'f' and t.data == 'fmt':
        return [p for a in t.args for p in pieces(a)]
    if t.op == 'f' and t.data == 'str' and len(t.args) == 1:
        return [(t.args[0], '')]
    return [(t, '')]


def words(t):
    """words of a text, each a string or a (value, format) pair, by line"""
    lines, cur, w = [], [], None
    for p in pieces(t):
        if isinstance(p, str):
            for x in re.split(r'(\s)', p):
                if x == '':
                    continue
                if x.isspace():
                    if w is not None:
                        cur.append(w)
                        w = None
                    if x == chr(10):
                        lines.append(cur)
                        cur = []
                else:
                    if isinstance(w, tuple):
                        raise Text('text behind a value')
                    w = (w or '') + x
        else:
            v, spec = p
            if v.op == 'str':
                if isinstance(w, tuple):
                    raise Text('text behind a value')
                w = (w or '') + v.data
                continue
            if w is not None:
                raise Text('value behind a text: %r' % (w,))
            w = (v, spec)
    if w is not None:
        cur.append(w)
    return lines + [cur] if cur else lines


def value(w):
    if isinstance(w, tuple):
        return w[0]
    try:
        return const(Fraction(w))
    except ValueError:
        return strc(w)


def digits(w):
    """digits behind the point"""
    if not isinstance(w, tuple):
        return 99
    m = re.fullmatch(r'[-+ 0]*\d*\.(\d+)([fFeEgG]?)', w[1])
    if m:
        return int(m.group(1)) if m.group(2) in ('f', 'F', 'e', 'E') else 0
    return 99 if w[1] in ('', 's', 'r') else 0


class Bench(object):
    def __init__(self, c, status=((ZERO, 'done'),), expected=True, own=True, installed=True):
        self.c = c
        self.R = R = c.runner()
        ip = R.ip
        self.files, self.cmds, self.fresh, self.which = {}, [], [], installed
        self.results = list(status)
        self.mx, self.my = names('mx', len(METRO)), names('my', len(METRO))
        cols = {'LOCATION': [x[0] for x in METRO], 'DEVICE_TYPE': [x[1] for x in METRO], 'PINHOLE_ID': [x[2] for x in METRO], 'DEVICE_ID': ['D%d' % x[0] for x in METRO],
                'PETAL_LOC': [x[0] // 1000 for x in METRO], 'DEVICE_LOC': [x[0] % 1000 for x in METRO], 'X_FP': self.mx, 'Y_FP': self.my}
        k = self

        def lines(ip, a, kw):
            return ip.new(I.ListC([(TRUE, strc(' 1002 10.5 11.25 12.0 4 0.5 positioner' + chr(10)))]))

        def opening(ip, a, kw):
            p = ip.toterm(a[0])
            mode = a[1] if len(a) > 1 else kw.get('mode', strc('r'))
            name = p.data if p.op == 'str' else tm.show(p)
            if mode.data.startswith('w'):
                k.files[name] = []
                return inst(ip, 'file', write=I.Native(lambda ip, a, kw: k.files[name].append(ip.toterm(a[0])) or NONE), close=I.Native(lambda ip, a, kw: NONE),
                            writelines=I.Native(lambda ip, a, kw: k.files[name].extend(ip.toterm(x) for x in ip.known_items(a[0])) or NONE))
            return inst(ip, 'file', readlines=I.Native(lines), read=I.Native(lambda ip, a, kw: strc(' 1002 10.5 11.25 12.0 4 0.5 positioner')), close=I.Native(lambda ip, a, kw: NONE))

        def run(ip, a, kw):
            k.cmds.append(ip.toterm(a[0]))
            st, out = k.results[min(len(k.cmds), len(k.results)) - 1]
            return (st, strc(out))

        def line(ip, v):
            v0 = ip.known_items(v) if not isinstance(v, (str,)) and not (hasattr(v, 'op')) else None
            if v0 is None:
                return v
            out = []
            for x in v0:
                out += [strc(' ')] * bool(out) + [ip.toterm(x)]
            return tm.fn('strcat', *out)

        def completed(ip, a, kw):
            st, out = run(ip, [line(ip, a[0] if a else kw['args'])], {})
            text = kw.get('text', kw.get('universal_newlines', kw.get('encoding')))
            out = out if text is not None else inst(ip, 'bytes', decode=I.Native(lambda ip, a, kw: out))
            return inst(ip, 'CompletedProcess', returncode=st, stdout=out, stderr=strc(''))

        def newdir(ip, a, kw):
            k.fresh.append('/private%d' % len(k.fresh))
            return strc(k.fresh[-1])

        def newfile(ip, a, kw):
            k.fresh.append('/private%d' % len(k.fresh))
            return (const(7), strc(k.fresh[-1]))

        def transform(tag):
            def tx(f, g):
                return I.Native(lambda ip, a, kw: tuple(ip.map2(lambda x, y, h=h: tm.fn('model:' + h, sym('transform_' + tag), x, y), a[0], a[1]) for h in (f, g)))

            def forward(ip, a, kw):
                x, y = [ip.to_arr(v) for v in a[:2]]
                s = [[sym('%s_%s' % (n, tag)) for n in r] for r in ('abc', 'def')]
                return tuple(ip.map2(lambda u, v, r=r: tm.add(tm.add(tm.mul(r[0], u), tm.mul(r[1], v)), r[2]), x, y) for r in s)
            return inst(ip, 'FVC2FP', fp2fvc=tx('px', 'py'), fvc2fp=I.Native(forward))
        self.transform = transform
        default = lambda ip, a, kw: transform('default')
        quiet = lambda ip, a, kw: NONE
        ip.models.update({'shutil.which': lambda ip, a, kw: strc('/bin/match_positions') if installed else NONE, 'tempfile.gettempdir': lambda ip, a, kw: strc('/shared'),
                          'tempfile.mkdtemp': newdir, 'tempfile.mkstemp': newfile, 'tempfile.TemporaryDirectory': lambda ip, a, kw: inst(ip, 'tmp', name=newdir(ip, a, kw), cleanup=I.Native(quiet)),
                          'shutil.rmtree': quiet, 'os.remove': quiet, 'os.unlink': quiet, 'os.makedirs': quiet, 'os.rmdir': quiet,
                          'subprocess.getstatusoutput': run, 'subprocess.run': completed, 'subprocess.getoutput': lambda ip, a, kw: run(ip, a, kw)[1], 'builtins.open': opening, 'astropy.table.Table': lambda ip, a, kw: R('refs.table.Table'),
                          'desimeter.io.load_metrology': lambda ip, a, kw: tab(R, cols), 'desimeter.io.fvc2fp_filename': lambda ip, a, kw: strc('/data/init-fvc2fp.json'),
                          FT + '.read': default, FT + '.read_jsonfile': default})
        kw = {}
        self.n = 3
        self.X, self.Y = names('X_', 3), names('Y_', 3)
        if expected:
            self.exp = [(2003, sym('ex0'), sym('ey0')), (1001, sym('ex1'), sym('ey1'))]
            kw.update(expected_x_fp=R.arr(*[e[1] for e in self.exp]), expected_y_fp=R.arr(*[e[2] for e in self.exp]), expected_location=R.arr(*[const(e[0]) for e in self.exp]))
        else:
            self.exp = [(m[0], x, y) for m, x, y in zip(METRO, self.mx, self.my) if m[1] == 'POS']
        if own:
            kw['fvc2fp'] = transform('own')
        self.tag = 'own' if own else 'default'
        self.kw = kw

    def go(self, **kw):
        return self.R(Q, self.R.arr(*self.X), self.R.arr(*self.Y), **dict(self.kw, **kw))

    def options(self, i=0):
        ls = words(self.cmds[i])
        if len(ls) != 1 or not ls[0]:
            raise Text('command of several lines')
        ws = ls[0][1:]
        d = {}
        j = 0
        while j < len(ws):
            k = ws[j]
            if not isinstance(k, str) or not k.startswith('-') or j + 1 >= len(ws):
                raise Text('option expected: %r' % (k,))
            d[k[1:]] = ws[j + 1]
            j += 2
        return ls[0][0], d

    def table(self, path):
        t = strc('')
        out = []
        for x in self.files.get(path, []):
            out.append(x)
        ls, cur = [], []
        # a line may be written in parts
        buf = []
        for x in out:
            buf += [x]
        t = tm.fn('strcat', *buf) if len(buf) > 1 else (buf[0] if buf else strc(''))
        return [l for l in words(t) if l]


def fiducials(b):
    d = {}
    for m, x, y in zip(METRO, b.mx, b.my):
        if m[1] in ('FIF', 'GIF'):
            d.setdefault(m[0], []).append((m[2], x, y))
    return d


def mean(v):
    s = v[0]
    for x in v[1:]:
        s = tm.add(s, x)
    return tm.div(s, const(len(v)))


def run(c):
    c.floor = 60
    for f in (exchange, private, command, failures):
        c.guard(f, c)
    return ''


def rows(c, b, name, path, want, exact=(), order=True):
    """lines of a file against tuples of values; the values at the positions `exact` identify a line"""
    q = Q
    try:
        got = b.table(path)
    except Text as e:
        return c.undecided(name, RULE, b.R.where(q), str(e))
    if any(tm.has_unsupported(value(w)) for l in got for w in l):
        return c.undecided(name, RULE, b.R.where(q), 'outside the modelled language')
    if len(got) != len(want):
        return c.bad(name + ': lines', RULE, b.R.where(q), '%d lines, expected %d' % (len(got), len(want)))
    c.ok(name + ': lines', RULE, b.R.where(q))
    if not order:
        key = lambda l: tuple(tm.show(value(l[i])) if i < len(l) else '' for i in exact)
        got = sorted(got, key=key)
        want = sorted(want, key=lambda l: tuple(tm.show(l[i]) for i in exact))
    for i, (g, w) in enumerate(zip(got, want)):
        for j, x in enumerate(w):
            if x is None:
                continue
            nm = '%s: line %d, word %d' % (name, i + 1, j + 1)
            if j >= len(g):
                c.bad(nm, RULE, b.R.where(q), 'missing')
                continue
            b.R.same(nm, RULE, q, value(g[j]), x)
            if digits(g[j]) < 3 and not (x.op == 'c' and x.data.denominator == 1):
                c.bad(nm + ', digits', RULE, b.R.where(q), 'written with %d digits behind the point' % digits(g[j]))


def exchange(c):
    for expected, own in itertools.product((True, False), (True, False)):
        b = Bench(c, expected=expected, own=own)
        tag = '%s, %s' % ('expected positions' if expected else 'positioner centers', 'transform of the caller' if own else 'default transform')
        try:
            b.go()
        except I.RowError as e:
            c.bad(tag, RULE, b.R.where(Q), 'fails: %s' % e)
            continue
        try:
            prog, o = b.options()
        except (Text, IndexError) as e:
            c.undecided(tag, RULE, b.R.where(Q), 'command not decided: %s' % e)
            continue
        lost = [f for f in FILES + ('reduced_pos_file',) if not isinstance(o.get(f), str)]
        if lost:
            c.bad('%s: files named' % tag, RULE, b.R.where(Q), 'no %s in the command' % ', '.join(lost))
            continue
        path = {f: o[f] for f in FILES}
        for f in FILES:
            nm = '%s: -%s' % (tag, f)
            if path[f] not in b.files:
                c.bad(nm, RULE, b.R.where(Q), 'nothing was written to %s' % path[f])
            else:
                c.ok(nm, RULE, b.R.where(Q))
        if len(set(path.values()) | {o['reduced_pos_file']}) != len(FILES) + 1:
            c.bad('%s: distinct files' % tag, RULE, b.R.where(Q), 'two options name the same file')
        else:
            c.ok('%s: distinct files' % tag, RULE, b.R.where(Q))
        fid = fiducials(b)
        fx = lambda f, x, y, t: tm.fn('model:' + f, sym('transform_' + t), x, y)
        pix = lambda x, y, t: (fx('px', x, y, t), fx('py', x, y, t))
        mid = {l: (mean([p[1] for p in v]), mean([p[2] for p in v])) for l, v in fid.items()}
        # targets: where each device is expected in the image, the flag of its kind
        rows(c, b, tag + ': targets', path['target_pos_file'], [(const(l),) + pix(x, y, b.tag) + (None, None, const(4)) for l, x, y in b.exp]
             + [(const(l),) + pix(*mid[l], b.tag) + (None, None, const(8)) for l in sorted(fid)], exact=(0,), order=False)
        rows(c, b, tag + ': measured spots', path['measured_pos_file'], [(x, y, None, const(i + 1), None) for i, (x, y) in enumerate(zip(b.X, b.Y))])
        # fiducials: offset of the pinholes from the middle of the fiducial
        want = []
        for l in sorted(fid):
            want.append((const(l), ZERO, ZERO, None, None, ZERO, const(8)))
            want += [(const(l), tm.sub(x, mid[l][0]), tm.sub(y, mid[l][1]), None, None, const(p), const(2)) for p, x, y in fid[l] if p <= 4]
        rows(c, b, tag + ': fiducial patterns', path['fiducial_config_file'], want, exact=(0, 5), order=False)
        if not own:
            rows(c, b, tag + ': device centers', path['device_centers_file'], [(const(m[0]),) + pix(x, y, 'default') + (None, None, const(4)) for m, x, y in zip(METRO, b.mx, b.my) if m[1] == 'POS']
                 + [(const(l),) + pix(*mid[l], 'default') + (None, None, const(8)) for l in sorted(fid)], exact=(0,), order=False)
            rows(c, b, tag + ': pinhole references', path['reference_pos_file'], [(const(l),) + pix(x, y, 'default') + (None, const(NUM[p]), None, strc('pinhole'))
                 for l in sorted(fid) for p, x, y in fid[l] if p in NUM], exact=(0, 4), order=False)
        scale(c, b, tag, o)


def scale(c, b, tag, o):
    s = {n: sym('%s_%s' % (n, b.tag)) for n in 'abcdef'}
    det = tm.sub(tm.mul(s['a'], s['e']), tm.mul(s['b'], s['d']))
    want = b.R('refs.spot.root', det)
    for k, w in (('exp_pixel_scale', want), ('positioner_reach', tm.div(const(Fraction(66, 10)), want))):
        if k not in o:
            c.bad('%s: -%s' % (tag, k), RULE, b.R.where(Q), 'not given')
            continue
        b.R.same('%s: -%s' % (tag, k), RULE, Q, value(o[k]), w)


def command(c):
    """values handed on"""
    b = Bench(c)
    b.go(match_radius_pixels=sym('radius'), verbose=sym('verbose'))
    try:
        prog, o = b.options()
    except Text as e:
        return c.undecided('command', RULE, b.R.where(Q), str(e))
    b.R.same('command: program', RULE, Q, value(prog), strc('match_positions'))
    for k, w in (('match_radius', sym('radius')), ('verbose', sym('verbose')), ('image_rows', const(6000)), ('image_cols', const(6000)), ('target_x0', ZERO), ('target_y0', ZERO),
                 ('target_x_dir', ONE), ('target_y_dir', ONE), ('fid_x_dir', const(-1)), ('fid_y_dir', ONE)):
        if k not in o:
            c.bad('command: -%s' % k, RULE, b.R.where(Q), 'not given')
        else:
            b.R.same('command: -%s' % k, RULE, Q, value(o[k]), w)


def private(c):
    """no file is shared with another call"""
    b = Bench(c)
    b.go()
    try:
        prog, o = b.options()
    except Text as e:
        return c.undecided('files of one call', RULE, b.R.where(Q), str(e))
    for k, v in sorted(o.items()):
        if k.endswith('_file'):
            nm = 'file of one call: -%s' % k
            if not isinstance(v, str):
                c.undecided(nm, RULE, b.R.where(Q), 'path not decided')
            elif any(v == f or v.startswith(f + '/') for f in b.fresh):
                c.ok(nm, RULE, b.R.where(Q))
            else:
                c.bad(nm, RULE, b.R.where(Q), '%s is the same for every call: calls at the same time, or a run that writes nothing, exchange results' % v)


def failures(c):
    """a failing program is never taken for an answer"""
    old = 'unexpected command-line argument [ -positioner_reach ]'
    for tag, status, installed, want, ncmd in (
            ('program not installed', [(ZERO, 'done')], False, True, 0),
            ('program fails', [(ONE, 'no fiducials')], True, True, 1),
            ('old program', [(ONE, old), (ZERO, 'done')], True, False, 2),
            ('old program that fails', [(ONE, old), (const(3), 'no fiducials')], True, True, 2)):
        b = Bench(c, status=status, installed=installed)
        nm = tag + ': '
        ip = b.R.ip
        n, where = len(ip.raises), b.R.where(Q)
        failed = False
        try:
            b.go()
        except (I.Unsupported, AttributeError) as e:
            if not (isinstance(e, I.Raised) or ip.state is None and len(ip.raises) > n):
                c.undecided(nm + 'outcome', RULE, where, str(e))
                continue
            failed = True
        except I.RowError:
            failed = True
        if failed == want:
            c.ok(nm + 'outcome', RULE, where)
        else:
            c.bad(nm + 'outcome', RULE, where, 'an error is raised' if failed else 'no error is raised')
        if len(b.cmds) == ncmd:
            c.ok(nm + 'runs', RULE, where)
        else:
            c.bad(nm + 'runs', RULE, where, 'the program is run %d times, expected %d' % (len(b.cmds), ncmd))
        if ncmd == 2 and len(b.cmds) == 2:
            try:
                one, two = b.options(0), b.options(1)
            except Text as e:
                c.undecided(nm + 'second run', RULE, where, str(e))
                continue
            w = dict(one[1])
            w.pop('positioner_reach', None)
            if two == (one[0], w):
                c.ok(nm + 'second run', RULE, where)
            else:
                c.bad(nm + 'second run', RULE, where, 'is not the first command without -positioner_reach')
