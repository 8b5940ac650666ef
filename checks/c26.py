"""Processing of camera images: value graphs of the processing for given options, with stand-ins that record which
image is read, what is done with it, and which files are written."""
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm
from checks.c16 import inst, ARGS, bind, C, tab, column
PF = 'desimeter.processfvc.'
RULE = 'what is read, passed on and written'


def run(c):
    c.floor = 60
    for f in (images, prepare, pipeline, cached):
        c.guard(f, c)
    return ''


def text(ip, v):
    v = ip.toterm(v)
    return v.data if isinstance(v, T) and v.op == 'str' else None


def options(R, **kw):
    d = dict(ARGS)
    for k, v in kw.items():
        d[k] = strc(v) if isinstance(v, str) else v
    return inst(R.ip, 'args', **d)


def fitsfile(R, names):
    """file with an empty first extension unless there is only one"""
    ip = R.ip
    hd, hm = [], {}
    for i, n in enumerate(names):
        h = R('refs.fitsfile.Hdu', sym('im%d' % i, ['rows', 'columns']))
        hd.append((TRUE, h))
        hm[ip.dkey(const(i))] = h
        if n:
            hm[n.lower()] = h
    return R('refs.fitsfile.FITS', ip.new(I.ListC(hd)), ip.new(I.DictC(hm)))


def images(c):
    q = PF + 'get_spots_list'
    img = lambda i: sym('im%d' % i, ['rows', 'columns'])
    bias = sym('bias', ['rows', 'columns'])
    opts = dict(min_counts_per_pixel=sym('cpp'), min_counts=sym('cps'), fvc_psf_sigma=sym('psf'))
    for tag, names, kw, want in (
            ('file with a single image', [None], dict(extname='F0007'), [0]),
            ('named image', [None, 'F0000', 'F0001', 'F0002'], dict(extname='F0001'), [2]),
            ('image named otherwise', [None, 'F0000', 'BACK', 'F0001'], dict(extname='BACK'), [2]),
            ('default name', [None, 'BACK', 'F0000', 'F0001'], dict(), [2]),
            ('last image', [None, 'F0000', 'F0001', 'F0002'], dict(extname='last'), [3]),
            ('last image, others after it', [None, 'F0000', 'F0001', 'BACK'], dict(extname='last'), [2]),
            ('last image, numbers from 1', [None, 'F0001', 'F0002', 'F0003'], dict(extname='last'), [3]),
            ('last image, more than ten', [None] + ['F%04d' % i for i in range(12)], dict(extname='last'), [12]),
            ('last image, numbers with a gap', [None, 'F0000', 'F0008'], dict(extname=' last '), [2]),
            ('sequence', [None, 'F0000', 'BACK', 'F0001', 'F0002'], dict(sequence=TRUE), [1, 3, 4]),
            ('sequence of more than ten', [None] + ['F%04d' % i for i in range(12)], dict(sequence=TRUE), list(range(1, 13)))):
        for withbias in (False, True):
            seen, opened = [], []
            R = c.runner()

            def detect(ip, a, kw):
                b = dict(zip(['fvcimage', 'min_counts_per_pixel', 'min_counts_per_spot', 'nsig', 'psf_sigma'], a))
                b.update(kw)
                seen.append(b)
                return sym('spots%d' % len(seen))

            def opening(ip, a, kw):
                opened.append(text(ip, a[0]))
                return fitsfile(R, names)
            R.ip.models.update({'fitsio.FITS': opening, 'desimeter.detectspots.detectspots': detect})
            args = options(R, infile='/d/image.fits.fz', bias=bias if withbias else NONE, **dict(opts, **kw))
            t = '%s%s: ' % (tag, ', with a bias image' if withbias else '')
            try:
                got = R(q, args, I.IGN)
            except (I.RowError, KeyError) as e:
                c.bad(t + 'images read', RULE, R.where(q), 'no such image: %s' % e)
                continue
            if opened != ['/d/image.fits.fz']:
                c.undecided(t + 'images read', RULE, R.where(q), 'files opened: %s' % opened)
                continue
            if len(seen) != len(want):
                c.bad(t + 'images read', RULE, R.where(q), '%d images are processed, expected %d' % (len(seen), len(want)))
                continue
            for i, b in zip(want, seen):
                w = sub(img(i), bias) if withbias else img(i)
                R.same('%simage given to the detection (number %d)' % (t, i), RULE, q, b['fvcimage'], w)
            for k, o in (('min_counts_per_pixel', 'cpp'), ('min_counts_per_spot', 'cps'), ('psf_sigma', 'psf')):
                for b in seen[:1]:
                    R.same('%soption %s of the detection' % (t, k), RULE, q, b.get(k, NONE), sym(o))
            lists = R.ip.known_items(R.ip.unpack(got, 2)[0])
            R.same(t + 'spots in the order of the images', RULE, q, tuple(lists), tuple(sym('spots%d' % (i + 1)) for i in range(len(want))))
    # a table of spots is taken as it is
    read = []
    R = c.runner()

    def table(ip, a, kw):
        read.append(text(ip, a[0]))
        return sym('table')
    R.ip.models.update({'astropy.table.Table.read': table, 'astropy.table.table.Table.read': table})
    got = R(q, options(R, infile='/d/spots.csv'), I.IGN)
    R.same('table of spots instead of an image', RULE, q, tuple(R.ip.known_items(R.ip.unpack(got, 2)[0])), (sym('table'),))


def same_value(c, R, q, name, got, want):
    """nothing, or what was read from one file"""
    known = lambda t: t is NONE or t.op == 'f' and t.data in ('image', 'spots') and t.args[0].op == 'str'
    if got is want:
        c.ok(name, RULE, R.where(q))
    elif known(got):
        c.bad(name, RULE, R.where(q), '%s, expected %s' % (tm.show(got), tm.show(want)))
    else:
        c.undecided(name, RULE, R.where(q), tm.show(got)[:200])


def prepare(c):
    """choice of the bias image, directories of the outputs"""
    q = PF + 'preproc'
    for tag, kw, have, want in (
            ('no bias asked for', dict(no_bias=TRUE, bias='/b/mine.fits'), True, None),
            ('bias file of the caller', dict(no_bias=FALSE, bias='/b/mine.fits'), True, '/b/mine.fits'),
            ('default bias file', dict(no_bias=FALSE, bias=NONE), True, '/data/bias.fits'),
            ('no default bias file', dict(no_bias=FALSE, bias=NONE), False, None)):
        R = c.runner()
        asked = []

        def isfile(ip, a, kw):
            asked.append(text(ip, a[0]))
            return TRUE if have else FALSE
        R.ip.models.update({'os.path.isfile': isfile, 'os.path.exists': isfile, 'desimeter.io.fvc_bias_filename': lambda ip, a, k: strc('/data/bias.fits'),
                            'fitsio.read': lambda ip, a, k: fn('image', ip.toterm(a[0]))})
        a = options(R, outfile='/o/out.csv', **kw)
        rc = R(q, a)
        got = R.ip.toterm(R.attr(a, 'bias'))
        same_value(c, R, q, 'bias image: ' + tag, got, NONE if want is None else fn('image', strc(want)))
        R.same('processing goes on: ' + tag, RULE, q, rc, ZERO)
    for tag, out, tr, exist, want in (('both missing', '/o/a/out.csv', '/t/b/tr.json', (), {'/o/a', '/t/b'}),
                                      ('output directory exists', '/o/a/out.csv', '/t/b/tr.json', ('/o/a',), {'/t/b'}),
                                      ('transform directory exists', '/o/a/out.csv', '/t/b/tr.json', ('/t/b',), {'/o/a'}),
                                      ('no transform asked for', '/o/a/out.csv', None, (), {'/o/a'}),
                                      ('current directory', 'out.csv', 'tr.json', (), set())):
        R = c.runner()
        made = []

        def makedirs(ip, a, kw):
            made.append(text(ip, a[0]))
            return NONE
        R.ip.models.update({'os.path.exists': lambda ip, a, k: TRUE if text(ip, a[0]) in exist or text(ip, a[0]) in made else FALSE,
                            'os.path.isdir': lambda ip, a, k: TRUE if text(ip, a[0]) in exist or text(ip, a[0]) in made else FALSE,
                            'os.makedirs': makedirs, 'os.mkdir': makedirs})
        R(q, options(R, outfile=out, output_transform=strc(tr) if tr else NONE, make_directory=TRUE))
        name = 'directories of the outputs: ' + tag
        if None in made:
            c.undecided(name, RULE, R.where(q), 'name of a directory')
        elif set(made) - set(exist) == want:
            c.ok(name, RULE, R.where(q))
        else:
            c.bad(name, RULE, R.where(q), 'made %s, expected %s' % (sorted(made), sorted(want)))


def spots_table(R, n, tag):
    return tab(R, {'XPIX': [sym('%sx%d' % (tag, i)) for i in range(n)], 'YPIX': [sym('%sy%d' % (tag, i)) for i in range(n)]})


def setup(c, sizes, extnames, ident=None, partner=(), fits=None):
    """runner whose stand-ins record what fvc_proc does for lists of spots of given sizes"""
    R = c.runner()
    rec = dict(written=[], found=[], fits=[], transforms=[], files=[], matched=[], external=[])

    def lists(ip, a, kw):
        t = [spots_table(R, n, 'abcdefghijkl'[i]) for i, n in enumerate(sizes)]
        return (ip.new(I.ListC([(TRUE, x) for x in t])), NONE if extnames is None else ip.new(I.ListC([(TRUE, strc(x)) for x in extnames])))

    def write(ip, a, kw):
        rec['written'].append((text(ip, a[1]), column(R, a[0], 'XPIX'), a[0]))
        return NONE

    def find(ip, a, kw):
        rec['found'].append(dict(zip(['spots', 'input_transform', 'pinhole_max_separation_mm'], a), **kw))
        t, n = a[0], len(column(R, a[0], 'XPIX'))
        loc, pin = zip(*ident) if ident else zip(*[(1000 + i, 4) for i in range(n)])
        for k, v in (('LOCATION', loc), ('PINHOLE_ID', pin)):
            ip.setitem(t, strc(k), R.arr(*C(list(v)[:n])))
        return t

    def transform(ip, a, kw):
        i = len(rec['files'])
        rec['files'].append(text(ip, a[-1]))

        def fit(ip, a, kw):
            b = dict(zip(['spots', 'metrology', 'update_spots', 'zbfit', 'fixed_scale', 'fixed_rotation'], a))
            b.update(kw)
            xs = column(R, b['spots'], 'XPIX')
            rec['fits'].append((i, xs, b))
            n = len(xs)
            for k in ('X_FP', 'Y_FP'):
                ip.setitem(b['spots'], strc(k), R.arr(*[sym('%s%d_%d' % (k, i, j)) for j in range(n)]))
            return NONE

        def save(ip, a, kw):
            rec['transforms'].append((i, text(ip, a[0])))
            return NONE
        return inst(ip, 'FVC2FP', fit=I.Native(fit), write_jsonfile=I.Native(save), fvc2fp=I.Native(lambda ip, a, k: (a[0], a[1])))

    def match(ip, a, kw):
        d = list(partner)
        rec['matched'].append(d)
        return (R.arr(*[const(j) for j in range(len(d))]), R.arr(*[const(x) for x in d]))

    def external(ip, a, kw):
        b = dict(zip(['xpix', 'ypix', 'expected_x_fp', 'expected_y_fp', 'expected_location', 'verbose', 'match_radius_pixels', 'fvc2fp'], a))
        b.update(kw)
        rec['external'].append(b)
        return tab(R, {'LOCATION': [541, 542, 543], 'PINHOLE_ID': [99, 99, 99], 'XPIX': [sym('x%d' % i) for i in range(3)], 'YPIX': [sym('y%d' % i) for i in range(3)]})
    eloc = [5001 + i for i in range(len(partner))]
    R.ip.models.update({PF + 'preproc': lambda ip, a, k: ZERO, PF + 'get_spots_list': lists, 'refs.table.Table.write': write, 'desimeter.findfiducials.findfiducials': find,
                        'desimeter.transform.fvc2fp.FVC2FP.read_jsonfile': transform, 'desimeter.transform.fvc2fp.FVC2FP.read': transform,
                        'desimeter.match.match_same_system': match, 'desimeter.spotmatch.spotmatch': external, 'copy.copy': lambda ip, a, k: a[0],
                        PF + 'get_expected_pos': lambda ip, a, k: tab(R, {'X_FP': [sym('ex%d' % i) for i in range(len(eloc))], 'Y_FP': [sym('ey%d' % i) for i in range(len(eloc))], 'LOCATION': eloc}),
                        'desimeter.io.load_metrology': lambda ip, a, k: tab(R, {'LOCATION': [541, 542, 543], 'DEVICE_TYPE': ['FIF'] * 3, 'PINHOLE_ID': [1, 1, 1], 'X_FP': [sym('mx%d' % i) for i in range(3)], 'Y_FP': [sym('my%d' % i) for i in range(3)]}),
                        'desimeter.io.fvc2fp_filename': lambda ip, a, k: strc('/data/fvc2fp.json')})
    return R, rec


def files(c, R, q, name, rec, want):
    """files written, each with the spots of its image"""
    if any(f is None for f, x, t in rec['written']):
        c.undecided(name, RULE, R.where(q), 'name of the file')
        return
    low = lambda f: f.lower()
    got = [(low(f), [tm.show(v) for v in x]) for f, x, t in rec['written']]
    w = [(low(f), ['%sx%d' % (t, i) for i in range(n)]) for f, t, n in want]
    if got == w:
        c.ok(name, RULE, R.where(q))
    else:
        c.bad(name, RULE, R.where(q), 'written %s, expected %s' % ([(f, x[:1]) for f, x in got], [(f, x[:1]) for f, x in w]))


def pipeline(c):
    q = PF + 'fvc_proc'

    def go(tag, sizes, extnames, want, rc=0, ident=None, partner=(), **kw):
        tm.ORDER.clear()
        R, rec = setup(c, sizes, extnames, ident, partner)
        try:
            got = R(q, options(R, outfile='/o/out.csv', **kw), I.IGN)
        except I.RowError as e:
            c.bad(tag + ': files written', RULE, R.where(q), str(e))
            return R, rec
        files(c, R, q, tag + ': files written', rec, want)
        R.same(tag + ': returned status', RULE, q, got, const(rc))
        return R, rec
    for nomatch in (TRUE, FALSE):
        t = 'spots only' if nomatch is TRUE else 'with matching'
        go('%s, one image' % t, [4], ['f0000'], [('/o/out.csv', 'a', 4)], nomatch=nomatch)
        R, rec = go('%s, sequence' % t, [4, 3, 5], ['f0000', 'f0003', 'f0012'], [('/o/out-f0000.csv', 'a', 4), ('/o/out-f0003.csv', 'b', 3), ('/o/out-f0012.csv', 'c', 5)], nomatch=nomatch, sequence=TRUE)
        if nomatch is FALSE:
            own = [(i, [tm.show(v) for v in x]) for i, x, b in rec['fits']]
            w = [(i, ['%sx%d' % ('abc'[i], j) for j in range(n)]) for i, n in enumerate((4, 3, 5))]
            name = 'with matching, sequence: each image has its own fit from the default transform'
            if own == w and rec['files'] == ['/data/fvc2fp.json'] * 3:
                c.ok(name, RULE, R.where(q))
            else:
                c.bad(name, RULE, R.where(q), 'transform and spots of each fit: %s; transforms read: %s' % (own, rec['files']))
        go('%s, sequence from a table' % t, [3], None, [('/o/out-f0000.csv', 'a', 3)], nomatch=nomatch, sequence=TRUE)
        seq = ['f%04d' % i for i in range(5)]
        for lo, hi in ((4, 6), (5, None), (None, 5), (4, 4), (None, None)):
            keep = [(i, n) for i, n in enumerate((3, 4, 6, 7, 5)) if (lo is None or n >= lo) and (hi is None or n <= hi)]
            go('%s, at least %s and at most %s spots' % (t, lo, hi), [3, 4, 6, 7, 5], seq, [('/o/out-f%04d.csv' % i, 'abcde'[i], n) for i, n in keep], nomatch=nomatch, sequence=TRUE,
               min_spots=NONE if lo is None else const(lo), max_spots=NONE if hi is None else const(hi))
    # fiducials
    for n4, rc in ((2, 13), (3, 0)):
        ident = [(1000 + i, 4) for i in range(n4)] + [(1100, 1), (1100, 2), (1100, 3), (-1, 0)]
        go('%d fiducials found' % n4, [len(ident)], ['f0000'], [('/o/out.csv', 'a', len(ident))] if rc == 0 else [], rc=rc, ident=ident, partner=[1])
    # options of the steps
    R, rec = go('options of the steps', [4], ['f0000'], [('/o/out.csv', 'a', 4)], input_transform='/i/mine.json', pinhole_max_separation_mm=sym('sep'), zbfit=sym('zb'),
                fixed_scale=sym('fs'), fixed_rotation=sym('fr'))
    if rec['found'] and rec['fits']:
        b = rec['found'][0]
        R.same('input transform given to the search of fiducials', RULE, q, b.get('input_transform', NONE), strc('/i/mine.json'))
        R.same('pinhole separation given to the search of fiducials', RULE, q, b.get('pinhole_max_separation_mm', NONE), sym('sep'))
        b = rec['fits'][0][2]
        for k, o in (('zbfit', 'zb'), ('fixed_scale', 'fs'), ('fixed_rotation', 'fr')):
            R.same('option %s given to the fit of the transform' % k, RULE, q, b.get(k, NONE), sym(o))
    # largest distance of a match
    ident = [(1000 + i, 4) for i in range(3)] + [(-1, 0)] * 4
    for limit in (const(3), const(8)):
        R, rec = go('matches within %s mm' % tm.show(limit), [7], ['f0000'], [('/o/out.csv', 'a', 7)], ident=ident, partner=[2, 7, 4, 9], max_match_distance=limit)
        if rec['written']:
            loc = column(R, rec['written'][0][2], 'LOCATION')
            w = [1000, 1001, 1002] + [5001 + i if d < limit.data else -1 for i, d in enumerate((2, 7, 4, 9))]
            R.same('matches within %s mm: locations' % tm.show(limit), RULE, q, tuple(loc), tuple(const(x) for x in w))
    # transform written
    for name, want in (('/t/mine.json', '/t/mine.json'), ('/t/mine.csv', None), (None, None)):
        R, rec = go('transform to %s' % name, [4], ['f0000'], [('/o/out.csv', 'a', 4)], output_transform=strc(name) if name else NONE)
        if rec['transforms'] == ([(0, want)] if want else []):
            c.ok('file of the transform: %s' % name, RULE, R.where(q))
        else:
            c.bad('file of the transform: %s' % name, RULE, R.where(q), 'written %s' % rec['transforms'])
    # external identification
    R, rec = setup(c, [4], ['f0000'])
    R(q, options(R, outfile='/o/out.csv', use_spotmatch=TRUE, spotmatch_match_radius_pixels=sym('radius')), I.IGN)
    if len(rec['external']) == 2:
        for i, b in enumerate(rec['external']):
            R.same('match radius of external identification %d' % (i + 1), RULE, q, b.get('match_radius_pixels', NONE), sym('radius'))
    else:
        c.undecided('match radius of the external identification', RULE, R.where(q), '%d identifications' % len(rec['external']))
    # unknown kind of file
    R = c.runner()
    R.ip.models.update({PF + 'preproc': lambda ip, a, k: ZERO, 'copy.copy': lambda ip, a, k: a[0]})
    R.same('neither image nor table: returned status', RULE, q, R(q, options(R, infile='/d/image.jpg', outfile='/o/out.csv'), I.IGN), const(13))


def cached(c):
    """results kept for an image are never those of another image"""
    q = PF + 'get_outfilename'
    R = c.runner()

    def digest(ip, a, kw):
        """any digest: a text that depends on the whole argument"""
        names = [x.data for x in tm.walk(ip.toterm(a[0])) if x.op == 'str']
        if len(names) != 1:
            raise I.Unsupported('argument of a digest')
        return inst(ip, 'digest', hexdigest=I.Native(lambda ip, a, k: strc(hash_of(names[0]))))
    R.ip.models.update({'hashlib.' + h: digest for h in ('md5', 'sha1', 'sha256')})
    paths = ['/d/20200101/fvc-1.fits', '/d/20200102/fvc-1.fits', '/d/20200101/fvc-2.fits', '/d/20200101/fvc-1.fits.fz', '/e/fvc-1.fits', 'fvc-1.fits', 'sub/fvc-1.fits']
    names = {}
    for p in paths:
        f = text(R.ip, R(q, strc(p)))
        if f is None:
            c.undecided('file of the result', RULE, R.where(q), 'name not decided')
            return
        names.setdefault(f, []).append(p)
        if f.endswith('.csv'):
            c.ok('result of %s is kept in a table' % p, RULE, R.where(q))
        else:
            c.bad('result of %s is kept in a table' % p, RULE, R.where(q), 'name %s' % f)
    for f, ps in names.items():
        if len(ps) > 1:
            c.bad('results of different images are kept in different files', RULE, R.where(q), '%s for %s' % (f, ' and '.join(ps)))
    if len(names) == len(paths):
        c.ok('results of different images are kept in different files', RULE, R.where(q))
    # the file that is used
    q = PF + 'process_fvc'
    for exists in (True, False):
        for overwrite in (True, False):
            for rc in (0, 13):
                R = c.runner()
                runs, reads = [], []

                def proc(ip, a, kw):
                    runs.append((text(ip, ip.getattr(a[0], 'infile')), text(ip, ip.getattr(a[0], 'outfile'))))
                    return const(rc)

                def parsed(ip, a, kw):
                    v = [text(ip, x) for x in ip.known_items(a[0])]
                    d = dict(zip(v[::2], v[1::2]))
                    o = {'-i': 'infile', '--infile': 'infile', '-o': 'outfile', '--outfile': 'outfile'}
                    return inst(ip, 'args', **{o[k]: strc(x) for k, x in d.items()})

                def read(ip, a, kw):
                    reads.append(text(ip, a[0]))
                    return fn('spots', ip.toterm(a[0]))

                def command(ip, a, kw):
                    v = [text(ip, x) for x in ip.known_items(a[0])]
                    runs.append((v[v.index('-i') + 1], v[v.index('-o') + 1]))
                    return const(rc)
                R.ip.models.update({PF + 'fvc_proc': proc, PF + 'get_parser': lambda ip, a, k: inst(ip, 'parser', parse_args=I.Native(parsed)), PF + 'get_outfilename': lambda ip, a, k: strc('/k/kept.csv'),
                                    'os.path.isfile': lambda ip, a, k: TRUE if exists else FALSE, 'os.path.exists': lambda ip, a, k: TRUE if exists else FALSE,
                                    'astropy.table.Table.read': read, 'astropy.table.table.Table.read': read, 'subprocess.call': command})
                for sub_ in (TRUE, FALSE):
                    del runs[:], reads[:]
                    tag = 'image processed on request (%s, result %s, %s%s)' % ('subprocess' if sub_ is TRUE else 'same process', 'exists' if exists else 'missing', 'overwrite' if overwrite else 'keep', ', failing' if rc else '')
                    got = R(q, strc('/d/image.fits'), overwrite=TRUE if overwrite else FALSE, use_subprocess=sub_)
                    use = exists and not overwrite
                    same_value(c, R, q, tag + ': result', R.ip.toterm(got), NONE if rc and not use else fn('spots', strc('/k/kept.csv')))
                    want = [] if use else [('/d/image.fits', '/k/kept.csv')]
                    if runs == want:
                        c.ok(tag + ': processing', RULE, R.where(q))
                    else:
                        c.bad(tag + ': processing', RULE, R.where(q), 'processed %s, expected %s' % (runs, want))


def hash_of(s):
    import zlib
    return ''.join('%08x' % zlib.crc32(('%d' % i + s).encode()) for i in range(4))
