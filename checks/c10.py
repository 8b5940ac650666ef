"""Where calibration files are read from: forward dataflow of path values (sa/paths.py) through every
library function, run with the override set and unset."""
import ast, os, posixpath
from sa import src as S
from sa.paths import An, s, U, N, PK

CUSTOM = {'fp-metrology.csv': 'metrology', 'petal-alignments.yaml': 'petal alignments', 'init-fvc2fp.json': 'camera model', 'dm2pm.json': 'platemaker transform', 'bias.fits': 'camera bias'}
OVR = '/OVERRIDE'
IO = 'desimeter.io.'
# anchors: function -> file it returns the name of, or reads
NAMES = {'fvc2fp_filename': 'init-fvc2fp.json', 'dm2pm_filename': 'dm2pm.json', 'fvc_bias_filename': 'bias.fits'}
LOADERS = {'load_metrology': 'fp-metrology.csv', 'load_petal_alignement': 'petal-alignments.yaml'}
# model class -> default file
MODELS = {'FVC2FP': 'init-fvc2fp.json', 'DM2PM': 'dm2pm.json'}


def norm(v):
    return posixpath.normpath(v[1]) if v[0] == 's' else v[0]


def show(vals):
    return '{' + ', '.join(sorted(str(norm(v)) for v in vals)) + '}'


def loc(m, n):
    return '%s:%d' % (m.rel, n.lineno)


def run(c):
    repo = S.Repo()
    c.floor = 20
    want = {True: lambda f: OVR + '/' + f, False: lambda f: PK + '/desimeter/data/' + f}
    for set_ in (True, False):
        tag = 'override set' if set_ else 'no override'
        an = An(repo, OVR if set_ else None)

        def fdef(q):
            r = repo.resolve(q)
            return r if r and r[0] == 'func' else None
        # 1. the directory, the file names and the loaders
        for name, fname in [('desimeter_data_dir', '')] + sorted(NAMES.items()):
            r = fdef(IO + name)
            if r is None:
                c.lost.append(IO + name)
                continue
            got = {norm(v) for v in an.run(r[1], r[2], [], {})}
            w = posixpath.normpath(want[set_](fname))
            nm = '%s, %s' % ('data directory' if not fname else CUSTOM[fname] + ' file name', tag)
            where = loc(r[1], r[2]) + ' ' + name
            if got == {w}:
                c.ok(nm, 'path dataflow', where, 'returns ' + w)
            elif 'u' in got or any('?' in str(g) for g in got):
                c.undecided(nm, 'path dataflow', where, 'returned path not resolved: %s' % sorted(map(str, got)))
            else:
                c.bad(nm, 'path dataflow', where, 'returns %s, expected %s' % (sorted(map(str, got)), w))
        for name, fname in sorted(LOADERS.items()):
            r = fdef(IO + name)
            if r is None:
                c.lost.append(IO + name)
                continue
            an.reads = []
            an.run(r[1], r[2], [], {})
            got = set()
            for st, m, e, callee, vals in an.reads:
                got |= {norm(v) for v in vals}
            w = want[set_](fname)
            nm = '%s, %s' % (CUSTOM[fname], tag)
            where = loc(r[1], r[2]) + ' ' + name
            if got == {w}:
                c.ok(nm, 'path dataflow', where, 'reads ' + w)
            elif 'u' in got or not got or any('?' in str(g) for g in got):
                c.undecided(nm, 'path dataflow', where, 'file read not resolved: %s' % sorted(map(str, got)))
            else:
                c.bad(nm, 'path dataflow', where, 'reads %s, expected %s' % (sorted(map(str, got)), w))
        # 2. every reader call site reached from any library function
        seen = {}
        for m in repo.lib():
            for q, fn in sorted(m.funcs.items()):
                an.reads = []
                try:
                    an.run(m, fn)
                except Exception as ex:      # a construct the walker does not know
                    c.undecided('reads of %s, %s' % (q, tag), 'path dataflow', loc(m, fn), '%s: %s' % (type(ex).__name__, ex))
                    continue
                c.functions.add(m.name + '.' + q)
                for st, mm, e, callee, vals in an.reads:
                    for v in vals:
                        if v[0] != 's':
                            continue
                        p = norm(v)
                        base = p.split('/')[-1]
                        cls = None
                        for f in st:
                            k = S.enclosing_class(f)
                            if k is not None and k.name in MODELS and fn is not f and (f is st[-1] or f.name.lstrip('_').startswith(('read', 'load', 'from_'))):
                                cls = k.name
                        key = (q, m.name, loc(mm, e), p)
                        if key in seen:
                            continue
                        seen[key] = (m, fn, mm, e, callee, p, base, cls, st)
            # script level code is not part of the library
        for (q, mn, l, p), (m, fn, mm, e, callee, p, base, cls, st) in sorted(seen.items(), key=lambda x: x[0]):
            chain = ' > '.join(S.qual(f) for f in st)
            nm = '%s.%s reads %s%s, %s' % (mn, q, base, (' as ' + cls) if cls else '', tag)
            if base in CUSTOM:
                w = want[set_](base)
                if cls and MODELS[cls] != base:
                    c.bad(nm, 'each calibration under its own file name', l, '%s is loaded as %s' % (base, cls))
                elif p == w:
                    c.ok(nm, 'customisable file follows the override', l, '%s (%s)' % (p, chain))
                elif p.startswith((OVR, PK)):
                    c.bad(nm, 'customisable file follows the override', l, 'reads %s instead of %s (%s)' % (p, w, chain))
            elif cls and p.startswith((OVR, PK)):
                c.bad(nm, 'each calibration under its own file name', l, '%s is loaded from %s, expected %s (%s)' % (cls, p, want[set_](MODELS[cls]), chain))
            elif p.startswith(OVR):
                c.undecided(nm, 'customisable file follows the override', l, 'unknown file of the override directory')
    c.assumptions.append('the environment variable is set after the modules are imported and before the first call (the weakest order a user may choose)')
    return ('Forward dataflow of path strings through every function of the library (calls inlined, conditions on the environment decided, '
            'module level values evaluated at import time) with the override set and unset; every file reader reached is an obligation.')
