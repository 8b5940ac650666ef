"""Results do not depend on earlier calls: what survives a call (module globals, defaults, class and
function attributes, instance attributes between fits, the global random generator) and what later
calls read of it (sa/history.py, sa/effects.py)."""
import ast
from sa import src as S
from sa import effects, history
from checks.c08 import api

SKIP = ('desimeter.log', 'desimeter.transform.tan2fp.raytrace.RT185v2')
# attributes that a fit keeps or starts from by definition: (class, method) -> (assigned on some paths only, read before assigned)
KEPT = {('FieldModel', 'fit_tancorr'): ({'hexrot_deg', 'lst', 'mjd'}, {'dec', 'ra', 'hexrot_deg', 'lst', 'mjd'}),
        ('FVC2FP', 'fit'): ({'zbcoeffs', 'zbpolids'}, {'rotation', 'scale', 'zbcoeffs', 'zbpolids'})}
KEPTDEF = {('FieldModel', 'fit_tancorr'): ({'mjd', 'hexrot_deg', 'lst'}, {'dec', 'ra', 'mjd', 'hexrot_deg', 'lst'}),
           ('FVC2FP', 'fit'): (set(), {'zbcoeffs', 'zbpolids'})}
MUTATORS = ('__init__', 'fit', 'read', 'load', 'set', '_')
DRAWS = {('desimeter.turbulence', 'turbulence_gallery')}
SEEDED = {'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937'}
PROCESS = {'os.chdir', 'os.putenv', 'os.unsetenv', 'numpy.seterr', 'numpy.random.seed', 'random.seed', 'locale.setlocale', 'os.environ.update', 'os.environ.setdefault', 'os.environ.pop'}


def mutable(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        d = S.dotted(v.func)
        return bool(d) and (d[-1] in ('dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'array', 'zeros', 'ones', 'empty', 'arange', 'linspace', 'asarray', 'full'))
    return False


def loc(m, n):
    return '%s:%d' % (m.rel, n.lineno)



def only_from(m, q, names):
    """a function of the list, or one which only such functions of the module refer to"""
    todo, done = [q], set()
    while todo:
        q = todo.pop()
        if q in done or (m.name, q) in names:
            continue
        done.add(q)
        last = q.split('.')[-1]
        refs = [n for n in ast.walk(m.tree) if (isinstance(n, ast.Name) and n.id == last) or (isinstance(n, ast.Attribute) and n.attr == last)]
        if not refs or '.' in q:
            return False
        for n in refs:
            f = S.enclosing_function(n)
            if f is None:
                return False
            todo.append(S.qual(f))
    return True


def run(c):
    repo = S.Repo()
    c.floor = 60
    ef = effects.Effects(repo)
    scope = api()
    h = history.History(repo, ef, scope, SKIP)
    c.functions |= {m.name + '.' + q for m, q, fn in h.fns}
    mods = [m for m in ef.mods if m.name not in SKIP]
    short = lambda n: n.split('.', 1)[1] if '.' in n else n
    # 1. module level state
    dirty = h.dirty()
    names = {}
    for m in mods:
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and (mutable(st.value) or isinstance(st.value, ast.Constant) and st.value.value is None):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        names[(m.name, t.id)] = (m, t)
    for l, ws in h.locs.items():
        names.setdefault(l[:2], (ws[0][0], ws[0][2]))
    reads = {}
    for m, q, fn in h.fns:
        for x, (mm, n) in h.info[fn].exposed.items():
            if (m.name, q) in scope:
                reads.setdefault(x[:2], []).append((x, m, q, mm, n))
    for g in sorted(names):
        m, t = names[g]
        nm = 'module state %s.%s' % (short(g[0]), g[1])
        viol = None
        for l in sorted(dirty, key=str):
            if l[:2] != g:
                continue
            for x, rm, rq, mm, n in reads.get(g, []):
                if h.sees(x, l):
                    wm, wq, wn, why = dirty[l]
                    viol = ('%s in %s' % (loc(wm, wn), wq), '%s%s: %s; %s reads it (%s) before setting it' % (g[1], '[%s]' % l[2] if len(l) == 3 and l[2] != '**' else '', why, rq, loc(mm, n)))
                    break
            if viol:
                break
        if viol:
            c.bad(nm, 'state dataflow', viol[0], viol[1])
        else:
            c.ok(nm, 'state dataflow', loc(m, t))
    # 2. default values shared between calls
    for m, q, fn in h.fns:
        pos, kwo, va, kwa = effects.params(fn)
        dflt = list(zip(pos[len(pos) - len(fn.args.defaults):], fn.args.defaults)) + [(k, d) for k, d in zip(kwo, fn.args.kw_defaults) if d is not None]
        for p, d in dflt:
            if mutable(d):
                nm = 'default value of %s.%s: %s' % (short(m.name), q, p)
                s = ef.get(fn)
                if p in s.mut:
                    c.bad(nm, 'effect analysis', loc(s.mut[p].mod, s.mut[p].node), 'the default object of %s, shared by all calls, is modified: %s' % (p, s.mut[p].what))
                else:
                    c.ok(nm, 'effect analysis', loc(m, d))
    # 3. class level objects modified through instances, and methods that change the instance
    hits = {}
    for (fn, k), s in ef.sum.items():
        for g, muts in s.globs.items():
            if g[0] == '@':
                hits.setdefault(g[1:], muts[0])
    for m in mods:
        for q, cl in sorted(m.classes.items()):
            for st in cl.body:
                if isinstance(st, ast.Assign) and mutable(st.value):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            nm = 'class state %s.%s.%s' % (short(m.name), q, t.id)
                            mu = hits.get(((m.name, q), t.id))
                            if mu is None:
                                c.ok(nm, 'effect analysis', loc(m, t))
                            else:
                                c.bad(nm, 'effect analysis', loc(mu.mod, mu.node), 'object shared by all instances is modified in place: ' + mu.what)
    fits = {}
    for m, q, fn in h.fns:
        cl = S.enclosing_class(fn)
        if cl is None or S.enclosing_function(fn) is not None or not fn.args.args or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in fn.decorator_list):
            continue
        cn = S.qual(cl)
        me = fn.args.args[0].arg
        s = ef.get(fn)
        if not fn.name.startswith(MUTATORS) and (m.name, q) in scope:
            nm = '%s.%s leaves the object unchanged' % (short(m.name), q)
            if me in s.mut:
                mu = s.mut[me]
                c.bad(nm, 'effect analysis', loc(mu.mod, mu.node), 'a computation changes the object it is called on: ' + mu.what)
            elif any(g[0] == '@' and g[1] == (m.name, cn) for g in s.glob):
                mu = [x for g, x in sorted(s.glob.items(), key=str) if g[0] == '@' and g[1] == (m.name, cn)][0]
                c.bad(nm, 'effect analysis', loc(mu.mod, mu.node), 'a computation changes data of the object it is called on: ' + mu.what)
            else:
                c.ok(nm, 'effect analysis', loc(m, fn))
        # 4. refits
        if fn.name.startswith('fit'):
            for tag, consts, kept in (('', {}, KEPT), (' with default options', history.default_options(fn), KEPTDEF)):
                a = history.Attrs(h, m, (m.name, cn), fn, (), consts)
                cond, start = kept.get((cn, fn.name), (set(), set()))
                if not tag:
                    fits.setdefault((m, cn), {})[fn.name] = (fn, set(a.may))
                for x in sorted(a.may):
                    nm = '%s.%s sets %s%s' % (short(m.name), q, x, tag)
                    if x not in a.must and x not in cond:
                        c.bad(nm, 'attribute dataflow', loc(m, a.may[x]), '%s is not assigned on every path: a refit can keep the value of an earlier fit' % x)
                    elif x in a.exposed and x not in start:
                        c.bad(nm, 'attribute dataflow', loc(m, a.exposed[x]), '%s is read before the fit assigns it: the value of an earlier fit is used' % x)
                    else:
                        c.ok(nm, 'attribute dataflow', loc(m, a.may[x]))
    for (m, cn), d in sorted(fits.items(), key=lambda x: x[0][0].name):
        allattr = set().union(*[x[1] for x in d.values()])
        if len(d) > 1:
            for name, (fn, may) in sorted(d.items()):
                nm = '%s.%s.%s sets the same results as the other fits' % (short(m.name), cn, name)
                if allattr - may:
                    c.bad(nm, 'attribute dataflow', loc(m, fn), 'does not set %s, which keep the values of an earlier fit' % ', '.join(sorted(allattr - may)))
                else:
                    c.ok(nm, 'attribute dataflow', loc(m, fn))
    # 5. random draws and settings of the process
    for m in mods:
        n_rng = 0
        for n in ast.walk(m.tree):
            q = None
            if isinstance(n, ast.Call):
                d = S.dotted(n.func)
                if not d:
                    continue
                full = '.'.join([m.imports.get(d[0], d[0])] + d[1:])
                fn = S.enclosing_function(n)
                q = S.qual(fn) if fn is not None else '<module>'
                if full in PROCESS:
                    c.bad('%s.%s process settings' % (short(m.name), q), 'call query', loc(m, n), '%s changes the state of the process' % full)
                if (full.startswith('numpy.random.') or full.startswith('random.') and d[0] in m.imports) and not only_from(m, q, DRAWS):
                    last = full.split('.')[-1]
                    n_rng += 1
                    nm = '%s.%s random draws' % (short(m.name), q)
                    if last not in SEEDED:
                        c.bad(nm, 'call query', loc(m, n), '%s draws from the generator shared by the process' % full)
                    elif not n.args and not n.keywords:
                        c.bad(nm, 'call query', loc(m, n), '%s() is not seeded' % full)
                    else:
                        c.ok(nm, 'call query', loc(m, n))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                d = S.dotted(n.value)
                if d and '.'.join([m.imports.get(d[0], d[0])] + d[1:]) == 'os.environ':
                    c.bad('%s process settings' % short(m.name), 'call query', loc(m, n), 'the environment is modified')
        c.ok('%s no shared random generator, no process settings' % short(m.name), 'call query', m.rel) if not n_rng else None
    c.assumptions += ['the environment and the data files do not change while the process runs',
                      'the ray tracing module, whose tables are loaded into module variables by design, and the logger cache are not covered']
    return ('Every module global, shared default, class attribute and instance attribute that a call can change is enumerated; values stored there may '
            'depend only on constants, files and the key they are stored under, or are set again before they are read; every fit assigns all its results on every path.')
