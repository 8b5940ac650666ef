"""No public computation modifies an object its caller passed in: interprocedural effect and alias
analysis (sa/effects.py) of every library function, to a fixed point over the call graph."""
import ast, os
from sa import src as S
from sa import effects

# documented to fill or update their argument: (module, function, parameter) -> option values under which it must still be left alone, or None
INPLACE = {
    ('desimeter.brightimage', 'detect_phi_arms', 'spots'): None,
    ('desimeter.findfiducials', 'findfiducials', 'spots'): None,
    ('desimeter.processfvc', 'preproc', 'args'): None,
    ('desimeter.transform.ptl2fp', 'apply_ptl2fp', 'spots'): None,
    ('desimeter.transform.fvc2fp', 'fit', 'spots'): {'update_spots': False},
    ('desimeter.transform.fvc2fp', 'FVC2FP.fit', 'spots'): {'update_spots': False},
    ('desimeter.transform.tan2fp.raytrace.RT185v2', 'normalize', 'norm'): None,
}
HERE = os.path.dirname(os.path.abspath(__file__))


def api():
    with open(os.path.join(HERE, '..', 'refs', 'api.txt')) as f:
        return {tuple(l.split()[:2]): l.split()[2:] for l in f if l.strip()}


def run(c):
    repo = S.Repo()
    c.floor = 400
    ef = effects.Effects(repo)
    c.functions |= {m.name + '.' + q for m, q, fn in ef.fns}
    scope = api()
    seen = set()
    first = {k[:2]: k for k in INPLACE}
    for m, q, fn in ef.fns:
        if (m.name, q) not in scope:
            continue
        seen.add((m.name, q))
        pos, kwo, va, kwa = effects.params(fn)
        names = pos + kwo + ([va] if va else [])
        cl = S.enclosing_class(fn)
        if cl is not None and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
            names = names[1:]
        where = '%s:%d %s' % (m.rel, fn.lineno, q)
        mod = m.name.split('.', 1)[1]
        for i, p in enumerate(names):
            s = ef.get(fn)
            tag = ''
            key = (m.name, q, p)
            if key not in INPLACE and i == 0 and not any((m.name, q, x) in INPLACE for x in names):
                key = first.get((m.name, q), key)      # renamed parameter
            if key in INPLACE:
                if INPLACE[key] is None:
                    continue
                s = ef.get(fn, frozenset(INPLACE[key].items()))
                tag = ' with ' + ', '.join('%s=%s' % kv for kv in sorted(INPLACE[key].items()))
            nm = '%s.%s: argument %s%s' % (mod, q, p, tag)
            if p in s.mut:
                mu = s.mut[p]
                c.bad(nm, 'effect analysis', '%s:%d in %s' % (mu.mod.rel, mu.node.lineno, q), 'the object passed as %s is modified: %s' % (p, mu.what))
            else:
                c.ok(nm, 'effect analysis', where)
    # objects of the caller kept on an instance and modified there later
    held = {}
    for (fn, k), s in sorted(ef.sum.items(), key=lambda x: (ef.where[x[0][0]][0].name, x[0][0].lineno)):
        for (cls, attr, p), (m, t) in s.held.items():
            held.setdefault((cls, attr), (p, m, t, fn))
    hit = {}
    for (fn, k), s in ef.sum.items():
        for g, mu in s.glob.items():
            if g[0] == '@':
                hit.setdefault(g[1:], mu)
    for (cls, attr), (p, m, t, fn) in sorted(held.items(), key=lambda x: (x[0][0], x[0][1])):
        nm = '%s.%s: caller object kept in attribute %s' % (cls[0].split('.', 1)[1], cls[1], attr)
        mu = hit.get((cls, attr))
        if mu is None:
            c.ok(nm, 'effect analysis', '%s:%d' % (m.rel, t.lineno))
        else:
            c.bad(nm, 'effect analysis', '%s:%d' % (mu.mod.rel, mu.node.lineno), 'argument %s stored by %s (line %d) is modified in place: %s' % (p, S.qual(fn), t.lineno, mu.what))
    miss = sorted(set(scope) - seen)
    for x in miss:
        c.undecided('.'.join(x), 'effect analysis', x[0], 'public function not found')
    c.assumptions += ['functions of third party libraries modify only the arguments documented as outputs',
                      'the elements met when iterating over an array of numbers are values, not views that are modified']
    return ('%d functions, %d summaries, %d effect sites. ' % (len(ef.fns), len(ef.sum), ef.sites) +
            'For every parameter of every public function of the package, the analysis shows that no path modifies the object passed in '
            '(item, attribute and in-place operator stores, mutating methods, output arguments, through aliases, views, containers, '
            'nested functions and package calls); documented in-place operations are excepted.')
