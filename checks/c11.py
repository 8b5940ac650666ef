"""Names: every variable, import, attribute, keyword and library function used by the library and
the scripts exists.  Scope resolution, path-sensitive definite assignment, import resolution,
call signatures (repository and installed libraries), attributes of self and of known classes,
parsed command line options, and bits of the bit masks."""
import ast, builtins, os
from sa import src as S
from sa.src import BUILTINS, dotted, qual
from sa import defs

# assigned on every path that can be taken, by an argument about values the analysis does not make
REVIEWED = {
    ('remove_excluded_calibs', 'keep'): 'the option only accepts the tested values',
    ('plot_params', 'ax_left'): 'the first key of a subplot is never drawn on the right axis',
    ('identify_moves', 'submove'): 'the first row starts an exposure',
    ('identify_requests', 'x_fp'): 'the coordinate name is one of the three tested values',
    ('identify_requests', 'y_fp'): 'the coordinate name is one of the three tested values',
}


def run(c):
    c.floor = 500
    repo = S.Repo()
    for rel, e in getattr(repo, 'broken', []):
        c.undecided('syntax of ' + rel, 'parse', rel, e)
    c.files |= set(m.rel for m in repo.modules())
    ext = External()
    for m in repo.modules():
        c.guard(scopes, c, repo, m)
        c.guard(assigned, c, repo, m)
        c.guard(references, c, repo, m, ext)
        c.guard(selfattrs, c, repo, m, ext)
        c.guard(options, c, repo, m)
        c.guard(receivers, c, repo, m, ext)
        c.guard(formats, c, repo, m)
        c.guard(constkeys, c, repo, m)
        c.guard(arity, c, repo, m)
    c.guard(bits, c, repo)
    c.guard(externals, c, ext)
    c.guard(instances, c, ext)
    c.functions |= set(m.name + '.' + q for m in repo.modules() for q in m.funcs)
    c.assumptions += ['a loop over data is taken to run at least once for the purpose of definite assignment',
                      'modules that are not installed here (instrument control software, optional imaging packages) are not looked into',
                      'attributes of objects whose class is not known from the source are not decided']


class External(object):
    def __init__(self):
        self.use = {}       # dotted -> list of (where, call or None)
        self.inst = []      # (where, type or function making it, attribute, call or None)

    def add(self, path, where, call=None):
        self.use.setdefault(path, []).append((where, call))


def at(m, n):
    return '%s:%d' % (m.rel, n.lineno)


def star_names(repo, m, _seen=None):
    """names provided by star imports; None when unknown"""
    out = set()
    for s in m.star:
        if s in repo.mods and repo.mods[s] is not None:
            mm = repo.mods[s]
            out |= mm.toplevel
            o = star_names(repo, mm)
            if o is None:
                return None
            out |= o
        else:
            d = S.oracle([s]).get(s, {})
            if d.get('status') != 'ok' or not d.get('all'):
                return None
            out |= set(d['all'])
    return out


def scopes(c, repo, m):
    """names that no scope defines"""
    import symtable
    st = star_names(repo, m)
    try:
        top = symtable.symtable(m.src, m.rel, 'exec')
    except SyntaxError as e:
        return
    known = set(m.toplevel) | BUILTINS | (st or set())
    if st is None:
        return c.undecided('names of ' + m.rel, 'scope', m.rel, 'star import from a package that is not installed')
    missing = {}

    def go(t, inner):
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or (t.get_type() == 'module' and not s.is_assigned() and not s.is_imported())):
                n = s.get_name()
                if n not in known:
                    missing.setdefault(n, []).append(t.get_name())
        for k in t.get_children():
            go(k, inner)
    go(top, set())
    for n in S.nodes(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in missing:
            f = S.enclosing_function(n)
            if f is not None and n.id in S.local_names(f):
                continue
            # a guarded use: names tested through an except NameError are deliberate
            if in_try_nameerror(n) or dead(n):
                continue
            c.bad('name %s in %s' % (n.id, '/'.join(m.rel.split('/')[-2:])), 'scope', at(m, n), 'name %s is not defined in any scope' % n.id)
    nfun = len(m.funcs) + 1
    for q in list(m.funcs) + ['<module>']:
        if not any(q.split('.')[-1] in w for w in missing.values()):
            c.ok('scopes of %s:%s' % (m.rel, q), 'scope', m.rel)


def dead(n):
    """inside a branch of a constant test"""
    p = n
    while p is not None:
        q = getattr(p, 'parent', None)
        if isinstance(q, (ast.If, ast.While)) and isinstance(q.test, ast.Constant) and p is not q.test:
            if (p in q.body) != bool(q.test.value):
                return True
        p = q
    return False


def in_try_nameerror(n):
    p = n
    while p is not None:
        q = getattr(p, 'parent', None)
        if isinstance(q, ast.Try) and p in q.body:
            for h in q.handlers:
                if h.type is None or any(isinstance(x, ast.Name) and x.id in ('NameError', 'Exception', 'ImportError') for x in ast.walk(h.type)):
                    return True
        p = q
    return False


def assigned(c, repo, m):
    items = [(q, f, defs.unbound) for q, f in m.funcs.items()]
    if m.script:
        items.append(('<module>', m, defs.unbound_module))
    has = {}                    # names of the functions of this short name
    for q, f, go in items:
        if f is not m:
            has.setdefault(q.split('.')[-1], set()).update(n.id for n in ast.walk(f) if isinstance(n, ast.Name))
    for q, f, go in items:
        bad = {}
        # a reviewed name which the function no longer has was renamed: it stands for one name that only some paths leave unassigned
        short = q.split('.')[-1]
        names = {n.id for n in ast.walk(getattr(f, "node", f)) if isinstance(n, ast.Name)} if f is not m else set()
        gone = [k for k in REVIEWED if k[0] == short and k[1] not in names] if f is not m else []
        renamed = set()
        for nm, node, always, cs in go(f):
            if (short, nm) in REVIEWED or nm in renamed or in_try_nameerror(node):
                continue
            if not always and any(k[1] == nm and k[0] in has and nm not in has[k[0]] for k in REVIEWED):
                continue            # the reviewed code was moved to another function
            if gone and not always and nm not in bad:
                gone.pop()
                renamed.add(nm)
                continue
            bad.setdefault(nm, (node, always))
        if not bad:
            c.ok('definite assignment in %s:%s' % (m.rel, q), 'definite assignment', m.rel)
        for nm, (node, always) in bad.items():
            c.bad('%s assigned in %s' % (nm, q), 'definite assignment', at(m, node), 'local name %s is used %s' % (nm, 'before any assignment' if always else 'on a path that never assigns it'))


def bind(sig, call, skip_self=False):
    """problem of a call against an ast.arguments signature, or None"""
    a = sig
    pos = [x.arg for x in a.posonlyargs + a.args]
    if skip_self and pos:
        pos = pos[1:]
    nd = len(a.defaults)
    required = pos[:max(0, len(pos) - nd)] if nd else list(pos)
    kwonly = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len(call.args)
    if not star and n > len(pos) and not a.vararg:
        return '%d positional arguments given, at most %d accepted' % (n, len(pos))
    given = set(pos[:n]) if not star else set()
    ponly = set(x.arg for x in a.posonlyargs)
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'argument %s given twice' % k.arg
        if k.arg in ponly or (k.arg not in pos and k.arg not in kwonly):
            if not a.kwarg:
                return 'unknown keyword argument %s' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [x for x in required + kwreq if x not in given]
        if miss:
            return 'missing argument %s' % ', '.join(miss)
    return None


def class_init(repo, m, cls):
    """arguments of the constructor of an internal class: (arguments, known)"""
    q = qual(cls)
    if q + '.__init__' in m.funcs:
        return m.funcs[q + '.__init__'].args, True
    if q + '.__new__' in m.funcs:
        return m.funcs[q + '.__new__'].args, True
    for b in cls.bases:
        t = repo.target(m, b)
        if t is None or t[0] != 'class':
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            return None, False
        r = class_init(repo, t[1], t[2])
        if r[0] is not None or not r[1]:
            return r
    return ast.arguments(posonlyargs=[], args=[ast.arg('self')], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), True


def is_method(f):
    p = getattr(f, 'parent', None)
    return isinstance(p, ast.ClassDef)


def deco(f):
    return [d[-1] for d in (dotted(x) or ['?'] for x in f.decorator_list)]


def references(c, repo, m, ext):
    nref = ncall = 0
    # imports
    for n in S.nodes(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split('.')[0] == 'desimeter':
                    r = repo.resolve(a.name)
                    (c.ok if r[0] != 'missing' else c.bad)('import %s in %s' % (a.name, m.rel), 'import', at(m, n), r[1] if r[0] == 'missing' else '')
                elif not in_try_nameerror(n):
                    ext.add(a.name, at(m, n))
        elif isinstance(n, ast.ImportFrom):
            base = m.absbase(n)
            for a in n.names:
                full = base if a.name == '*' else base + '.' + a.name
                if base.split('.')[0] == 'desimeter':
                    r = repo.resolve(full)
                    (c.ok if r[0] != 'missing' else c.bad)('import %s in %s' % (full, m.rel), 'import', at(m, n), r[1] if r[0] == 'missing' else '')
                elif not in_try_nameerror(n):
                    ext.add(full, at(m, n))
    seen = set()
    for n in S.nodes(m.tree):
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
            if isinstance(getattr(n, 'parent', None), ast.Attribute):
                continue
            if isinstance(n, ast.Name) and not isinstance(getattr(n, 'parent', None), ast.Call):
                continue
            # longest resolvable prefix
            t = repo.target(m, n)
            if t is None:
                continue
            d = '.'.join(dotted(n))
            if t[0] == 'missing':
                if not in_try_nameerror(n):
                    c.bad('attribute %s in %s' % (d, m.rel), 'attribute of a module', at(m, n), t[1])
            elif t[0] == 'external':
                par = getattr(n, 'parent', None)
                call = par if isinstance(par, ast.Call) and par.func is n else None
                if not in_try_nameerror(n):
                    ext.add(t[1], at(m, n), call)
            elif t[0] in ('func', 'class', 'module', 'value'):
                nref += 1
                if d not in seen:
                    seen.add(d)
                    c.ok('reference %s in %s' % (d, m.rel), 'attribute of a module', at(m, n))
        if isinstance(n, ast.Call):
            t = repo.target(m, n.func)
            problem, what = None, None
            if t and t[0] == 'func':
                f = t[2]
                what = qual(f)
                skip = False
                if is_method(f):
                    if 'classmethod' in deco(f):
                        skip = True
                    elif 'staticmethod' in deco(f):
                        skip = False
                    else:
                        skip = False
                if [x for x in deco(f) if x not in ('classmethod', 'staticmethod')]:
                    continue
                problem = bind(f.args, n, skip)
            elif t and t[0] == 'class':
                a, ok = class_init(repo, t[1], t[2])
                if not ok or a is None:
                    continue
                what = qual(t[2])
                problem = bind(a, n, True)
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                cl = class_of(repo, m, n.func.value)
                if cl is None:
                    continue
                f = lookup(repo, cl, n.func.attr)
                if f is None or [x for x in deco(f) if x not in ('classmethod', 'staticmethod')]:
                    continue
                what = cl[1].name + '.' + n.func.attr
                problem = bind(f.args, n, 'staticmethod' not in deco(f))
            else:
                continue
            ncall += 1
            fn = S.enclosing_function(n)
            nm = 'call of %s in %s' % (what, (fn.name if fn else m.name))
            if problem:
                c.bad(nm, 'call signature', at(m, n), problem)
            else:
                c.ok(nm, 'call signature', at(m, n))


_CO = {}


def class_of(repo, m, name):
    """(module, class node) when a local name certainly holds an instance of an internal class"""
    key = (m, S.enclosing_function(name), name.id, S.enclosing_class(name) if name.id in ('self', 'cls') else None)
    if key not in _CO:
        _CO[key] = class_of_(repo, m, name)
    return _CO[key]


def class_of_(repo, m, name):
    fn = S.enclosing_function(name)
    if name.id in ('self', 'cls'):
        k = S.enclosing_class(name)
        if k is not None and fn is not None:
            return (m, k)
        return None
    scope = fn if fn is not None else m.tree
    if fn is not None and name.id not in S.local_names(fn):
        return None
    found = None
    for st in scope.body:
        for n in S.walk_scope(st):
            tg = None
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and x.id == name.id and isinstance(x.ctx, ast.Store):
                            if x is not t:
                                return None
                            tg = n.value
            elif isinstance(n, (ast.For, ast.With, ast.AugAssign, ast.NamedExpr, ast.AnnAssign, ast.ExceptHandler, ast.Import, ast.ImportFrom, ast.FunctionDef)):
                for x in ([n.target] if hasattr(n, 'target') else [i.optional_vars for i in getattr(n, 'items', []) if i.optional_vars is not None]):
                    if any(isinstance(y, ast.Name) and y.id == name.id for y in ast.walk(x)):
                        return None
            if tg is not None:
                k = instance_class(repo, m, tg)
                if k is None or (found is not None and found != k):
                    return None
                found = k
    if fn is not None and name.id in [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]:
        return None
    return found


def instance_class(repo, m, e):
    if not isinstance(e, ast.Call):
        return None
    t = repo.target(m, e.func)
    if t and t[0] == 'class':
        return (t[1], t[2])
    if t and t[0] == 'func' and is_method(t[2]) and 'classmethod' in deco(t[2]):
        return (t[1], t[2].parent)
    return None


def lookup(repo, cl, name, depth=0):
    m, k = cl
    q = qual(k) + '.' + name
    if q in m.funcs:
        return m.funcs[q]
    for b in k.bases:
        t = repo.target(m, b)
        if t and t[0] == 'class' and depth < 5:
            f = lookup(repo, (t[1], t[2]), name, depth + 1)
            if f is not None:
                return f
    return None


def class_attrs(repo, m, k):
    """(attribute names an instance can have, complete?, external base names)"""
    out, complete, extb = set(), True, []
    for st in k.body:
        for n in S.walk_scope(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    for n in S.nodes(k):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.attr)      # any attribute stored in the class body methods (self, cls(), tx, ...)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'super'):
            if n.func.id == 'setattr':
                complete = False
        if isinstance(n, ast.Attribute) and n.attr == '__dict__':
            complete = False
        if isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__'):
            complete = False
    for b in k.bases:
        t = repo.target(m, b)
        if t and t[0] == 'class':
            a, cc, e = class_attrs(repo, t[1], t[2])
            out |= a
            complete = complete and cc
            extb += e
        elif isinstance(b, ast.Name) and hasattr(builtins, b.id):
            out |= set(dir(getattr(builtins, b.id)))
        else:
            complete = False
    out |= set(dir(object))
    return out, complete, extb


def selfattrs(c, repo, m, ext):
    for q, k in m.classes.items():
        attrs, complete, _ = class_attrs(repo, m, k)
        if not complete:
            c.undecided('attributes of class ' + q, 'attribute of self', at(m, k), 'dynamic attributes')
            continue
        bad = {}
        for n in S.nodes(k):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr not in attrs:
                if not guarded_attr(n):
                    bad.setdefault(n.attr, n)
        for a, n in bad.items():
            c.bad('attribute self.%s of %s' % (a, q), 'attribute of self', at(m, n), 'no method of the class (or its bases) ever sets %s' % a)
        if not bad:
            c.ok('attributes of class ' + q, 'attribute of self', at(m, k))
    # instances of internal classes held in local variables; attributes stored from outside the class count
    extra = set(x.attr for x in S.nodes(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
    for n in S.nodes(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id not in ('self', 'cls'):
            k = class_of(repo, m, n.value)
            if k is None:
                continue
            attrs, complete, _ = class_attrs(repo, k[0], k[1])
            if not complete:
                continue
            if n.attr in attrs | extra or guarded_attr(n):
                c.ok('attribute %s of a %s' % (n.attr, k[1].name), 'attribute of an instance', at(m, n))
            else:
                c.bad('attribute %s of a %s' % (n.attr, k[1].name), 'attribute of an instance', at(m, n), 'class %s has no attribute %s' % (k[1].name, n.attr))


def guarded_attr(n):
    """hasattr(self, 'x') tested on the way, or inside a try that catches AttributeError"""
    p = n
    while p is not None:
        q = getattr(p, 'parent', None)
        if isinstance(q, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr' for x in ast.walk(q.test)):
            return True
        if isinstance(q, ast.Try) and p in q.body:
            return True
        p = q
    return False


def options(c, repo, m):
    """attributes of parsed arguments are declared options"""
    for fn in [None] + list(m.funcs.values()):
        scope = fn.body if fn is not None else m.tree.body
        parsers, declared, complete = {}, {}, {}
        nodes = [n for st in scope for n in S.walk_scope(st)]
        # parser objects and everything reachable from them (groups, sub parsers) share one name space
        anyp = False
        dests, dyn = set(), False
        allnodes = list(S.nodes(m.tree)) if fn is None else nodes
        for n in S.nodes(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
                f2 = S.enclosing_function(n)
                d = None
                for k in n.keywords:
                    if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                        d = k.value.value
                    if k.arg is None:
                        dyn = True
                if d is None:
                    strs = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                    if len(strs) != len(n.args):
                        dyn = True
                    longs = [s for s in strs if s.startswith('--')] or [s for s in strs if s.startswith('-')]
                    if longs:
                        d = longs[0].lstrip('-').replace('-', '_')
                    elif strs:
                        d = strs[0]
                if d:
                    dests.add(d)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('set_defaults', 'add_subparsers', 'add_mutually_exclusive_group'):
                for k in n.keywords:
                    if n.func.attr == 'set_defaults' and k.arg:
                        dests.add(k.arg)
                    if n.func.attr == 'add_subparsers' and k.arg == 'dest' and isinstance(k.value, ast.Constant):
                        dests.add(k.value.value)
        if not dests or dyn:
            continue
        # variables assigned from parse_args() in this scope
        for n in nodes:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'parse_args':
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        parsers[t.id] = n
        for v, at0 in parsers.items():
            where = m.tree if fn is None else fn
            sets = set(x.attr for x in ast.walk(where) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == v)
            for x in ast.walk(where):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == v:
                    f2 = S.enclosing_function(x)
                    if f2 is not None and f2 is not fn and v in S.local_names(f2):
                        continue
                    if x.attr.startswith('_') or x.attr in dests or x.attr in sets or guarded_attr(x):
                        c.ok('option %s of %s' % (x.attr, m.rel), 'declared option', at(m, x))
                    else:
                        c.bad('option %s of %s' % (x.attr, m.rel), 'declared option', at(m, x), 'the parser declares no option with this name')


def bits(c, repo):
    """subscripts of bit mask objects are names of defined bits"""
    masks = {}
    for m in repo.lib():
        defs_ = {}
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call):
                t = repo.target(m, st.value.func)
                if t and t[0] == 'class' and t[2].name == 'BitMask' and len(st.value.args) >= 2 and isinstance(st.value.args[0], ast.Constant):
                    nm = st.value.args[0].value
                    d = st.value.args[1]
                    body = None
                    if isinstance(d, ast.Name):
                        for s2 in m.tree.body:
                            if isinstance(s2, ast.Assign) and any(isinstance(x, ast.Name) and x.id == d.id for x in s2.targets):
                                body = s2.value
                    names = bitnames(body, nm) if body is not None else None
                    for x in st.targets:
                        if isinstance(x, ast.Name) and names:
                            masks[m.name + '.' + x.id] = names
    if not masks:
        return c.undecided('bit masks', 'bit name', '', 'no bit mask definition recognised')
    for m in repo.modules():
        for n in S.nodes(m.tree):
            base, bit = None, None
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                base, bit = n.value, n.slice.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('mask', 'bitnum', 'comment') and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                base, bit = n.func.value, n.args[0].value
            elif isinstance(n, ast.Attribute) and n.attr.isupper():
                base, bit = n.value, n.attr
            if base is None:
                continue
            t = repo.target(m, base)
            if t and t[0] == 'value' and (t[1].name + '.' + t[2]) in masks:
                names = masks[t[1].name + '.' + t[2]]
                for b in bit.split('|'):
                    (c.ok if b in names else c.bad)('bit %s used in %s' % (b, m.rel), 'bit name', at(m, n), '' if b in names else 'mask %s defines no bit %s' % (t[2], b))


def bitnames(body, nm):
    """names in  dict(nm=[['NAME', 0, ...], ...])  or the YAML text of the same"""
    for n in ast.walk(body):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and '\n' in n.value:
            import re
            sec = re.split(r'^(\w+):\s*$', n.value, flags=re.M)
            for k in range(1, len(sec) - 1, 2):
                if sec[k] == nm:
                    return set(re.findall(r'-\s*\[\s*["\']?(\w+)', sec[k + 1]))
            return set(re.findall(r'-\s*\[\s*["\']?(\w+)', n.value)) or None
    out = set(n.elts[0].value for n in ast.walk(body) if isinstance(n, (ast.List, ast.Tuple)) and n.elts and isinstance(n.elts[0], ast.Constant) and isinstance(n.elts[0].value, str))
    return out or None


def externals(c, ext):
    info = S.oracle(list(ext.use))
    for path, uses in sorted(ext.use.items()):
        d = info.get(path, {})
        st = d.get('status')
        if st == 'nomodule':
            c.undecided('library %s' % path, 'installed library', uses[0][0], 'not installed here')
            continue
        if st == 'missing':
            # sub modules imported elsewhere are found by the oracle itself; anything else does not exist
            for w, call in uses[:1] if False else uses:
                c.bad('library name %s used in %s' % (path, w.split(':')[0]), 'installed library', w, '%s does not exist in the installed version' % path)
            continue
        if st != 'ok':
            c.undecided('library %s' % path, 'installed library', uses[0][0], 'could not be inspected')
            continue
        c.ok('library name %s' % path, 'installed library', uses[0][0])
        for w, call in uses:
            if call is None or not d.get('sig'):
                continue
            p = ext_bind(d['sig'], call)
            nm = 'library call %s in %s' % (path, w.split(':')[0])
            if p:
                c.bad(nm, 'library signature', w, p)
            else:
                c.ok(nm, 'library signature', w)


def ext_bind(sig, call):
    pos = [n for n, k, d in sig if k in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')]
    var = any(k == 'VAR_POSITIONAL' for n, k, d in sig)
    kwv = any(k == 'VAR_KEYWORD' for n, k, d in sig)
    kws = set(n for n, k, d in sig if k in ('POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY'))
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    n = len(call.args)
    if n > len(pos) and not var:
        return '%d positional arguments given, at most %d accepted' % (n, len(pos))
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg not in kws and not kwv:
            return 'unknown keyword argument %s' % k.arg
        if k.arg in given:
            return 'argument %s given twice' % k.arg
        given.add(k.arg)
    miss = [a for a, k, d in sig if k in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY') and not d and a not in given]
    if miss:
        return 'missing argument %s' % ', '.join(miss)
    return None


# what well known library functions return
RETURNS = {'numpy.ndarray': ['zeros', 'ones', 'empty', 'full', 'array', 'asarray', 'arange', 'linspace', 'zeros_like', 'ones_like', 'empty_like',
                             'full_like', 'vstack', 'hstack', 'column_stack', 'concatenate', 'unique', 'tile', 'repeat', 'delete', 'append', 'intersect1d', 'isin', 'in1d', 'argsort', 'linspace']}
RET = dict(('numpy.' + f, t) for t, fs in RETURNS.items() for f in fs)
RET['numpy.where'] = 'builtins.tuple'
RET['numpy.nonzero'] = 'builtins.tuple'
RET['astropy.table.Table.read'] = 'astropy.table.Table'
LITERAL = {ast.List: 'builtins.list', ast.ListComp: 'builtins.list', ast.Dict: 'builtins.dict', ast.DictComp: 'builtins.dict', ast.Set: 'builtins.set',
           ast.SetComp: 'builtins.set', ast.Tuple: 'builtins.tuple', ast.JoinedStr: 'builtins.str', ast.GeneratorExp: 'types.GeneratorType'}
BCALL = {'list', 'dict', 'set', 'tuple', 'str', 'int', 'float', 'sorted', 'bytes', 'bool'}


def value_type(repo, m, e):
    """dotted type (or class) of the value of an expression, None when unknown"""
    for k, t in LITERAL.items():
        if isinstance(e, k):
            return t
    if isinstance(e, ast.Constant):
        return 'builtins.' + type(e.value).__name__ if e.value is not None and e.value is not Ellipsis else None
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in BCALL and e.func.id not in m.toplevel and repo.target(m, e.func) is None:
            fn = S.enclosing_function(e)
            if fn is not None and e.func.id in S.local_names(fn):
                return None
            return 'builtins.list' if e.func.id == 'sorted' else 'builtins.' + e.func.id
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('format', 'strip', 'lower', 'upper', 'replace', 'join') and isinstance(e.func.value, ast.Constant) and isinstance(e.func.value.value, str):
            return 'builtins.str'
        t = repo.target(m, e.func)
        if t and t[0] == 'external':
            return RET.get(t[1], 'new ' + t[1])
    return None


_VT = {}


def var_type(repo, m, name):
    fn = S.enclosing_function(name)
    key = (m, fn, name.id)
    if key not in _VT:
        _VT[key] = var_type_(repo, m, name, fn)
    return _VT[key]


def var_type_(repo, m, name, fn):
    if fn is None:
        scope = m.tree
    else:
        if name.id not in S.local_names(fn) or name.id in [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs] + [a.arg for a in (fn.args.vararg, fn.args.kwarg) if a]:
            return None
        scope = fn
    stores = [x for x in S.nodes(scope) if isinstance(x, ast.Name) and x.id == name.id and isinstance(x.ctx, (ast.Store, ast.Del))]
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) and name.id in x.names for x in S.nodes(m.tree)):
        return None
    found = None
    for x in stores:
        p = getattr(x, 'parent', None)
        if not (isinstance(p, ast.Assign) and x in p.targets):
            return None
        t = value_type(repo, m, p.value)
        if t is None or (found is not None and t != found):
            return None
        found = t
    return found


def receivers(c, repo, m, ext):
    for n in S.nodes(m.tree):
        if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
            continue
        v = n.value
        t = None
        if isinstance(v, ast.Name) and v.id not in m.imports:
            t = var_type(repo, m, v)
        elif isinstance(v, (ast.Call, ast.Constant, ast.JoinedStr, ast.List, ast.Dict)):
            t = value_type(repo, m, v)
        if t is None or guarded_attr(n) or in_try_nameerror(n):
            continue
        stored = set(x.attr for x in S.nodes(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store))
        if n.attr in stored:
            continue
        p = getattr(n, 'parent', None)
        ext.inst.append((at(m, n), t, n.attr, p if isinstance(p, ast.Call) and p.func is n else None))


def instances(c, ext):
    paths = set()
    for w, t, a, call in ext.inst:
        paths.add(t[4:] if t.startswith('new ') else t)
    info = S.oracle(list(paths))
    for w, t, a, call in ext.inst:
        d = info.get(t[4:] if t.startswith('new ') else t, {})
        if d.get('status') != 'ok' or not d.get('dir'):
            continue
        nm = 'attribute %s of a %s in %s' % (a, t.split('.')[-1], w.split(':')[0])
        if a not in d['dir']:
            c.bad(nm, 'attribute of a library object', w, '%s has no attribute %s' % (t.replace('new ', ''), a))
            continue
        c.ok(nm, 'attribute of a library object', w)
        if call is not None and a in (d.get('methods') or {}):
            p = ext_bind(d['methods'][a], call)
            nm = 'library call %s of a %s in %s' % (a, t.split('.')[-1], w.split(':')[0])
            if p:
                c.bad(nm, 'library signature', w, p)
            else:
                c.ok(nm, 'library signature', w)


def formats(c, repo, m):
    """str.format fields and % conversions have their arguments"""
    import string
    for n in S.nodes(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            fn = S.enclosing_function(n)
            nm = 'format arguments in %s:%s' % (m.rel, fn.name if fn else '<module>')
            try:
                auto, p = 0, None
                def fields(txt):
                    for lit, f, spec, conv in string.Formatter().parse(txt):
                        if f is not None:
                            yield f
                            if spec:
                                yield from fields(spec)
                for f in fields(n.func.value.value):
                    first = f.replace('[', '.').split('.')[0]
                    if first == '':
                        first, auto = str(auto), auto + 1
                    if first.isdigit():
                        if int(first) >= len(n.args):
                            p = 'format field %s has no argument' % first
                    elif first not in [k.arg for k in n.keywords]:
                        p = 'format field %s has no argument' % first
            except ValueError as e:
                p = str(e)
            (c.bad if p else c.ok)(nm, 'format arguments', at(m, n), p or '')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('debug', 'info', 'warning', 'error', 'critical', 'warn') and isinstance(n.func.value, ast.Name) \
                and n.func.value.id in ('log', 'logger') and len(n.args) > 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and not any(isinstance(a, ast.Starred) for a in n.args):
            import re
            want = len(re.findall(r'%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]', n.args[0].value.replace('%%', '')))
            fn = S.enclosing_function(n)
            nm = 'log message arguments in %s:%s' % (m.rel, fn.name if fn else '<module>')
            k = len(n.args) - 1
            (c.ok if k == want else c.bad)(nm, 'format arguments', at(m, n), '' if k == want else '%d conversions in the message, %d arguments' % (want, k))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            import re
            conv = [x for x in re.findall(r'%(\(\w+\))?[-+ #0]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])', n.left.value)]
            if any(x[0] for x in conv):
                continue
            want = sum((x[3] != '%') + (x[1] == '*') + (x[2] == '*') for x in conv)
            got = None
            if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
                got = len(n.right.elts)
            elif isinstance(n.right, ast.Constant):
                got = 1
            if got is None:
                continue
            fn = S.enclosing_function(n)
            nm = 'format arguments in %s:%s' % (m.rel, fn.name if fn else '<module>')
            (c.ok if got == want else c.bad)(nm, 'format arguments', at(m, n), '' if got == want else '%d conversions, %d arguments' % (want, got))


def constkeys(c, repo, m):
    """constant keys looked up in constant tables of a module (dictionary literals never changed by the code)"""
    tables = const_tables(repo)
    for n in S.nodes(m.tree):
        if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
            continue
        t = repo.target(m, n.value)
        if not t or t[0] != 'value' or (t[1], t[2]) not in tables or in_try(n):
            continue
        keys = tables[(t[1], t[2])]
        nm = 'key %s of %s used in %s' % (n.slice.value, t[2], m.rel)
        (c.ok if n.slice.value in keys else c.bad)(nm, 'constant key', at(m, n), '' if n.slice.value in keys else 'table %s has no key %s' % (t[2], n.slice.value))


def in_try(n):
    p = n
    while p is not None:
        q = getattr(p, 'parent', None)
        if isinstance(q, ast.Try) and p in q.body:
            return True
        p = q
    return False


_CT = {}


def const_tables(repo):
    if repo in _CT:
        return _CT[repo]
    out = {}
    for m in repo.modules():
        seen = {}
        for st in m.tree.body:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    seen[x.id] = seen.get(x.id, 0) + 1
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and seen.get(st.targets[0].id) == 1:
                v = st.value
                keys = None
                if isinstance(v, ast.Dict) and v.keys and all(isinstance(k, ast.Constant) for k in v.keys):
                    keys = set(k.value for k in v.keys)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and not v.args and v.keywords and all(k.arg for k in v.keywords):
                    keys = set(k.arg for k in v.keywords)
                if keys:
                    out[(m, st.targets[0].id)] = keys
    # any use that could change the table, or pass it on, takes it out
    for m in repo.modules():
        for n in S.nodes(m.tree):
            if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load):
                continue
            p = getattr(n, 'parent', None)
            if isinstance(p, ast.Subscript) and p.value is n and isinstance(p.ctx, ast.Load):
                continue
            if isinstance(p, ast.Compare) or (isinstance(p, (ast.For, ast.comprehension)) and p.iter is n):
                continue
            if isinstance(p, ast.Attribute) and p.attr in ('keys', 'values', 'items', 'get', 'copy'):
                continue
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('len', 'list', 'set', 'sorted', 'print', 'dict', 'tuple') and n in p.args:
                continue
            t = repo.target(m, n)
            if t and t[0] == 'value' and (t[1], t[2]) in out:
                if isinstance(p, ast.Attribute) and repo.target(m, p) is not None and repo.target(m, p)[0] == 'value':
                    continue
                del out[(t[1], t[2])]
    _CT[repo] = out
    return out


def arity(c, repo, m):
    """as many values are unpacked as the called function returns"""
    for n in S.nodes(m.tree):
        if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)):
            continue
        for tg in n.targets:
            if not isinstance(tg, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in tg.elts):
                continue
            f = None
            t = repo.target(m, n.value.func)
            if t and t[0] == 'func':
                f = t[2]
            elif isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name):
                cl = class_of(repo, m, n.value.func.value)
                f = lookup(repo, cl, n.value.func.attr) if cl else None
            if f is None or f.decorator_list and not set(deco(f)) <= {'staticmethod', 'classmethod'}:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for st in f.body for x in S.walk_scope(st)):
                continue
            rets = [x for st in f.body for x in S.walk_scope(st) if isinstance(x, ast.Return) and S.enclosing_function(x) is f]
            sizes = set(len(r.value.elts) if isinstance(r.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.value.elts) else None for r in rets)
            if not rets:
                sizes = {0}
            if None in sizes:
                continue
            nm = 'values of %s unpacked in %s' % (f.name, m.rel)
            k = len(tg.elts)
            if len(sizes) > 1 and k in sizes and any(option_return(r, f) for r in rets):
                sizes = {k}     # the shape of the result is chosen by an argument
            (c.ok if sizes == {k} else c.bad)(nm, 'returned values', at(m, n), '' if sizes == {k} else '%d values unpacked, %s returned' % (k, ' or '.join(map(str, sorted(sizes)))))


def option_return(r, f):
    """the return is under a test of parameters of the function alone"""
    pars = set(a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs)
    p = r
    while p is not f:
        q = p.parent
        if isinstance(q, ast.If) and p is not q.test:
            names = [x for x in ast.walk(q.test) if isinstance(x, ast.Name)]
            if names and all(x.id in pars for x in names) and not any(isinstance(x, (ast.Call, ast.Attribute)) for x in ast.walk(q.test)):
                return True
        p = q
    return False
