"""Forward dataflow over file paths.  The domain is a finite set of concrete strings, None and
'unknown' per variable; the analysis is flow sensitive, follows calls into the package (context
sensitive by inlining) and is run once per configuration of the environment.  Imports happen
before the environment variable is set, so module level values and defaults see it unset."""
import ast
from . import src as S

U = ('u',)        # unknown
N = ('none',)
T_, F_ = ('b', True), ('b', False)
PK = '/PACKAGE'
ENVIRON = ('environ',)
MAXSET = 24


def s(x):
    return ('s', x)


def modfile(m):
    return s(PK + '/' + m.name.replace('.', '/') + ('/__init__.py' if m.is_pkg else '.py')) if not m.script else U


class Reads(object):
    def __init__(self):
        self.items = []     # (root, stack of qualified names, module rel, line, callee text, set of values)


class KeyErr(Exception):
    pass


class An(object):
    def __init__(self, repo, env, variable='DESIMETER_DATA'):
        self.repo, self.env, self.variable = repo, env, variable
        self.reads = []
        self.mod_env = {}
        self.depth = 0
        self.stack = []
        self.memo = {}
        self.calls = 0

    # ---------------------------------------------------------------- module level
    def modvars(self, m):
        if m.name in self.mod_env:
            return self.mod_env[m.name]
        out = self.mod_env[m.name] = {}
        save, self.env = self.env, None         # import time: override not set yet
        r, self.reads = self.reads, []
        try:
            st = dict()
            for n in m.tree.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and getattr(n, 'value', None) is not None:
                    try:
                        v = self.ev(n.value, st, m, None)
                    except KeyErr:
                        v = {U}
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name):
                            st[t.id] = v
                            out[t.id] = v
        finally:
            self.env, self.reads = save, r
        return out

    # ---------------------------------------------------------------- functions
    def run(self, m, fn, args=None, kw=None, this=None):
        """set of returned values; reads are recorded"""
        if self.depth > 7 or fn in self.stack:
            return {U}
        self.depth += 1
        self.stack.append(fn)
        self.calls += 1
        try:
            st = {}
            a = fn.args
            names = [x.arg for x in a.posonlyargs + a.args]
            save, self.env = self.env, None
            r, self.reads = self.reads, []
            try:
                dflt = {}
                for nme, d in list(zip(reversed(names), reversed(a.defaults))) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                    dflt[nme] = self.ev(d, {}, m, None)
            finally:
                self.env, self.reads = save, r
            for x in names + [x.arg for x in a.kwonlyargs]:
                st[x] = set(dflt.get(x, ())) | {U} if args is None else set(dflt.get(x, {U}))
            if args is not None:
                pos = list(names)
                if S.enclosing_class(fn) is not None and this and pos:
                    st[pos.pop(0)] = {U}
                for nme, v in zip(pos, args):
                    st[nme] = v
                for k, v in (kw or {}).items():
                    if k in st:
                        st[k] = v
            self.ret = []
            ret = []
            self.block(fn.body, st, m, fn, ret)
            out = set()
            for v in ret:
                out |= v
            return out or {N}
        finally:
            self.stack.pop()
            self.depth -= 1

    def join(self, *sts):
        sts = [x for x in sts if x is not None]
        if not sts:
            return None
        out = {}
        for k in set().union(*sts):
            v = set()
            for x in sts:
                v |= x.get(k, set())
            out[k] = v if len(v) <= MAXSET else {U}
        return out

    def block(self, body, st, m, fn, ret):
        for b in body:
            if st is None:
                return None
            st = self.stmt(b, st, m, fn, ret)
        return st

    def setname(self, t, v, st, m, fn):
        if isinstance(t, ast.Name):
            st[t.id] = v
        elif isinstance(t, ast.Attribute):
            d = S.dotted(t)
            if d:
                st['.'.join(d)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.setname(x, {U}, st, m, fn)
        elif isinstance(t, ast.Starred):
            self.setname(t.value, {U}, st, m, fn)

    def stmt(self, b, st, m, fn, ret):
        if isinstance(b, ast.Assign):
            if len(b.targets) == 1 and isinstance(b.targets[0], (ast.Tuple, ast.List)) and isinstance(b.value, (ast.Tuple, ast.List)) and len(b.value.elts) == len(b.targets[0].elts):
                vs = [self.ev(x, st, m, fn) for x in b.value.elts]
                for t, v in zip(b.targets[0].elts, vs):
                    self.setname(t, v, st, m, fn)
                return st
            v = self.ev(b.value, st, m, fn)
            for t in b.targets:
                self.setname(t, v, st, m, fn)
            return st
        if isinstance(b, ast.AnnAssign):
            if b.value is not None:
                self.setname(b.target, self.ev(b.value, st, m, fn), st, m, fn)
            return st
        if isinstance(b, ast.AugAssign):
            v = self.ev(b.value, st, m, fn)
            if isinstance(b.target, ast.Name) and isinstance(b.op, ast.Add):
                st[b.target.id] = self.cat(st.get(b.target.id, {U}), v)
            else:
                self.setname(b.target, {U}, st, m, fn)
            return st
        if isinstance(b, ast.Expr):
            self.ev(b.value, st, m, fn)
            return st
        if isinstance(b, ast.Return):
            ret.append(self.ev(b.value, st, m, fn) if b.value is not None else {N})
            return None
        if isinstance(b, (ast.Raise, ast.Continue, ast.Break)):
            if isinstance(b, ast.Raise):
                return None
            return st if False else None
        if isinstance(b, ast.If):
            t = self.truth(b.test, st, m, fn)
            a = c = None
            if True in t:
                a = self.block(b.body, self.refine(b.test, True, dict(st), m, fn), m, fn, ret)
            if False in t:
                c = self.block(b.orelse, self.refine(b.test, False, dict(st), m, fn), m, fn, ret)
            return self.join(a, c)
        if isinstance(b, (ast.For, ast.While, ast.AsyncFor)):
            if isinstance(b, ast.While):
                self.ev(b.test, st, m, fn)
            else:
                self.ev(b.iter, st, m, fn)
            cur = dict(st)
            for _ in range(2):
                x = dict(cur)
                if not isinstance(b, ast.While):
                    items = None
                    if isinstance(b.iter, (ast.Tuple, ast.List)):
                        items = set()
                        for e in b.iter.elts:
                            items |= self.ev(e, x, m, fn)
                    self.setname(b.target, items or {U}, x, m, fn)
                y = self.block(b.body, x, m, fn, ret)
                cur = self.join(cur, y)
            # break/continue: join the variables assigned anywhere in the body
            z = self.block(b.orelse, dict(cur), m, fn, ret) if b.orelse else cur
            return z
        if isinstance(b, (ast.With, ast.AsyncWith)):
            for it in b.items:
                v = self.ev(it.context_expr, st, m, fn)
                if it.optional_vars is not None:
                    self.setname(it.optional_vars, v, st, m, fn)
            return self.block(b.body, st, m, fn, ret)
        if isinstance(b, ast.Try):
            s0 = dict(st)
            n0 = len(ret)
            raised = False
            try:
                a = self.block(b.body, st, m, fn, ret)
                if a is not None and b.orelse:
                    a = self.block(b.orelse, a, m, fn, ret)
            except KeyErr:
                del ret[n0:]
                a, raised = None, True
            h = []
            certain = raised or not self.env_only(b.body)
            if certain:
                for x in b.handlers:
                    h.append(self.block(x.body, dict(s0), m, fn, ret))
            out = self.join(a, *h)
            if b.finalbody:
                out = self.block(b.finalbody, out if out is not None else dict(s0), m, fn, ret)
            return out
        if isinstance(b, ast.Delete):
            return st
        return st

    def env_only(self, body):
        """the only thing in the block that can raise is the environment lookup, which succeeded"""
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Call):
                    return False
        return True

    # ---------------------------------------------------------------- conditions
    def truth(self, e, st, m, fn):
        """possible truth values"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {not x for x in self.truth(e.operand, st, m, fn)}
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(x, st, m, fn) for x in e.values]
            if isinstance(e.op, ast.And):
                if any(t == {False} for t in ts):
                    return {False}
                return {True} if all(t == {True} for t in ts) else {True, False}
            if any(t == {True} for t in ts):
                return {True}
            return {False} if all(t == {False} for t in ts) else {True, False}
        out = set()
        for v in self.ev(e, st, m, fn):
            if v == N:
                out.add(False)
            elif v[0] == 's':
                out.add(bool(v[1]))
            elif v[0] == 'b':
                out.add(v[1])
            else:
                out |= {True, False}
        return out or {True, False}

    def refine(self, e, val, st, m, fn):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not val, st, m, fn)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) == val:
            for x in e.values:
                st = self.refine(x, val, st, m, fn)
            return st
        d = None
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            d = S.dotted(e.left)
            isnone = isinstance(e.ops[0], (ast.Is, ast.Eq)) == val
            if d:
                k = '.'.join(d)
                cur = st.get(k)
                if cur is None:
                    cur = self.ev(e.left, st, m, fn)
                st[k] = ({x for x in cur if x == N or x == U} and {N}) if isnone else ({x for x in cur if x != N} or {U})
                if isnone and not st[k]:
                    st[k] = {N}
            return st
        d = S.dotted(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if d:
            k = '.'.join(d)
            cur = st.get(k)
            if cur is not None:
                if val:
                    st[k] = {x for x in cur if x != N and x != F_ and x != s('')} or {U}
                else:
                    st[k] = {x for x in cur if x[0] != 's' or not x[1]} or {U}
        return st

    # ---------------------------------------------------------------- expressions
    def cat(self, a, b, sep=''):
        out = set()
        for x in a:
            for y in b:
                if x[0] == 's' and y[0] == 's':
                    if sep == '/':
                        out.add(s(y[1]) if y[1].startswith('/') else s(x[1].rstrip('/') + '/' + y[1]))
                    else:
                        out.add(s(x[1] + y[1]))
                elif x[0] == 's' and y == U:
                    out.add(s(x[1] + sep + '?'))
                elif y[0] == 's' and x == U:
                    out.add(s('?' + sep + y[1]))
                else:
                    out.add(U)
        return out if len(out) <= MAXSET else {U}

    def lookup(self, name, st, m):
        if name in st:
            return st[name]
        mv = self.modvars(m)
        if name in mv:
            return mv[name]
        if name == '__file__':
            return {modfile(m)}
        if name in m.imports:
            full = m.imports[name]
            r = self.repo.resolve(full)
            if r and r[0] == 'value':
                return self.modvars(r[1]).get(r[2], {U})
            if full == 'os.environ':
                return {ENVIRON}
        return {U}

    def ev(self, e, st, m, fn):
        if e is None:
            return {N}
        if isinstance(e, ast.Constant):
            if e.value is None:
                return {N}
            if isinstance(e.value, bool):
                return {('b', e.value)}
            if isinstance(e.value, str):
                return {s(e.value)}
            return {U}
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st, m)
        if isinstance(e, ast.Attribute):
            d = S.dotted(e)
            if d:
                k = '.'.join(d)
                if k in st:
                    return st[k]
                if d[0] not in st:
                    t = m.imports.get(d[0])
                    if t:
                        full = '.'.join([t] + d[1:])
                        if full == 'os.environ':
                            return {ENVIRON}
                        if full.endswith('.__file__') and full.split('.')[0] == 'desimeter' and full[:-9] in self.repo.mods:
                            return {modfile(self.repo.mods[full[:-9]])}
                        if full in ('os.sep', 'os.path.sep'):
                            return {s('/')}
                        r = self.repo.resolve(full)
                        if r and r[0] == 'value':
                            return self.modvars(r[1]).get(r[2], {U})
            else:
                self.ev(e.value, st, m, fn)
            if e.attr in ('name',):
                return {s(x[1].split('/')[-1]) if x[0] == 's' else U for x in self.ev(e.value, st, m, fn)}
            if e.attr == 'parent':
                return {s('/'.join(x[1].split('/')[:-1])) if x[0] == 's' else U for x in self.ev(e.value, st, m, fn)}
            return {U}
        if isinstance(e, ast.JoinedStr):
            r = {s('')}
            for p in e.values:
                r = self.cat(r, {s(p.value)} if isinstance(p, ast.Constant) else self.ev(p.value, st, m, fn))
            return r
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, st, m, fn), self.ev(e.right, st, m, fn)
            if isinstance(e.op, ast.Add):
                if any(x[0] == 's' for x in a | b):
                    return self.cat(a, b)
            if isinstance(e.op, ast.Div):
                if any(x[0] == 's' for x in a | b):
                    return self.cat(a, b, '/')
            if isinstance(e.op, ast.Mod) and all(x[0] == 's' and x[1].count('%s') == 1 for x in a) and not isinstance(e.right, ast.Tuple):
                out = set()
                for x in a:
                    p, q = x[1].split('%s')
                    out |= self.cat(self.cat({s(p)}, b), {s(q)})
                return out
            return {U}
        if isinstance(e, ast.IfExp):
            t = self.truth(e.test, st, m, fn)
            out = set()
            if True in t:
                out |= self.ev(e.body, self.refine(e.test, True, dict(st), m, fn), m, fn)
            if False in t:
                out |= self.ev(e.orelse, self.refine(e.test, False, dict(st), m, fn), m, fn)
            return out
        if isinstance(e, ast.BoolOp):
            out = set()
            for i, x in enumerate(e.values):
                vs = self.ev(x, st, m, fn)
                last = i == len(e.values) - 1
                go = False
                for v in vs:
                    tv = {False} if v in (N, F_, s('')) else {True} if v[0] in ('s',) or v == T_ else {True, False}
                    stop = isinstance(e.op, ast.Or)
                    if last or stop in tv:
                        out.add(v)
                    if (not stop) in tv:
                        go = True
                if not go:
                    break
            return out
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return {('b', x) for x in self.truth(e, st, m, fn)}
            self.ev(e.operand, st, m, fn)
            return {U}
        if isinstance(e, ast.Compare):
            l = self.ev(e.left, st, m, fn)
            rs = [self.ev(c, st, m, fn) for c in e.comparators]
            if len(rs) == 1:
                r, op = rs[0], e.ops[0]
                if isinstance(op, (ast.In, ast.NotIn)) and r == {ENVIRON} and l == {s(self.variable)}:
                    return {('b', (self.env is not None) == isinstance(op, ast.In))}
                if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    pos = isinstance(op, (ast.Is, ast.Eq))
                    out = set()
                    for x in l:
                        for y in r:
                            if U in (x, y) or ENVIRON in (x, y):
                                out |= {True, False}
                            else:
                                out.add((x == y) == pos)
                    return {('b', x) for x in out}
            return {U}
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, st, m, fn)
            i = self.ev(e.slice, st, m, fn)
            if v == {ENVIRON}:
                if i == {s(self.variable)}:
                    if self.env is None:
                        raise KeyErr()
                    return {s(self.env)}
                return {U}
            if isinstance(e.value, ast.Name) and all(x[0] == 's' for x in i):
                dct = self.dictof(e.value, m, fn)
                if dct:
                    out = set()
                    for x in i:
                        for k, vv in dct:
                            if k == x[1]:
                                out |= self.ev(vv, st, m, fn)
                    return out or {U}
            return {U}
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st, m, fn)
            self.setname(e.target, v, st, m, fn)
            return v
        if isinstance(e, ast.Call):
            return self.call(e, st, m, fn)
        if isinstance(e, (ast.Lambda,)):
            return {U}
        if isinstance(e, (ast.Tuple, ast.List, ast.Set, ast.Dict)):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x, st, m, fn)
            return {U}
        if isinstance(e, ast.Starred):
            self.ev(e.value, st, m, fn)
            return {U}
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            x = dict(st)
            for g in e.generators:
                self.ev(g.iter, x, m, fn)
                self.setname(g.target, {U}, x, m, fn)
            for p in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.ev(p, x, m, fn)
            return {U}
        return {U}

    def dictof(self, name, m, fn):
        """literal dictionary a module level name is bound to"""
        found = []
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name.id for t in n.targets):
                found.append(n.value)
        if len(found) == 1 and isinstance(found[0], ast.Dict):
            return [(k.value, v) for k, v in zip(found[0].keys, found[0].values) if isinstance(k, ast.Constant)]
        return None

    def record(self, e, m, callee, vals):
        self.reads.append((list(self.stack), m, e, callee, set(vals)))

    READERS = {'open', 'io.open', 'fitsio.read', 'fitsio.FITS', 'fitsio.read_header', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.load', 'pandas.read_csv',
               'astropy.table.Table.read', 'astropy.table.QTable.read', 'astropy.io.fits.open', 'astropy.io.ascii.read', 'json.load', 'yaml.safe_load'}
    READMETH = {'open', 'read_text', 'read_bytes'}

    def call(self, e, st, m, fn):
        args = [self.ev(a, st, m, fn) for a in e.args]
        kw = {k.arg: self.ev(k.value, st, m, fn) for k in e.keywords}
        f = e.func
        d = S.dotted(f)
        full = None
        if d and d[0] not in st:
            if d[0] in m.imports:
                full = '.'.join([m.imports[d[0]]] + d[1:])
            elif len(d) == 1 and d[0] in S.BUILTINS and d[0] not in m.funcs:
                full = d[0]
        if d and d[0] in ('cls', 'self') and len(d) == 2 and fn is not None:
            c = S.enclosing_class(fn)
            q = (S.qual(c) + '.' + d[1]) if c is not None else None
            if q in m.funcs:
                return self.run(m, m.funcs[q], args, kw, this=True)
        t = None
        if d:
            t = self.repo.target(m, f)
            if t is None and full:
                t = self.repo.resolve(full)
            if t and t[0] == 'class' and False:
                pass
        if t and t[0] == 'func':
            tf = t[2]
            if not (self.depth > 6):
                has_this = S.enclosing_class(tf) is not None and not any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in tf.decorator_list)
                return self.run(t[1], tf, args, kw, this=has_this)
            return {U}
        if full:
            if full in self.READERS or full.endswith('.Table.read'):
                a = args[0] if args else next(iter(kw.values()), {U})
                if full not in ('json.load', 'yaml.safe_load'):
                    self.record(e, m, full, a)
                return {U}
            if full in ('importlib.resources.files', 'importlib_resources.files'):
                return {s(PK + '/' + x[1].replace('.', '/')) if x[0] == 's' else U for x in args[0]} if args else {U}
            if full == 'pkg_resources.resource_filename' and len(args) > 1:
                return self.cat({s(PK + '/' + x[1].replace('.', '/')) if x[0] == 's' else U for x in args[0]}, args[1], '/')
            if full == 'os.path.join':
                r = args[0]
                for a in args[1:]:
                    r = self.cat(r, a, '/')
                return r
            if full in ('os.path.abspath', 'os.path.expandvars', 'os.path.expanduser', 'os.path.normpath', 'os.path.realpath', 'str', 'os.fspath', 'pathlib.Path', 'os.path.relpath', 'pathlib.PurePath', 'Path'):
                r = args[0] if args else {U}
                for a in args[1:] if full.endswith('Path') else []:
                    r = self.cat(r, a, '/')
                return r
            if full == 'os.path.dirname':
                return {s('/'.join(x[1].split('/')[:-1])) if x[0] == 's' else U for x in args[0]}
            if full == 'os.path.basename':
                return {s(x[1].split('/')[-1]) if x[0] == 's' else U for x in args[0]}
            if full in ('os.getenv', 'os.environ.get'):
                if args and args[0] == {s(self.variable)}:
                    return {s(self.env)} if self.env is not None else (args[1] if len(args) > 1 else kw.get('default', {N}))
                return {U}
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, st, m, fn)
            if o == {ENVIRON} and f.attr == 'get':
                if args and args[0] == {s(self.variable)}:
                    return {s(self.env)} if self.env is not None else (args[1] if len(args) > 1 else {N})
                return {U}
            if any(x[0] == 's' for x in o):
                if f.attr == 'joinpath':
                    r = o
                    for a in args:
                        r = self.cat(r, a, '/')
                    return r
                if f.attr == 'join' and o == {s('/')} and e.args and isinstance(e.args[0], (ast.Tuple, ast.List)):
                    parts = [self.ev(x, st, m, fn) for x in e.args[0].elts]
                    r = parts[0]
                    for p in parts[1:]:
                        r = self.cat(r, p, '/')
                    return r
                if f.attr == 'format':
                    out = set()
                    for x in o:
                        if x[0] == 's' and x[1].count('{}') == len(args) and '{' not in x[1].replace('{}', ''):
                            ps = x[1].split('{}')
                            r = {s(ps[0])}
                            for a, p in zip(args, ps[1:]):
                                r = self.cat(self.cat(r, a), {s(p)})
                            out |= r
                        else:
                            out.add(U)
                    return out
                if f.attr in self.READMETH:
                    self.record(e, m, '.' + f.attr, o)
                    return {U}
                if f.attr in ('resolve', 'absolute', 'strip', 'rstrip', 'expanduser', 'as_posix', '__str__'):
                    return o
        return {U}
