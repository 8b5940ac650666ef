"""Interprocedural effect analysis: which caller-owned objects may a function modify.

Abstract value of an expression: set of roots.  A root (p, 0) means 'the object the caller passed
as p, or data sharing memory with it'; (p, 1) 'an object held by it' (entry of a dict or list, an
attribute).  Fresh objects have no roots.  Flow sensitive inside a function (strong updates of
locals), joins at merges, loops to a fixed point, summaries (parameters modified, parameters the
result aliases) propagated over the call graph to a fixed point."""
import ast
from . import src as S

E = frozenset()
ALIAS_FN = {'asarray', 'atleast_1d', 'atleast_2d', 'asanyarray', 'ravel', 'reshape', 'squeeze', 'transpose', 'ascontiguousarray', 'broadcast_to', 'swapaxes', 'asfarray', 'moveaxis', 'expand_dims', 'rollaxis', 'atleast_3d', 'flipud', 'fliplr', 'flip', 'rot90', 'real', 'asfortranarray'}
ALIAS_METH = {'ravel', 'reshape', 'view', 'squeeze', 'transpose', 'swapaxes', 'get', 'setdefault', 'as_array', 'values', 'items', '__getitem__', 'pop', '__enter__', 'columns', 'itercols', 'iterrows', 'diagonal'}
ALIAS_ATTR = {'T', 'flat', 'real', 'imag', 'data', 'base', 'columns', 'A1', 'quantity', 'value'}
INPLACE = {'sort', 'fill', 'append', 'extend', 'insert', 'remove', 'clear', 'update', 'pop', 'popitem', 'setdefault', 'reverse', 'add', 'discard', 'add_column', 'add_columns',
           'remove_column', 'remove_columns', 'remove_row', 'remove_rows', 'rename_column', 'rename_columns', 'keep_columns', 'replace_column', 'add_row', 'insert_row', 'put', 'itemset', 'resize',
           'partition', 'byteswap', 'setflags', 'setfield', '__setitem__', 'add_index', 'convert_bytestring_to_unicode', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'append_row', 'set', 'setval'}
INPLACE_FN = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0, 'numpy.random.shuffle': 0, 'random.shuffle': 0, 'numpy.put_along_axis': 0,
              'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0, 'numpy.maximum.at': 0, 'heapq.heappush': 0, 'heapq.heapify': 0, 'heapq.heappop': 0, 'bisect.insort': 0, 'setattr': 0, 'delattr': 0}
ELEMS = {'enumerate', 'zip', 'reversed', 'iter', 'map', 'filter', 'sorted', 'next', 'min', 'max'}
UFUNC = dict.fromkeys('add subtract multiply divide true_divide floor_divide power mod remainder fmod arctan2 hypot maximum minimum fmax fmin logaddexp copysign logical_and logical_or bitwise_and bitwise_or'.split(), 2)
UFUNC.update(dict.fromkeys('sin cos tan arcsin arccos arctan deg2rad rad2deg radians degrees sqrt square exp log log10 abs absolute negative floor ceil rint sign reciprocal isfinite isnan logical_not'.split(), 1))
UFUNC['clip'] = 3
SHALLOW = {'list', 'tuple', 'dict', 'set', 'copy.copy', 'collections.OrderedDict'}


class Mut(object):
    def __init__(self, p, lvl, mod, node, what):
        self.p, self.lvl, self.mod, self.node, self.what = p, lvl, mod, node, what


class Summary(object):
    def __init__(self):
        self.mut = {}       # param -> Mut
        self.ret = E        # roots the result may alias
        self.cls = E        # package classes the result may be an instance of
        self.held = {}      # (class, attribute, parameter) -> (mod, node): a caller's object stored on the instance
        self.glob = {}      # module global (module, name) -> Mut
        self.globs = {}     # the same, every modification made by the function itself

    def key(self):
        return (frozenset(self.mut), self.ret, frozenset(self.glob), self.cls, frozenset(self.held))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None


class Effects(object):
    """summaries of all functions, and of functions specialised to the constant options given at call
    sites (omitted options with their default, True/False/None passed literally)"""

    def __init__(self, repo, mods=None):
        self.repo = repo
        self.mods = mods or repo.lib()
        self.fns = []
        self.where = {}
        self.methods = {}       # method name -> [(class key, fn)]
        self.bases = {}
        for m in self.mods:
            for q, fn in m.funcs.items():
                self.fns.append((m, q, fn))
                self.where[fn] = (m, q)
                c = S.enclosing_class(fn)
                if c is not None and S.enclosing_function(fn) is None:
                    self.methods.setdefault(fn.name, []).append(((m.name, S.qual(c)), fn))
        self.sum = {(fn, E): Summary() for m, q, fn in self.fns}
        self.sites = 0
        for rnd in range(12):
            self.changed = False
            self.sites = 0
            for fn, consts in list(self.sum):
                self.one(fn, consts)
            if not self.changed:
                break
        self.rounds = rnd + 1

    def one(self, fn, consts):
        k = self.sum[fn, consts].key()
        self.sum[fn, consts] = One(self, self.where[fn][0], fn, dict(consts)).go()
        if self.sum[fn, consts].key() != k:
            self.changed = True

    def get(self, fn, consts=E):
        if (fn, consts) not in self.sum:
            self.sum[fn, consts] = Summary()
            self.changed = True
            self.one(fn, consts)
        return self.sum[fn, consts]

    def method(self, cls, name):
        for k, fn in self.methods.get(name, []):
            if k == cls:
                return fn
        m = self.repo.mods.get(cls[0]) if isinstance(self.repo.mods, dict) else None
        if m is not None and cls[1] in m.classes:
            for b in m.classes[cls[1]].bases:
                t = self.repo.target(m, b)
                if t and t[0] == 'class':
                    return self.method((t[1].name, S.qual(t[2])), name)
        return None


class One(object):
    def __init__(self, eff, m, fn, consts=None):
        self.eff, self.m, self.fn = eff, m, fn
        self.consts = consts or {}
        self.repo = eff.repo
        self.out = Summary()
        self.pos, self.kwo, self.va, self.kwa = params(fn)
        self.params = set(self.pos + self.kwo + ([self.va] if self.va else []))
        c = S.enclosing_class(fn)
        self.method = c is not None and S.enclosing_function(fn) is None and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
        self.me = self.pos[0] if self.method and self.pos else None
        self.globals = set()
        for n in S.walk_scope(fn):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        self.kind = {}      # local name -> 'mask' | 'int' | 'slice' | 'str'
        self.locals = S.local_names(fn)

    def go(self):
        st = {}
        for p in self.params:
            st[p] = E if p in self.consts else frozenset([(p, 0)])
        for n in S.walk_scope(self.fn):         # rebound parameters are not constants
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.consts.pop(n.id, None)
        c = S.enclosing_class(self.fn)
        if self.me:
            st['@' + self.me] = frozenset([(self.m.name, S.qual(c))])
        if self.va:
            st[self.va] = frozenset([(self.va, 2)])
        if self.kwa:
            st[self.kwa] = E
        self.block(self.fn.body, st)
        return self.out

    # ------------------------------------------------------------------ recording
    def mutate(self, roots, node, what):
        self.eff.sites += 1
        for p, lvl in roots:
            if lvl == 2:
                continue
            if isinstance(p, tuple):
                self.out.glob.setdefault(p, Mut(p, lvl, self.m, node, what))
                self.out.globs.setdefault(p, []).append(Mut(p, lvl, self.m, node, what))
            elif p != self.me:
                self.out.mut.setdefault(p, Mut(p, lvl, self.m, node, what))
            elif p == self.me:
                self.out.mut.setdefault(p, Mut(p, lvl, self.m, node, what))

    # ------------------------------------------------------------------ statements
    def join(self, *sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        out = {}
        for k in set().union(*sts):
            v = E
            for s in sts:
                v |= s.get(k, E)
            out[k] = v
        return out

    def block(self, body, st):
        for b in body:
            if st is None:
                return None
            st = self.stmt(b, st)
        return st

    def bind(self, t, v, st, value=None):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.out.glob.setdefault((self.m.name, t.id), Mut((self.m.name, t.id), 0, self.m, t, 'rebinding'))
                return
            st[t.id] = v
            st['@' + t.id] = self.classes(value, st)
            k = self.idxkind(value, st) if value is not None else None
            st['#' + t.id] = frozenset([k]) if k else E
        elif isinstance(t, (ast.Tuple, ast.List)):
            if value is not None and isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                vs = [self.ev(x, st) for x in value.elts]
                for x, w, y in zip(t.elts, vs, value.elts):
                    self.bind(x, w, st, y)
            elif isinstance(value, ast.Call) and (S.dotted(value.func) or [''])[-1] in ('broadcast_arrays', 'atleast_1d', 'atleast_2d') and len(value.args) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + value.args):
                vs = [self.ev(x, st) for x in value.args]
                for x, w in zip(t.elts, vs):
                    self.bind(x, w, st)
            else:
                for x in t.elts:
                    self.bind(x, frozenset((p, max(l, 1)) if l != 2 else (p, 0) for p, l in v), st)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.owner(t.value, st)
            self.ev(t.slice, st)
            self.mutate(o, t, 'item assignment')
            self.hold(t.value, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.owner(t.value, st)
            self.mutate(o, t, 'attribute assignment')
            d = S.dotted(t)
            if d:
                st['.'.join(d)] = v
                st['@' + '.'.join(d)] = self.classes(value, st)
            if isinstance(t.value, ast.Name) and t.value.id == self.me:
                for p, l in v:
                    if p in self.params and p != self.me and l == 0:
                        for k in st.get('@' + self.me, E):
                            self.out.held.setdefault((k, t.attr, p), (self.m, t))
            self.hold(t.value, v, st)

    def classes(self, e, st):
        """package classes e is an instance of, as far as known"""
        if e is None:
            return E
        if isinstance(e, (ast.Name, ast.Attribute)):
            d = S.dotted(e)
            return st.get('@' + '.'.join(d), E) if d else E
        if isinstance(e, ast.IfExp):
            return self.classes(e.body, st) | self.classes(e.orelse, st)
        if isinstance(e, ast.Call):
            t = self.callee(e, st)
            if t is None:
                d = S.dotted(e.func)
                if d == ['cls'] and self.me == 'cls':
                    return st.get('@cls', E)
                return E
            if t[0] == 'class':
                return frozenset([(t[1].name, S.qual(t[2]))])
            if t[0] == 'func':
                return frozenset().union(*[self.eff.get(f).cls for f in t[2]])
        return E

    def callee(self, e, st):
        """('class', mod, node) or ('func', mod, [functions], receiver expression or None)"""
        f = e.func
        d = S.dotted(f)
        if d is None:
            if isinstance(f, ast.Attribute):
                ks = self.classes(f.value, st)
                fs = [x for x in (self.eff.method(k, f.attr) for k in sorted(ks)) if x is not None]
                if fs:
                    return ('func', self.m, fs, f.value)
            return None
        if d[0] not in st or (self.me and d[0] == self.me):
            t = None
            if not (self.me and d[0] == self.me):
                t = self.repo.target(self.m, f)
                if t is None and d[0] in self.m.imports:
                    t = self.repo.resolve('.'.join([self.m.imports[d[0]]] + d[1:]))
            if t and t[0] == 'class':
                return t
            if t and t[0] == 'func' and (t[2], E) in self.eff.sum:
                return ('func', t[1], [t[2]], None)
        if len(d) >= 2:
            ks = st.get('@' + '.'.join(d[:-1]), E)
            fs = [x for x in (self.eff.method(k, d[-1]) for k in sorted(ks)) if x is not None]
            if fs:
                return ('func', self.m, fs, f.value)
        return None

    def hold(self, container, v, st):
        """a fresh local container now also holds v"""
        pass

    def stmt(self, b, st):
        if isinstance(b, ast.Assign):
            v = self.ev(b.value, st)
            for t in b.targets:
                self.bind(t, v, st, b.value)
            return st
        if isinstance(b, ast.AnnAssign):
            if b.value is not None:
                self.bind(b.target, self.ev(b.value, st), st, b.value)
            return st
        if isinstance(b, ast.AugAssign):
            self.ev(b.value, st)
            t = b.target
            if isinstance(t, ast.Name):
                if t.id in st and t.id not in self.globals:
                    self.augname(t.id, st[t.id], b, st)
            else:
                d = S.dotted(t)
                if isinstance(t, ast.Attribute) and d:
                    self.augname('.'.join(d), st['.'.join(d)] if '.'.join(d) in st else self.ev(t, st), b, st)
                o = self.owner(t.value, st)
                if isinstance(t, ast.Subscript):
                    self.ev(t.slice, st)
                self.mutate(o, b, 'in-place operation')
            return st
        if isinstance(b, ast.Expr):
            self.ev(b.value, st)
            return st
        if isinstance(b, ast.Return):
            if b.value is not None:
                self.out.cls |= self.classes(b.value, st)
                self.out.ret |= frozenset((p, l) for p, l in self.ev(b.value, st) if p in self.params or isinstance(p, tuple))
            return None
        if isinstance(b, ast.Raise):
            return None
        if isinstance(b, (ast.Break, ast.Continue)):
            self.brk.append(dict(st)) if getattr(self, 'brk', None) is not None else None
            return None
        if isinstance(b, ast.If):
            self.ev(b.test, st)
            k = self.truth(b.test)
            s1 = self.block(b.body, self.refine(b.test, True, dict(st))) if k is not False else None
            s2 = self.block(b.orelse, self.refine(b.test, False, dict(st))) if k is not True else None
            return self.join(s1, s2)
        if isinstance(b, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(b, ast.While):
                self.ev(b.test, st)
            old = getattr(self, 'brk', None)
            self.brk = []
            cur = dict(st)
            for _ in range(3):
                x = dict(cur)
                if not isinstance(b, ast.While):
                    self.forbind(b, x)
                y = self.block(b.body, x)
                cur = self.join(cur, y, *self.brk)
                self.brk = []
            self.brk = old
            return self.block(b.orelse, cur) if b.orelse else cur
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested(b.args, b.body, st)
            for d in b.args.defaults + [x for x in b.args.kw_defaults if x is not None]:
                self.ev(d, st)
            st.pop(b.name, None)
            return st
        if isinstance(b, (ast.With, ast.AsyncWith)):
            for it in b.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, st)
            return self.block(b.body, st)
        if isinstance(b, ast.Try):
            s0 = dict(st)
            a = self.block(b.body, st)
            if a is not None and b.orelse:
                a = self.block(b.orelse, a)
            hs = []
            for h in b.handlers:
                hs.append(self.block(h.body, self.join(s0, a or s0)))
            out = self.join(a, *hs)
            if b.finalbody:
                out = self.block(b.finalbody, out if out is not None else dict(s0))
            return out
        if isinstance(b, ast.Delete):
            for t in b.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, st), t, 'deletion of an item')
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, st), t, 'deletion of an attribute')
                elif isinstance(t, ast.Name):
                    st.pop(t.id, None)
            return st
        return st

    def nested(self, args, body, st):
        """body of a nested function, in the environment of its definition; its parameters are unknown objects"""
        x = dict(st)
        for a in args.posonlyargs + args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y]:
            x[a.arg] = E
            x['@' + a.arg] = x['#' + a.arg] = E
        ret, cls = self.out.ret, self.out.cls
        old, self.brk = getattr(self, 'brk', None), None
        if isinstance(body, list):
            for n in [n for b in body for n in ast.walk(b)]:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in self.params:
                    pass
            self.block(body, x)
        else:
            self.ev(body, x)
        self.brk = old
        self.out.ret, self.out.cls = ret, cls

    def owner(self, e, st):
        """roots of e where an item or attribute of e is stored: indexing with anything but a mask or
        an index array reaches the object itself"""
        if isinstance(e, ast.Subscript):
            v = self.ev(e, st)
            k = self.idxkind(e.slice, st)
            return v if k == 'copy' else v | self.owner(e.value, st)
        return self.ev(e, st)

    def augname(self, name, roots, b, st):
        """x op= y: in place when x is an array or list; elements reached through an integer index are taken to be numbers"""
        k = st.get('#' + name, E)
        if isinstance(b.value, ast.JoinedStr) or (isinstance(b.value, ast.Constant) and isinstance(b.value.value, str)):
            return
        if name in self.scalars():
            return
        hit = frozenset((p, l) for p, l in roots if l in (0, 1) and 'scalar' not in k)
        if hit:
            self.mutate(hit, b, 'in-place operation')

    def scalars(self):
        """names whose comparison is used directly as a truth value: numbers, not arrays"""
        c = getattr(self, '_scal', None)
        if c is None:
            c = self._scal = set()

            def tests(e):
                if isinstance(e, ast.BoolOp):
                    for x in e.values:
                        tests(x)
                elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                    tests(e.operand)
                elif isinstance(e, ast.Compare) and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in e.ops):
                    for x in [e.left] + e.comparators:
                        if isinstance(x, ast.Name):
                            c.add(x.id)
            for n in S.walk_scope(self.fn):
                if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                    tests(n.test)
        return c

    def forbind(self, b, st):
        it = b.iter
        self.ev(it, st)
        if isinstance(it, (ast.Tuple, ast.List)):
            v = E
            for x in it.elts:
                v |= self.ev(x, st)
            if isinstance(b.target, ast.Name):
                st[b.target.id] = v
                st['#' + b.target.id] = E
                return
            ts = b.target.elts if isinstance(b.target, (ast.Tuple, ast.List)) else []
            for i, t in enumerate(ts):
                w = E
                for x in it.elts:
                    if isinstance(x, (ast.Tuple, ast.List)) and len(x.elts) == len(ts):
                        w |= self.ev(x.elts[i], st)
                self.bind(t, w, st)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and isinstance(b.target, (ast.Tuple, ast.List)) and len(b.target.elts) == len(it.args):
            for t, x in zip(b.target.elts, it.args):
                self.bindelem(t, self.ev(x, st), st)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(b.target, (ast.Tuple, ast.List)) and len(b.target.elts) == 2:
            self.bind(b.target.elts[0], E, st)
            self.bindelem(b.target.elts[1], self.ev(it.args[0], st), st)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(b.target, (ast.Tuple, ast.List)) and len(b.target.elts) == 2:
            self.bind(b.target.elts[0], E, st)
            v = self.ev(it.func.value, st)
            self.bind(b.target.elts[1], frozenset((p, 1) for p, l in v), st)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range':
            self.bind(b.target, E, st)
            return
        self.bindelem(b.target, self.ev(it, st), st)

    def bindelem(self, t, v, st):
        """loop variable over v: for an array argument the element is a number"""
        self.bind(t, frozenset((p, 0 if l == 2 else 1) for p, l in v), st)
        if isinstance(t, ast.Name) and not any(l == 2 for p, l in v):
            st['#' + t.id] = frozenset(['scalar'])

    def truth(self, e):
        """value of a test that depends on specialised options only"""
        if isinstance(e, ast.Name) and e.id in self.consts:
            return bool(self.consts[e.id])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and e.left.id in self.consts and isinstance(e.comparators[0], ast.Constant):
            a, b = self.consts[e.left.id], e.comparators[0].value
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                return a == b and (a is None) == (b is None)
            if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                return not (a == b and (a is None) == (b is None))
        return None

    def refine(self, test, val, st):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not val, st)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == val:
            for x in test.values:
                st = self.refine(x, val, st)
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)) == val:
                if test.left.id in st:
                    st[test.left.id] = E        # it is None here
        if isinstance(test, ast.Call) and val:
            d = S.dotted(test.func)
            if d and d[-1] == 'isscalar' and test.args and isinstance(test.args[0], ast.Name):
                st[test.args[0].id] = E
            if d == ['isinstance'] and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
                names = {n.id for n in ast.walk(test.args[1]) if isinstance(n, ast.Name)}
                if names and names <= {'int', 'float', 'str', 'bool', 'tuple', 'complex'}:
                    st[test.args[0].id] = E
        return st

    # ------------------------------------------------------------------ expressions
    def idxkind(self, e, st):
        """kind of an index expression: 'copy' (fancy or boolean), 'int', 'view', 'str' or None"""
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            return 'str' if isinstance(e.value, str) else ('int' if isinstance(e.value, int) else ('view' if e.value in (None, Ellipsis) else None))
        if isinstance(e, ast.Slice):
            return 'view'
        if isinstance(e, ast.Tuple):
            ks = [self.idxkind(x, st) for x in e.elts]
            if 'copy' in ks:
                return 'copy'
            if ks and all(k == 'int' for k in ks):
                return 'int'
            return 'view' if 'view' in ks else None
        if isinstance(e, (ast.Compare, ast.List, ast.ListComp)):
            return 'copy'
        if isinstance(e, ast.JoinedStr):
            return 'str'
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, (ast.Invert, ast.Not)):
                return 'copy'
            return self.idxkind(e.operand, st)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.BitAnd, ast.BitOr)):
                return 'copy'
            a, b = self.idxkind(e.left, st), self.idxkind(e.right, st)
            if 'str' in (a, b):
                return 'str'
            if 'copy' in (a, b):
                return 'copy'
            return 'int' if a == b == 'int' else None
        if isinstance(e, ast.Name):
            k = st.get('#' + e.id, E)
            return sorted(k)[0] if len(k) == 1 and 'scalar' not in k else None
        if isinstance(e, ast.Call):
            d = S.dotted(e.func)
            if d and d[-1] in ('where', 'nonzero', 'flatnonzero', 'argsort', 'isin', 'in1d', 'isfinite', 'logical_and', 'logical_or', 'logical_not', 'isnan', 'intersect1d', 'unique', 'arange', 'lexsort', 'searchsorted', 'argwhere', 'ones', 'zeros', 'array'):
                return 'copy'
            if d and d[-1] in ('argmin', 'argmax', 'len', 'int', 'index'):
                return 'int'
            if d and d[-1] in ('format', 'str', 'upper', 'lower'):
                return 'str'
        if isinstance(e, ast.Subscript):
            # np.where(...)[0], or an index array subscripted
            k = self.idxkind(e.value, st)
            if k == 'copy' and isinstance(e.value, ast.Call):
                return 'copy'
            if k == 'copy':
                return 'copy' if self.idxkind(e.slice, st) == 'copy' else None
        return None

    def ev(self, e, st):
        if e is None or isinstance(e, ast.Constant):
            return E
        if isinstance(e, ast.Name):
            if e.id in st:
                return st[e.id]
            if e.id in self.m.toplevel and e.id not in self.m.imports and e.id not in self.m.funcs and e.id not in self.m.classes and (e.id in self.globals or e.id not in self.locals):
                return frozenset([((self.m.name, e.id), 0)])
            if e.id in self.m.imports and e.id not in self.locals:
                r = self.repo.resolve(self.m.imports[e.id])
                if r and r[0] == 'value':
                    return frozenset([((r[1].name, r[2]), 0)])
            return E
        if isinstance(e, ast.Attribute):
            d = S.dotted(e)
            if d and '.'.join(d) in st:
                return st['.'.join(d)]
            if d and d[0] not in st and d[0] in self.m.imports:
                r = self.repo.resolve('.'.join([self.m.imports[d[0]]] + d[1:]))
                if r and r[0] == 'value':
                    return frozenset([((r[1].name, r[2]), 0)])
            o = self.ev(e.value, st)
            if self.me and isinstance(e.value, ast.Name) and e.value.id == self.me:
                return frozenset(((('@', k, e.attr)), 0) for k in st.get('@' + self.me, E))
            if e.attr in ALIAS_ATTR:
                return o
            return frozenset((p, 1) for p, l in o)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, st)
            self.ev(e.slice, st)
            k = self.idxkind(e.slice, st)
            if not o:
                return E
            if k == 'copy' or k == 'int':
                # boolean / fancy indexing copies; an integer index gives an element
                return E if k == 'copy' else frozenset((p, 0 if l == 2 else 1) for p, l in o if l in (1, 2) or self.container(p))
            if k == 'view':
                return o
            if k == 'str':
                return frozenset((p, 1) for p, l in o)
            # unknown index: entries of containers, elements of arrays
            return frozenset((p, 0 if l == 2 else 1) for p, l in o if l == 2 or self.container(p))
        if isinstance(e, ast.IfExp):
            self.ev(e.test, st)
            return self.ev(e.body, self.refine(e.test, True, dict(st))) | self.ev(e.orelse, self.refine(e.test, False, dict(st)))
        if isinstance(e, ast.BoolOp):
            v = E
            for x in e.values:
                v |= self.ev(x, st)
            return v
        if isinstance(e, (ast.Tuple, ast.List)):
            v = E
            for x in e.elts:
                v |= self.ev(x, st)
            return frozenset((p, 2 if l == 0 else l) for p, l in v)
        if isinstance(e, ast.Dict):
            v = E
            for x in e.values:
                v |= self.ev(x, st)
            for x in e.keys:
                self.ev(x, st)
            return frozenset((p, 2 if l == 0 else l) for p, l in v)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, st)
            self.bind(e.target, v, st, e.value)
            return v
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st)
        if isinstance(e, ast.Lambda):
            self.nested(e.args, e.body, st)
            return E
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            x = dict(st)
            for g in e.generators:
                b = ast.For(target=g.target, iter=g.iter, body=[], orelse=[])
                self.forbind(b, x)
                for c in g.ifs:
                    self.ev(c, x)
            v = E
            if isinstance(e, ast.DictComp):
                self.ev(e.key, x)
            v = self.ev(e.value if isinstance(e, ast.DictComp) else e.elt, x)
            return frozenset((p, 2 if l == 0 else l) for p, l in v if l != 0 or self.container(p))
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, st)
        return E

    def container(self, p):
        """is the parameter used as a dictionary, list or table (string subscripts, items(), ...)?"""
        if not isinstance(p, str):
            return True
        c = getattr(self, '_cont', None)
        if c is None:
            c = self._cont = set()
            for n in S.walk_scope(self.fn):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                    if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                        c.add(n.value.id)
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ('items', 'keys', 'values', 'colnames', 'dtype', 'append', 'update', 'get', 'columns'):
                    c.add(n.value.id)
        return p in c

    def isdict(self, p):
        for n in S.walk_scope(self.fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ('items', 'keys', 'values', 'update', 'append', 'extend', 'setdefault'):
                return True
        return False

    def call(self, e, st):
        f = e.func
        args = []
        for a in e.args:
            args.append(self.ev(a, st))
        kw = {k.arg: self.ev(k.value, st) for k in e.keywords}
        d = S.dotted(f)
        full = None
        if d and d[0] not in st:
            if d[0] in self.m.imports:
                full = '.'.join([self.m.imports[d[0]]] + d[1:])
            elif len(d) == 1 and d[0] in S.BUILTINS and d[0] not in self.m.funcs:
                full = d[0]
        if kw.get('out'):
            self.mutate(kw['out'], e, 'output argument')
        # package functions
        t = self.callee(e, st)
        if t and t[0] == 'class':
            init = self.eff.method((t[1].name, S.qual(t[2])), '__init__')
            if init is not None and (init, E) in self.eff.sum:
                self.apply(init, args, kw, e, E)
            return E
        if t and t[0] == 'func':
            v = E
            for fn in t[2]:
                this = None
                if t[3] is not None:
                    this = self.ev(t[3], st)
                v |= self.apply(fn, args, kw, e, this)
            return v
        if full:
            if full in INPLACE_FN and args:
                self.mutate(args[0], e, full)
                return E
            n = full.split('.')[-1]
            k = UFUNC.get(n) if full.startswith('numpy.') else None
            if k and len(args) > k and not any(isinstance(a, ast.Starred) for a in e.args):
                self.mutate(args[k], e, 'output argument of ' + full)
            if full in ('vars', 'memoryview') and args:
                return args[0]
            if full.startswith('numpy.') and n in ('nan_to_num', 'array') and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                if n == 'nan_to_num':
                    self.mutate(args[0], e, 'nan_to_num(copy=False)')
                return args[0] if args else E
            if full.startswith('numpy.') and (n == 'broadcast_arrays' or n in ('atleast_1d', 'atleast_2d') and len(args) > 1):
                return frozenset((p, 2 if l == 0 else l) for a in args for p, l in a)
            if full.startswith('numpy.') and n in ALIAS_FN and args:
                return args[0]
            if full.startswith('numpy.') and any(k.arg == 'overwrite_input' and getattr(k.value, 'value', None) is True for k in e.keywords):
                self.mutate(args[0], e, full + ' with overwrite_input')
            if full.startswith('scipy.') and any(k.arg and k.arg.startswith('overwrite_') and getattr(k.value, 'value', None) is True for k in e.keywords):
                for a in args:
                    self.mutate(a, e, full + ' with overwrite')
            if full in SHALLOW:
                if not args:
                    return E
                a = args[0]
                if full == 'copy.copy':
                    return frozenset((p, 2) for p, l in a if isinstance(p, tuple) or self.isdict(p)) if False else E
                return frozenset((p, l) for p, l in a if l == 2)
            if full in ELEMS:
                v = E
                for a in args:
                    v |= frozenset((p, 1 if l == 0 else l) for p, l in a if l == 2 or self.container(p))
                return v
            if full.endswith('.Table') or full.endswith('.QTable') or full.endswith('.Column') or full.endswith('DataFrame'):
                if any(k.arg == 'copy' and getattr(k.value, 'value', None) is False for k in e.keywords):
                    return args[0] if args else E
                return E
            return E
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, st)
            if f.attr in INPLACE:
                w = self.owner(f.value, st)
                if w:
                    self.mutate(w, e, '%s()' % f.attr)
            if f.attr in ('copy', 'astype', 'flatten', 'tolist'):
                if f.attr == 'astype' and any(k.arg == 'copy' and getattr(k.value, 'value', None) is False for k in e.keywords):
                    return o
                return E
            if f.attr in ALIAS_METH:
                if f.attr in ('get', 'pop', 'setdefault', '__getitem__'):
                    return frozenset((p, 0 if l == 2 else 1) for p, l in o)
                if f.attr in ('values', 'items'):
                    return frozenset((p, 1) for p, l in o)
                return o
        else:
            self.ev(f, st)
        return E

    def special(self, fn, e):
        """options of fn whose value is a constant at this call: passed literally or left at the default"""
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return E
        pos, kwo, va, kwa = params(fn)
        names = list(pos)
        c = S.enclosing_class(fn)
        if c is not None and S.enclosing_function(fn) is None and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
            names = names[1:]
        given = dict(zip(names, e.args))
        given.update({k.arg: k.value for k in e.keywords})
        dflt = dict(zip(pos[len(pos) - len(fn.args.defaults):], fn.args.defaults))
        dflt.update({k: d for k, d in zip(kwo, fn.args.kw_defaults) if d is not None})
        out = {}
        for p in pos + kwo:
            x = given.get(p, dflt.get(p) if p not in given else None)
            if isinstance(x, ast.Constant) and (x.value is None or isinstance(x.value, bool)):
                out[p] = x.value
            elif isinstance(x, ast.Name) and x.id in self.consts:
                out[p] = self.consts[x.id]
        return frozenset(out.items())

    def apply(self, fn, args, kw, e, this):
        pos, kwo, va, kwa = params(fn)
        s = self.eff.get(fn, self.special(fn, e))
        c = S.enclosing_class(fn)
        meth = c is not None and S.enclosing_function(fn) is None and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
        actual = {}
        names = list(pos)
        if meth and names:
            me = names.pop(0)
            actual[me] = this or E
        i = 0
        for a, n in zip(args, e.args):
            if isinstance(n, ast.Starred):
                for p in names[i:]:
                    actual[p] = actual.get(p, E) | frozenset((q, 0 if l == 2 else l) for q, l in a)
                break
            if i < len(names):
                actual[names[i]] = a
            i += 1
        for k, v in kw.items():
            if k is not None:
                actual[k] = v
        for p, mu in s.mut.items():
            a = actual.get(p, E)
            if a:
                self.mutate(frozenset((q, l) for q, l in a), e, '%s (line %d of %s) through the call of %s' % (mu.what.split(' through ')[0], mu.node.lineno, mu.mod.rel, S.qual(fn)))
        for g, mu in s.glob.items():
            self.out.glob.setdefault(g, Mut(g, mu.lvl, mu.mod, mu.node, mu.what))
        ret = E
        for p, l in s.ret:
            if isinstance(p, tuple):
                ret |= frozenset([(p, l)])
            else:
                for q, l2 in actual.get(p, E):
                    ret |= frozenset([(q, max(l, l2) if 2 not in (l, l2) else 2)])
        return ret
