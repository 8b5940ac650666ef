"""State that survives a call: module globals, and what calls read of it before setting it.

For every function: the writes to module globals (with the parameters their values depend on), the
globals read before this call has set them, and the globals set on every path.  A global is 'dirty'
when what is stored in it depends on arguments that are not part of its key, on its own earlier
content, or when it is changed in place; reading a dirty global before setting it makes the result
depend on earlier calls."""
import ast
from . import src as S
from . import effects

E = frozenset()


def METHODS(c):
    return {b.name for b in c.body if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}


class Fn(object):
    """one function: writes, exposed reads, definite writes"""

    def __init__(self, h, m, fn, cut=E):
        self.h, self.m, self.fn, self.cut = h, m, fn, cut
        self.writes = []            # (location, deps, key names, node, guard deps)
        self.exposed = {}           # location -> (mod, node)
        self.callargs = []          # (callee, param, deps)
        self.locals = S.local_names(fn)
        self.globals = set()
        for n in S.walk_scope(fn):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        a = fn.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.ctl = []

    def run(self):
        env = {p: frozenset([p]) for p in self.params}
        self.must = None
        end = self.block(self.fn.body, (env, E))
        if end is not None:
            self.exit(end[1])
        return self

    def exit(self, kill):
        self.must = kill if self.must is None else self.must & kill

    # -------------------------------------------------------------- globals
    def gname(self, e):
        """(module, name) of a module global variable named by e"""
        if isinstance(e, ast.Name):
            if e.id in self.globals or (e.id not in self.locals and e.id in self.m.toplevel and e.id not in self.m.imports and e.id not in self.m.funcs and e.id not in self.m.classes):
                return (self.m.name, e.id)
            if e.id not in self.locals and e.id in self.m.imports:
                r = self.h.repo.resolve(self.m.imports[e.id])
                if r and r[0] == 'value':
                    return (r[1].name, r[2])
        elif isinstance(e, ast.Attribute):
            d = S.dotted(e)
            if d is None and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'type':
                d = ['cls', e.attr]
            if d and d[0] in ('self', 'cls') and (d[0] == 'cls' and len(d) == 2 or d[1:2] == ['__class__'] and len(d) == 3):
                c = S.enclosing_class(self.fn)
                if c is not None and d[-1] not in METHODS(c):
                    return (self.m.name, S.qual(c) + '.' + d[-1])
                return None
            if d and len(d) == 2 and d[0] not in self.locals and (d[0] in self.m.funcs or d[0] in self.m.classes) and d[1] not in ('__name__', '__doc__'):
                if d[0] in self.m.funcs or d[1] not in METHODS(self.m.classes[d[0]]):
                    return (self.m.name, '.'.join(d))
                return None
            if d and d[0] not in self.locals and d[0] in self.m.imports:
                r = self.h.repo.resolve('.'.join([self.m.imports[d[0]]] + d[1:]))
                if r and r[0] == 'value':
                    return (r[1].name, r[2])
        return None

    def read(self, loc, node, st):
        env, kill = st
        g = loc[:2]
        if g in kill or loc in kill:
            return
        if len(loc) == 2:
            loc = g + ('*', frozenset(k[2] for k in kill if len(k) == 3 and k[:2] == g))
        self.exposed.setdefault(loc, (self.m, node))

    # -------------------------------------------------------------- statements
    def block(self, body, st):
        for b in body:
            if st is None:
                return None
            st = self.stmt(b, st)
        return st

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = dict(a[0])
        for k, v in b[0].items():
            env[k] = env.get(k, E) | v
        return env, a[1] & b[1]

    def control(self):
        v = E
        for x in self.ctl:
            v |= x
        return v

    def assign(self, t, v, st, value):
        env, kill = st
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.assign(x, v, st, value)
            return st
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, value)
        if isinstance(t, ast.Name):
            g = self.gname(t) if t.id in self.globals else None
            if g:
                if not (isinstance(value, ast.Constant) and value.value is None):
                    self.writes.append((g, v, E, t, self.control()))
                return self.setg(env, g, v), kill | {g}
            env = dict(env)
            env[t.id] = v | self.control() if t.id not in self.cut else E
            return env, kill
        if isinstance(t, ast.Subscript):
            k = self.ev(t.slice, st)
            g = self.gname(t.value)
            if g:
                if isinstance(t.slice, ast.Constant):
                    loc = g + (repr(t.slice.value),)
                    self.writes.append((loc, v, E, t, self.control()))
                    return self.setg(env, loc, v), kill | {loc}
                self.writes.append((g, v | (k if not self.cut and not self.keynames(t.slice) else E), self.keynames(t.slice), t, self.control()))
                self.writes.append((g + ('**',), k, E, t, E))
                return env, kill
            self.ev(t.value, st)
            d = S.dotted(t.value)
            if d and d[0] in env:
                env = dict(env)
                env[d[0]] = env[d[0]] | v | k | self.control()
            return env, kill
        if isinstance(t, ast.Attribute):
            g = self.gname(t)
            if g:
                self.writes.append((g, v, E, t, self.control()))
                return env, kill | {g}
            d = S.dotted(t.value)
            if d and d[0] in env:
                env = dict(env)
                env[d[0]] = env[d[0]] | v | self.control()
            return env, kill
        return st

    def item(self, g, e, st):
        """one entry of a global is read, or looked for"""
        env, kill = st
        if g not in kill:
            self.exposed.setdefault(g + ('[]',), (self.m, e))
            return frozenset([('prior', g)]) | self.getg(env, g)
        return self.getg(env, g)

    def setg(self, env, loc, v):
        env = dict(env)
        if len(loc) == 2:
            for k in list(env):
                if isinstance(k, tuple) and k[:2] == loc:
                    del env[k]
        env[loc] = v | self.control()
        return env

    def getg(self, env, g):
        v = E
        for k, x in env.items():
            if isinstance(k, tuple) and k[:2] == g:
                v |= x
        return v

    def keynames(self, e):
        """names whose value the key determines"""
        if isinstance(e, ast.Name):
            return frozenset([e.id])
        if isinstance(e, ast.Tuple):
            return frozenset().union(*[self.keynames(x) for x in e.elts])
        if isinstance(e, ast.Attribute):
            d = S.dotted(e)
            return frozenset(['.'.join(d)]) if d else E
        if isinstance(e, ast.JoinedStr):
            return frozenset().union(*[self.keynames(x.value) for x in e.values if isinstance(x, ast.FormattedValue)])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr', 'tuple', 'frozenset', 'float', 'id') and len(e.args) == 1:
            return self.keynames(e.args[0])
        return E

    def stmt(self, b, st):
        if isinstance(b, ast.Assign):
            v = self.ev(b.value, st)
            for t in b.targets:
                st = self.assign(t, v, st, b.value)
            return st
        if isinstance(b, ast.AnnAssign):
            return self.assign(b.target, self.ev(b.value, st), st, b.value) if b.value is not None else st
        if isinstance(b, ast.AugAssign):
            v = self.ev(b.value, st) | self.ev(b.target, st)
            g = self.gname(b.target) or (self.gname(b.target.value) if isinstance(b.target, ast.Subscript) else None)
            if g:
                v |= frozenset([('prior', g)])
            return self.assign(b.target, v, st, b.value)
        if isinstance(b, (ast.Expr, ast.Assert)):
            self.ev(b.value if isinstance(b, ast.Expr) else b.test, st)
            return st
        if isinstance(b, ast.Return):
            self.ev(b.value, st)
            self.exit(st[1])
            return None
        if isinstance(b, ast.Raise):
            self.ev(b.exc, st)
            return None
        if isinstance(b, (ast.Break, ast.Continue)):
            return None if not self.loops else self.jump(st)
        if isinstance(b, ast.If):
            v = self.ev(b.test, st)
            self.ctl.append(E if self.guard(b.test) else v)
            x = self.block(b.body, st)
            y = self.block(b.orelse, st)
            self.ctl.pop()
            return self.join(x, y)
        if isinstance(b, (ast.For, ast.AsyncFor, ast.While)):
            v = self.ev(b.iter if not isinstance(b, ast.While) else b.test, st)
            self.ctl.append(v)
            self.loops.append([])
            cur = st
            for _ in range(2):
                s = self.assign(b.target, v, cur, None) if not isinstance(b, ast.While) else cur
                y = self.block(b.body, s)
                for z in self.loops[-1]:
                    y = self.join(y, z)
                self.loops[-1] = []
                if y is None:
                    break
                cur = (self.join(cur, y)[0], y[1])
            self.loops.pop()
            self.ctl.pop()
            return self.block(b.orelse, cur) if b.orelse else cur
        if isinstance(b, (ast.With, ast.AsyncWith)):
            for it in b.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    st = self.assign(it.optional_vars, v, st, it.context_expr)
            return self.block(b.body, st)
        if isinstance(b, ast.Try):
            x = self.block(b.body, st)
            if x is not None and b.orelse:
                x = self.block(b.orelse, x)
            for h in b.handlers:
                y = self.block(h.body, (self.join(st, x)[0], st[1]) if x is not None else st)
                x = self.join(x, y)
            if b.finalbody:
                x = self.block(b.finalbody, x if x is not None else st)
            return x
        if isinstance(b, ast.Delete):
            return st
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env = dict(st[0])
            env[b.name] = E
            return env, st[1]
        return st

    loops = []

    def jump(self, st):
        self.loops[-1].append(st)
        return None

    def guard(self, t):
        """a test of module globals only (is it filled already?)"""
        if isinstance(t, ast.UnaryOp):
            return self.guard(t.operand)
        if isinstance(t, ast.BoolOp):
            return all(self.guard(x) for x in t.values)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            if isinstance(t.ops[0], (ast.In, ast.NotIn)):
                return self.gname(t.comparators[0]) is not None
            return self.guard(t.left) and isinstance(t.comparators[0], ast.Constant)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('len', 'bool') and len(t.args) == 1:
            return self.guard(t.args[0])
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == 'get':
            return self.gname(t.func.value) is not None
        return self.gname(t) is not None

    # -------------------------------------------------------------- expressions
    def ev(self, e, st):
        if e is None or isinstance(e, ast.Constant):
            return E
        env, kill = st
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and self.gname(e.left):
            return self.getg(env, self.gname(e.left)) if self.gname(e.left) in kill else frozenset([('prior', self.gname(e.left))])
        d = S.dotted(e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if d and '.'.join(d) in self.cut:
            return E
        if isinstance(e, (ast.Name, ast.Attribute)):
            g = self.gname(e)
            if g:
                self.read(g, e, st)
                return (frozenset([('prior', g)]) if g not in kill else E) | self.getg(env, g)
            if isinstance(e, ast.Name):
                return env.get(e.id, E)
            return self.ev(e.value, st)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            g = self.gname(e.value)
            if g:
                self.read(g + (repr(e.slice.value),), e, st)
                loc = g + (repr(e.slice.value),)
                return (frozenset([('prior', g)]) if g not in kill and loc not in kill else E) | env.get(loc, env.get(g, E))
        if isinstance(e, ast.Subscript):
            g = self.gname(e.value)
            if g:
                k = self.ev(e.slice, st)
                return self.item(g, e, st) | k
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('getattr', 'hasattr') and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            g = self.gname(ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load()))
            if g:
                self.read(g, e, st)
                return (frozenset([('prior', g)]) if g not in kill else E) | self.getg(env, g)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and self.gname(e.func.value):
            v = self.item(self.gname(e.func.value), e, st)
            for a in e.args:
                v |= self.ev(a, st)
            return v
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and self.gname(e.comparators[0]):
            return self.item(self.gname(e.comparators[0]), e, st) | self.ev(e.left, st)
        if isinstance(e, ast.Lambda):
            x = dict(env)
            for a in e.args.args:
                x[a.arg] = E
            return self.ev(e.body, (x, kill))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            x = st
            for g in e.generators:
                v = self.ev(g.iter, x)
                x = self.assign(g.target, v, x, None)
                for c in g.ifs:
                    v |= self.ev(c, x)
            v = E
            for p in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                v |= self.ev(p, x)
            for g in e.generators:
                v |= self.ev(g.iter, st)
            return v
        if isinstance(e, ast.Call):
            v = E
            fs = self.h.callees(self.m, e)
            if not fs:
                v |= self.ev(e.func, st)
            elif isinstance(e.func, ast.Attribute):
                v |= self.ev(e.func.value, st) if self.gname(e.func) is None else E
            args = []
            for a in e.args:
                args.append(self.ev(a.value if isinstance(a, ast.Starred) else a, st))
                v |= args[-1]
            kw = {}
            for k in e.keywords:
                kw[k.arg] = self.ev(k.value, st)
                v |= kw[k.arg]
            for m, fn in fs:
                a = fn.args
                names = [x.arg for x in a.posonlyargs + a.args]
                c = S.enclosing_class(fn)
                if c is not None and S.enclosing_function(fn) is None and not any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in fn.decorator_list):
                    names = names[1:]
                for n, x in zip(names, args):
                    self.callargs.append((fn, n, x))
                for n, x in kw.items():
                    if n:
                        self.callargs.append((fn, n, x))
                f = self.h.info.get(fn)
                if f is not None:
                    for loc, w in f.exposed.items():
                        if loc in kill or loc[:2] in kill:
                            continue
                        if len(loc) == 4:
                            loc = loc[:3] + (loc[3] | frozenset(k[2] for k in kill if len(k) == 3 and k[:2] == loc[:2]),)
                        self.exposed.setdefault(loc, w)
            return v
        v = E
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.Slice, ast.FormattedValue)):
                v |= self.ev(x, st)
        return v


class History(object):
    def __init__(self, repo, ef, api, skip=()):
        self.repo, self.ef, self.api = repo, ef, api
        self.skip = skip
        self.info = {}
        self.fns = [(m, q, fn) for m, q, fn in ef.fns if m.name not in skip]
        for rnd in range(8):
            k = {fn: (frozenset(i.exposed), i.must) for fn, i in self.info.items()}
            for m, q, fn in self.fns:
                Fn.loops = []
                self.info[fn] = Fn(self, m, fn).run()
            if k == {fn: (frozenset(i.exposed), i.must) for fn, i in self.info.items()}:
                break
        # parameters that vary between calls
        self.vary = set()
        for m, q, fn in self.fns:
            if (m.name, q) in api:
                for p in self.info[fn].params:
                    self.vary.add((fn, p))
        ch = True
        while ch:
            ch = False
            for m, q, fn in self.fns:
                for g, p, deps in self.info[fn].callargs:
                    if (g, p) not in self.vary and any((fn, d) in self.vary or isinstance(d, tuple) and False for d in deps):
                        self.vary.add((g, p))
                        ch = True
        # writes
        self.locs = {}          # location -> [(mod, qualname, node, reason or None)]
        nw = {}
        for m, q, fn in self.fns:
            for w in self.info[fn].writes:
                nw.setdefault(w[0], set()).add(id(w[3]))
        for m, q, fn in self.fns:
            for loc, deps, keys, node, ctl in self.info[fn].writes:
                if keys:
                    i = Fn(self, m, fn, cut=self.copies(fn, keys))
                    Fn.loops = []
                    i.run()
                    w = [x for x in i.writes if x[3] is node]
                    deps = frozenset().union(*[x[1] for x in w])
                    ctl = frozenset().union(*[x[4] for x in w])
                if len(nw[loc]) > 1:
                    deps = deps | ctl
                bad = sorted(d for d in deps if not isinstance(d, tuple) and (fn, d) in self.vary)
                prior = [d for d in deps if isinstance(d, tuple) and d[1] == loc[:2] and len(loc) == 2]
                why = None
                if bad:
                    why = ('a value computed from argument %s is stored' if loc[2:] != ('**',) else 'entries named after argument %s are added') % ', '.join(bad)
                elif prior:
                    why = 'its own earlier content enters the stored value'
                self.locs.setdefault(loc, []).append((m, q, node, why))
        # in-place changes of globals
        for m, q, fn in self.fns:
            for g, muts in ef.get(fn).globs.items():
                if g[0] == '@' or g[0] in skip:
                    continue
                for mu in muts:
                    if mu.what == 'rebinding':
                        continue
                    if isinstance(mu.node, ast.Subscript) and any(n is mu.node for l, ws in self.locs.items() for _, _, n, _ in ws):
                        continue
                    if ' through the call' in mu.what and not isinstance(mu.node, ast.Call):
                        continue
                    self.locs.setdefault(g, []).append((mu.mod, q, mu.node, 'changed in place (%s)' % mu.what))

    def copies(self, fn, keys):
        out = set(keys)
        for n in S.walk_scope(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id in keys:
                if isinstance(n.value, ast.Name):
                    out.add(n.value.id)
                elif isinstance(n.value, ast.Tuple):
                    out |= {x.id for x in n.value.elts if isinstance(x, ast.Name)}
        return frozenset(out)

    def callees(self, m, e):
        t = self.repo.target(m, e.func)
        if t is None:
            d = S.dotted(e.func)
            fn = S.enclosing_function(e)
            if d and d[0] in m.imports:
                t = self.repo.resolve('.'.join([m.imports[d[0]]] + d[1:]))
            elif d and len(d) == 2 and d[0] == 'self':
                c = S.enclosing_class(e)
                k = self.ef.method((m.name, S.qual(c)), d[1]) if c is not None else None
                return [(self.ef.where[k][0], k)] if k is not None else []
            elif isinstance(e.func, ast.Attribute):
                return [(self.ef.where[f][0], f) for k, f in self.ef.methods.get(e.func.attr, [])]
        if t and t[0] == 'func':
            return [(t[1], t[2])]
        if t and t[0] == 'class':
            i = self.ef.method((t[1].name, S.qual(t[2])), '__init__')
            return [(self.ef.where[i][0], i)] if i is not None else []
        return []

    @staticmethod
    def sees(read, loc):
        """does the exposed read see the content of the dirty location?"""
        if read[:2] != loc[:2]:
            return False
        if len(loc) == 2:
            return True
        if loc[2] == '**':
            return len(read) == 4
        return read == loc or len(read) == 4 and loc[2] not in read[3]

    def dirty(self):
        """location -> (mod, qualname, node, why)"""
        out = {}
        for loc, ws in self.locs.items():
            for w in ws:
                if w[3]:
                    out.setdefault(loc, w)
        return out


def default_options(fn):
    """options whose default is True, False or None"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    d.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return {k: v.value for k, v in d.items() if isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, bool))}


class Attrs(object):
    """attributes of self in a method: assigned on every normal path, on some path, read before being assigned"""

    def __init__(self, h, m, cls, fn, stack=(), consts=None):
        self.h, self.m, self.cls, self.fn, self.stack = h, m, cls, fn, stack
        self.consts = dict(consts or {})
        for n in S.walk_scope(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.consts.pop(n.id, None)
        self.me = fn.args.args[0].arg
        self.may = {}           # attribute -> node
        self.exposed = {}       # attribute -> node
        self.inplace = {}
        self.must = None
        self.loops = []
        end = self.block(fn.body, E)
        if end is not None:
            self.must = end if self.must is None else self.must & end
        self.must = self.must if self.must is not None else E

    def truth(self, e):
        return effects.One.truth(self, e)

    def block(self, body, st):
        for b in body:
            if st is None:
                return None
            st = self.stmt(b, st)
        return st

    @staticmethod
    def join(a, b):
        return b if a is None else (a if b is None else a & b)

    def isme(self, e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me

    def target(self, t, st):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, st)
            return st
        if self.isme(t):
            self.may.setdefault(t.attr, t)
            return st | {t.attr}
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            return self.ev(t, st)
        return st

    def stmt(self, b, st):
        if isinstance(b, ast.Assign):
            st = self.ev(b.value, st)
            for t in b.targets:
                st = self.target(t, st)
            return st
        if isinstance(b, ast.AugAssign):
            st = self.ev(b.value, st)
            st = self.ev(b.target, st)
            return self.target(b.target, st)
        if isinstance(b, ast.AnnAssign):
            return self.target(b.target, self.ev(b.value, st)) if b.value is not None else st
        if isinstance(b, ast.Return):
            st = self.ev(b.value, st)
            self.must = st if self.must is None else self.must & st
            return None
        if isinstance(b, ast.Raise):
            self.ev(b.exc, st)
            return None
        if isinstance(b, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(st)
            return None
        if isinstance(b, ast.If):
            st = self.ev(b.test, st)
            k = self.truth(b.test)
            if k is not None:
                return self.block(b.body if k else b.orelse, st)
            return self.join(self.block(b.body, st), self.block(b.orelse, st))
        if isinstance(b, (ast.For, ast.AsyncFor, ast.While)):
            st = self.ev(b.iter if not isinstance(b, ast.While) else b.test, st)
            self.loops.append([])
            if not isinstance(b, ast.While):
                st = self.target(b.target, st)
            y = self.block(b.body, st)
            for z in self.loops.pop():
                y = self.join(y, z)
            y = y if y is not None else st
            return self.block(b.orelse, y) if b.orelse else y
        if isinstance(b, (ast.With, ast.AsyncWith)):
            for it in b.items:
                st = self.ev(it.context_expr, st)
            return self.block(b.body, st)
        if isinstance(b, ast.Try):
            x = self.block(b.body, st)
            if x is not None and b.orelse:
                x = self.block(b.orelse, x)
            for hd in b.handlers:
                x = self.join(x, self.block(hd.body, st))
            return self.block(b.finalbody, x if x is not None else st) if b.finalbody else x
        if isinstance(b, ast.Expr):
            return self.ev(b.value, st)
        if isinstance(b, ast.Assert):
            return self.ev(b.test, st)
        return st

    def passed(self, call, fn):
        """options of a called method that are known: given as a constant or as a known option, or left at their default"""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or not self.consts:
            return {}
        pos = [a.arg for a in fn.args.posonlyargs + fn.args.args][1:]
        given = dict(zip(pos, call.args))
        given.update({k.arg: k.value for k in call.keywords})
        out = {k: v for k, v in default_options(fn).items() if k not in given}
        for k, v in given.items():
            if isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, bool)):
                out[k] = v.value
            elif isinstance(v, ast.Name) and v.id in self.consts:
                out[k] = self.consts[v.id]
        return out

    def ev(self, e, st):
        if e is None:
            return st
        if isinstance(e, ast.IfExp):
            st = self.ev(e.test, st)
            k = self.truth(e.test)
            if k is not None:
                return self.ev(e.body if k else e.orelse, st)
            return self.join(self.ev(e.body, st), self.ev(e.orelse, st))
        if isinstance(e, ast.Call) and self.isme(e.func):
            for a in list(e.args) + [k.value for k in e.keywords]:
                st = self.ev(a, st)
            fn = self.h.ef.method(self.cls, e.func.attr)
            if fn is not None and fn not in self.stack and fn is not self.fn:
                s = Attrs(self.h, self.m, self.cls, fn, self.stack + (self.fn,), self.passed(e, fn))
                for a, n in s.exposed.items():
                    if a not in st:
                        self.exposed.setdefault(a, n)
                for a, n in s.may.items():
                    self.may.setdefault(a, n)
                return st | s.must
            if fn is None and e.func.attr not in st:
                self.exposed.setdefault(e.func.attr, e)
            return st
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'setattr' and len(e.args) == 3 and isinstance(e.args[0], ast.Name) and e.args[0].id == self.me:
            if isinstance(e.args[1], ast.Constant):
                self.may.setdefault(e.args[1].value, e)
                return self.ev(e.args[2], st) | {e.args[1].value}
        if self.isme(e):
            if e.attr not in st and self.h.ef.method(self.cls, e.attr) is None:
                self.exposed.setdefault(e.attr, e)
            return st
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.Slice, ast.FormattedValue, ast.keyword, ast.comprehension)):
                st = self.ev(x, st)
        return st
