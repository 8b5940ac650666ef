"""Abstract interpreter: Python functions -> gated value graphs (sa.terms).

Joins are merged (gated SSA), calls are inlined through the resolved program,
loops become unrolled / map / reduction / group-by / fixpoint terms.  Anything
outside the modelled language becomes an `unsupported:` term, on which no
verdict is ever based.
"""
import ast, os, sys, builtins
from fractions import Fraction as F
from . import canon
from . import terms as tm
from .terms import (T, const, strc, NONE, TRUE, FALSE, ZERO, ONE, sym, fn, add, sub, mul, div, neg, power,
                    ite, lt, le, eq, and_, or_, not_, tobool, dims, sel, unsel, is_bool, num, mk)

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Raised(Unsupported):
    """the statement raises this exception on every path that reaches it"""
    def __init__(self, exc, msg):
        Unsupported.__init__(self, msg)
        self.exc = exc


class RowError(IndexError):
    """the analysed code uses a row that does not exist, or arrays of different lengths"""


class Ref(object):
    __slots__ = ('oid',)
    n = 0

    def __init__(self):
        Ref.n += 1
        self.oid = Ref.n


class ListC(object):
    kind = 'list'

    def __init__(self, items, keys=(), vec=None):
        self.items = tuple(items)     # (guard, value)
        self.keys = keys              # pending stable sorts, oldest first: list of tuples of key terms
        self.vec = vec                # value over a symbolic dimension


class DictC(object):
    kind = 'dict'

    def __init__(self, items, sym=()):
        self.items = dict(items)
        self.sym = tuple(sym)


class InstC(object):
    kind = 'inst'

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = dict(attrs)


class ArrC(object):
    """fixed-shape array; shape entries are ints or dimension names (then the
    elements are terms varying over that dimension)"""
    kind = 'arr'

    def __init__(self, shape, vals):
        self.shape = tuple(shape)
        self.vals = tuple(vals)

    @property
    def fixed(self):
        return tuple(s for s in self.shape if isinstance(s, int))


class BagC(object):
    """selected elements of a one-dimensional array: (gate, value) pairs, an element present when its gate holds"""
    kind = 'bag'

    def __init__(self, gates, vals):
        self.gates = tuple(gates)
        self.vals = tuple(vals)


class FrameC(object):
    kind = 'frame'

    def __init__(self, vars, parent=None):
        self.vars = dict(vars)
        self.parent = parent


class OverC(object):
    """attribute / item overlay written on an opaque term"""
    kind = 'over'

    def __init__(self, items):
        self.items = dict(items)


class Func(object):
    def __init__(self, node, module, frame, name, cls=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.frame, self.name, self.cls = node, module, frame, name, cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.kind = 'func'

    @property
    def qual(self):
        return '%s.%s' % (self.module, self.name)


class Class(object):
    def __init__(self, name, module, attrs, bases):
        self.name, self.module, self.attrs, self.bases = name, module, attrs, bases

    def lookup(self, a):
        if a in self.attrs:
            return self.attrs[a]
        for b in self.bases:
            if isinstance(b, Class):
                r = b.lookup(a)
                if r is not None:
                    return r
        return None


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Super(object):
    """super(cls, obj)"""
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def get(self, ip, a):
        for b in self.cls.bases:
            m = b.lookup(a) if isinstance(b, Class) else None
            if m is not None:
                return m if a == '__new__' or not isinstance(m, Func) else Bound(m, self.obj)
        if a == '__new__':
            isint = any(isinstance(b, Ext) and b.name == 'builtins.int' for b in self.cls.bases)

            def new(ip, args, kw):
                return ip.new(InstC(args[0], {'__int__': args[1] if len(args) > 1 else ZERO} if isint else {}))
            return Native(new)
        if a == '__init__':
            return Native(lambda ip, args, kw: NONE)
        raise Unsupported('super().%s' % a)


def intvalue(ip, v):
    """the number an instance of a subclass of int stands for"""
    if isinstance(v, Ref):
        c = ip.get(v)
        if c.kind == 'inst' and '__int__' in c.attrs:
            return c.attrs['__int__']
    return v


class Mod(object):
    def __init__(self, name):
        self.name = name


class Ext(object):
    """external (library) object, by dotted name"""
    def __init__(self, name):
        self.name = name


class Method(object):
    """method of an opaque / builtin value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Choice(object):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Slice(object):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class Ignore(object):
    """value of something with no numerical content (logger, matplotlib)"""


IGN = Ignore()


class Native(object):
    """a call decided by the analysis itself"""
    def __init__(self, f):
        self.f = f


def blank(c, u):
    """content of an object about which nothing is known"""
    if c.kind == 'arr':
        return ArrC(c.shape, [u] * len(c.vals))
    if c.kind == 'bag':
        return BagC(c.gates, [u] * len(c.vals))
    if c.kind == 'list':
        return ListC(((TRUE, u),))
    if c.kind == 'dict':
        return DictC({k: u for k in c.items}, c.sym)
    if c.kind == 'inst':
        return InstC(c.cls, {k: u for k in c.attrs})
    return c


class State(object):
    __slots__ = ('heap',)

    def __init__(self, heap=None):
        self.heap = heap if heap is not None else {}

    def fork(self):
        return State(dict(self.heap))


class Program(object):
    """resolves module names to parsed sources"""
    def __init__(self, repo=None, extra=()):
        self.repo = repo or os.environ.get('VP_REPO', '/repo')
        self.roots = [os.path.join(self.repo, 'py')] + list(extra)
        self.trees = {}

    def path(self, name):
        rel = name.replace('.', '/')
        for r in self.roots:
            for c in (rel + '.py', rel + '/__init__.py'):
                p = os.path.join(r, c)
                if os.path.exists(p):
                    return p
        return None

    def tree(self, name):
        if name not in self.trees:
            p = self.path(name)
            if p is None:
                self.trees[name] = None
            else:
                self.trees[name] = canon.loops(ast.parse(open(p, encoding='utf-8').read(), p))
        return self.trees[name]


VP_EXTRA = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))]


class FrameInfo(object):
    def __init__(self, ref, module, func):
        self.ref, self.module, self.func = ref, module, func
        self.returns = []      # (pc, value, state)
        self.globals_ = set()
        self.nonlocals = set()


class Interp(object):
    MAXDEPTH = 40
    MAXUNROLL = 70
    MAXCELLS = 400

    def __init__(self, program=None, opaque=(), models=None, hooks=None, pure_opaque=True):
        self.prog = program or Program(extra=VP_EXTRA)
        self.opaque = set(opaque)
        self.models = models or {}
        self.depth = 0
        self.modframes = {}     # module name -> Ref of frame
        self.modload = set()
        self.state = State()
        self.pc = TRUE
        self.tries = self.havocs = 0
        self.exact = False      # a key missing from a fully known dictionary raises
        self.notes = []
        self.raises = []        # (pc, function, line, text)
        self.fix = []           # fixpoint loops: dict(func,line,iters,cond,eqs)
        self.alias = {}         # term -> fix symbol
        self.analysed = set()   # qualified names of inlined functions
        self.warned = []
        self.ncalls = 0
        self.effects = []       # (pc, kind, payload) externally visible calls
        self.effect_calls = set()
        self.mapdims = []
        self.views = {}
        self.unroll_small = 12

    # ------------------------------------------------------------ heap
    def new(self, content):
        r = Ref()
        self.state.heap[r.oid] = content
        return r

    def get(self, ref):
        return self.state.heap[ref.oid]

    def put(self, ref, content):
        inst = self.views.get(ref.oid)
        if inst is not None and content.kind == 'dict':
            # written through obj.__dict__
            self.put(inst, InstC(self.get(inst).cls, {k: v for k, v in content.items.items() if isinstance(k, str)}))
        self.state.heap[ref.oid] = content

    def unsup(self, what, *vals):
        self.warned.append(what)
        return fn('unsupported:' + what, *[self.toterm(v) for v in vals])

    # ------------------------------------------------------------ terms
    def toterm(self, v):
        """any value as a term (structures become constructor terms)"""
        if isinstance(v, T):
            return v
        if isinstance(v, tuple):
            return mk('f', tuple(self.toterm(x) for x in v), 'tuple')
        if isinstance(v, Ref):
            c = self.state.heap.get(v.oid)
            if c is None:
                return fn('unsupported:dangling')
            if c.kind == 'inst' and '__int__' in c.attrs:
                return self.toterm(c.attrs['__int__'])
            if c.kind == 'list':
                if c.vec is not None:
                    return self.toterm(c.vec)
                return mk('f', tuple(self.toterm(x if g is TRUE else (g, x)) for g, x in c.items), 'list')
            if c.kind == 'arr':
                return mk('f', (strc(repr(tuple(s if isinstance(s, int) else 'd' for s in c.shape))),) + tuple(self.toterm(x) for x in c.vals), 'arr')
            if c.kind == 'dict':
                out = []
                for k in sorted(c.items, key=repr):
                    out += [strc(repr(k)), self.toterm(c.items[k])]
                return mk('f', tuple(out), 'dict')
            if c.kind == 'bag':
                return mk('f', tuple(ite(tobool(g), self.toterm(x), fn('absent')) for g, x in zip(c.gates, c.vals)), 'bag')
            if c.kind == 'inst':
                out = []
                for k in sorted(c.attrs):
                    out += [strc(k), self.toterm(c.attrs[k])]
                return mk('f', (strc(c.cls.name),) + tuple(out), 'inst')
            return fn('unsupported:ref')
        if isinstance(v, Choice):
            return ite(tobool(v.c), self.toterm(v.a), self.toterm(v.b))
        if isinstance(v, Func):
            return strc('func:' + v.qual)
        if isinstance(v, Class):
            return strc('class:' + v.module + '.' + v.name)
        if isinstance(v, (Mod, Ext)):
            return strc('ext:' + v.name)
        if isinstance(v, Bound):
            return strc('bound:' + getattr(v.func, 'name', '?'))
        if isinstance(v, Method):
            return fn('method', self.toterm(v.obj), strc(v.name))
        if isinstance(v, Slice):
            return fn('slice', self.toterm(v.lo), self.toterm(v.hi), self.toterm(v.st))
        if isinstance(v, Ignore) or v is None:
            return NONE
        return fn('unsupported:value')

    def truth(self, v):
        v = intvalue(self, v)
        if isinstance(v, T):
            return tobool(v)
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, Ref):
            c = self.get(v)
            if c.kind == 'list':
                if c.vec is not None:
                    return TRUE
                return or_(*[g for g, _ in c.items]) if c.items else FALSE
            if c.kind == 'dict':
                return TRUE if (c.items or c.sym) else FALSE
            if c.kind == 'arr':
                return tobool(c.vals[0]) if len(c.vals) == 1 else TRUE
            return TRUE
        if isinstance(v, Choice):
            return or_(and_(v.c, self.truth(v.a)), and_(not_(v.c), self.truth(v.b)))
        return TRUE

    def choice(self, c, a, b):
        self._fresh = {}
        r = self.mergev(c, a, b, self.state, self.state)
        self.state.heap.update(self._fresh)
        return r

    # ------------------------------------------------------------ merge
    def mergev(self, c, a, b, s1, s2):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergev(c, x, y, s1, s2) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.oid == b.oid:
                return a
            ca, cb = s1.heap.get(a.oid), s2.heap.get(b.oid)
            if ca is not None and cb is not None and ca.kind == cb.kind and ca.kind in ('list', 'arr', 'dict', 'bag'):
                m = self.mergec(c, ca, cb, s1, s2)
                if m is not None:
                    r = Ref()
                    self._fresh[r.oid] = m
                    return r
        if isinstance(a, Ignore) or isinstance(b, Ignore):
            return IGN
        if isinstance(a, (Func, Class, Ext, Mod)) and type(a) is type(b) and a.__dict__ == b.__dict__:
            return a
        return Choice(c, a, b)

    def mergec(self, c, a, b, s1, s2):
        if a is b:
            return a
        if a.kind != b.kind:
            return None
        M = lambda x, y: self.mergev(c, x, y, s1, s2)
        if a.kind == 'frame':
            keys = list(a.vars) + [k for k in b.vars if k not in a.vars]
            return FrameC(dict((k, M(a.vars.get(k, UNDEF), b.vars.get(k, UNDEF))) for k in keys), a.parent)
        if a.kind == 'inst':
            keys = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
            return InstC(a.cls, dict((k, M(a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF))) for k in keys))
        if a.kind == 'over':
            keys = list(a.items) + [k for k in b.items if k not in a.items]
            out = {}
            for k in keys:
                x, y = a.items.get(k, UNDEF), b.items.get(k, UNDEF)
                out[k] = M(x, y)
            return OverC(out)
        if a.kind == 'dict':
            keys = list(a.items) + [k for k in b.items if k not in a.items]
            return DictC(dict((k, M(a.items.get(k, UNDEF), b.items.get(k, UNDEF))) for k in keys), a.sym if a.sym == b.sym else a.sym + b.sym)
        if a.kind == 'arr':
            if a.shape == b.shape:
                return ArrC(a.shape, [M(x, y) for x, y in zip(a.vals, b.vals)])
            return None
        if a.kind == 'bag':
            if a.gates == b.gates:
                return BagC(a.gates, [M(x, y) for x, y in zip(a.vals, b.vals)])
            return None
        if a.kind == 'list':
            if a.vec is not None or b.vec is not None:
                if a.vec is not None and b.vec is not None:
                    return ListC((), (), M(a.vec, b.vec))
                return None
            if a.keys != b.keys:
                return None
            if len(a.items) == len(b.items) and all(g1 is g2 for (g1, _), (g2, _) in zip(a.items, b.items)):
                return ListC([(g, M(x, y)) for (g, x), (_, y) in zip(a.items, b.items)], a.keys)
            # common prefix, then guarded extras
            n = 0
            while n < min(len(a.items), len(b.items)) and a.items[n][0] is b.items[n][0]:
                n += 1
            pre = [(g, M(x, y)) for (g, x), (_, y) in zip(a.items[:n], b.items[:n])]
            return ListC(pre + [(and_(c, g), x) for g, x in a.items[n:]] + [(and_(not_(c), g), x) for g, x in b.items[n:]], a.keys)
        return None

    def merge(self, c, s1, s2):
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        self._fresh = {}
        heap = {}
        for oid, a in s1.heap.items():
            b = s2.heap.get(oid)
            if b is None or a is b:
                heap[oid] = a
            else:
                m = self.mergec(c, a, b, s1, s2)
                if m is None:
                    self.warned.append('merge')
                    m = blank(a, fn('unsupported:merge'))
                heap[oid] = m
        for oid, b in s2.heap.items():
            if oid not in heap:
                heap[oid] = b
        heap.update(self._fresh)
        return State(heap)

    def merge_list(self, alts, base):
        """alts: [(state, pc)] mutually exclusive -> (state, pc)"""
        alts = [a for a in alts if a is not None]
        if not alts:
            return None
        s, p = alts[-1]
        for s1, p1 in reversed(alts[:-1]):
            s = self.merge(rel(p1, base), s1, s)
            p = or_(p1, p)
        return s, p

    # ------------------------------------------------------------ modules
    def module(self, name):
        """frame Ref of a repo/spec module (executing its top level abstractly)"""
        if name in self.modframes:
            return self.modframes[name]
        tree = self.prog.tree(name)
        if tree is None:
            return None
        ref = self.new(FrameC({'__name__': strc(name), '__file__': strc(self.prog.path(name))}))
        self.modframes[name] = ref
        fi = FrameInfo(ref, name, None)
        pc = self.pc
        self.pc = TRUE
        self.exec_block(tree.body, fi)
        self.pc = pc
        return ref

    def lookup_module_attr(self, modname, attr):
        f = self.module(modname)
        if f is not None:
            c = self.get(f)
            if attr in c.vars:
                return c.vars[attr]
        if self.prog.path(modname + '.' + attr):
            self.module(modname + '.' + attr)
            return Mod(modname + '.' + attr)
        return None

    def func(self, qual):
        """resolve 'pkg.mod.func' or 'pkg.mod.Class.method'"""
        parts = qual.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            if self.prog.path(m):
                v = None
                f = self.module(m)
                v = self.get(f).vars.get(parts[i])
                for a in parts[i + 1:]:
                    if isinstance(v, Class):
                        v = v.lookup(a)
                    else:
                        return None
                return v
        return None

    # ------------------------------------------------------------ names
    def load_name(self, name, fi):
        ref = fi.ref
        if name in fi.globals_:
            ref = self.modframes[fi.module]
        while ref is not None:
            c = self.get(ref)
            if name in c.vars:
                v = c.vars[name]
                if v is UNDEF:
                    raise Unsupported('undefined %s' % name)
                return v
            ref = c.parent
        g = self.modframes.get(fi.module)
        if g is not None:
            c = self.get(g)
            if name in c.vars:
                return c.vars[name]
        if hasattr(builtins, name):
            return Ext('builtins.' + name)
        raise Unsupported('name %s' % name)

    def store_name(self, name, val, fi):
        ref = fi.ref
        if name in fi.globals_:
            ref = self.modframes[fi.module]
        elif name in fi.nonlocals:
            ref = self.get(ref).parent
            while ref is not None and name not in self.get(ref).vars:
                ref = self.get(ref).parent
        c = self.get(ref)
        v = dict(c.vars)
        v[name] = val
        self.put(ref, FrameC(v, c.parent))

    # ------------------------------------------------------------ statements
    # exec_block works on self.state / self.pc and returns signal lists;
    # self.state is None when control does not fall through.
    def exec_block(self, stmts, fi):
        brk, cont = [], []
        for st in stmts:
            if self.state is None:
                break
            b, c = self.exec_stmt(st, fi)
            brk += b
            cont += c
        return brk, cont

    def exec_stmt(self, st, fi):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            self.warned.append('stmt ' + type(st).__name__)
            return [], []
        try:
            r = m(st, fi)
        except Raised as e:
            if self.tries or self.state is None:
                raise
            self.raises.append((self.pc, fi.module + '.' + (fi.func.name if fi.func else ''), getattr(st, 'lineno', 0), str(e)))
            self.state = None
            return [], []
        except Unsupported as e:
            if self.state is None:
                # the statement always raises
                if self.tries:
                    raise RuntimeError('exception caught: %s' % e)
                return [], []
            self.warned.append('%s:%s %s' % (fi.module, getattr(st, 'lineno', 0), e))
            if self.depth:
                self.havocs += 1
            self.havoc_targets(st, fi, str(e))
            r = None
        return r or ([], [])

    def havoc_targets(self, st, fi, why):
        u = fn('unsupported:' + why[:40])
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.store_name(n.id, u, fi)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.store_name(n.name, u, fi)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                self.havoc_object(n, u, fi)
        for n in ast.walk(st):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
                self.havoc_object(n.value.func, u, fi)

    def havoc_object(self, n, u, fi):
        """forget what the object written through n holds"""
        base = n.value
        try:
            o = self.ev(base, fi)
        except Unsupported:
            o = None
        if isinstance(o, (Ext, Mod, Ignore)):
            return
        if isinstance(o, Ref):
            k = self.get(o)
            if k.kind == 'arr':
                self.put(o, ArrC(k.shape, [u] * len(k.vals)))
                return
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    self.setattr(o, n.attr, u)
                    return
                except Unsupported:
                    pass
            if k.kind == 'list':
                self.put(o, ListC(((TRUE, u),)))
                return
            if k.kind == 'dict' and isinstance(n, ast.Subscript):
                self.put(o, DictC({x: u for x in k.items}, k.sym))
                return
        while isinstance(base, (ast.Subscript, ast.Attribute)):
            base = base.value
        if isinstance(base, ast.Name) and not isinstance(o, Ref):
            self.store_name(base.id, u, fi)

    def st_Expr(self, st, fi):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fi)

    def st_Pass(self, st, fi):
        pass

    def st_Assert(self, st, fi):
        try:
            c = self.truth(self.ev(st.test, fi))
            if c is not TRUE:
                self.raises.append((and_(self.pc, not_(c)), fi.module + '.' + (fi.func.name if fi.func else ''), st.lineno, 'assert'))
        except Unsupported:
            pass

    def st_Global(self, st, fi):
        fi.globals_ |= set(st.names)

    def st_Nonlocal(self, st, fi):
        fi.nonlocals |= set(st.names)

    def st_Delete(self, st, fi):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, fi)
                if isinstance(o, Ref) and self.get(o).kind == 'dict':
                    k = self.dkey(self.ev(t.slice, fi))
                    c = self.get(o)
                    d = dict(c.items)
                    d.pop(k, None)
                    self.put(o, DictC(d, c.sym))
                elif isinstance(o, Ref) and self.get(o).kind == 'list':
                    c, k = self.get(o), self.ev(t.slice, fi)
                    n = len(c.items)
                    i = self.cint(k)
                    ix = [i % n] if i is not None and -n <= i < n else self.slice_idx(k, n) if isinstance(k, Slice) else None
                    if isinstance(k, Slice) and k.lo is NONE and k.hi is NONE and k.st is NONE:
                        self.put(o, ListC(()))
                    elif ix is None or c.vec is not None or c.keys or not all(g is TRUE for g, _ in c.items):
                        raise Unsupported('del of an item')
                    else:
                        self.put(o, ListC([x for j, x in enumerate(c.items) if j not in ix]))

    def st_Import(self, st, fi):
        for a in st.names:
            if a.asname:
                self.store_name(a.asname, self.modval(a.name), fi)
            else:
                top = a.name.split('.')[0]
                if self.prog.path(a.name):
                    self.module(a.name)
                self.store_name(top, self.modval(top), fi)

    def modval(self, name):
        if self.prog.path(name) or os.path.isdir(os.path.join(self.prog.roots[0], name.replace('.', '/'))):
            if self.prog.path(name):
                self.module(name)
            return Mod(name)
        if name.split('.')[0] in ('posconstants',):
            raise ImportFail(name)
        return Ext(name)

    def st_ImportFrom(self, st, fi):
        mod = st.module or ''
        if st.level:
            base = fi.module.split('.')
            p = self.prog.path(fi.module) or ''
            if not p.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            nm = a.asname or a.name
            if self.prog.path(mod) or mod.split('.')[0] == 'desimeter':
                v = self.lookup_module_attr(mod, a.name)
                if v is None:
                    raise Unsupported('import %s.%s' % (mod, a.name))
                self.store_name(nm, v, fi)
            else:
                if mod.split('.')[0] in ('posconstants',):
                    raise ImportFail(mod)
                self.store_name(nm, Ext(mod + '.' + a.name), fi)

    def st_Try(self, st, fi):
        s0, p0 = self.state.fork(), self.pc
        n0 = len(fi.returns)
        self.tries += 1
        try:
            b, c = self.exec_block(st.body, fi)
            self.tries -= 1
        except ImportFail:
            self.tries -= 1
            self.state, self.pc = s0, p0
            del fi.returns[n0:]
            b, c = [], []
            if st.handlers:
                b, c = self.exec_block(st.handlers[0].body, fi)
        except Raised as e:
            self.tries -= 1
            if self.pc is not p0 or self.state is None:
                raise
            h = [h for h in st.handlers if h.type is None or any(isinstance(n, ast.Name) and n.id in (e.exc, 'Exception', 'BaseException') + (('LookupError',) if e.exc in ('KeyError', 'IndexError') else ()) for n in ast.walk(h.type))]
            if not h:
                raise
            del fi.returns[n0:]
            if h[0].name:
                self.store_name(h[0].name, fn('exception'), fi)
            b, c = self.exec_block(h[0].body, fi)
        else:
            if self.state is not None and st.orelse:
                b2, c2 = self.exec_block(st.orelse, fi)
                b += b2
                c += c2
        if self.state is not None and st.finalbody:
            b2, c2 = self.exec_block(st.finalbody, fi)
            b += b2
            c += c2
        return b, c

    def st_With(self, st, fi):
        for it in st.items:
            v = self.ev(it.context_expr, fi)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fi)
        return self.exec_block(st.body, fi)

    def st_FunctionDef(self, st, fi):
        f = self.mkfunc(st, fi, st.name)
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property'):
                f.kind = d.id
            else:
                self.warned.append('decorator')
        self.store_name(st.name, f, fi)

    def mkfunc(self, st, fi, name):
        defaults = [self.ev(d, fi) for d in st.args.defaults]
        kwd = {}
        for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.ev(d, fi)
        frame = fi.ref if fi.func is not None else None
        nm = name
        if fi.func is not None:
            nm = fi.func.name + '.' + name
        return Func(st, fi.module, frame, nm, None, defaults, kwd)

    def st_ClassDef(self, st, fi):
        bases = []
        for b in st.bases:
            try:
                bases.append(self.ev(b, fi))
            except Unsupported:
                pass
        ref = self.new(FrameC({}, fi.ref if fi.func is not None else None))
        f2 = FrameInfo(ref, fi.module, None)
        self.exec_block(st.body, f2)
        attrs = dict(self.get(ref).vars)
        cls = Class(st.name, fi.module, attrs, bases)
        for k, v in attrs.items():
            if isinstance(v, Func):
                v.cls = cls
                if not v.name.startswith(st.name + '.'):
                    v.name = st.name + '.' + v.name
        self.store_name(st.name, cls, fi)

    def st_Return(self, st, fi):
        v = self.ev(st.value, fi) if st.value is not None else NONE
        fi.returns.append((self.pc, v, self.state))
        self.state = None

    def st_Raise(self, st, fi):
        txt = ast.unparse(st.exc) if st.exc is not None else ''
        self.raises.append((self.pc, fi.module + '.' + (fi.func.name if fi.func else ''), st.lineno, txt))
        self.state = None

    def st_Break(self, st, fi):
        r = [(self.state, self.pc)]
        self.state = None
        return r, []

    def st_Continue(self, st, fi):
        r = [(self.state, self.pc)]
        self.state = None
        return [], r

    def st_If(self, st, fi):
        cv = self.ev(st.test, fi)
        c = self.truth(cv)
        if c is TRUE:
            return self.exec_block(st.body, fi)
        if c is FALSE:
            return self.exec_block(st.orelse, fi)
        if dims(c) and not self.in_map:
            # `if array:` style tests on symbolic arrays are not modelled
            pass
        s0, p0 = self.state, self.pc
        self.state, self.pc = s0.fork(), and_(p0, c)
        b1, c1 = self.exec_block(st.body, fi) if self.pc is not FALSE else ([], [])
        s1, p1 = self.state, self.pc
        self.state, self.pc = s0, and_(p0, not_(c))
        b2, c2 = self.exec_block(st.orelse, fi)
        s2, p2 = self.state, self.pc
        if s1 is None:
            self.state, self.pc = s2, p2
        elif s2 is None:
            self.state, self.pc = s1, p1
        else:
            self.state = self.merge(c, s1, s2)
            self.pc = p0 if (p1 is and_(p0, c) and p2 is and_(p0, not_(c))) else or_(p1, p2)
        return b1 + b2, c1 + c2

    in_map = 0

    def st_While(self, st, fi):
        for _ in range(self.MAXUNROLL):
            c = self.truth(self.ev(st.test, fi))
            if c is FALSE:
                return
            if c is not TRUE:
                raise Unsupported('while loop')
            b, cc = self.exec_block(st.body, fi)
            if b or cc:
                nxt = self.merge_list(([(self.state, self.pc)] if self.state is not None else []) + cc, self.pc)
                if b and nxt is None and all(True for _ in b):
                    m = self.merge_list(b, self.pc)
                    self.state, self.pc = m
                    return
                if b:
                    raise Unsupported('while break')
                self.state, self.pc = nxt
        raise Unsupported('while loop')

    def st_Assign(self, st, fi):
        v = self.ev(st.value, fi)
        for t in st.targets:
            self.assign(t, v, fi)

    def st_AnnAssign(self, st, fi):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fi), fi)

    def st_AugAssign(self, st, fi):
        cur = self.ev(load(st.target), fi)
        v = self.ev(st.value, fi)
        if isinstance(cur, Ref) and self.get(cur).kind == 'list' and isinstance(st.op, ast.Add):
            self.list_extend(cur, v)
            return
        r = self.binop(st.op, cur, v)
        if isinstance(cur, Ref) and isinstance(r, Ref) and self.get(cur).kind == 'arr' and self.get(r).kind == 'arr' \
                and self.get(cur).shape == self.get(r).shape and isinstance(st.target, ast.Name):
            self.put(cur, self.get(r))
            return
        self.assign(st.target, r, fi)

    def assign(self, t, v, fi):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fi)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fi)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fi)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fi)
            k = self.ev(t.slice, fi)
            new = self.setitem(o, k, v)
            if new is not None:
                # value-semantics container: rebind the lvalue
                self.assign(store(t.value), new, fi)
        else:
            raise Unsupported('assign target')

    def unpack(self, v, n, stars=None):
        if isinstance(v, Choice):
            a = self.unpack(v.a, n, stars)
            b = self.unpack(v.b, n, stars)
            self._fresh = {}
            r = [self.mergev(v.c, x, y, self.state, self.state) for x, y in zip(a, b)]
            self.state.heap.update(self._fresh)
            return r
        it = self.known_items(v)
        if it is not None:
            if stars and any(stars):
                i = stars.index(True)
                tail = n - i - 1
                mid = it[i:len(it) - tail]
                return it[:i] + [self.new(ListC([(TRUE, x) for x in mid]))] + (it[len(it) - tail:] if tail else [])
            if len(it) != n:
                if self.exact:
                    self.rowerror('%d values are unpacked into %d names' % (len(it), n))
                raise Unsupported('unpack arity %d/%d' % (len(it), n))
            return it
        if isinstance(v, T):
            if v.op == 'ite':
                a = self.unpack(v.args[1], n)
                b = self.unpack(v.args[2], n)
                return [ite(v.args[0], self.toterm(x), self.toterm(y)) for x, y in zip(a, b)]
            return [self.item_of(v, const(i)) for i in range(n)]
        raise Unsupported('unpack')

    def known_items(self, v):
        """list of values of a container of known length, else None"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            c = self.get(v)
            if c.kind == 'list' and c.vec is None:
                if all(g is TRUE for g, _ in c.items) and not c.keys:
                    return [x for _, x in c.items]
                return None
            if c.kind == 'arr':
                if not isinstance(c.shape[0], int):
                    return None
                if len(c.shape) == 1 or (len(c.fixed) == 1):
                    return list(c.vals)
                n0 = c.shape[0]
                step = len(c.vals) // n0 if n0 else 0
                return [self.new(ArrC(c.shape[1:], c.vals[i * step:(i + 1) * step])) for i in range(n0)]
            if c.kind == 'dict' and not c.sym:
                return [self.unkey(k) for k in c.items]
        if isinstance(v, T) and v.op == 'f' and v.data in ('tuple', 'list'):
            return list(v.args)
        if isinstance(v, T) and v.op == 'str':
            return [strc(ch) for ch in v.data]
        return None

    # ------------------------------------------------------------ for loops
    def st_For(self, st, fi):
        it = self.iterable(self.ev(st.iter, fi))
        if it[0] == 'items':
            return self.unrolled(st, it[1], fi)
        return self.maploop(st, it, fi)

    def iterable(self, v):
        """('items', [(guard, value)]) or ('map', element value, dim)"""
        if isinstance(v, Iter):
            return v.tup
        if isinstance(v, Choice):
            raise Unsupported('choice iterable')
        if isinstance(v, Ref) and self.get(v).kind == 'list':
            c = self.get(v)
            if c.vec is not None:
                return ('map', c.vec, self.pick_dim(c.vec))
            if c.keys:
                raise Unsupported('iterate sorted')
            return ('items', list(c.items))
        it = self.known_items(v)
        if it is not None:
            return ('items', [(TRUE, x) for x in it])
        if isinstance(v, Ref) and self.get(v).kind == 'arr':
            c = self.get(v)
            return ('map', self.new(ArrC(c.shape[1:], c.vals)) if len(c.shape) > 1 else c.vals[0], c.shape[0])
        if isinstance(v, T):
            if v.op == 'f' and v.data == 'unique':
                return ('group', v.args[0], v)
            d = self.pick_dim(v)
            if d is None:
                d = 'it%d' % v.id
                return ('map', fn('elem', v, fn('idx', strc(d))), d)
            return ('map', v, d)
        raise Unsupported('iterable')

    def pick_dim(self, v):
        if isinstance(v, T):
            d = sorted(dims(v))
            if d:
                return d[0]
        if isinstance(v, tuple):
            for x in v:
                d = self.pick_dim(x)
                if d:
                    return d
        return None

    def has_signal(self, stmts, kinds):
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, kinds):
                    return True
        return False

    def unrolled(self, st, items, fi):
        # convergence loop: constant count, break under symbolic condition
        if len(items) > self.MAXUNROLL:
            raise Unsupported('long loop')
        own_break = any(isinstance(n, ast.Break) for n in walk_noloop(st.body))
        tgt_used = isinstance(st.target, ast.Name) and any(isinstance(n, ast.Name) and n.id == st.target.id and isinstance(n.ctx, ast.Load) for s in st.body for n in ast.walk(s))
        if len(items) > 8 and not tgt_used and own_break:
            if self.decidedloop(st, items, fi):
                return
            return self.fixloop(st, len(items), fi)
        base = self.pc
        exits = []
        for g, x in items:
            if self.state is None:
                break
            if g is not TRUE:
                s0, p0 = self.state.fork(), self.pc
                self.pc = and_(p0, g)
            self.assign(st.target, x, fi)
            b, c = self.exec_block(st.body, fi)
            exits += b
            alts = ([(self.state, self.pc)] if self.state is not None else []) + c
            if g is not TRUE:
                alts.append((s0, and_(p0, not_(g))))
            m = self.merge_list(alts, base)
            if m is None:
                self.state = None
            else:
                self.state, self.pc = m
        alts = exits
        if self.state is not None:
            b, c = self.exec_block(st.orelse, fi)
            if self.state is not None:
                alts = exits + [(self.state, self.pc)]
        m = self.merge_list(alts, base)
        if m is None:
            self.state = None
            return
        self.state, self.pc = m
        if not exits:
            pass
        elif len(alts) and self.state is not None:
            self.pc = base if not fi.returns else self.pc

    def changed_vars(self, fi, s0, s1):
        a = s0.heap[fi.ref.oid].vars
        b = s1.heap[fi.ref.oid].vars
        return [k for k in b if b[k] is not a.get(k, UNDEF)]

    def decidedloop(self, st, items, fi):
        """iterations while leaving the loop is decided; False (and nothing done) when it depends on symbols"""
        s0, p0, nret, nw = self.state, self.pc, len(fi.returns), len(self.warned)
        h0 = self.havocs
        self.state = s0.fork()
        for i, (g, x) in enumerate(items):
            self.assign(st.target, x, fi)
            b, c = self.exec_block(st.body, fi)
            if self.state is None and len(b) == 1 and not c and b[0][1] is p0:
                self.state, self.pc = b[0]
                return True
            if self.state is None and not b and not c and len(fi.returns) > nret:
                return True
            if self.state is None and not b and len(c) == 1 and c[0][1] is p0:
                self.state, self.pc = c[0]
            elif self.state is None or b or c or self.pc is not p0:
                break
        else:
            if not st.orelse:
                return True         # never left early
        self.state, self.pc = s0, p0
        del fi.returns[nret:]
        del self.warned[nw:]
        self.havocs = h0
        return False

    def fixloop(self, st, n, fi):
        """for _ in range(n): x = f(x); if converged: break   -> fixpoint symbols"""
        s0, p0 = self.state, self.pc
        # pass 1: which frame variables are loop carried
        self.state = s0.fork()
        nret = len(fi.returns)
        self.exec_block(st.body, fi)
        mods = [n_.id for b in st.body for n_ in ast.walk(b) if isinstance(n_, ast.Name) and isinstance(n_.ctx, ast.Store)]
        mods = sorted(set(m for m in mods if m in s0.heap[fi.ref.oid].vars))
        del fi.returns[nret:]
        self.state, self.pc = s0.fork(), p0
        ph = {}
        for m in mods:
            v0 = s0.heap[fi.ref.oid].vars[m]
            if not isinstance(v0, T):
                raise Unsupported('fixpoint over structure')
            ph[m] = None
        # first guess of placeholder dims from a probe run
        probe = {}
        for m in mods:
            probe[m] = sym('probe:%s' % m)
            self.store_name(m, probe[m], fi)
        b, c = self.exec_block(st.body, fi)
        alts = ([(self.state, self.pc)] if self.state is not None else []) + b + c
        st1 = self.merge_list(alts, p0)[0]
        d = {}
        for m in mods:
            v = st1.heap[fi.ref.oid].vars[m]
            d[m] = dims(v) if isinstance(v, T) else frozenset()
        self.state, self.pc = s0.fork(), p0
        body_hash = []
        for m in mods:
            v = st1.heap[fi.ref.oid].vars[m]
            body_hash.append(self.toterm(v).id)
        tag = hash(tuple(body_hash)) & 0xffffff
        for m in mods:
            ph[m] = sym('fix:%s:%06x' % (m, tag), d[m])
            self.store_name(m, ph[m], fi)
        alldef = dict((m, self.alias.get(m)) for m in ())
        b, c = self.exec_block(st.body, fi)
        if fi.returns[nret:]:
            raise Unsupported('return in convergence loop')
        if not b:
            raise Unsupported('no break')
        st1 = self.state if self.state is not None else b[0][0]
        conds = [rel(p, p0) for _, p in b]
        stb = b[0][0] if len(b) == 1 else None
        info = dict(func=fi.module + '.' + (fi.func.name if fi.func else ''), line=st.lineno, iters=n, cond=conds, eqs=[])
        for m in mods:
            v = st1.heap[fi.ref.oid].vars[m]
            info['eqs'].append((m, ph[m], v))
        if stb is None or not all(isinstance(v, T) for _, _, v in info['eqs']):
            raise Unsupported('convergence loop')
        FIXDEF.update(dict((ph[m].data[0], tag) for m in mods))
        FIXDEF[tag] = dict(n=n, cond=conds[0], ph=[ph[m] for m in mods], init=[s0.heap[fi.ref.oid].vars[m] for m in mods],
                           cont=[v for _, _, v in info['eqs']], brk=[stb.heap[fi.ref.oid].vars[m] for m in mods])
        self.fix.append(info)
        self.state, self.pc = s0, p0
        for m in mods:
            self.store_name(m, ph[m], fi)
        for x in self.changed_vars(fi, s0, st1):
            if x not in mods:
                self.store_name(x, fn('unsupported:fixloop temp'), fi)

    def maploop(self, st, it, fi):
        kind, elem, dim = it
        s0, p0 = self.state, self.pc
        if any(isinstance(n, (ast.Return,)) for s in st.body for n in walk_nofunc(s)):
            raise Unsupported('return in symbolic loop')
        if any(isinstance(n, ast.Break) for n in walk_noloop(st.body)):
            raise Unsupported('break in symbolic loop')
        if kind == 'group':
            key = elem
            g = sym('group%d' % key.id)
            elem = g
        assigned = set()
        for s in st.body:
            for n in walk_nofunc(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    assigned.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    b = n
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        assigned.add(b.id)
        fvars = s0.heap[fi.ref.oid].vars
        carried = [m for m in assigned if m in fvars and isinstance(fvars[m], T)]
        self.state = s0.fork()
        ph = {}
        if kind != 'group':
            for m in carried:
                ph[m] = sym('loop:%s:%d:%s' % (m, st.lineno, dim), dims(fvars[m]))
                self.store_name(m, ph[m], fi)
        self.in_map += 1
        self.mapdims.append(dim)
        try:
            self.assign(st.target, elem, fi)
            b, c = self.exec_block(st.body, fi)
        finally:
            self.in_map -= 1
            self.mapdims.pop()
        alts = ([(self.state, self.pc)] if self.state is not None else []) + c
        m = self.merge_list(alts, p0)
        if m is None:
            raise Unsupported('loop body never completes')
        s1 = m[0]
        self.state, self.pc = s1, p0
        # classify changes
        inv = dict((p, None) for p in ph.values())
        v1 = s1.heap[fi.ref.oid].vars
        for name in list(v1):
            new, old = v1[name], fvars.get(name, UNDEF)
            if name in ph:
                old = ph[name]
            if new is old:
                if name in ph:
                    self.store_name(name, fvars[name], fi)
                continue
            if kind == 'group':
                self.store_name(name, self.group_final(new, g, key), fi)
                continue
            if isinstance(new, T):
                self.store_name(name, self.loop_final(new, ph.get(name), set(ph.values()), fvars.get(name, UNDEF), dim), fi)
        for oid, c1 in list(s1.heap.items()):
            c0 = s0.heap.get(oid)
            if c0 is None or c0 is c1 or c1.kind == 'frame':
                continue
            if c1.kind == 'list' and c0.kind == 'list':
                extra = c1.items[len(c0.items):]
                if c0.items or c0.vec is not None or len(extra) != 1:
                    self.state.heap[oid] = ListC((), (), fn('unsupported:list in loop'))
                else:
                    gd, val = extra[0]
                    if contains_any(self, val, ph.values()):
                        self.state.heap[oid] = ListC((), (), fn('unsupported:list in loop'))
                    elif gd is TRUE:
                        self.state.heap[oid] = ListC((), (), val)
                    else:
                        self.state.heap[oid] = ListC((), (), fn('filter', gd, self.toterm(val)))
            elif kind == 'group' and c1.kind == 'arr':
                self.state.heap[oid] = ArrC(c1.shape, [self.group_final(v, g, key) for v in c1.vals])
            elif kind == 'group' and c1.kind == 'over':
                self.state.heap[oid] = OverC(dict((k, self.group_final(v, g, key)) for k, v in c1.items.items()))
            elif c1.kind == 'arr' and c0.kind == 'arr':
                self.state.heap[oid] = ArrC(c1.shape, [a if a is b_ else self.arr_final(a, b_, set(ph.values()), dim) for a, b_ in zip(c1.vals, c0.vals)])
            elif c1.kind == 'inst':
                at = {}
                for k, v in c1.attrs.items():
                    o = c0.attrs.get(k, UNDEF) if c0.kind == 'inst' else UNDEF
                    at[k] = v if v is o else (fn('unsupported:attr in loop') if contains_any(self, v, ph.values()) else (fn('at', v, const(-1), strc(dim)) if isinstance(v, T) and dim in dims(v) else v))
                self.state.heap[oid] = InstC(c1.cls, at)
            elif c1.kind == 'dict' and kind != 'group':
                d = {}
                for k, v in c1.items.items():
                    o = c0.items.get(k, UNDEF)
                    d[k] = v if v is o else (fn('unsupported:dict in loop') if contains_any(self, v, ph.values()) else v)
                self.state.heap[oid] = DictC(d, c1.sym)
            elif c1.kind == 'over':
                d = {}
                for k, v in c1.items.items():
                    o = c0.items.get(k, UNDEF)
                    d[k] = v if v is o else (fn('unsupported:over in loop') if contains_any(self, v, ph.values()) else v)
                self.state.heap[oid] = OverC(d)

    def arr_final(self, new, old, phs, dim):
        """array element updated inside a loop: accumulation"""
        if isinstance(new, T) and isinstance(old, T):
            d = sub(new, old)
            if old.op != 'c':
                return fn('unsupported:array in loop')
            return fn('unsupported:array in loop')
        return fn('unsupported:array in loop')

    def group_final(self, v, g, key):
        if isinstance(v, T):
            v = strip_group(v, g, key)
            return tm.subst(v, {g: key})
        if isinstance(v, tuple):
            return tuple(self.group_final(x, g, key) for x in v)
        return v

    def loop_final(self, new, ph, phs, old, dim):
        inside = [x for x in tm.walk(new) if x in phs]
        if not inside:
            if dim in dims(new):
                return fn('at', new, const(-1), strc(dim)) if ph is None or True else new
            return new
        if ph is not None and all(x is ph for x in inside):
            if new.op == '+' and ph in new.args:
                rest = [a for a in new.args if a is not ph]
                d = add(*rest)
                if ph not in set(tm.walk(d)):
                    return add(old, fn('sum', d, strc(dim)))
            if new.op == 'ite' and new.args[2] is ph and ph not in set(tm.walk(new.args[1])) and ph not in set(tm.walk(new.args[0])) and new.args[0].op == 'eq':
                pass
            if is_bool(new):
                if new.op == 'and' and ph in new.args:
                    rest = and_(*[a for a in new.args if a is not ph])
                    if ph not in set(tm.walk(rest)):
                        return and_(old, fn('all', rest, strc(dim)))
                if new.op == 'not' and new.args[0].op == 'and' and not_(ph) in new.args[0].args:
                    rest = not_(and_(*[a for a in new.args[0].args if a is not not_(ph)]))
                    if ph not in set(tm.walk(rest)):
                        return or_(old, fn('any', rest, strc(dim)))
        return fn('unsupported:loop-carried', new)

    # ------------------------------------------------------------ calls
    def call_func(self, f, args, kwargs, fi=None, node=None):
        q = f.qual
        self.ncalls += 1
        if q in self.models:
            r = self.models[q](self, *self.both_ways(f, args, kwargs))
            if r is not NotImplemented:
                return r
        if q in self.opaque:
            return self.opaque_call(f, args, kwargs)
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth')
        bound = self.bind(f, args, kwargs)
        self.analysed.add(q)
        ref = self.new(FrameC(bound, f.frame))
        sub_fi = FrameInfo(ref, f.module, f)
        pc0 = self.pc
        self.depth += 1
        inm = self.in_map
        self.in_map = 0
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, sub_fi)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in f.node.body for n in walk_nofunc(s)):
                raise Unsupported('generator')
            self.exec_block(f.node.body, sub_fi)
            if self.state is not None:
                sub_fi.returns.append((self.pc, NONE, self.state))
            rets = sub_fi.returns
            if not rets:
                # always raises
                self.state = State(self._dead_heap) if False else None
                raise Unsupported('callee never returns: %s' % q)
            self.pc = pc0
            pc, v, s = rets[-1]
            for pc1, v1, s1 in reversed(rets[:-1]):
                c = rel(pc1, pc0)
                sm = self.merge(c, s1, s)
                self._fresh = {}
                v = self.mergev(c, v1, v, s1, s)
                sm.heap.update(self._fresh)
                s = sm
            self.state = s
            return v
        finally:
            self.depth -= 1
            self.in_map = inm
            self.pc = pc0

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for n, v in zip(names, args):
            out[n] = v
        extra = args[len(names):]
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        elif extra:
            raise Unsupported('too many arguments for %s' % f.qual)
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                out[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        if a.kwarg:
            out[a.kwarg.arg] = self.new(DictC(dict((k, v) for k, v in kw.items())))
        elif kw:
            raise Unsupported('unknown keyword %s for %s' % (sorted(kw), f.qual))
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise Unsupported('missing argument %s of %s' % (n, f.qual))
        return out

    def both_ways(self, f, args, kwargs):
        """arguments of a stand-in: by position as far as they go, and the optional ones also by name"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or len(args) > len(names) or any(k not in names and not a.kwarg and k not in [x.arg for x in a.kwonlyargs] for k in kwargs):
            return args, kwargs
        out, kw = list(args), dict(kwargs)
        for n in names[len(args):]:
            if n not in kwargs:
                break
            out.append(kwargs[n])
        nreq = len(names) - len(f.defaults)
        for n, v in list(zip(names, args))[nreq:]:
            kw.setdefault(n, v)
        for n in names[:nreq]:
            kw.pop(n, None) if n in names[:len(out)] else None
        return out, kw

    def method_params(self, name):
        """parameters of the methods of this name, if all classes of the package agree on them"""
        table = self.prog.__dict__.get('methods')
        if table is None:
            table = self.prog.methods = {}
            for d, _, fs in os.walk(os.path.join(self.prog.repo, 'py', 'desimeter')):
                for x in sorted(fs):
                    if x.endswith('.py') and '/test' not in d:
                        mod = os.path.relpath(os.path.join(d, x), os.path.join(self.prog.repo, 'py'))[:-3].replace('/', '.')
                        try:
                            t = self.prog.tree(mod)
                        except SyntaxError:
                            continue
                        for c in ast.walk(t) if t is not None else ():
                            if isinstance(c, ast.ClassDef):
                                for m in c.body:
                                    if isinstance(m, ast.FunctionDef):
                                        static = any(isinstance(z, ast.Name) and z.id == 'staticmethod' for z in m.decorator_list)
                                        p = tuple(z.arg for z in m.args.posonlyargs + m.args.args)[0 if static else 1:]
                                        p = None if m.args.vararg or m.args.kwarg else p
                                        table[m.name] = p if table.get(m.name, p) == p else None
        return table.get(name)

    def opaque_args(self, f, args, kwargs):
        """keywords of a call of an unknown object as positions, where every method of the name has them there"""
        if kwargs and f.op == 'f' and len(f.args) == 2 and f.args[1].op == 'str' and f.data in ('attr', 'getattr'):
            p = self.method_params(f.args[1].data)
            if p:
                args, kwargs = list(args), dict(kwargs)
                for n in p[len(args):]:
                    if n not in kwargs:
                        break
                    args.append(kwargs.pop(n))
        return args, kwargs

    def opaque_call(self, f, args, kwargs):
        b = self.bind(f, args, kwargs)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        ts = [self.toterm(b[n]) for n in names]
        return self.fn_alias(f.qual, *ts)

    def fn_alias(self, name, *ts):
        t = fn(name, *ts)
        return t

    def call(self, f, args, kwargs, fi, node=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, fi, node)
        if isinstance(f, Bound):
            if f.func.kind == 'staticmethod':
                return self.call_func(f.func, args, kwargs, fi, node)
            return self.call_func(f.func, [f.self_] + list(args), kwargs, fi, node)
        if isinstance(f, Class):
            q = f.module + '.' + f.name
            if q in self.models:
                r = self.models[q](self, args, kwargs)
                if r is not NotImplemented:
                    return r
            if q in self.opaque:
                return fn(q, *([self.toterm(a) for a in args] + [fn('kw:' + k, self.toterm(v)) for k, v in sorted(kwargs.items())]))
            new = f.lookup('__new__')
            if isinstance(new, Func):
                r = self.call_func(new, [f] + list(args), kwargs, fi, node)
                if not (isinstance(r, Ref) and self.get(r).kind == 'inst'):
                    return r
            else:
                r = self.new(InstC(f, {}))
            init = f.lookup('__init__')
            if isinstance(init, Func):
                self.call_func(init, [r] + list(args), kwargs, fi, node)
            return r
        if isinstance(f, Ext):
            if f.name in self.models:
                r = self.models[f.name](self, args, kwargs)
                if r is not NotImplemented:
                    return r
            from . import lib
            return lib.call(self, f.name, list(args), dict(kwargs), fi, node)
        if isinstance(f, Method):
            from . import lib
            return lib.method(self, f.obj, f.name, list(args), dict(kwargs), fi, node)
        if isinstance(f, Ignore):
            return IGN
        if isinstance(f, Native):
            return f.f(self, list(args), dict(kwargs))
        if isinstance(f, Choice):
            s0, p0 = self.state, self.pc
            self.state, self.pc = s0.fork(), and_(p0, f.c)
            va = self.call(f.a, args, kwargs, fi, node)
            s1 = self.state
            self.state, self.pc = s0, and_(p0, not_(f.c))
            vb = self.call(f.b, args, kwargs, fi, node)
            s2 = self.state
            self.pc = p0
            self.state = self.merge(f.c, s1, s2)
            self._fresh = {}
            r = self.mergev(f.c, va, vb, s1, s2)
            self.state.heap.update(self._fresh)
            return r
        if isinstance(f, T):
            if f.op == 'f' and f.data.startswith('unsupported'):
                return f
            if f.op == 'f' and f.data == 'poly1d' and len(args) == 1:
                r = ZERO
                for c in f.args:
                    r = self.binop(ast.Add(), self.binop(ast.Mult(), r, args[0]), c)
                return r
            args, kwargs = self.opaque_args(f, args, kwargs)
            return fn('call', f, *([self.toterm(a) for a in args] + [fn('kw:' + k, self.toterm(v)) for k, v in sorted(kwargs.items())]))
        if isinstance(f, Ref) and self.get(f).kind == 'inst':
            c = self.get(f)
            m = c.cls.lookup('__call__')
            if m:
                return self.call_func(m, [f] + list(args), kwargs, fi, node)
        raise Unsupported('call of %s' % type(f).__name__)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fi):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expr ' + type(e).__name__)
        return m(e, fi)

    def ex_Constant(self, e, fi):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, (bool, int, float)):
            return const(v)
        if isinstance(v, str):
            return strc(v)
        if v is Ellipsis:
            return strc('...')
        if isinstance(v, bytes):
            return strc(repr(v))
        raise Unsupported('constant')

    def ex_Name(self, e, fi):
        return self.load_name(e.id, fi)

    def ex_Tuple(self, e, fi):
        return tuple(self.seq(e.elts, fi))

    def seq(self, elts, fi):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.known_items(self.ev(x.value, fi))
                if it is None:
                    raise Unsupported('star')
                out += it
            else:
                out.append(self.ev(x, fi))
        return out

    def ex_List(self, e, fi):
        return self.new(ListC([(TRUE, x) for x in self.seq(e.elts, fi)]))

    def ex_Set(self, e, fi):
        return self.new(ListC([(TRUE, x) for x in self.seq(e.elts, fi)]))

    def ex_Dict(self, e, fi):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fi)
                if isinstance(o, Ref) and self.get(o).kind == 'dict':
                    d.update(self.get(o).items)
                    continue
                raise Unsupported('dict splat')
            d[self.dkey(self.ev(k, fi))] = self.ev(v, fi)
        return self.new(DictC(d))

    def dkey(self, v):
        if isinstance(v, T):
            if v.op == 'str':
                return v.data
            if v.op == 'c':
                return v.data
            return v
        if isinstance(v, tuple):
            return tuple(self.dkey(x) for x in v)
        return self.toterm(v)

    def unkey(self, k):
        if isinstance(k, str):
            return strc(k)
        if isinstance(k, F):
            return const(k)
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return k

    def ex_Lambda(self, e, fi):
        return self.mkfunc(e, fi, '<lambda>')

    def ex_IfExp(self, e, fi):
        c = self.truth(self.ev(e.test, fi))
        if c is TRUE:
            return self.ev(e.body, fi)
        if c is FALSE:
            return self.ev(e.orelse, fi)
        s0 = self.state
        p0 = self.pc
        self.state, self.pc = s0.fork(), and_(p0, c)
        a = self.ev(e.body, fi)
        s1 = self.state
        self.state, self.pc = s0, and_(p0, not_(c))
        b = self.ev(e.orelse, fi)
        s2 = self.state
        self.pc = p0
        self.state = self.merge(c, s1, s2)
        self._fresh = {}
        r = self.mergev(c, a, b, s1, s2)
        self.state.heap.update(self._fresh)
        return r

    def ex_BoolOp(self, e, fi):
        vals = []
        res = None
        isand = isinstance(e.op, ast.And)
        acc = TRUE if isand else FALSE
        for x in e.values:
            v = self.ev(x, fi)
            t = self.truth(v)
            vals.append((v, t))
            if (isand and t is FALSE) or (not isand and t is TRUE):
                acc = t
                if len(vals) == 1:
                    return v
                break
            acc = and_(acc, t) if isand else or_(acc, t)
        if all(isinstance(v, T) and is_bool(v) for v, _ in vals):
            return acc
        # value semantics of and/or
        r = vals[-1][0]
        for v, t in reversed(vals[:-1]):
            if t is TRUE:
                r = r if isand else v
            elif t is FALSE:
                r = v if isand else r
            elif isinstance(v, T) and isinstance(r, T):
                r = ite(t, r, v) if isand else ite(t, v, r)
            else:
                return acc
        return r

    def ex_UnaryOp(self, e, fi):
        v = self.ev(e.operand, fi)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.USub):
            return self.map1(neg, v)
        if isinstance(e.op, ast.Invert):
            return self.map1(lambda t: not_(t) if is_bool(t) else sub(neg(t), ONE), v)
        raise Unsupported('unary')

    def map1(self, f, v):
        if isinstance(v, T):
            return f(v)
        if isinstance(v, Ref):
            c = self.get(v)
            if c.kind == 'arr':
                return self.new(ArrC(c.shape, [f(x) for x in c.vals]))
            if c.kind == 'bag':
                return self.new(BagC(c.gates, [f(x) for x in c.vals]))
            if c.kind == 'list':
                if c.vec is not None and isinstance(c.vec, T):
                    return f(c.vec)
                a = self.to_arr(v)
                if a is not None:
                    return self.map1(f, a)
        if isinstance(v, tuple):
            a = self.to_arr(v)
            if a is not None:
                return self.map1(f, a)
        if isinstance(v, Choice):
            a, b = self.map1(f, v.a), self.map1(f, v.b)
            if isinstance(a, T) and isinstance(b, T):
                return ite(v.c, a, b)
            return Choice(v.c, a, b)
        raise Unsupported('map over %s' % type(v).__name__)

    def to_arr(self, v):
        """nested known-length sequence of terms -> ArrC ref (or the value itself)"""
        v = intvalue(self, v)
        if isinstance(v, T):
            return v
        if isinstance(v, Ref) and self.get(v).kind == 'arr':
            return v
        if isinstance(v, Ref) and self.get(v).kind == 'list' and self.get(v).vec is not None:
            return self.get(v).vec if isinstance(self.get(v).vec, T) else self.vec_struct(self.get(v).vec)
        it = self.known_items(v)
        if it is None:
            return None
        sub_ = [self.to_arr(x) for x in it]
        if any(x is None for x in sub_):
            return None
        if all(isinstance(x, T) for x in sub_):
            dd = set()
            for x in sub_:
                dd |= dims(x)
            if len(dd) == 1 and not self.in_map:
                return self.new(ArrC((len(sub_), list(dd)[0]), sub_))
            return self.new(ArrC((len(sub_),), sub_))
        if all(isinstance(x, Ref) and self.get(x).kind == 'arr' for x in sub_):
            sh = set(self.get(x).shape for x in sub_)
            if len(sh) == 1:
                vals = []
                for x in sub_:
                    vals += list(self.get(x).vals)
                return self.new(ArrC((len(sub_),) + list(sh)[0], vals))
        return None

    def vec_struct(self, v):
        """list over a symbolic dim whose elements are tuples -> ('dim', n) array"""
        it = self.known_items(v)
        if it is None or not all(isinstance(x, T) for x in it):
            return None
        d = self.pick_dim(tuple(it))
        return self.new(ArrC((d or 'vec', len(it)), it))

    def ex_BinOp(self, e, fi):
        a = self.ev(e.left, fi)
        b = self.ev(e.right, fi)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = intvalue(self, a), intvalue(self, b)
        if isinstance(op, ast.MatMult):
            from . import lib
            return lib.dot(self, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Ref) and isinstance(b, Ref) and self.get(a).kind == 'list' and self.get(b).kind == 'list' and self.get(a).vec is None and self.get(b).vec is None:
                return self.new(ListC(self.get(a).items + self.get(b).items))
            if isinstance(a, T) and isinstance(b, T) and (a.op == 'str' or b.op == 'str' or is_strfn(a) or is_strfn(b)):
                if a.op == 'str' and b.op == 'str':
                    return strc(a.data + b.data)
                return fn('strcat', a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and self.get(x).kind == 'list' and isinstance(y, T) and self.get(x).vec is None:
                    c = self.get(x)
                    if y.op == 'c' and y.data.denominator == 1:
                        return self.new(ListC(c.items * int(y.data)))
                    if len(c.items) == 1:
                        return self.new(ListC((), (), c.items[0][1]))
            if isinstance(a, T) and a.op == 'str' and isinstance(b, T) and b.op == 'c':
                return strc(a.data * int(b.data))
        if isinstance(op, ast.Mod) and isinstance(a, T) and (a.op == 'str' or is_strfn(a)):
            if a.op == 'str':
                from . import lib
                r = lib.percent(self, a.data, b if isinstance(b, tuple) else (b,))
                if r is not None:
                    return strc(r)
            return fn('fmt', a, self.toterm(b))
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and all(isinstance(x, Ref) and self.get(x).kind in ('list', 'dict') for x in (a, b)) \
                and any(self.get(x).kind == 'list' for x in (a, b)):
            from . import lib
            return lib.setop(self, {ast.Sub: '-', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}[type(op)], a, b)
        f = BINOPS.get(type(op))
        if f is None:
            raise Unsupported('operator ' + type(op).__name__)
        return self.map2(f, a, b)

    def map2(self, f, a, b):
        if isinstance(a, Ignore) or isinstance(b, Ignore):
            return IGN
        if isinstance(a, T) and isinstance(b, T):
            return f(a, b)
        if isinstance(a, Choice):
            x, y = self.map2(f, a.a, b), self.map2(f, a.b, b)
            return ite(a.c, x, y) if isinstance(x, T) and isinstance(y, T) else Choice(a.c, x, y)
        if isinstance(b, Choice):
            x, y = self.map2(f, a, b.a), self.map2(f, a, b.b)
            return ite(b.c, x, y) if isinstance(x, T) and isinstance(y, T) else Choice(b.c, x, y)
        for x in (a, b):
            if isinstance(x, Ref) and self.get(x).kind == 'bag':
                return self.bag2(f, a, b)
        a, b = self.to_arr(a), self.to_arr(b)
        if a is None or b is None:
            raise Unsupported('arith on structure')
        if isinstance(a, T) and isinstance(b, T):
            return f(a, b)
        ca = self.get(a) if isinstance(a, Ref) else None
        cb = self.get(b) if isinstance(b, Ref) else None
        if ca is None:
            if is_opaque_struct(a):
                return fn('unsupported:array op', a, self.toterm(b))
            return self.trail(a, cb, [f(a, x) for x in cb.vals])
        if cb is None:
            if is_opaque_struct(b):
                return fn('unsupported:array op', self.toterm(a), b)
            return self.trail(b, ca, [f(x, b) for x in ca.vals])
        return self.broadcast(f, ca, cb)

    def bag2(self, f, a, b):
        p, q = [self.get(x) if isinstance(x, Ref) and self.get(x).kind == 'bag' else x for x in (a, b)]
        if isinstance(p, BagC) and isinstance(q, BagC):
            if p.gates != q.gates:
                raise Unsupported('different selections')
            return self.new(BagC(p.gates, [f(x, y) for x, y in zip(p.vals, q.vals)]))
        if isinstance(p, BagC) and isinstance(q, T) and not dims(q):
            return self.new(BagC(p.gates, [f(x, q) for x in p.vals]))
        if isinstance(q, BagC) and isinstance(p, T) and not dims(p):
            return self.new(BagC(q.gates, [f(p, y) for y in q.vals]))
        raise Unsupported('selection combined with an array')

    def trail(self, t, c, vals):
        """result of combining array c with term t: a trailing length-1 axis takes t's dimension"""
        d = sorted(dims(t) - frozenset(self.mapdims))
        sh = list(c.shape)
        if len(d) == 1 and sh[-1] == 1:
            sh = sh[:-1]
            if not sh:
                return vals[0]
            return self.new(ArrC(sh + [d[0]], vals))
        return self.new(ArrC(sh, vals))

    def broadcast(self, f, ca, cb):
        # dimension names act as broadcastable trailing axes
        sa, sb = list(ca.shape), list(cb.shape)
        fa, fb = ca.fixed, cb.fixed
        if sa == sb:
            return self.new(ArrC(sa, [f(x, y) for x, y in zip(ca.vals, cb.vals)]))
        if fa == fb and (len(sa) == len(sb)):
            # e.g. (3,'N') with (3,1)->(3,) after [:,None]
            sh = [x if isinstance(x, str) or not isinstance(y, str) else y for x, y in zip(sa, sb)]
            return self.new(ArrC(sh, [f(x, y) for x, y in zip(ca.vals, cb.vals)]))
        n = max(len(sa), len(sb))
        pa = [1] * (n - len(sa)) + sa
        pb = [1] * (n - len(sb)) + sb
        sh = []
        for x, y in zip(pa, pb):
            if x == y:
                sh.append(x)
            elif x == 1:
                sh.append(y)
            elif y == 1:
                sh.append(x)
            else:
                if isinstance(x, int) and isinstance(y, int):
                    self.rowerror('arrays of %d and %d rows' % (x, y))
                raise Unsupported('broadcast %s %s' % (sa, sb))
        import itertools
        fx = [s for s in sh if isinstance(s, int)]

        def val(c, p, idx):
            # idx over all axes with dims contributing 0
            k = 0
            for s, i in zip(p, idx):
                if isinstance(s, int):
                    k = k * s + (i if s != 1 else 0)
            return c.vals[k]
        out = []
        for idx in itertools.product(*[range(s) if isinstance(s, int) else [0] for s in sh]):
            out.append(f(val(ca, pa, idx), val(cb, pb, idx)))
        return self.new(ArrC(sh, out))

    def ex_Compare(self, e, fi):
        left = self.ev(e.left, fi)
        res = TRUE
        first = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fi)
            c = self.compare(op, left, right)
            if first is None:
                first = c
            else:
                first = and_(self.truth(first), self.truth(c))
            left = right
        return first

    def compare(self, op, a, b):
        if not isinstance(op, (ast.Is, ast.IsNot)):
            a, b = intvalue(self, a), intvalue(self, b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not_(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if a is NONE or b is NONE:
                r = self.is_(a, b)
                return r if isinstance(op, ast.Eq) else not_(r)
            f = eq if isinstance(op, ast.Eq) else (lambda x, y: not_(eq(x, y)))
            if isinstance(a, (Ext, Class, Func)) or isinstance(b, (Ext, Class, Func)):
                return f(self.toterm(a), self.toterm(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                r = and_(*[self.truth(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE
                return r if isinstance(op, ast.Eq) else not_(r)
            r = self.container_eq(a, b)
            if r is not None:
                return r if isinstance(op, ast.Eq) else not_(r)
            return self.map2(f, a, b)
        f = {ast.Lt: lt, ast.LtE: le, ast.Gt: lambda x, y: lt(y, x), ast.GtE: lambda x, y: le(y, x)}[type(op)]
        return self.map2(f, a, b)

    def container_eq(self, a, b):
        """equality of two lists or two dictionaries is one truth value"""
        if not (isinstance(a, Ref) and isinstance(b, Ref)):
            return None
        ca, cb = self.get(a), self.get(b)
        if ca.kind != cb.kind or ca.kind not in ('list', 'dict'):
            return None
        if ca.kind == 'dict':
            if ca.sym or cb.sym:
                raise Unsupported('equality of dictionaries')
            if set(ca.items) != set(cb.items):
                if any(isinstance(k, T) for k in set(ca.items) ^ set(cb.items)):
                    raise Unsupported('equality of dictionaries')
                return FALSE
            return and_(*[self.truth(self.compare(ast.Eq(), v, cb.items[k])) for k, v in ca.items.items()])
        for x in (ca, cb):
            if x.vec is not None or x.keys or any(g is not TRUE for g, _ in x.items):
                raise Unsupported('equality of lists')
        if len(ca.items) != len(cb.items):
            return FALSE
        return and_(*[self.truth(self.compare(ast.Eq(), x[1], y[1])) for x, y in zip(ca.items, cb.items)])

    def is_(self, a, b):
        if isinstance(a, Choice):
            return or_(and_(a.c, self.is_(a.a, b)), and_(not_(a.c), self.is_(a.b, b)))
        if isinstance(b, Choice):
            return self.is_(b, a)
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if y is NONE:
                    return isnone(x)
            if (a in (TRUE, FALSE)) or (b in (TRUE, FALSE)):
                return eq(a, b) if is_bool(a) and is_bool(b) else FALSE
            return eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if a.oid == b.oid else FALSE
        return FALSE

    def contains(self, c, x):
        if isinstance(c, Ref) and self.get(c).kind == 'dict':
            k = self.dkey(x)
            d = self.get(c)
            if k in d.items:
                return TRUE
            if not d.sym and not isinstance(k, T):
                if all(not isinstance(kk, T) for kk in d.items):
                    return FALSE
            return fn('contains', self.toterm(c), self.toterm(x))
        if isinstance(c, Ref) and self.get(c).kind == 'inst' and isinstance(self.get(c).cls.lookup('__contains__'), Func):
            return self.truth(self.call_func(self.get(c).cls.lookup('__contains__'), [c, x], {}))
        it = self.known_items(c)
        if it is not None and not (isinstance(c, T) and c.op == 'str'):
            r = [self.truth(self.compare(ast.Eq(), y, x)) for y in it]
            return or_(*r) if r else FALSE
        if isinstance(c, T) and c.op == 'str' and isinstance(x, T) and x.op == 'str':
            return TRUE if x.data in c.data else FALSE
        if isinstance(c, T):
            ov = self.overlay(c)
            if ov and isinstance(x, T) and ('i', self.dkey(x)) in ov:
                return TRUE
            return fn('contains', c, self.toterm(x))
        if isinstance(c, Method) and c.name == 'environ':
            return fn('contains', self.toterm(c), self.toterm(x))
        return fn('contains', self.toterm(c), self.toterm(x))

    def ex_Attribute(self, e, fi):
        o = self.ev(e.value, fi)
        return self.getattr(o, e.attr)

    def getattr(self, o, a):
        if o is NONE and self.exact:
            raise Raised('AttributeError', 'None has no attribute %s' % a)
        if isinstance(o, Mod):
            v = self.lookup_module_attr(o.name, a)
            if v is None:
                raise Unsupported('no attribute %s.%s' % (o.name, a))
            return v
        if isinstance(o, Ext):
            from . import lib
            return lib.ext_attr(self, o.name, a)
        if isinstance(o, Ref):
            c = self.get(o)
            if c.kind == 'inst':
                if a in c.attrs:
                    return c.attrs[a]
                m = c.cls.lookup(a)
                if m is not None:
                    if isinstance(m, Func):
                        if m.kind == 'property':
                            return self.call_func(m, [o], {})
                        if m.kind == 'staticmethod':
                            return m
                        return Bound(m, c.cls if m.kind == 'classmethod' else o)
                    return m
                if a == '__dict__':
                    r = self.new(DictC(c.attrs))
                    self.views[r.oid] = o
                    return r
                if a == '__class__':
                    return c.cls
                m = c.cls.lookup('__getattr__')
                if isinstance(m, Func):
                    return self.call_func(m, [o, strc(a)], {})
                raise Unsupported('attribute %s.%s' % (c.cls.name, a))
            from . import lib
            return lib.attr(self, o, a)
        if isinstance(o, Super):
            return o.get(self, a)
        if isinstance(o, Class):
            m = o.lookup(a)
            if m is None:
                if a == '__name__':
                    return strc(o.name)
                raise Unsupported('attribute %s.%s' % (o.name, a))
            if isinstance(m, Func) and m.kind == 'classmethod':
                return Bound(m, o)
            return m
        if isinstance(o, Choice):
            x, y = self.getattr(o.a, a), self.getattr(o.b, a)
            if isinstance(x, T) and isinstance(y, T):
                return ite(o.c, x, y)
            return Choice(o.c, x, y)
        if isinstance(o, Ignore):
            m = getattr(o, 'abs_' + a, None)
            return Native(m) if m else IGN
        if isinstance(o, T):
            ov = self.overlay(o)
            if ov is not None and ('a', a) in ov:
                return ov[('a', a)]
        from . import lib
        return lib.attr(self, o, a)

    def overlay(self, t):
        r = OVER.get(t)
        if r is None:
            return None
        c = self.state.heap.get(r.oid)
        return c.items if c is not None else None

    def set_overlay(self, t, key, v):
        r = OVER.get(t)
        if r is None:
            r = OVER[t] = Ref()
        c = self.state.heap.get(r.oid)
        d = dict(c.items) if c is not None else {}
        d[key] = v
        self.state.heap[r.oid] = OverC(d)

    def setattr(self, o, a, v):
        if isinstance(o, Ref) and self.get(o).kind == 'inst':
            c = self.get(o)
            d = dict(c.attrs)
            d[a] = v
            self.put(o, InstC(c.cls, d))
            return
        if isinstance(o, T):
            self.set_overlay(o, ('a', a), v)
            return
        if isinstance(o, Mod):
            f = self.module(o.name)
            c = self.get(f)
            d = dict(c.vars)
            d[a] = v
            self.put(f, FrameC(d, c.parent))
            return
        if isinstance(o, (Ignore, Ext, Class, Func)):
            return
        raise Unsupported('setattr')

    def ex_Subscript(self, e, fi):
        o = self.ev(e.value, fi)
        k = self.ev(e.slice, fi)
        return self.getitem(o, k)

    def ex_Slice(self, e, fi):
        g = lambda x: NONE if x is None else self.ev(x, fi)
        return Slice(g(e.lower), g(e.upper), g(e.step))

    def ex_Index(self, e, fi):
        return self.ev(e.value, fi)

    def ex_ExtSlice(self, e, fi):
        return tuple(self.ev(x, fi) for x in e.dims)

    def rowerror(self, msg):
        if self.pc is TRUE and not self.tries and not self.havocs:
            raise RowError(msg)
        raise Unsupported(msg)

    def cint(self, t):
        if isinstance(t, T) and t.op == 'c' and t.data.denominator == 1:
            return int(t.data)
        return None

    def item_of(self, t, k):
        """opaque indexing by constant or key"""
        return self.fn_alias('item', t, self.toterm(k))

    def slice_idx(self, s, n):
        lo = self.cint(s.lo) if s.lo is not NONE else None
        hi = self.cint(s.hi) if s.hi is not NONE else None
        stp = self.cint(s.st) if s.st is not NONE else None
        for x, y in ((s.lo, lo), (s.hi, hi), (s.st, stp)):
            if x is not NONE and y is None:
                return None
        return list(range(n))[slice(lo, hi, stp)]

    def getitem(self, o, k):
        if isinstance(o, T) and o.op == 'str':
            i = self.cint(k)
            if i is not None:
                if -len(o.data) <= i < len(o.data):
                    return strc(o.data[i])
                raise Raised('IndexError', 'string index out of range')
            if isinstance(k, Slice):
                ix = self.slice_idx(k, len(o.data))
                if ix is not None:
                    return strc(''.join(o.data[i] for i in ix))
        if isinstance(o, Choice):
            x, y = self.getitem(o.a, k), self.getitem(o.b, k)
            if isinstance(x, T) and isinstance(y, T):
                return ite(o.c, x, y)
            return Choice(o.c, x, y)
        if isinstance(k, Choice):
            x, y = self.getitem(o, k.a), self.getitem(o, k.b)
            if isinstance(x, T) and isinstance(y, T):
                return ite(k.c, x, y)
            return Choice(k.c, x, y)
        if isinstance(o, tuple):
            i = self.cint(k)
            if i is not None:
                if -len(o) <= i < len(o):
                    return o[i]
                raise Unsupported('index')
            if isinstance(k, Slice):
                ix = self.slice_idx(k, len(o))
                if ix is not None:
                    return tuple(o[i] for i in ix)
            return self.item_of(self.toterm(o), k)
        if isinstance(o, Ref):
            c = self.get(o)
            if c.kind == 'dict':
                kk = self.dkey(k)
                if kk in c.items:
                    return c.items[kk]
                if isinstance(k, T) and not isinstance(kk, str):
                    m = k.args[0] if k.op == 'f' and k.data == 'where' else k
                    if is_bool(m) and dims(m) and all(isinstance(v, T) for v in c.items.values()):
                        # row selection of a table
                        return self.new(DictC(dict((q, sel(v, m) if dims(v) & dims(m) else v) for q, v in c.items.items())))
                if isinstance(kk, T) or c.sym:
                    return self.item_of(self.toterm(o), k)
                if isinstance(kk, str) and c.items and all(isinstance(q, str) for q in c.items):
                    self.rowerror('key %s is not there' % kk)
                if self.exact and not c.sym:
                    raise Raised('KeyError', 'missing key %r' % (kk,))
                raise Unsupported('missing key %r' % (kk,))
            if c.kind == 'list':
                return self.list_get(o, c, k)
            if c.kind == 'arr':
                return self.arr_get(o, c, k)
            if c.kind == 'inst':
                m = c.cls.lookup('__getitem__')
                if isinstance(m, Native):
                    return m.f(self, [o, k], {})
                if m:
                    return self.call_func(m, [o, k], {})
            raise Unsupported('getitem %s' % c.kind)
        if isinstance(o, T):
            return self.term_get(o, k)
        if isinstance(o, (Ext, Method)):
            return self.item_of(self.toterm(o), k)
        if isinstance(o, Ignore):
            return IGN
        raise Unsupported('getitem of %s' % type(o).__name__)

    def list_get(self, o, c, k):
        if c.vec is not None:
            if isinstance(k, T) and k.op == 'f' and k.data == 'idx':
                return c.vec
            if isinstance(c.vec, T):
                return self.term_get(c.vec, k)
            d = self.pick_dim(c.vec)
            i = self.cint(k)
            if isinstance(c.vec, tuple) and d:
                return tuple(fn('at', x, k, strc(d)) if isinstance(x, T) and d in dims(x) else x for x in c.vec)
            raise Unsupported('index of structured list')
        i = self.cint(k)
        if c.keys:
            if i == 0:
                return self.argbest(c)
            raise Unsupported('index into sorted list')
        if i is not None:
            if all(g is TRUE for g, _ in c.items):
                if -len(c.items) <= i < len(c.items):
                    return c.items[i][1]
                raise Unsupported('list index')
            if i == 0 and c.items and c.items[0][0] is TRUE:
                return c.items[0][1]
            if i >= 0 and all(g is TRUE for g, _ in c.items[:i + 1]):
                return c.items[i][1]
            raise Unsupported('guarded list index')
        if isinstance(k, Slice):
            ix = self.slice_idx(k, len(c.items))
            if ix is not None and all(g is TRUE for g, _ in c.items):
                return self.new(ListC([c.items[j] for j in ix]))
            raise Unsupported('slice')
        if isinstance(k, T):
            if len(c.items) == 1 and k.op == 'f' and k.data == 'idx':
                return c.items[0][1]
            return self.item_of(self.toterm(o), k)
        raise Unsupported('list index')

    def argbest(self, c):
        """first element after the pending stable sorts (last sort is primary)"""
        best = None
        for i, (g, v) in enumerate(c.items):
            keys = [ks[i] for ks in reversed(c.keys)]
            if best is None:
                best = (g, v, keys)
                continue
            bg, bv, bk = best
            less = FALSE
            eqs = TRUE
            for x, y in zip(keys, bk):
                x, y = num(x), num(y)
                less = or_(less, and_(eqs, lt(x, y)))
                eqs = and_(eqs, eq(x, y))
            take = and_(g, or_(not_(bg), less))
            self._fresh = {}
            nv = self.mergev(take, v, bv, self.state, self.state)
            self.state.heap.update(self._fresh)
            best = (or_(g, bg), nv, [ite(take, num(x), num(y)) for x, y in zip(keys, bk)])
        return best[1]

    def arr_get(self, o, c, k):
        if isinstance(k, tuple):
            ks = list(k)
        else:
            ks = [k]
        # np.newaxis handling
        shape = list(c.shape)
        if any(isinstance(x, T) and x is NONE for x in ks):
            new_shape = []
            pos = 0
            idx = []
            for x in ks:
                if isinstance(x, T) and x is NONE:
                    new_shape.append(1)
                    idx.append(None)
                else:
                    if not (isinstance(x, Slice) and x.lo is NONE and x.hi is NONE):
                        raise Unsupported('newaxis with index')
                    new_shape.append(shape[pos])
                    pos += 1
            new_shape += shape[pos:]
            return self.new(ArrC(new_shape, c.vals))
        return self.arr_index(c, ks)

    def arr_index(self, c, ks):
        shape, vals = list(c.shape), list(c.vals)
        k = ks[0]
        s0 = shape[0]
        rest = shape[1:]
        if isinstance(s0, int):
            step = 1
            for s in rest:
                if isinstance(s, int):
                    step *= s
            rows = [vals[i * step:(i + 1) * step] for i in range(s0)]
            i = self.cint(k)
            if i is not None:
                if not -s0 <= i < s0:
                    self.rowerror('index %d of %d rows' % (i, s0))
                row = rows[i]
                if len(ks) > 1:
                    return self.arr_index(ArrC(rest, row), ks[1:])
                if not any(isinstance(s, int) for s in rest):
                    return row[0]
                return self.new(ArrC(rest, row))
            sel_ = None
            if isinstance(k, Slice):
                sel_ = self.slice_idx(k, s0)
                if sel_ is None:
                    raise Unsupported('array slice')
            elif isinstance(k, Ref) and self.get(k).kind == 'bag':
                b = self.get(k)
                if len(ks) == 1 and not rest and all(self.cint(x) is not None for x in b.vals):
                    return self.new(BagC(b.gates, [vals[self.cint(x)] for x in b.vals]))
                raise Unsupported('index by a selection')
            else:
                it = self.known_items(k)
                if it is not None and all(self.cint(x) is not None for x in it):
                    sel_ = [self.cint(x) for x in it]
                elif it is not None and all(x in (TRUE, FALSE) for x in it):
                    if len(it) != s0:
                        self.rowerror('selection of %d rows for %d' % (len(it), s0))
                    sel_ = [j for j, x in enumerate(it) if x is TRUE]
                elif it is not None and len(it) == s0 and not rest and len(ks) == 1 and all(isinstance(x, T) and is_bool(x) for x in it):
                    return self.new(BagC([tobool(x) for x in it], vals))
            if sel_ is not None:
                if len(ks) > 1 and not isinstance(k, Slice):
                    # two index arrays are used in pairs
                    it = self.known_items(ks[1]) if isinstance(ks[1], Ref) else None
                    if it is not None:
                        js = [self.cint(x) for x in it]
                        if any(j is None for j in js) or len(js) not in (1, len(sel_)) or len(ks) > 2:
                            raise Unsupported('paired index')
                        js = js if len(js) == len(sel_) else js * len(sel_)
                        out = [self.arr_index(ArrC(rest, rows[j]), [const(i)]) for j, i in zip(sel_, js)]
                        if not all(isinstance(x, T) for x in out):
                            raise Unsupported('paired index')
                        return self.new(ArrC((len(out),), out))
                if len(ks) > 1:
                    sub_ = [self.arr_index(ArrC(rest, rows[j]), ks[1:]) for j in sel_]
                    if all(isinstance(x, T) for x in sub_):
                        if all(isinstance(s, str) for s in rest) and rest:
                            d = self.pick_dim(tuple(sub_)) or rest[0]
                            return self.new(ArrC((len(sel_), d), sub_))
                        return self.new(ArrC((len(sel_),), sub_))
                    r = self.to_arr(tuple(sub_))
                    if r is None:
                        raise Unsupported('array index')
                    return r
                out = []
                for j in sel_:
                    if not -s0 <= j < s0:
                        self.rowerror('index %d of %d rows' % (j, s0))
                    out += rows[j]
                return self.new(ArrC([len(sel_)] + rest, out))
            if isinstance(k, T):
                if k.op == 'f' and k.data == 'idx' and all(v is vals[0] for v in vals):
                    return vals[0]
                if len(ks) == 1 and not any(isinstance(s, int) for s in rest):
                    return self.item_of(self.toterm(self.new(c)), k)
            raise Unsupported('array index')
        # symbolic leading axis
        if isinstance(k, Slice) and k.lo is NONE and k.hi is NONE and k.st is NONE:
            if len(ks) == 1:
                return self.new(c)
            r = self.arr_index(ArrC(rest, vals), ks[1:])
            if isinstance(r, T):
                return r
            rc = self.get(r)
            return self.new(ArrC([s0] + list(rc.shape), rc.vals))
        if isinstance(k, T) and len(ks) == 1:
            nv = [self.term_get(v, k) for v in vals]
            dd = [d for d in (self.pick_dim(v) for v in nv) if d]
            if is_bool(k) or (k.op == 'f' and k.data == 'where'):
                return self.new(ArrC([dd[0] if dd else s0] + rest, nv))
            if k.op == 'c' or k.op == 'f' and k.data == 'idx':
                return self.new(ArrC(rest, nv)) if rest else nv[0]
        raise Unsupported('array index')

    def term_get(self, o, k):
        if o.op == 'f' and o.data in ('tuple', 'list'):
            i = self.cint(k)
            if i is not None and -len(o.args) <= i < len(o.args):
                return o.args[i]
        if isinstance(k, T) and k.op == 'str':
            ov = self.overlay(o)
            if ov is not None and ('i', k.data) in ov:
                return ov[('i', k.data)]
            if o.op == 'ite':
                return ite(o.args[0], self.term_get(o.args[1], k), self.term_get(o.args[2], k))
            if o.op == 'f' and o.data == 'sel':
                return sel(self.term_get(o.args[0], k), o.args[1])
            if o.op == 's':
                cols = COLUMNS.get(o)
                if cols is not None:
                    return cols(k.data)
            if o.op == 'f' and o.data == 'copyof':
                return self.term_get(o.args[0], k)
            return self.item_of(o, k)
        if isinstance(k, tuple):
            ks = [x for x in k if not (isinstance(x, Slice) and x.lo is NONE and x.hi is NONE and x.st is NONE)]
            if all(isinstance(x, T) and x is NONE for x in ks):
                return self.new_axis(o, k)
            if len(ks) == 1 and len(k) == 2 and k[1] is ks[0] is False:
                pass
            return self.fn_alias('item', o, self.toterm(k))
        if isinstance(k, Slice):
            if k.lo is NONE and k.hi is NONE and k.st is NONE:
                return o
            return fn('slice_of', o, self.toterm(k))
        if isinstance(k, Ref):
            kk = self.to_arr(k)
            if isinstance(kk, T):
                k = kk
            else:
                it = self.known_items(k)
                if it is not None and dims(o):
                    return self.to_arr(tuple(self.term_get(o, x) for x in it))
                return self.item_of(o, self.toterm(k))
        if isinstance(k, T):
            if k is NONE:
                return o
            d = sorted(dims(o))
            if is_bool(k):
                if dims(k) & dims(o):
                    return sel(o, k)
                if o.op == 's' and o in COLUMNS:
                    return fn('sel', o, k) if dims(k) or k is not TRUE else o
                return mk('f', (o, k), 'sel')
            if k.op == 'f' and k.data == 'where':
                return self.term_get(o, k.args[0])
            if k.op == 'f' and k.data == 'idx' and k.args[0].data in d:
                return o
            if o.op == 'f' and o.data in ('tan', 'fullof'):
                pass
            if k.op == 'c' and d and o.op == 'f' and (o.data.startswith('desimeter.') or o.data == 'call' or (self.in_map and o.data == 'item')):
                return self.item_of(o, k)
            if k.op == 'c' and d:
                return fn('at', o, k, strc(d[0]))
            if not d and self.in_map and k.op == 'f' and k.data == 'idx':
                if o.op in ('c',) or is_scalarish(o):
                    return o
            if d and (dims(k) or k.op in ('s', 'f', '+', '*', 'ite')):
                kd = k
                return fn('take', o, k, strc(d[0]))
            return self.item_of(o, k)
        raise Unsupported('subscript')

    def new_axis(self, o, k):
        return self.fn_alias('newaxis', o, self.toterm(k))

    # ------------------------------------------------------------ stores
    def setitem(self, o, k, v):
        if isinstance(o, Choice):
            raise Unsupported('store into choice')
        if isinstance(o, Ref):
            c = self.get(o)
            if c.kind == 'dict':
                kk = self.dkey(k)
                d = dict(c.items)
                d[kk] = v
                self.put(o, DictC(d, c.sym))
                return None
            if c.kind == 'list':
                i = self.cint(k)
                if c.vec is None and i is not None and all(g is TRUE for g, _ in c.items):
                    it = list(c.items)
                    it[i] = (TRUE, v)
                    self.put(o, ListC(it, c.keys))
                    return None
                raise Unsupported('list store')
            if c.kind == 'arr':
                self.put(o, self.arr_set(c, list(k) if isinstance(k, tuple) else [k], v))
                return None
            if c.kind == 'inst' and isinstance(c.cls.lookup('__setitem__'), Func):
                self.call_func(c.cls.lookup('__setitem__'), [o, k, v], {})
                return None
            raise Unsupported('setitem')
        if isinstance(o, T):
            if isinstance(k, T) and k.op == 'str':
                self.set_overlay(o, ('i', k.data), v if isinstance(v, (T, Ref, tuple)) else self.toterm(v))
                return None
            return self.term_set(o, k, v)
        if isinstance(o, (Ignore, Ext, Method)):
            return None
        raise Unsupported('setitem')

    def term_set(self, o, k, v):
        if isinstance(k, Ref):
            kk = self.to_arr(k)
            k = kk if isinstance(kk, T) else k
        v_ = self.to_arr(v)
        if isinstance(v_, T):
            if isinstance(k, T):
                if k.op == 'f' and k.data == 'where':
                    k = k.args[0]
                if is_bool(k):
                    return ite(k, unsel(v_, k), o)
                if k.op == 'f' and k.data == 'idx':
                    return v_
                if k.op == 'c' or True:
                    d = sorted(dims(o) | dims(k))
                    return fn('store', o, k, v_)
            if isinstance(k, Slice) and k.lo is NONE and k.hi is NONE and k.st is NONE:
                return v_
        return fn('unsupported:store', o, self.toterm(k), self.toterm(v))

    def arr_set(self, c, ks, v):
        shape, vals = list(c.shape), list(c.vals)
        k = ks[0]
        s0, rest = shape[0], shape[1:]
        if isinstance(s0, int):
            step = 1
            for s in rest:
                if isinstance(s, int):
                    step *= s
            i = self.cint(k)
            if i is not None:
                idx = [i % s0]
            elif isinstance(k, Slice):
                idx = self.slice_idx(k, s0)
                if idx is None:
                    raise Unsupported('slice store')
            elif isinstance(k, T) and is_bool(k) and dims(k) and not rest:
                raise Unsupported('mask store on fixed axis')
            else:
                it = self.known_items(k)
                if isinstance(k, Ref) and self.get(k).kind == 'bag' and not rest and len(ks) == 1:
                    b = self.get(k)
                    js = [self.cint(x) for x in b.vals]
                    if any(j is None for j in js) or len(set(js)) < len(js):
                        raise Unsupported('store at a selection')
                    it = [FALSE] * s0
                    for j, g in zip(js, b.gates):
                        it[j] = g
                    if isinstance(v, Ref) and self.get(v).kind == 'bag':
                        if self.get(v).gates != b.gates:
                            raise Unsupported('store of another selection')
                        nv = [ZERO] * s0
                        for j, x in zip(js, self.get(v).vals):
                            nv[j] = x
                        v = self.new(BagC([tobool(x) for x in it], nv))
                if it and len(it) == s0 and all(x in (TRUE, FALSE) for x in it) and not (isinstance(v, Ref) and self.get(v).kind == 'bag'):
                    it = [const(j) for j, x in enumerate(it) if x is TRUE]
                if it and len(it) == s0 and not rest and len(ks) == 1 and all(isinstance(x, T) and is_bool(x) for x in it):
                    gates = tuple(tobool(x) for x in it)
                    if isinstance(v, Ref) and self.get(v).kind == 'bag':
                        if self.get(v).gates != gates:
                            raise Unsupported('store of another selection')
                        new = self.get(v).vals
                    else:
                        a = self.to_arr(v)
                        if not isinstance(a, T) or dims(a):
                            raise Unsupported('masked store of an array')
                        new = [a] * s0
                    return ArrC(shape, [ite(g, x, y) for g, x, y in zip(gates, new, vals)])
                if it is None or not all(self.cint(x) is not None for x in it):
                    raise Unsupported('array store')
                idx = [self.cint(x) for x in it]
                if len(ks) > 1 and isinstance(ks[1], Ref):
                    # two index arrays are used in pairs
                    js = self.known_items(ks[1])
                    js = [self.cint(x) for x in js] if js is not None else [None]
                    a = self.to_arr(v)
                    av = [a] * len(idx) if isinstance(a, T) and not dims(a) else self.known_items(a)
                    if len(ks) > 2 or len(js) != len(idx) or None in js or len(rest) != 1 or av is None or len(av) != len(idx):
                        raise Unsupported('paired store')
                    for j, q, x in zip(idx, js, av):
                        row = vals[j * step:(j + 1) * step]
                        vals[j * step:(j + 1) * step] = self.arr_set(ArrC(rest, row), [const(q)], x).vals
                    return ArrC(shape, vals)
            if i is None and len(ks) == 1:
                a = self.to_arr(v)
                if not isinstance(a, T) and isinstance(self.get(a).shape[0], int) and len(self.get(a).shape) == len(shape) and self.get(a).shape[0] not in (1, len(idx)):
                    self.rowerror('%d values stored in %d rows' % (self.get(a).shape[0], len(idx)))
            for n, j in enumerate(idx):
                if not -s0 <= j < s0:
                    self.rowerror('index %d of %d rows' % (j, s0))
                j %= s0
                row = vals[j * step:(j + 1) * step]
                if i is not None:
                    vv = v
                else:
                    a = self.to_arr(v)
                    if isinstance(a, T):
                        vv = a
                    else:
                        cc = self.get(a)
                        if cc.shape and cc.shape[0] == len(idx) and len(cc.shape) == len(shape) - sum(1 for q in ks[1:] if self.cint(q) is not None):
                            vv = self.arr_index(cc, [const(n)])
                        else:
                            vv = a
                if len(ks) > 1:
                    nr = self.arr_set(ArrC(rest, row), ks[1:], vv).vals
                else:
                    a = self.to_arr(vv)
                    if isinstance(a, T):
                        nr = [a] * step
                    else:
                        cc = self.get(a)
                        if len(cc.vals) != step:
                            raise Unsupported('array store shape')
                        nr = list(cc.vals)
                vals[j * step:(j + 1) * step] = nr
            return ArrC(shape, vals)
        # symbolic axis
        if len(ks) == 1 or all(isinstance(x, Slice) and x.lo is NONE and x.hi is NONE for x in ks[1:]):
            a = self.to_arr(v)
            if isinstance(a, T):
                return ArrC(shape, [self.term_set(x, k, a) if not full(k) else a for x in vals])
            cc = self.get(a)
            if len(cc.vals) == len(vals):
                return ArrC(shape, [self.term_set(x, k, y) if not full(k) else y for x, y in zip(vals, cc.vals)])
        elif full(k):
            r = self.arr_set(ArrC(rest, vals), ks[1:], v)
            return ArrC(shape, r.vals)
        elif isinstance(k, T) and k.op == 'f' and k.data == 'idx':
            r = self.arr_set(ArrC(rest, vals), ks[1:], v)
            return ArrC(shape, r.vals)
        raise Unsupported('array store')

    def list_extend(self, r, v):
        c = self.get(r)
        it = self.known_items(v)
        if it is None or c.vec is not None:
            raise Unsupported('extend')
        self.put(r, ListC(c.items + tuple((TRUE, x) for x in it), c.keys))

    # ------------------------------------------------------------ comprehensions
    def ex_ListComp(self, e, fi):
        return self.comp(e, fi)

    def ex_GeneratorExp(self, e, fi):
        return self.comp(e, fi)

    def ex_SetComp(self, e, fi):
        return self.comp(e, fi)

    def comp(self, e, fi):
        ref = self.new(FrameC({}, fi.ref))
        f2 = FrameInfo(ref, fi.module, fi.func)
        f2.globals_ = set()
        out = []
        vec = []

        def rec(i, guard):
            if i == len(e.generators):
                out.append((guard, self.ev(e.elt, f2)))
                return
            g = e.generators[i]
            it = self.iterable(self.ev(g.iter, f2))
            if it[0] == 'items':
                for gd, x in it[1]:
                    self.assign(g.target, x, f2)
                    cc = and_(guard, gd)
                    for t in g.ifs:
                        cc = and_(cc, self.truth(self.ev(t, f2)))
                    if cc is FALSE:
                        continue
                    rec(i + 1, cc)
            else:
                if i != len(e.generators) - 1:
                    raise Unsupported('nested symbolic comprehension')
                el = it[1]
                if it[0] == 'group':
                    el = fn('elem', it[2], fn('idx', strc('it%d' % it[2].id)))
                self.in_map += 1
                self.mapdims.append(it[2])
                try:
                    self.assign(g.target, el, f2)
                    cc = TRUE
                    for t in g.ifs:
                        cc = and_(cc, self.truth(self.ev(t, f2)))
                    v = self.ev(e.elt, f2)
                finally:
                    self.in_map -= 1
                    self.mapdims.pop()
                vec.append((cc, v))
        rec(0, TRUE)
        if vec:
            if out or len(vec) > 1:
                raise Unsupported('mixed comprehension')
            cc, v = vec[0]
            if cc is not TRUE:
                v = fn('filter', cc, self.toterm(v))
            return self.new(ListC((), (), v))
        return self.new(ListC(out))

    def ex_DictComp(self, e, fi):
        ref = self.new(FrameC({}, fi.ref))
        f2 = FrameInfo(ref, fi.module, fi.func)
        d = {}
        if len(e.generators) != 1:
            raise Unsupported('dictcomp')
        g = e.generators[0]
        it = self.iterable(self.ev(g.iter, f2))
        if it[0] != 'items':
            raise Unsupported('symbolic dictcomp')
        for gd, x in it[1]:
            self.assign(g.target, x, f2)
            cc = gd
            for t in g.ifs:
                cc = and_(cc, self.truth(self.ev(t, f2)))
            if cc is FALSE:
                continue
            if cc is not TRUE:
                raise Unsupported('guarded dictcomp')
            d[self.dkey(self.ev(e.key, f2))] = self.ev(e.value, f2)
        return self.new(DictC(d))

    def ex_JoinedStr(self, e, fi):
        from . import lib
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(strc(v.value))
            else:
                try:
                    x = intvalue(self, self.ev(v.value, fi))
                    spec = ''
                    if v.format_spec is not None:
                        spec = self.ev(v.format_spec, fi)
                        spec = spec.data if isinstance(spec, T) and spec.op == 'str' else None
                    r = lib.formatted(x, spec) if spec is not None and v.conversion in (-1, 115) else None
                    x = self.toterm(x)
                    parts.append(strc(r) if r is not None else fn('formatted', x, strc(str(spec))) if x.op == 'str' or spec else x)
                except Unsupported:
                    parts.append(fn('unsupported:format'))
        if all(p.op == 'str' for p in parts):
            return strc(''.join(p.data for p in parts))
        return fn('fmt', *parts)

    def ex_Starred(self, e, fi):
        raise Unsupported('starred')

    def ex_NamedExpr(self, e, fi):
        v = self.ev(e.value, fi)
        self.assign(e.target, v, fi)
        return v

    def ex_Call(self, e, fi):
        f = self.ev(e.func, fi)
        if isinstance(f, Ignore):
            return IGN
        if isinstance(f, Ext) and ignorable(f.name):
            return IGN
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fi)
                it = self.known_items(v)
                if it is None:
                    if isinstance(v, T):
                        it = [fn('star', v)]
                    else:
                        raise Unsupported('star args')
                args += it
            else:
                args.append(self.ev(a, fi))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value, fi)
                if isinstance(o, Ref) and self.get(o).kind == 'dict':
                    for kk, vv in self.get(o).items.items():
                        kwargs[str(kk)] = vv
                else:
                    raise Unsupported('kwargs splat')
            else:
                kwargs[k.arg] = self.ev(k.value, fi)
        return self.call(f, args, kwargs, fi, e)


class ImportFail(Exception):
    pass


class Iter(object):
    def __init__(self, tup):
        self.tup = tup


class _Undef(object):
    pass


UNDEF = _Undef()
OVER = {}
FIXDEF = tm.FIXDEF
COLUMNS = {}     # term of a table parameter -> function(column name) -> term


def reset():
    OVER.clear()
    FIXDEF.clear()
    COLUMNS.clear()
    tm.setpoint()
    del tm.REWRITERS[:]


def ignorable(n):
    return n.startswith('matplotlib') or n.startswith('pylab') or n in ('builtins.print',) or n.startswith('warnings.')


def is_strfn(t):
    return t.op == 'f' and t.data in ('strcat', 'fmt', 'pathjoin', 'strformat', 'str')


def is_scalarish(t):
    return t.op in ('c', 'str', 'none', 'true', 'false')


def is_opaque_struct(t):
    return False


def isnone(x):
    if x is NONE:
        return TRUE
    if x.op == 'ite':
        return or_(and_(x.args[0], isnone(x.args[1])), and_(not_(x.args[0]), isnone(x.args[2])))
    if x.op in ('s',):
        p = dict(x.data[2])
        if p.get('optional'):
            return mk('bs', (), ('isnone(%s)' % x.data[0], frozenset(), ()))
        return FALSE
    if x.op == 'f' and (x.data in ('item', 'call', 'dictget') or x.data.startswith('unsupported')):
        return eq(x, NONE)
    if x.op == 'f' and x.data.startswith('getattr'):
        return eq(x, NONE)
    return FALSE


def full(k):
    return isinstance(k, Slice) and k.lo is NONE and k.hi is NONE and k.st is NONE


def rel(pc, base):
    """path condition relative to a base it implies"""
    if pc is base:
        return TRUE
    bs = set(base.args) if base.op == 'and' else {base}
    ps = list(pc.args) if pc.op == 'and' else [pc]
    return and_(*[p for p in ps if p not in bs])


def strip_group(v, g, key):
    """within the group-by loop `key == g` holds exactly for the element's own group"""
    c = eq(key, g)
    cache = {}

    def go(t):
        r = cache.get(t)
        if r is not None:
            return r
        if t is c:
            r = TRUE
        elif not t.args:
            r = t
        else:
            na = [go(a) for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else tm.rebuild(t, na)
        cache[t] = r
        return r
    return go(v)


def contains_any(ip, v, phs):
    t = ip.toterm(v)
    phs = set(phs)
    return any(x in phs for x in tm.walk(t))


def walk_nofunc(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for x in walk_nofunc(c):
            yield x


def walk_noloop(stmts):
    """nodes excluding nested loops and functions"""
    st = list(stmts)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def store(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Store()
    return t


def _floordiv(a, b):
    return fn('floor', div(a, b))


def _bitand(a, b):
    if is_bool(a) and is_bool(b):
        return and_(a, b)
    if a.op == 'c' and b.op == 'c':
        return const(int(a.data) & int(b.data))
    return fn('bitand', a, b)


def _bitor(a, b):
    if is_bool(a) and is_bool(b):
        return or_(a, b)
    if a.op == 'c' and b.op == 'c':
        return const(int(a.data) | int(b.data))
    return fn('bitor', *sorted([a, b], key=lambda t: t.id))


def _bitxor(a, b):
    if is_bool(a) and is_bool(b):
        return not_(eq(a, b))
    if a.op == 'c' and b.op == 'c':
        return const(int(a.data) ^ int(b.data))
    return fn('bitxor', a, b)


def _shl(a, b):
    return mul(a, power(const(2), b))


BINOPS = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div, ast.Pow: power, ast.Mod: lambda a, b: fn('mod', a, b),
          ast.FloorDiv: _floordiv, ast.BitAnd: _bitand, ast.BitOr: _bitor, ast.BitXor: _bitxor, ast.LShift: _shl,
          ast.RShift: lambda a, b: fn('floor', div(a, power(const(2), b)))}
