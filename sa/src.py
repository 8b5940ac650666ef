"""Syntax-level view of the whole repository: library modules and scripts, scopes, imports,
local definition analysis.  Used by the checks that reason about code structure."""
from . import canon
import ast, os, re, builtins, symtable, glob, json, subprocess
from . import ctx as _c

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__debug__', '__class__', '__qualname__', '__module__', '__annotations__', 'WindowsError'}


class Mod(object):
    def __init__(self, path, name, rel, tree, src, script):
        self.path, self.name, self.rel, self.tree, self.src, self.script = path, name, rel, tree, src, script
        self.is_pkg = path.endswith('__init__.py')
        self.imports = {}       # local name -> dotted target (module level and nested imports)
        self.funcs = {}         # qualified name -> node
        self.classes = {}
        self.toplevel = set()
        self.star = []
        for st in tree.body:
            self._top(st)
        for n in ast.walk(tree):
            for ch in ast.iter_child_nodes(n):
                ch.parent = n
        tree.parent = None
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = self.absbase(n)
                for a in n.names:
                    if a.name != '*':
                        self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[qual(n)] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[qual(n)] = n

    def absbase(self, n):
        if not n.level:
            return n.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def _top(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.toplevel.add(st.name)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.toplevel.add(a.asname or a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if a.name == '*':
                    self.star.append(self.absbase(st))
                else:
                    self.toplevel.add(a.asname or a.name)
        else:
            for n in walk_scope(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.toplevel.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    self.toplevel.add(n.name)
                elif n is not st and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.toplevel.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        if a.name != '*':
                            self.toplevel.add(a.asname or a.name.split('.')[0])
        # names made global by functions
        for n in ast.walk(st):
            if isinstance(n, ast.Global):
                self.toplevel |= set(n.names)


_NODES = {}


def nodes(tree):
    """all nodes below a node, walked once"""
    if tree not in _NODES:
        _NODES[tree] = list(ast.walk(tree))
    return _NODES[tree]


def walk_scope(node):
    """nodes of a statement that belong to the same scope (no nested functions, classes, comprehension bodies)"""
    stack = [node]
    first = True
    while stack:
        n = stack.pop()
        yield n
        if not first and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        first = False
        stack.extend(ast.iter_child_nodes(n))


def qual(n):
    parts = [n.name]
    p = getattr(n, 'parent', None)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            parts.append(p.name)
        p = getattr(p, 'parent', None)
    return '.'.join(reversed(parts))


def dotted(n):
    """a.b.c expression as a list of names, or None"""
    out = []
    while isinstance(n, ast.Attribute):
        out.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return [n.id] + out[::-1]
    return None


class Repo(object):
    def __init__(self, root=None, tests=False):
        self.root = root or _c.REPO
        self.mods = {}
        py = os.path.join(self.root, 'py')
        for p in sorted(glob.glob(os.path.join(py, 'desimeter', '**', '*.py'), recursive=True)):
            rel = os.path.relpath(p, self.root)
            if '/test/' in rel and not tests:
                continue
            name = os.path.relpath(p, py)[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            self.add(p, name, rel, False)
        for p in sorted(glob.glob(os.path.join(self.root, 'bin', '*'))):
            if os.path.isfile(p):
                with open(p, errors='replace') as f:
                    head = f.readline()
                if 'python' in head or p.endswith('.py'):
                    self.add(p, 'bin.' + os.path.basename(p), os.path.relpath(p, self.root), True)

    def add(self, path, name, rel, script):
        src = open(path, errors='replace').read()
        try:
            tree = canon.loops(ast.parse(src, path))
        except SyntaxError as e:
            self.mods[name] = None
            self.broken = getattr(self, 'broken', []) + [(rel, str(e))]
            return
        self.mods[name] = Mod(path, name, rel, tree, src, script)

    def modules(self):
        return [m for m in self.mods.values() if m is not None]

    def lib(self):
        return [m for m in self.modules() if not m.script]

    def resolve(self, dotted_name):
        """internal object of a dotted name -> ('module', Mod) / ('func', Mod, node) / ('class', Mod, node) / ('value', Mod, name) / None if external / ('missing', text)"""
        parts = dotted_name.split('.')
        if parts[0] != 'desimeter':
            return None
        for k in range(len(parts), 0, -1):
            nm = '.'.join(parts[:k])
            if nm in self.mods:
                m = self.mods[nm]
                rest = parts[k:]
                if m is None:
                    return ('unknown',)
                if not rest:
                    return ('module', m)
                return self.member(m, rest)
        return ('missing', 'module ' + dotted_name)

    def member(self, m, rest, depth=0):
        if depth > 6:
            return ('unknown',)
        n = rest[0]
        if n in m.classes:
            if len(rest) == 1:
                return ('class', m, m.classes[n])
            return self.classmember(m, m.classes[n], rest[1:])
        if n in m.funcs:
            return ('func', m, m.funcs[n]) if len(rest) == 1 else ('unknown',)
        if n in m.toplevel:
            t = m.imports.get(n)
            if t is not None:
                full = '.'.join([t] + rest[1:])
                if t.split('.')[0] == 'desimeter':
                    return self.resolve(full)
                return ('external', full)
            return ('value', m, n) if len(rest) == 1 else ('unknown',)
        if m.is_pkg and (m.name + '.' + n) in self.mods:
            return self.resolve('.'.join([m.name] + rest))
        for s in m.star:
            if s.split('.')[0] == 'desimeter':
                r = self.resolve('.'.join([s] + rest))
                if r and r[0] != 'missing':
                    return r
            else:
                return ('external', '.'.join([s] + rest))
        return ('missing', '%s has no attribute %s' % (m.name, n))

    def classmember(self, m, c, rest):
        q = qual(c) + '.' + rest[0]
        if q in m.funcs:
            return ('func', m, m.funcs[q]) if len(rest) == 1 else ('unknown',)
        return ('unknown',)

    # -------------------------------------------------- static resolution of an expression
    def target(self, m, expr):
        """what a Name/Attribute expression denotes, through imports: same forms as resolve(), ('external', dotted) or None"""
        d = dotted(expr)
        if d is None:
            return None
        fn = enclosing_function(expr)
        if fn is not None and d[0] in local_names(fn) and d[0] not in fn_imports(fn):
            return None
        if d[0] in m.imports:
            full = '.'.join([m.imports[d[0]]] + d[1:])
            if full.split('.')[0] == 'desimeter':
                return self.resolve(full)
            return ('external', full)
        if d[0] in m.classes or d[0] in m.funcs:
            return self.member(m, d)
        # nested function visible from here
        f = fn
        while f is not None:
            q = qual(f) + '.' + d[0]
            if q in m.funcs and len(d) == 1:
                return ('func', m, m.funcs[q])
            f = enclosing_function(f)
        if d[0] in m.toplevel and len(d) == 1:
            return ('value', m, d[0])
        return None


def enclosing_function(n):
    n = getattr(n, 'parent', None)
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return n
        n = getattr(n, 'parent', None)
    return None


def enclosing_class(n):
    n = getattr(n, 'parent', None)
    while n is not None:
        if isinstance(n, ast.ClassDef):
            return n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            pass
        n = getattr(n, 'parent', None)
    return None


_LN = {}


def local_names(fn):
    """names local to a function (parameters and assigned names, minus globals)"""
    if fn in _LN:
        return _LN[fn]
    a = fn.args
    names = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    gl = set()
    for st in fn.body:
        for n in walk_scope(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not in_comp(n, fn):
                names.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                gl |= set(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    if x.name != '*':
                        names.add(x.asname or x.name.split('.')[0])
    _LN[fn] = names - gl
    return _LN[fn]


_FI = {}


def fn_imports(fn):
    if fn not in _FI:
        _FI[fn] = fn_imports_(fn)
    return _FI[fn]


def fn_imports_(fn):
    out = set()
    f = fn
    while f is not None:
        for st in f.body:
            for n in walk_scope(st):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in n.names:
                        out.add(x.asname or x.name.split('.')[0])
        f = enclosing_function(f)
    return out


def in_comp(n, stop):
    p = getattr(n, 'parent', None)
    while p is not None and p is not stop:
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            return True
        p = getattr(p, 'parent', None)
    return False


# ------------------------------------------------------------------ installed libraries
ORACLE = r'''
import sys, re, json, importlib, inspect, warnings, os
warnings.simplefilter('ignore')
os.environ['MPLBACKEND'] = 'Agg'
req = json.load(sys.stdin)
def get(path):
    parts = path.split('.')
    obj, i = None, 0
    for k in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:k])); i = k; break
        except ImportError:
            obj = None
        except Exception as e:
            return 'error', None
    if obj is None:
        return 'nomodule', None
    for p in parts[i:]:
        try:
            obj = getattr(obj, p)
        except AttributeError:
            return 'missing', p
    return 'ok', obj
out = {}
for path in req['paths']:
    st, o = get(path)
    d = dict(status=st)
    if st == 'ok':
        d['callable'] = callable(o)
        try:
            s = inspect.signature(o)
            d['sig'] = [(q.name, q.kind.name, q.default is not inspect.Parameter.empty) for q in s.parameters.values()]
        except Exception:
            d['sig'] = None
        if inspect.isclass(o):
            names, full = set(dir(o)), True
            for k in o.__mro__:
                if '__getattr__' in vars(k) or '__getattribute__' in vars(k) and k is not object:
                    full = k.__module__ in ('builtins',)
                    if not full:
                        break
                try:
                    names |= set(re.findall(r'\bself\s*\.\s*(\w+)', inspect.getsource(k)))
                except Exception:
                    if k.__module__ not in ('builtins', 'numpy'):
                        full = False
            d['dir'] = sorted(names) if full else None
            d['methods'] = {}
            for n in dir(o):
                try:
                    v = inspect.getattr_static(o, n)
                    if inspect.isfunction(v):
                        s = inspect.signature(v)
                        d['methods'][n] = [(q.name, q.kind.name, q.default is not inspect.Parameter.empty) for q in s.parameters.values()][1:]
                except Exception:
                    pass
        d['ismodule'] = inspect.ismodule(o)
        if d['ismodule']:
            d['all'] = sorted(getattr(o, '__all__', None) or [n for n in dir(o) if not n.startswith('_')])
    out[path] = d
json.dump(out, sys.stdout)
'''


def oracle(paths):
    """existence and signatures of names of the installed libraries (the repository itself is never imported)"""
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = 'python3'
    p = subprocess.run([py, '-I', '-c', ORACLE], input=json.dumps(dict(paths=sorted(set(paths)))), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300, cwd='/')
    return json.loads(p.stdout)
