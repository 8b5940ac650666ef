"""Serialisation: the reader of every model class is composed with its writer inside the
analysis (the text is an opaque snapshot of the written dictionary) and every parameter of
the restored object is compared with the one of the saved object, for the object as
constructed, for an object in an arbitrary state, and for one without optional results."""
import ast
from sa.terms import *
from sa import interp as I
from sa import terms as tm
SHAPES = {'TAN2FP_RayTraceFit': dict(adc1=(2,), adc2=(2,), scale=(2,), rotation=(2,), offset_x=(2,), offset_y=(2,), zbpolids=(3,), zbcoeffs=(2, 3))}
INTS = ('zbpolids',)


class NotSerialisable(Exception):
    pass


def walk_class(cls_node):
    """attributes read and written by each method"""
    out = {}
    for f in cls_node.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        ld, st = set(), set()
        if f.args.args:
            me = f.args.args[0].arg
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    (ld if isinstance(n.ctx, ast.Load) else st).add(n.attr)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == me:
                    ld.add(n.target.attr)
        dunder = {a for a in ld | st if a.startswith('__')}
        out[f.name] = (ld - dunder, st - dunder, f)
    return out


def discover(c):
    """classes with both a writer and a reader"""
    from sa.src import Repo
    out = []
    for m in Repo().modules():
        if m is None or m.script:
            continue
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                names = {f.name for f in n.body if isinstance(f, ast.FunctionDef)}
                if 'tojson' in names and 'fromjson' in names:
                    out.append((m.name, n))
                elif 'tojson' in names or 'fromjson' in names:
                    c.undecided('class %s can be written and read' % n.name, 'discovery', '%s:%d' % (m.rel, n.lineno), 'only one direction exists')
    return out


class Json(object):
    """json.dumps / json.loads over the abstract heap, and a file system of text snapshots"""
    def __init__(self):
        self.texts = {}
        self.files = {}
        self.problems = []

    def models(self):
        return {'json.dumps': self.dumps, 'json.loads': self.loads, 'json.dump': self.dump, 'json.load': self.load, 'open': self.open, 'builtins.open': self.open}

    def value(self, ip, v, path):
        if isinstance(v, T):
            if v.op == 'c' or v is tm.NONE or v.op in ('str',) or v in (TRUE, FALSE):
                return v
            if tm.dims(v):
                raise NotSerialisable('%s is an array, which the serialiser rejects' % path)
            w = self.clean(v)
            if w.op == 'f' and w.data == 'npint':
                raise NotSerialisable('%s is a numpy integer, which the serialiser rejects' % path)
            return w
        if isinstance(v, tuple):
            return ('L', [self.value(ip, x, path + '[]') for x in v])
        if isinstance(v, I.Ref):
            k = ip.get(v)
            if k.kind == 'arr':
                raise NotSerialisable('%s is an array, which the serialiser rejects' % path)
            if k.kind == 'list':
                if k.vec is not None or any(g is not TRUE for g, _ in k.items):
                    raise I.Unsupported('list of unknown length')
                return ('L', [self.value(ip, x, path + '[]') for _, x in k.items])
            if k.kind == 'dict':
                if k.sym:
                    raise I.Unsupported('dictionary with unknown keys')
                return ('D', [(q, self.value(ip, x, '%s[%r]' % (path, keytext(q)))) for q, x in k.items.items()])
            if k.kind == 'inst':
                raise NotSerialisable('%s is an object of class %s' % (path, k.cls.name))
        if isinstance(v, I.Choice):
            a, b = self.value(ip, v.a, path), self.value(ip, v.b, path)
            return ('C', v.c, a, b)
        raise I.Unsupported('value of %s: %s' % (path, type(v).__name__))

    def clean(self, t):
        if t.op == 'f' and t.data in ('int', 'float') and t.args:
            a = self.clean(t.args[0])
            if a.op == 'f' and a.data == 'npint':
                return a.args[0]
            if t.data == 'float':
                return a
        return t

    def build(self, ip, s):
        if isinstance(s, tuple):
            if s[0] == 'L':
                return ip.new(I.ListC([(TRUE, self.build(ip, x)) for x in s[1]]))
            if s[0] == 'D':
                return ip.new(I.DictC(dict((q, self.build(ip, x)) for q, x in s[1])))
            if s[0] == 'C':
                return ip.choice(s[1], self.build(ip, s[2]), self.build(ip, s[3]))
        return s

    def dumps(self, ip, args, kw):
        s = self.value(ip, args[0], 'the dictionary')
        k = tm.strc('json text %d' % len(self.texts))
        self.texts[k] = s
        return k

    def loads(self, ip, args, kw):
        k = args[0]
        if isinstance(k, T) and k.op == 'str':
            k = tm.strc(k.data.strip())
        if isinstance(k, T) and k in self.texts:
            return self.build(ip, self.texts[k])
        raise I.Unsupported('text not written by the serialiser')

    # files
    def open(self, ip, args, kw):
        return FileH(self, args[0], args[1] if len(args) > 1 else kw.get('mode'))

    def dump(self, ip, args, kw):
        args[1].abs_write(ip, [self.dumps(ip, args[:1], {})], {})
        return tm.NONE

    def load(self, ip, args, kw):
        return self.loads(ip, [args[0].abs_read(ip, [], {})], {})


class FileH(I.Ignore):
    def __init__(self, j, name, mode):
        self.j, self.name, self.mode = j, name, mode

    def abs_write(self, ip, args, kw):
        self.j.files[self.name] = args[0]
        return tm.NONE

    def abs_read(self, ip, args, kw):
        if self.name not in self.j.files:
            raise I.Unsupported('file not written')
        return self.j.files[self.name]


def keytext(q):
    try:
        return q.data if isinstance(q, T) and q.op == "str" else str(q)
    except Exception:
        return str(q)


def same_shape(ip, a, b):
    """structural description of a value: (kind, shape)"""
    def d(v):
        if isinstance(v, T):
            return ('scalar',) if not tm.dims(v) else ('vector',)
        if isinstance(v, I.Ref):
            k = ip.get(v)
            if k.kind == 'arr':
                return ('array',) + tuple(k.shape)
            if k.kind == 'list':
                return ('list', len(k.items))
            return (k.kind,)
        return (type(v).__name__,)
    return d(a), d(b)


def roundtrip(c, qual, node, info, state, json_attrs, writer='tojson', reader='fromjson'):
    name = node.name
    J = Json()
    R = c.runner(models=J.models())
    ip = R.ip
    cls = R.f(qual)
    o = R(qual)
    w = R.where(qual + '.' + 'tojson')
    init = dict(ip.get(o).attrs)
    label = '%s, %s' % (name, state)
    # the state of the object when saved
    attrs = dict(init)
    if state != 'as constructed':
        # attributes a method reads without having set it, i.e. parameters kept from one call to the next
        kept = set()
        for m, (ld, st, f) in info.items():
            if m not in ('__init__', '__str__', '__repr__'):
                kept |= {a for a in ld if a not in st and a not in info}
        opt = {a for a in json_attrs if a not in init}
        for a in sorted(set(init) | kept | (set() if state == 'without optional results' else opt)):
            shp = SHAPES.get(name, {}).get(a)
            v = init.get(a)
            if shp is None and isinstance(v, I.Ref) and ip.get(v).kind == 'arr':
                shp = ip.get(v).shape
            if shp is None and isinstance(v, I.Ref):
                raise I.Unsupported('initial value of %s' % a)
            if shp is None:
                attrs[a] = ZERO if state == 'zero results' else sym('%s' % a)
            else:
                n = 1
                for k in shp:
                    n *= k
                vals = [sym('%s_%d' % (a, i)) for i in range(n)]
                if a in INTS:
                    vals = [fn('npint', x) for x in vals]
                attrs[a] = ip.new(I.ArrC(shp, vals))
    for a, v in attrs.items():
        ip.setattr(o, a, v)
    want = dict(attrs)
    ip.raises[:] = []
    try:
        if writer == 'tojson':
            text = R.method(o, 'tojson')
            o2 = R(I.Bound(cls.lookup(reader), cls), text)
        else:
            fname = tm.strc('model.json')
            R.method(o, writer, fname)
            o2 = R(I.Bound(cls.lookup(reader), cls), fname)
    except NotSerialisable as e:
        return c.bad('%s can be saved' % label, 'composition of reader and writer', w, str(e))
    except I.RowError as e:
        return c.bad('%s can be saved and read back' % label, 'composition of reader and writer', w, 'missing: %s' % e)
    except I.Unsupported as e:
        t = str(e)
        if t.startswith('attribute %s.' % name) or 'never returns' in t or t.startswith('missing key'):
            return c.bad('%s can be saved and read back' % label, 'composition of reader and writer', w, 'missing: ' + t)
        raise
    hard = [r for r in ip.raises if r[0] is TRUE]
    if hard:
        return c.bad('%s can be saved and read back' % label, 'composition of reader and writer', w, 'the reader rejects the text of the writer (line %s of %s)' % (hard[0][2], hard[0][1]))
    if not (isinstance(o2, I.Ref) and ip.get(o2).kind == 'inst'):
        raise I.Unsupported('reader result')
    c.ok('%s can be saved and read back' % label, 'composition of reader and writer', w)
    got = ip.get(o2).attrs
    for a in sorted(want):
        nm = '%s: %s is restored' % (label, a)
        if a not in got:
            c.bad(nm, 'composition of reader and writer', w, 'the attribute is missing on the restored object')
            continue
        x, y = want[a], got[a]
        dx, dy = same_shape(ip, x, y)
        if dx != dy:
            c.bad(nm, 'composition of reader and writer', w, 'saved as %s, restored as %s' % (dx, dy))
            continue
        xs, ys = R.comps(x), R.comps(y)
        strip = lambda t: t.args[0] if t.op == 'f' and t.data == 'npint' else t
        if len(xs) != len(ys):
            c.bad(nm, 'composition of reader and writer', w, '%d values saved, %d restored' % (len(xs), len(ys)))
            continue
        verdicts = []
        for p, q in zip(xs, ys):
            p, q = strip(p), J.clean(strip(q))
            if p is q:
                verdicts.append(None)
            elif not (p.op in ('s', 'c') or p is tm.NONE):
                verdicts.append('undecided')
            else:
                v = tm.equal(p, q, seed=c.seed) if not (q is tm.NONE or p is tm.NONE) else None
                verdicts.append('restored value differs' if v is None or v.kind == 'differs' else (None if v.kind == 'holds' else 'undecided'))
        badv = [v for v in verdicts if v and v != 'undecided']
        if badv:
            c.bad(nm, 'composition of reader and writer', w, badv[0])
        elif any(verdicts):
            c.undecided(nm, 'composition of reader and writer', w, 'value')
        else:
            c.ok(nm, 'composition of reader and writer', w)


def run(c):
    c.floor = 40
    for mod, node in discover(c):
        info = walk_class(node)
        js = set()
        for m in ('tojson', 'fromjson'):
            f = info[m][2]
            names = {n.value for n in ast.walk(f) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
            js |= info[m][0] - set(info)
            # attributes accessed by name: getattr(self, field) / setattr(tx, field)
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'setattr', 'hasattr') for n in ast.walk(f)):
                stored = set().union(*[x[1] for x in info.values()])
                js |= names & stored
        qual = mod + '.' + node.name
        states = ['any state', 'zero results', 'without optional results']
        if '__init__' in info:
            states.insert(0, 'as constructed')
        for s in states:
            c.guard(roundtrip, c, qual, node, info, s, js)
        for wr, rd in (('write_jsonfile', 'read_jsonfile'), ('write', 'read')):
            if wr in info and rd in info:
                c.guard(roundtrip, c, qual, node, info, 'any state', js, wr, rd)
