"""Row spaces: an abstract interpreter that gives every array, table column, mask and index a *row space*
(which rows, in which order) and a value number, and compares the spaces wherever two of them meet.

A space is (root, ops): the root names where the rows come from (a parameter, a file read, the unique values of
an array ...) and the ops say what was done to them since: a selection (a set of mask atoms), a sort (its key),
a deletion, an append, a cut.  Everything unknown is V (never compared).  Branches are joined with phi spaces
that remember the branch condition, loops are run for two iterations and joined, functions of the repository
are inlined.  Two spaces conflict only when they come from the same rows and differ by what was done to them,
or when the code itself declared them different catalogues (a nearest-neighbour query, an assignment, a match)."""
import ast
from . import src as S

MAXDEPTH = 9
MAXSTEP = 2000000


class Budget(Exception):
    pass


# ------------------------------------------------------------------ value numbers
_VN = {}
_REV = []


def h(*parts):
    k = parts
    r = _VN.get(k)
    if r is None:
        r = _VN[k] = len(_REV)
        _REV.append(k)
    return r


def tell(vn, d=3):
    if not isinstance(vn, int) or isinstance(vn, bool) or vn >= len(_REV):
        return str(vn)
    k = _REV[vn]
    if d == 0:
        return '..'
    if k[0] == 'c':
        return k[1]
    if k[0] == 'par':
        return k[2]
    if k[0] in ('attr', 'col', 'item') and len(k) == 3:
        return '%s.%s' % (tell(k[1], d - 1), k[2] if isinstance(k[2], str) else tell(k[2], d - 1))
    if k[0] == 'glob':
        return k[-1]
    return '%s(%s)' % (k[0], ','.join(x if isinstance(x, str) else tell(x, d - 1) for x in k[1:] if isinstance(x, (str, int))))


# ------------------------------------------------------------------ spaces
def sp(*root):
    return ('s', root, ())


def fix(n):
    return ('s', ('fix', n), ())


def isfix(s):
    return s[0] == 's' and s[1][0] == 'fix' and not s[2]


def phi(c, a, b):
    return a if a == b else ('p', c, a, b)


def addop(s, op):
    if s[0] == 'p':
        return phi(s[1], addop(s[2], op), addop(s[3], op))
    if isfix(s):
        return ('s', ('cutfix', s[1], op), ())
    ops = s[2]
    if op[0] == 'sel':
        if not op[1]:
            return s
        i = len(ops)
        while i and ops[i - 1][0] == 'perm':
            i -= 1
        if i and ops[i - 1][0] == 'sel':
            ops = ops[:i - 1] + (('sel', ops[i - 1][1] | op[1]),) + ops[i:]
        else:
            ops = ops[:i] + (op,) + ops[i:]
        return ('s', s[1], ops)
    if op[0] == 'perm' and ops and ops[-1] == op:
        return s
    if op[0] == 'cut' and ops and ops[-1][0] == 'cut':
        return ('s', s[1], ops[:-1] + (('cut', ops[-1][1] + op[1]),))
    return ('s', s[1], ops + (op,))


def noperm(s):
    if s[0] == 'p':
        return phi(s[1], noperm(s[2]), noperm(s[3]))
    ops, out = s[2], ('s', s[1], ())
    for o in ops:
        if o[0] != 'perm':
            out = addop(out, o)
    return out


def conds(s, out=None):
    out = set() if out is None else out
    if s[0] == 'p':
        out.add(s[1])
        conds(s[2], out)
        conds(s[3], out)
    return out


def pick(s, asg):
    while s[0] == 'p':
        if s[1] not in asg:
            return phi(s[1], pick(s[2], asg), pick(s[3], asg))
        s = s[2] if asg[s[1]] else s[3]
    return s


def show(s):
    if s[0] == 'p':
        return '[%s | %s]' % (show(s[2]), show(s[3]))
    r = s[1]
    t = '%s(%s)' % (r[0], ','.join(tell(x, 3) if isinstance(x, int) else (show(x) if isinstance(x, tuple) and x and x[0] in ('s', 'p') else str(x)[:40]) for x in r[1:]))
    for o in s[2]:
        if o[0] == 'sel':
            t += '{%s}' % ' & '.join(sorted(tell(a, 3) for a in o[1]))
        elif o[0] == 'perm':
            t += '.sorted(%s)' % tell(o[1], 2)
        else:
            t += '.%s(%s)' % (o[0], tell(o[1], 2) if isinstance(o[1], int) and o[0] != 'cut' else (show(o[1]) if isinstance(o[1], tuple) and o[1] and o[1][0] in ('s', 'p') else str(o[1])[:30]))
    return t[:160]


# ------------------------------------------------------------------ values
class V(object):
    __slots__ = ('vn',)

    def __init__(self, vn):
        self.vn = vn

    def __eq__(self, o):
        return type(o) is V and o.vn == self.vn

    def __hash__(self):
        return self.vn


class C(object):
    __slots__ = ('val', 'vn')

    def __init__(self, val):
        self.val = val
        self.vn = h('c', repr(val))

    def __eq__(self, o):
        return type(o) is C and o.vn == self.vn

    def __hash__(self):
        return self.vn


class A(object):
    """array: axes (spaces), value number, element kind"""
    __slots__ = ('axes', 'vn', 'elem', 'oid')
    N = [0]

    def __init__(self, axes, vn, elem=None, oid=None):
        self.axes, self.vn, self.elem = tuple(axes), vn, elem
        if oid is None:
            A.N[0] += 1
            oid = A.N[0]
        self.oid = oid

    def __eq__(self, o):
        return type(o) is A and o.axes == self.axes and o.vn == self.vn and o.elem == self.elem and o.oid == self.oid

    def __hash__(self):
        return self.oid

    def but(self, **k):
        d = dict(axes=self.axes, vn=self.vn, elem=self.elem, oid=None)
        d.update(k)
        return A(**d)


class N(object):
    """number that knows a space: len / sum over it, or an index into it"""
    __slots__ = ('kind', 'space', 'vn', 'flag')

    def __init__(self, kind, space, vn, flag=None):
        self.kind, self.space, self.vn, self.flag = kind, space, vn, flag

    def __eq__(self, o):
        return type(o) is N and (o.kind, o.space, o.vn, o.flag) == (self.kind, self.space, self.vn, self.flag)

    def __hash__(self):
        return self.vn


class Tup(object):
    __slots__ = ('items', 'vn')

    def __init__(self, items):
        self.items = tuple(items)
        self.vn = h('tup', *[x.vn for x in self.items])

    def __eq__(self, o):
        return type(o) is Tup and o.items == self.items

    def __hash__(self):
        return self.vn


class Phi(object):
    __slots__ = ('c', 'a', 'b', 'vn')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.vn = h('phi', c, a.vn, b.vn)

    def __eq__(self, o):
        return type(o) is Phi and (o.c, o.a, o.b) == (self.c, self.a, self.b)

    def __hash__(self):
        return self.vn


class Ref(object):
    __slots__ = ('id', 'vn')

    def __init__(self, id):
        self.id = id
        self.vn = h('ref', id)

    def __eq__(self, o):
        return type(o) is Ref and o.id == self.id

    def __hash__(self):
        return self.vn


class Fun(object):
    __slots__ = ('mod', 'node', 'frame', 'self', 'vn')

    def __init__(self, mod, node, frame=None, self_=None):
        self.mod, self.node, self.frame, self.self = mod, node, frame, self_
        self.vn = h('fun', mod.name, node.lineno, getattr(node, 'name', 'lambda'), self_.vn if self_ is not None else -1)

    def __eq__(self, o):
        return type(o) is Fun and (o.node is self.node and o.frame == self.frame and o.self == self.self)

    def __hash__(self):
        return self.vn


class Cls(object):
    __slots__ = ('mod', 'node', 'vn')

    def __init__(self, mod, node):
        self.mod, self.node = mod, node
        self.vn = h('cls', mod.name, node.name)

    def __eq__(self, o):
        return type(o) is Cls and o.node is self.node

    def __hash__(self):
        return self.vn


class Ext(object):
    """external name, dotted; recv: bound receiver value"""
    __slots__ = ('name', 'recv', 'vn')

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv
        self.vn = h('ext', name, recv.vn if recv is not None else -1)

    def __eq__(self, o):
        return type(o) is Ext and (o.name, o.recv) == (self.name, self.recv)

    def __hash__(self):
        return self.vn


# heap objects (replaced, never mutated)
class Tab(object):
    def __init__(self, space, base, cols=None):
        self.space, self.base, self.cols = space, base, cols or {}

    def __eq__(self, o):
        return type(o) is Tab and (o.space, o.base, o.cols) == (self.space, self.base, self.cols)


class Lst(object):
    """exact items, or uniform (space, elem), or unknown; tags: where each item was appended"""
    def __init__(self, items=None, uni=None, tags=()):
        self.items, self.uni, self.tags = items, uni, tags

    def __eq__(self, o):
        return type(o) is Lst and (o.items, o.uni, o.tags) == (self.items, self.uni, self.tags)


class Dct(object):
    def __init__(self, items=None, uni=None, exact=True):
        self.items, self.uni, self.exact = items or {}, uni, exact

    def __eq__(self, o):
        return type(o) is Dct and (o.items, o.uni, o.exact) == (self.items, self.uni, self.exact)


class Obj(object):
    def __init__(self, cls, attrs=None, vn=None):
        self.cls, self.attrs, self.vn = cls, attrs or {}, vn

    def __eq__(self, o):
        return type(o) is Obj and (o.cls, o.attrs, o.vn) == (self.cls, self.attrs, self.vn)


class State(object):
    def __init__(self):
        self.frames, self.heap, self.glob = {}, {}, {}
        self.alias, self.distinct, self.assume, self.arrs = {}, frozenset(), {}, frozenset()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.glob = dict(self.glob)
        s.alias = dict(self.alias)
        s.distinct = self.distinct
        s.assume = dict(self.assume)
        s.arrs = self.arrs
        return s


CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot'}
SWAP = {'>': '<', '>=': '<='}
COMM = {'Add', 'Mult', 'BitAnd', 'BitOr', '==', '!='}
ELEM = set('abs absolute sqrt sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh exp log log10 log2 hypot isfinite isnan isinf deg2rad rad2deg radians degrees maximum minimum mod fmod floor ceil round around rint sign fabs square power clip logical_and logical_or logical_not logical_xor bitwise_and bitwise_or invert nan_to_num sinc cumsum cumprod add subtract multiply divide true_divide remainder conj real imag unwrap isclose equal not_equal greater greater_equal less less_equal negative reciprocal cbrt floor_divide heaviside angle'.split())
BOOLF = set('isfinite isnan isinf isclose equal not_equal greater greater_equal less less_equal logical_or logical_xor'.split())
COPY = set('array asarray copy ascontiguousarray asanyarray atleast_1d squeeze asfarray require'.split())
REDUCE = set('mean median std var max min amax amin ptp prod nanmean nanmedian nanstd nanmax nanmin percentile quantile any all average'.split())
EMETH = set('astype copy round clip filled view conj byteswap'.split())
IMPURE = ('random', 'time', 'uuid', 'input')


class Rows(object):
    def __init__(self, repo):
        self.repo = repo
        self.sites = {}          # (rel, line, col, kind) -> dict(func, ok, bad, text)
        self.assumed = 0
        self.entries = {}
        self.functions = set()
        self.depth = 0
        self.steps = 0
        self.nid = 0
        self.ctx = ()            # call path
        self.iters = ()          # loop iteration markers
        self.stack = []
        self.inert = {}
        self.nonnull = set()
        self.walk = {}           # counter -> rows it walks

    # ------------------------------------------------------------------ reporting
    def report(self, node, kind, good, text=''):
        mod, fn = self.stack[-1]
        key = (mod.rel, node.lineno, node.col_offset, kind)
        d = self.sites.setdefault(key, dict(func=(S.qual(fn) if not isinstance(fn, (ast.Lambda, ast.Module)) else '<%s>' % type(fn).__name__.lower()), ok=0, bad=[], snippet=ast.unparse(node)[:110]))
        if good:
            d['ok'] += 1
        elif text not in d['bad']:
            d['bad'].append(text)

    # ------------------------------------------------------------------ space relations
    def canon(self, st, s):
        if s[0] == 'p':
            if s[1] in st.assume:
                return self.canon(st, s[2] if st.assume[s[1]] else s[3])
            return phi(s[1], self.canon(st, s[2]), self.canon(st, s[3]))
        for _ in range(20):
            hit = None
            for (root, eops), tgt in st.alias.items():
                if root != s[1] or len(eops) > len(s[2]):
                    continue
                rest = None
                if eops == s[2][:len(eops)]:
                    rest = s[2][len(eops):]
                elif eops and eops[:-1] == s[2][:len(eops) - 1] and eops[-1][0] == 'sel' and s[2][len(eops) - 1][0] == 'sel' and eops[-1][1] < s[2][len(eops) - 1][1]:
                    rest = (('sel', s[2][len(eops) - 1][1] - eops[-1][1]),) + s[2][len(eops):]
                if rest is not None and (hit is None or len(eops) > hit[0]):
                    hit = (len(eops), tgt, rest)
            if hit is None:
                return s
            t = hit[1]
            for o in hit[2]:
                t = addop(t, o)
            if t == s:
                return s
            if t[0] == 'p':
                return self.canon(st, t)
            s = t
        return s

    def rel1(self, st, a, b, idx):
        """relation of two simple spaces: 'same' 'conflict' 'unknown'"""
        if a == b:
            return 'same'
        if isfix(a) or isfix(b):
            return 'skip'
        if frozenset((a, b)) in st.distinct:
            return 'conflict'
        if a[1] == b[1]:
            return 'conflict'
        if idx and a[1][0] in RIGID and b[1][0] in RIGID:
            return 'conflict'
        # sub-selections of spaces declared different
        for d in st.distinct:
            x, y = tuple(d) if len(d) == 2 else (None, None)
            if x is None:
                continue
            for p, q in ((x, y), (y, x)):
                if p[1] == a[1] and q[1] == b[1] and idx:
                    return 'conflict'
        return 'unknown'

    @staticmethod
    def under(a, p):
        """index targets: a is p itself"""
        return a == p

    def relate(self, st, a, b, node, kind, idx=False, what=''):
        a, b = self.canon(st, a), self.canon(st, b)
        if a == b:
            if not isfix(a):
                self.report(node, kind, True)
            return 'same'
        if isfix(a) or isfix(b):
            return 'skip'
        ca, cb = conds(a), conds(b)
        cs = sorted(ca | cb)
        if len(cs) > 6:
            return 'unknown'
        res = []
        for bits in range(1 << len(cs)):
            asg = {c: bool(bits >> i & 1) for i, c in enumerate(cs)}
            if not self.feasible(asg, st):
                continue
            x, y = self.canon(st, pick(a, asg)), self.canon(st, pick(b, asg))
            res.append((self.rel1(st, x, y, idx), x, y, asg))
        if not res:
            return 'unknown'
        kinds = [r[0] for r in res]
        bad = [r for r in res if r[0] == 'conflict']
        nested = ca <= cb or cb <= ca
        if bad and (nested or len(bad) == len(res)):
            _, x, y, asg = bad[0]
            self.report(node, kind, False, '%s: rows %s against rows %s%s' % (what or kind, show(x), show(y), (' when ' + ', '.join('%s is %s' % (tell(c), v) for c, v in asg.items())) if asg else ''))
            return 'conflict'
        if all(k == 'same' for k in kinds):
            self.report(node, kind, True)
            return 'same'
        if 'unknown' in kinds and len(cs) == 0:
            for x, y in ((a, b), (b, a)):
                for (root, ops), tgt in st.alias.items():
                    if root == x[1] and ops != x[2] and tgt == y and tgt[1] != root:
                        self.report(node, kind, False, '%s: rows %s and rows %s are both used as rows %s' % (what or kind, show(x), show(('s', root, ops)), show(y)))
                        return 'conflict'
            self.unify(st, a, b)
        return 'unknown'

    def catalogues(self, st, a, b):
        """the code searches the rows of b for those of a: two different lists"""
        a, b = self.canon(st, a), self.canon(st, b)
        if not conds(a) and not conds(b) and a[1] != b[1] and not isfix(a) and not isfix(b):
            st.distinct = st.distinct | {frozenset((a, b))}

    @staticmethod
    def rank(s):
        ks = [_REV[x][0] for x in s[1][1:] if type(x) is int and x in _REV]
        return 0 if 'par' in ks else 1

    def unify(self, st, a, b):
        if a[0] == 'p' or b[0] == 'p':
            return
        if a[1][0] in RIGID and b[1][0] not in RIGID:
            a, b = b, a
        elif (a[1][0] in RIGID) == (b[1][0] in RIGID) and self.rank(a) > self.rank(b):
            a, b = b, a             # the order in which the two were named does not matter
        # never alias a space to something below itself
        st.alias[(a[1], a[2])] = b
        self.assumed += 1

    def feasible(self, asg, st):
        eqs = {}
        for c, v in asg.items():
            k = _REV[c]
            if v and k[0] == 'cmp' and k[1] == '==' and len(k) == 4 and _REV[k[2]][:2] in (('c', '0'),) or v and k[0] == 'cmp' and len(k) == 4 and _REV[k[3]][:2] in (('c', '0'),) and k[1] == '==':
                return False       # something counted is zero: nothing to pair
        for c, v in list(asg.items()) + list(st.assume.items()):
            k = _REV[c]
            if v and k[0] == 'cmp' and k[1] == '==':
                for i, j in ((2, 3), (3, 2)):
                    if _REV[k[j]][0] == 'c':
                        if eqs.setdefault(k[i], k[j]) != k[j]:
                            return False
        return True

    # ------------------------------------------------------------------ heap
    def new(self, st, o):
        self.nid += 1
        st.heap[self.nid] = o
        return Ref(self.nid)

    def get(self, st, v, typ=None):
        v = self.res(st, v)
        if type(v) is Ref:
            o = st.heap.get(v.id)
            if typ is None or type(o) is typ:
                return o
        return None

    def res(self, st, v):
        """resolve a Phi under the current assumptions; a None alternative is dropped on use"""
        n = 0
        while type(v) is Phi and n < 20:
            n += 1
            if v.c in st.assume:
                v = v.a if st.assume[v.c] else v.b
            elif type(v.a) is C and v.a.val is None:
                v = v.b
            elif type(v.b) is C and v.b.val is None:
                v = v.a
            else:
                return v
        if type(v) is V and v.vn in st.arrs:
            return A([sp('par', v.vn)], v.vn, None, -v.vn - 1)
        return v

    def known(self, st, *vs):
        """these values are 1-d arrays"""
        for v in vs:
            if type(v) is V and self.paramlike(v.vn):
                st.arrs = st.arrs | {v.vn}

    # ------------------------------------------------------------------ joins
    def jv(self, st, c, a, b, d=0):
        if a is b or a == b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if type(a) is A and type(b) is A and len(a.axes) == len(b.axes):
            vn = a.vn if a.vn == b.vn else h('phi', c, a.vn, b.vn)
            e = a.elem if a.elem == b.elem else self.je(c, a.elem, b.elem)
            return A([phi(c, x, y) for x, y in zip(a.axes, b.axes)], vn, e, a.oid if a.oid == b.oid else None)
        if type(a) is N and type(b) is N and a.kind == b.kind:
            return N(a.kind, phi(c, a.space, b.space), a.vn if a.vn == b.vn else h('phi', c, a.vn, b.vn), a.flag if a.flag == b.flag else None)
        if type(a) is Tup and type(b) is Tup and len(a.items) == len(b.items):
            return Tup([self.jv(st, c, x, y) for x, y in zip(a.items, b.items)])
        if (type(a) is C and a.val is None) or (type(b) is C and b.val is None):
            return Phi(c, a, b)
        if type(a) is Ref and type(b) is Ref and d < 3:
            oa, ob = st.heap.get(a.id), st.heap2.get(b.id)
            if type(oa) is type(ob) and oa is not None:
                j = self.jo(st, c, oa, ob, d + 1)
                if j is not None:
                    return self.new(st, j)
            return V(h('phi', c, a.vn, b.vn))
        if type(a) is C and type(b) is C:
            return Phi(c, a, b)
        return V(h('phi', c, a.vn, b.vn))

    def je(self, c, x, y):
        if x is None or y is None:
            return None
        if x[0] == 'idx' and y[0] == 'idx':
            return ('idx', phi(c, x[1], y[1]), x[2] and y[2], x[3] or y[3])
        if x[0] == 'fill' and y[0] == 'idx':
            return y[:3] + (y[3] or (x[1] is not None and x[1] < 0),)
        if x[0] == 'idx' and y[0] == 'fill':
            return self.je(c, y, x)
        if x[0] == 'mask' and y[0] == 'mask':
            return ('mask', frozenset([h('phi', c, h('m', *sorted(x[1])), h('m', *sorted(y[1])))]))
        return None

    def jo(self, st, c, x, y, d=0):
        if x == y:
            return x
        if type(x) is not type(y):
            return None
        if type(x) is Tab:
            cols = {}
            for k in set(x.cols) | set(y.cols):
                a, b = x.cols.get(k), y.cols.get(k)
                if a is None:
                    a = self.col0(x, k) if x.base is not None else b
                if b is None:
                    b = self.col0(y, k) if y.base is not None else a
                cols[k] = self.jv(st, c, a, b)
            if x.space is None or y.space is None:
                s = x.space or y.space
            else:
                s = phi(c, x.space, y.space)
            return Tab(s, x.base if x.base == y.base else h('phi', c, -1 if x.base is None else x.base, -1 if y.base is None else y.base), cols)
        if type(x) is Lst:
            if x.items is not None and y.items is not None:
                if len(x.items) == len(y.items):
                    return Lst([self.jv(st, c, a, b, d) for a, b in zip(x.items, y.items)], None, x.tags if x.tags == y.tags else ())
                # the longer one, keeping the phi of lengths out of sight
                l, s = (x, y) if len(x.items) > len(y.items) else (y, x)
                if l.items[:len(s.items)] == s.items and l.tags[:len(s.tags)] == s.tags:
                    return Lst(l.items, None, l.tags)
                return Lst(None)
            if x.uni and y.uni:
                return Lst(None, (phi(c, x.uni[0], y.uni[0]), self.jv(st, c, x.uni[1], y.uni[1], d)))
            if x.items == []:
                return y
            if y.items == []:
                return x
            return Lst(None)
        if type(x) is Dct:
            it = {}
            for k in set(x.items) | set(y.items):
                a, b = x.items.get(k), y.items.get(k)
                it[k] = self.jv(st, c, a, b, d)
            u = self.jv(st, c, x.uni, y.uni, d) if (x.uni is not None and y.uni is not None) else (x.uni or y.uni)
            return Dct(it, u, x.exact and y.exact and set(x.items) == set(y.items))
        if type(x) is Obj:
            at = {}
            if x.cls in ('<tree>', '<interp>') or y.cls in ('<tree>', '<interp>'):
                if x.cls != y.cls:
                    return None
                return Obj(x.cls, {k: phi(c, x.attrs[k], y.attrs[k]) for k in x.attrs}, h('phi', c, x.vn, y.vn))
            for k in set(x.attrs) | set(y.attrs):
                a, b = x.attrs.get(k), y.attrs.get(k)
                if a is None:
                    a = V(h('attr', x.vn, k))
                if b is None:
                    b = V(h('attr', y.vn, k))
                at[k] = self.jv(st, c, a, b, d)
            return Obj(x.cls if x.cls == y.cls else None, at, x.vn if x.vn == y.vn else h('phi', c, x.vn or -1, y.vn or -1))
        return None

    def join(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        st = State()
        st.heap = dict(s2.heap)
        st.heap.update(s1.heap)
        st.heap2 = s2.heap
        st.alias = {k: v for k, v in s1.alias.items() if s2.alias.get(k) == v}
        st.distinct = s1.distinct & s2.distinct
        st.arrs = s1.arrs & s2.arrs
        st.assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) == v}
        for hid in set(s1.heap) & set(s2.heap):
            x, y = s1.heap[hid], s2.heap[hid]
            if x is not y and x != y:
                j = self.jo(st, c, x, y)
                st.heap[hid] = j if j is not None else Obj(None, {}, h('phi', c, hid))
        for f in set(s1.frames) | set(s2.frames):
            a, b = s1.frames.get(f), s2.frames.get(f)
            if a is None or b is None:
                st.frames[f] = dict(a or b)
                continue
            st.frames[f] = {k: (self.jv(st, c, a.get(k), b.get(k))) for k in set(a) | set(b)}
        for k in set(s1.glob) | set(s2.glob):
            a, b = s1.glob.get(k), s2.glob.get(k)
            if a is None or b is None:
                v = a or b
                o = V(h('glob',) + k) if False else self.global0(k)
                st.glob[k] = self.jv(st, c, a if a is not None else o, b if b is not None else o)
            else:
                st.glob[k] = self.jv(st, c, a, b)
        del st.heap2
        return st

    # ------------------------------------------------------------------ names
    def global0(self, k):
        m = self.repo.mods.get(k[0])
        if m is not None:
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == k[1]:
                    try:
                        val = ast.literal_eval(s.value)
                    except Exception:
                        break
                    if val is None or isinstance(val, (int, float, str, bool)):
                        return C(val)
        return V(h('glob', k[0], k[1]))

    def name(self, st, mod, frame, n):
        f = frame
        while f is not None:
            fr = st.frames.get(f)
            if fr is None:
                break
            if n in fr and fr[n] is not None:
                return fr[n]
            f = fr.get('<parent>')
        return self.modname(st, mod, n)

    def modname(self, st, mod, n):
        if (mod.name, n) in st.glob:
            return st.glob[(mod.name, n)]
        if n in mod.funcs:
            return Fun(mod, mod.funcs[n])
        if n in mod.classes:
            return Cls(mod, mod.classes[n])
        if n in mod.imports:
            return self.dotted(st, mod.imports[n])
        if n in mod.toplevel:
            return self.constval(st, mod, n)
        if n in S.BUILTINS:
            return Ext(n)
        return V(h('glob', mod.name, n))

    def constval(self, st, mod, n):
        for s in mod.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == n:
                try:
                    return self.lit(st, ast.literal_eval(s.value))
                except Exception:
                    break
        return V(h('glob', mod.name, n))

    def lit(self, st, val):
        if isinstance(val, (list, set)):
            return self.new(st, Lst([self.lit(st, x) for x in val]))
        if isinstance(val, tuple):
            return Tup([self.lit(st, x) for x in val])
        if isinstance(val, dict):
            return self.new(st, Dct({k: self.lit(st, v) for k, v in val.items()}))
        return C(val)

    def dotted(self, st, d):
        if d.split('.')[0] == 'desimeter':
            r = self.repo.resolve(d)
            if r:
                if r[0] == 'func':
                    return Fun(r[1], r[2])
                if r[0] == 'class':
                    return Cls(r[1], r[2])
                if r[0] == 'value':
                    return self.modname(st, r[1], r[2])
        return Ext(d)

    # ------------------------------------------------------------------ entry
    def entry(self, mod, fn):
        """one function analysed with unknown arguments"""
        self.steps = 0
        st = State()
        fun = Fun(mod, fn)
        q = mod.name + '.' + S.qual(fn)
        args = {}
        cls = S.enclosing_class(fn)
        ps = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        deco = {d.id for d in fn.decorator_list if isinstance(d, ast.Name)}
        ev = tabparams(fn)
        for i, p in enumerate(ps):
            vn = h('par', q, p)
            if cls is not None and i == 0 and 'staticmethod' not in deco and isinstance(fn.parent, ast.ClassDef):
                args[p] = Cls(mod, cls) if 'classmethod' in deco else self.new(st, Obj(Cls(mod, cls), {}, vn))
            elif p in ev:
                args[p] = self.new(st, Tab(sp('par', vn), vn))
            else:
                args[p] = V(vn)
        try:
            self.run(st, fun, args)
            self.entries[q] = 'complete'
        except Budget:
            self.entries[q] = 'step budget'
        finally:
            self.depth, self.ctx, self.iters, self.stack = 0, (), (), []

    def main(self, mod):
        """the statements of a script, outside functions"""
        self.steps = 0
        st = State()
        st.frames[0] = {'<parent>': None}
        self.stack.append((mod, mod.tree))
        try:
            self.block(st, mod, 0, [s for s in mod.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))])
            self.entries[mod.name] = 'complete'
        except Budget:
            self.entries[mod.name] = 'step budget'
        finally:
            self.depth, self.ctx, self.iters, self.stack = 0, (), (), []

    def run(self, st, fun, args):
        """execute a function body; returns (value, state or None when it never returns)"""
        self.nid += 1
        fid = self.nid
        fr = dict(args)
        fr['<parent>'] = fun.frame
        st.frames[fid] = fr
        self.stack.append((fun.mod, fun.node))
        self.depth += 1
        self.functions.add(fun.mod.name + '.' + (S.qual(fun.node) if not isinstance(fun.node, ast.Lambda) else 'lambda'))
        sc = self.ctx
        self.ctx = self.ctx + (fun.node.lineno,)
        try:
            if isinstance(fun.node, ast.Lambda):
                return self.ev(st, fun.mod, fid, fun.node.body), st
            end, exits = self.block(st, fun.mod, fid, fun.node.body)
            rets = [(s, v) for k, s, v in exits if k == 'ret']
            if end is not None:
                rets.append((end, C(None)))
            if not rets:
                return V(h('noreturn')), None
            out, val = rets[-1]
            for i, (s, v) in enumerate(reversed(rets[:-1])):
                c = h('exit', fun.mod.name, fun.node.lineno, i, *self.ctx)
                # the value travels in the state so that heap objects are merged with it
                s.frames[fid]['<ret>'] = v
                out.frames[fid]['<ret>'] = val
                out = self.join(c, s, out)
                val = out.frames[fid]['<ret>']
            keep = self.captured(out, fid)
            if not keep:
                out.frames.pop(fid, None)
            return val, out
        finally:
            self.stack.pop()
            self.depth -= 1
            self.ctx = sc

    def captured(self, st, fid):
        fr = st.frames.get(fid) or {}
        return any(type(v) is Fun and v.frame == fid for v in fr.values())

    # ------------------------------------------------------------------ statements
    def block(self, st, mod, fr, body):
        exits = []
        for s in body:
            self.steps += 1
            if self.steps > MAXSTEP:
                raise Budget()
            st, ex = self.stmt(st, mod, fr, s)
            exits += ex
            if st is None:
                break
        return st, exits

    def into(self, st, s2):
        """make st (the caller's object) hold s2"""
        if s2 is not st:
            st.frames, st.heap, st.glob, st.alias, st.distinct, st.assume, st.arrs = s2.frames, s2.heap, s2.glob, s2.alias, s2.distinct, s2.assume, s2.arrs

    def stmt(self, st, mod, fr, s):
        E = lambda e: self.ev(st, mod, fr, e)
        if isinstance(s, ast.Assign):
            v = E(s.value)
            for t in s.targets:
                self.assign(st, mod, fr, t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(st, mod, fr, s.target, E(s.value), s)
        elif isinstance(s, ast.AugAssign):
            self.aug(st, mod, fr, s)
        elif isinstance(s, ast.Expr):
            E(s.value)
            if self.dead:
                self.dead = False
                return None, []
        elif isinstance(s, ast.Return):
            v = E(s.value) if s.value is not None else C(None)
            return None, [('ret', st, v)]
        elif isinstance(s, ast.Raise):
            return None, []
        elif isinstance(s, (ast.Break, ast.Continue)):
            return None, [('brk' if isinstance(s, ast.Break) else 'cont', st, None)]
        elif isinstance(s, ast.If):
            return self.if_(st, mod, fr, s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            return self.for_(st, mod, fr, s)
        elif isinstance(s, ast.While):
            return self.while_(st, mod, fr, s)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = E(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(st, mod, fr, it.optional_vars, v, s)
            return self.block(st, mod, fr, s.body)
        elif isinstance(s, ast.Try):
            pre = st.copy()
            end, ex = self.block(st, mod, fr, s.body)
            if end is not None and s.orelse:
                end, e2 = self.block(end, mod, fr, s.orelse)
                ex += e2
            for i, hd in enumerate(s.handlers):
                s2 = pre.copy()
                if hd.name:
                    s2.frames[fr][hd.name] = V(h('exc', hd.lineno))
                e, e2 = self.block(s2, mod, fr, hd.body)
                ex += e2
                end = self.join(h('raised', hd.lineno, *self.iters), e, end) if e is not None else end
            if s.finalbody and end is not None:
                end, e2 = self.block(end, mod, fr, s.finalbody)
                ex += e2
            return end, ex
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.frames[fr][s.name] = Fun(mod, s, fr)
        elif isinstance(s, ast.Global):
            st.frames[fr].setdefault('<global>', frozenset())
            st.frames[fr]['<global>'] = st.frames[fr]['<global>'] | frozenset(s.names)
        elif isinstance(s, ast.Assert):
            self.assert_(st, mod, fr, s.test)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.frames[fr].pop(t.id, None)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            pass
        return st, []

    dead = False

    def assert_(self, st, mod, fr, t):
        # equal lengths declared by an assertion
        if isinstance(t, ast.Compare) and all(isinstance(o, ast.Eq) for o in t.ops):
            vs = [self.ev(st, mod, fr, x) for x in [t.left] + t.comparators]
            if all(type(v) is N and v.kind == 'len' for v in vs):
                for x in [t.left] + t.comparators:
                    if isinstance(x, ast.Call) and len(x.args) == 1:
                        self.known(st, self.ev(st, mod, fr, x.args[0]))
                for a in vs[1:]:
                    x, y = self.canon(st, vs[0].space), self.canon(st, a.space)
                    if x != y and not conds(x) and not conds(y) and x[1] != y[1]:
                        self.unify(st, y, x)
            return
        self.ev(st, mod, fr, t)

    def branch(self, st, mod, fr, test):
        """-> (cond vn, True/False/None)"""
        v = self.ev(st, mod, fr, test, raw=True)
        t = self.truth(v)
        vn = v.vn
        if t is None and vn in st.assume:
            t = st.assume[vn]
        if t is None:
            k = _REV[vn]
            if k[0] == 'not' and k[1] in st.assume:
                t = not st.assume[k[1]]
        return vn, t

    def truth(self, v):
        if type(v) is C:
            return bool(v.val)
        if type(v) in (Fun, Cls):
            return True
        return None

    def suppose(self, st, vn, val):
        k = _REV[vn]
        if k[0] == 'not':
            return self.suppose(st, k[1], not val)
        st.assume[vn] = val
        if k[0] == 'and' and val:
            for x in k[1:]:
                self.suppose(st, x, True)
        if k[0] == 'or' and not val:
            for x in k[1:]:
                self.suppose(st, x, False)

    def if_(self, st, mod, fr, s):
        vn, t = self.branch(st, mod, fr, s.test)
        if t is True:
            return self.block(st, mod, fr, s.body)
        if t is False:
            return self.block(st, mod, fr, s.orelse)
        s2 = st.copy()
        self.suppose(st, vn, True)
        self.suppose(s2, vn, False)
        e1, x1 = self.block(st, mod, fr, s.body)
        e2, x2 = self.block(s2, mod, fr, s.orelse)
        neg = _REV[vn][0] == 'not'
        if e1 is None or e2 is None:
            return (e1 if e2 is None else e2), x1 + x2
        return self.join(_REV[vn][1], e2, e1) if neg else self.join(vn, e1, e2), x1 + x2

    def for_(self, st, mod, fr, s):
        it = self.ev(st, mod, fr, s.iter)
        its = self.items(st, it, s, s.iter)
        return self.loop(st, mod, fr, s, its)

    def while_(self, st, mod, fr, s):
        return self.loop(st, mod, fr, s, None)

    def loop(self, st, mod, fr, s, its):
        exits, outs = [], []
        cur = st
        its_l = its
        exact = isinstance(its, list)
        n = len(its) if exact else 3 if not self.iters and len(self.stack) == 1 and sum(1 for _ in ast.walk(s)) < 700 else 2
        if exact and n == 0:
            return self.block(st, mod, fr, s.orelse) if s.orelse else (st, [])
        save = self.iters
        for i in range(n):
            self.iters = save + ((s.lineno, i if not exact else i),)
            if isinstance(s, ast.While):
                vn, t = self.branch(cur, mod, fr, s.test)
                if t is False:
                    break
                if t is None and i > 0:
                    outs.append(cur.copy())
                    self.suppose(cur, vn, True) if i == 0 else None
            else:
                v = its[i] if exact else its(cur, i)
                if not exact and i > 0:
                    outs.append(cur.copy())
                self.assign(cur, mod, fr, s.target, v, s)
            pre = set(cur.assume)
            cur, ex = self.block(cur, mod, fr, s.body)
            conts = []
            for k, e, v in ex:
                if k == 'brk':
                    outs.append(e)
                elif k == 'cont':
                    conts.append(e)
                else:
                    exits.append((k, e, v))
            for j, e in enumerate(conts):
                cur = self.join(h('cont', s.lineno, j, *map(str, self.iters)), e, cur)
            if cur is None:
                break
            # what was assumed inside one iteration does not hold in the next
            cur.assume = {k: v for k, v in cur.assume.items() if k in pre}
        self.iters = save
        end = cur
        for o in outs:
            o.assume = {k: v for k, v in o.assume.items() if k in st.assume or True}
        for j, o in enumerate(reversed(outs)):
            end = self.join(h('leave', s.lineno, j, *map(str, self.iters)), o, end)
        if end is not None and s.orelse and not outs:
            end, ex = self.block(end, mod, fr, s.orelse)
            exits += ex
        return end, exits

    def items(self, st, it, s, node):
        """list of exact items, or a function (state, iteration) -> item"""
        it = self.res(st, it)
        mark = lambda i: h('it', node.lineno, node.col_offset, i, *map(str, self.iters))
        o = self.get(st, it)
        if type(it) is Tup:
            return list(it.items)
        if type(o) is Lst:
            if o.items is not None and len(o.items) <= 40:
                return list(o.items)
            if o.uni:
                return lambda c, i: self.row(o.uni[1], mark(i))
        if type(it) is A and it.axes:
            if isfix(it.axes[0]) and False:
                return None
            return lambda c, i: self.rowof(it, V(mark(i)))
        if type(it) is Ext and it.name in ('<enum>', '<zip>', '<range>', '<dictitems>'):
            pl = it.recv
            if it.name == '<range>':
                if type(pl) is C:
                    return [C(k) for k in range(pl.val)] if pl.val <= 4 else (lambda c, i: V(mark(i)))
                if type(pl) is N and pl.kind == 'len':
                    if pl.flag is not None:
                        return [C(k) for k in range(pl.flag)]
                    return lambda c, i: N('idx', pl.space, mark(i), 'weak')
                return lambda c, i: V(mark(i))
            if it.name == '<enum>':
                sub = self.items(st, pl, s, node)
                if isinstance(sub, list):
                    return [Tup([C(k), x]) for k, x in enumerate(sub)]
                spc = self.space_of(st, pl)
                if spc is not None:
                    return lambda c, i: Tup([N('idx', spc, mark(i)), sub(c, i)])
                return lambda c, i: Tup([V(mark(i)), sub(c, i)])
            if it.name == '<zip>':
                subs = [self.items(st, p, s, node) for p in pl.items]
                if all(isinstance(x, list) for x in subs):
                    return [Tup(x) for x in zip(*subs)]
                n = [x for x in subs]
                def f(c, i):
                    out = []
                    for x in n:
                        if isinstance(x, list):
                            out.append(x[i] if i < len(x) else V(mark(i)))
                        else:
                            out.append(x(c, i))
                    return Tup(out)
                return f
            if it.name == '<dictitems>':
                return [Tup(x.items) if type(x) is Tup else x for x in pl.items]
        if type(o) is Dct and o.exact and o.uni is None and o.items:
            return [C(k) for k in o.items]
        vn = it.vn
        return lambda c, i: V(h('elem', vn, mark(i)))

    def row(self, v, mark):
        return v

    def space_of(self, st, v):
        v = self.res(st, v)
        if type(v) is A and v.axes:
            return v.axes[0]
        o = self.get(st, v)
        if type(o) is Tab:
            return o.space
        if type(o) is Lst and o.uni:
            return o.uni[0]
        if type(v) is V and self.paramlike(v.vn):
            return sp('par', v.vn)
        return None

    @staticmethod
    def paramlike(vn):
        k = _REV[vn]
        return k[0] in ('par', 'attr', 'item', 'col', 'glob', 'elem')

    # ------------------------------------------------------------------ assignment
    def setname(self, st, mod, fr, n, v):
        f = st.frames[fr]
        if n in f.get('<global>', ()) or (f.get('<parent>') is None and self.stack[-1][1] is mod.tree):
            st.glob[(mod.name, n)] = v
        else:
            f[n] = v

    def assign(self, st, mod, fr, t, v, node):
        if isinstance(t, ast.Name):
            self.setname(st, mod, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.res(st, v)
            o = self.get(st, v)
            items = None
            if type(v) is Tup:
                items = v.items
            elif type(o) is Lst and o.items is not None:
                items = o.items
            elif type(v) is A and len(v.axes) > 1:
                items = [A(v.axes[1:], h('row', v.vn, i), v.elem if v.elem and v.elem[0] == 'idx' else None) for i in range(len(t.elts))]
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            if items is not None and len(items) == len(t.elts) and not star:
                for e, x in zip(t.elts, items):
                    self.assign(st, mod, fr, e, x, node)
            else:
                for i, e in enumerate(t.elts):
                    self.assign(st, mod, fr, e.value if isinstance(e, ast.Starred) else e, V(h('item', v.vn, i)), node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(st, mod, fr, t.value)
            o = self.get(st, b)
            if type(o) is Obj:
                st.heap[b.id] = Obj(o.cls, dict(o.attrs, **{t.attr: v}), o.vn)
        elif isinstance(t, ast.Subscript):
            self.store(st, mod, fr, t, v, node)

    def aug(self, st, mod, fr, s):
        op = type(s.op).__name__
        t = s.target
        rhs = self.ev(st, mod, fr, s.value)
        if isinstance(t, ast.Subscript):
            base = self.res(st, self.ev(st, mod, fr, t.value))
            ix = self.index(st, mod, fr, t.slice)
            # m[where(m)] &= v   and   m[m] &= v
            if op == 'BitAnd' and type(base) is A and base.elem and base.elem[0] == 'mask' and type(ix) is A and len(base.axes) == 1:
                r = self.take(st, base, ix, t, None)
                if type(r) is A and r.axes and r.axes[0] == addop(base.axes[0], ('sel', base.elem[1])):
                    rv = self.res(st, rhs)
                    if type(rv) is A and len(rv.axes) == 1:
                        self.relate(st, r.axes[0], rv.axes[0], s, 'masked store', what='values stored into a selection')
                        at = rv.elem[1] if rv.elem and rv.elem[0] == 'mask' else frozenset([rv.vn])
                        self.update(st, base, base.but(elem=('mask', base.elem[1] | at), vn=h('m', *sorted(base.elem[1] | at)), oid=base.oid))
                        return
            cur = self.take(st, base, ix, t, None, mod=mod)
            v = self.binop(st, op, cur, rhs, s)
            self.store_to(st, base, ix, v, t, s)
            return
        cur = self.ev(st, mod, fr, t)
        v = self.binop(st, op, cur, rhs, s)
        o = self.get(st, cur)
        if type(o) is Lst:
            if op == 'Add':
                r = self.get(st, rhs)
                if o.items is not None and type(r) is Lst and r.items is not None:
                    st.heap[cur.id] = Lst(o.items + r.items, None, o.tags + tuple(('x', s.lineno, i) + self.iters for i in range(len(r.items))))
                else:
                    st.heap[cur.id] = Lst(None)
            return
        if type(cur) is A and type(v) is A:
            # in place: every name of this array changes
            self.update(st, cur, v.but(oid=cur.oid))
            if isinstance(t, ast.Name):
                self.setname(st, mod, fr, t.id, v.but(oid=cur.oid))
                return
        self.assign(st, mod, fr, t, v, s)

    def update(self, st, old, new):
        """an array was modified in place"""
        oid = old.oid

        def sub(v):
            if type(v) is A:
                return new if v.oid == oid else v
            if oid < 0 and type(v) is V and v.vn == -oid - 1:
                return new
            if type(v) is Tup and any(type(x) in (A, Tup, V) for x in v.items):
                it = [sub(x) for x in v.items]
                return Tup(it) if any(x is not y for x, y in zip(it, v.items)) else v
            return v
        for f in st.frames.values():
            for k, v in f.items():
                if type(v) in (A, Tup, V):
                    f[k] = sub(v)
        for k, v in list(st.glob.items()):
            if type(v) in (A, Tup, V):
                st.glob[k] = sub(v)
        for hid, o in list(st.heap.items()):
            if type(o) is Tab:
                for c, v in o.cols.items():
                    if type(v) is A and v.oid == oid:
                        st.heap[hid] = Tab(o.space, o.base, dict(o.cols, **{c: new}))
                        break
            elif type(o) is Lst and o.items:
                if any(type(v) in (A, Tup, V) for v in o.items):
                    st.heap[hid] = Lst([sub(v) for v in o.items], o.uni, o.tags)
            elif type(o) is Obj and o.cls not in ('<tree>', '<interp>') and any((type(v) is A and v.oid == oid) or (oid < 0 and type(v) is V and v.vn == -oid - 1) for v in o.attrs.values()):
                st.heap[hid] = Obj(o.cls, {k: sub(v) for k, v in o.attrs.items()}, o.vn)

    def store(self, st, mod, fr, t, v, node):
        base = self.res(st, self.ev(st, mod, fr, t.value))
        ix = self.index(st, mod, fr, t.slice)
        self.store_to(st, base, ix, v, t, node)

    def store_to(self, st, base, ix, v, t, node):
        v = self.res(st, v)
        o = self.get(st, base)
        if type(o) is Tab:
            if type(ix) is C and isinstance(ix.val, str):
                self.setcol(st, base, ix.val, v, t)
            elif type(ix) is V or type(ix) is Phi:
                # some column
                if type(v) is A and v.axes and o.space is not None:
                    self.relate(st, o.space, v.axes[0], node, 'column', what='column of a table')
                elif o.space is None and type(v) is A:
                    st.heap[base.id] = Tab(v.axes[0], o.base, o.cols)
            return
        if type(o) is Lst:
            if o.items is not None and type(ix) is C and isinstance(ix.val, int) and -len(o.items) <= ix.val < len(o.items):
                it = list(o.items)
                it[ix.val] = v
                st.heap[base.id] = Lst(it, None, o.tags)
            else:
                st.heap[base.id] = Lst(None)
            return
        if type(o) is Dct:
            if type(ix) is C and isinstance(ix.val, (str, int)):
                st.heap[base.id] = Dct(dict(o.items, **{ix.val: v}) if isinstance(ix.val, str) else dict(list(o.items.items()) + [(ix.val, v)]), o.uni, o.exact)
            else:
                u = v if o.uni is None else (o.uni if o.uni == v else V(h('phi', o.uni.vn, v.vn)))
                st.heap[base.id] = Dct(o.items, u, False)
            return
        if type(base) is V and type(ix) is A and self.paramlike(base.vn):
            self.known(st, base)
            base = self.res(st, base)
        if type(base) is A:
            whole = isinstance(ix, slice) and ix == slice(None)
            if whole:
                reg = base
            else:
                reg = self.take(st, base, ix, t, None)
            if type(reg) is A and type(v) is A and len(reg.axes) == len(v.axes):
                for a, b in zip(reg.axes, v.axes):
                    self.relate(st, a, b, node, 'masked store', what='values stored into a selection')
            e = self.store_elem(base, reg, v, whole)
            n = A(base.axes, v.vn if whole and type(v) is A else h('st', base.vn, self.ixvn(ix), v.vn), e, base.oid)
            self.update(st, base, n)

    def store_elem(self, base, reg, v, whole):
        e = base.elem
        if whole and type(v) is A:
            return v.elem
        if type(v) is A and v.elem and v.elem[0] == 'idx':
            neg = bool(e and ((e[0] == 'fill' and e[1] is not None and e[1] < 0) or (e[0] == 'idx' and e[3])))
            if e is None or e[0] in ('fill', 'idx'):
                return ('idx', v.elem[1], False, neg or v.elem[3])
            return None
        if type(v) is N and v.kind == 'idx':
            neg = bool(e and ((e[0] == 'fill' and e[1] is not None and e[1] < 0) or (e[0] == 'idx' and e[3])))
            return ('idx', v.space, False, neg) if e is None or e[0] in ('fill', 'idx') else None
        if type(v) is C and isinstance(v.val, (int, float)):
            if e and e[0] == 'idx':
                return e[:3] + (e[3] or v.val < 0,) if v.val < 0 else None
            if whole:
                return ('fill', v.val)
        return None if not (e and e[0] == 'idx' and type(v) is C) else e

    def ixvn(self, ix):
        if isinstance(ix, slice):
            return h('slice', str(ix.start), str(ix.stop), str(ix.step))
        if isinstance(ix, tuple):
            return h('ixt', *[self.ixvn(x) for x in ix])
        return ix.vn if hasattr(ix, 'vn') else h('ix', str(ix))

    # ------------------------------------------------------------------ tables
    def col0(self, o, name):
        return A([o.space], h('col', o.base if o.base is not None else -1, name))

    def getcol(self, st, ref, name):
        o = st.heap[ref.id]
        if o.space is None:
            return V(h('item', ref.vn, name))
        if name not in o.cols:
            a = self.col0(o, name)
            st.heap[ref.id] = Tab(o.space, o.base, dict(o.cols, **{name: a}))
            return a
        return o.cols[name]

    def setcol(self, st, ref, name, v, node):
        o = st.heap[ref.id]
        lv = self.get(st, v)
        if type(lv) is Lst:
            v = self.list_arr(st, lv, node) or v
        if type(v) is A and v.axes:
            s = o.space
            if s is None:
                s = v.axes[0]
            else:
                self.relate(st, s, v.axes[0], node, 'column', what='column of a table')
            v = A((s,) + v.axes[1:], v.vn, v.elem)
            st.heap[ref.id] = Tab(s, o.base, dict(o.cols, **{name: v}))
        elif o.space is not None:
            a = A([o.space], h('col', v.vn, name), ('fill', v.val) if type(v) is C and isinstance(v.val, (int, float)) else None)
            st.heap[ref.id] = Tab(o.space, o.base, dict(o.cols, **{name: a}))

    def retab(self, st, o, space, key, gather=None):
        """rows of a table selected (key None) or gathered by an index with value number key"""
        cols = {}
        for k, a in o.cols.items():
            if type(a) is A:
                cols[k] = A((space,) + a.axes[1:], a.vn if key is None else h('gather', a.vn, key), a.elem)
        return Tab(space, o.base if key is None else h('gather', -1 if o.base is None else o.base, key), cols)

    # ------------------------------------------------------------------ indexing
    def index(self, st, mod, fr, e):
        if isinstance(e, ast.Slice):
            f = lambda x: None if x is None else self.ev(st, mod, fr, x)
            return slice(f(e.lower), f(e.upper), f(e.step))
        if isinstance(e, ast.Tuple):
            return tuple(self.index(st, mod, fr, x) for x in e.elts)
        if isinstance(e, ast.Constant) and e.value is Ellipsis:
            return Ellipsis
        v = self.res(st, self.ev(st, mod, fr, e))
        o = self.get(st, v)
        if type(o) is Lst:
            if o.items is not None and o.items and all(type(x) is C and isinstance(x.val, str) for x in o.items):
                return ('strs',) + tuple(x.val for x in o.items)
            a = self.list_arr(st, o, e)
            if a is not None:
                return a
        if type(v) is Tup and len(v.items) == 1:
            return v.items[0] if type(v.items[0]) is A else v
        if type(v) is Tup and all(type(x) is A for x in v.items):
            return tuple(v.items)
        return v

    def list_arr(self, st, o, node):
        if o.uni:
            e = o.uni[1]
            return A([o.uni[0]], h('listof', e.vn), ('idx', e.space, False, False) if type(e) is N and e.kind == 'idx' and e.flag is None else (('mask', frozenset([e.vn])) if isbool(e) else None))
        if o.items is None:
            return None
        if not o.items:
            return None
        if all(type(x) is C and isinstance(x.val, (int, float, str)) for x in o.items):
            return A([fix(len(o.items))], h('lit', *[x.vn for x in o.items]))
        if any(type(x) in (A,) for x in o.items):
            return None
        if o.tags and len(o.tags) == len(o.items):
            root = ('list', o.tags)
            e = None
            if all(type(x) is N and x.kind == 'idx' and x.flag is None for x in o.items) and len(set(x.space for x in o.items)) == 1:
                e = ('idx', o.items[0].space, False, False)
            return A([('s', root, ())], h('lst', *[x.vn for x in o.items]), e)
        if all(type(x) is N and x.kind == 'idx' and x.flag is None for x in o.items) and len(set(x.space for x in o.items)) == 1:
            return A([fix(len(o.items))], h('lst', *[x.vn for x in o.items]), ('idx', o.items[0].space, False, False))
        return None

    def cutslice(self, st, s, sl):
        def cv(x):
            if x is None:
                return None
            if type(x) is C and (x.val is None or isinstance(x.val, int)):
                return x.val
            return x
        a, b, c = cv(sl.start), cv(sl.stop), cv(sl.step)
        if a is None and b is None and c is None:
            return s
        if c == -1 and a is None and b is None:
            return addop(s, ('perm', h('rev')))
        if c in (None, 1) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
            a0 = a or 0
            if a0 >= 0 and (b is None or b < 0):
                return addop(s, ('cut', a0 + (-b if b else 0)))
        return addop(s, ('slice', self.ixvn(sl) if all(x is None or isinstance(x, int) for x in (a, b, c)) else h('slice', *[(-1 if x is None else (x if isinstance(x, int) else x.vn)) for x in (a, b, c)])))

    def as_arr(self, v):
        return A([sp('par', v.vn)], v.vn)

    def take(self, st, base, ix, node, want, mod=None):
        """base[ix]"""
        base = self.res(st, base)
        o = self.get(st, base)
        if isinstance(ix, tuple) and ix and ix[0] == 'strs':
            if type(o) is Tab:
                return self.new(st, Tab(o.space, o.base, {k: v for k, v in o.cols.items() if k in ix[1:]}))
            return V(h('cols', base.vn, *ix[1:]))
        if type(o) is Tab:
            if type(ix) is C and isinstance(ix.val, str):
                return self.getcol(st, base, ix.val)
            if o.space is None:
                return V(h('item', base.vn, self.ixvn(ix) if ix is not Ellipsis else 0))
            if isinstance(ix, slice):
                s = self.cutslice(st, o.space, ix)
                return self.new(st, self.retab(st, o, s, None))
            if type(ix) is A:
                s, key = self.gather(st, o.space, ix, node)
                if s is not None:
                    return self.new(st, self.retab(st, o, s, key))
                return V(h('item', base.vn, ix.vn))
            if type(ix) is N and ix.kind == 'idx':
                self.idxcheck(st, o.space, ix.space, node, ix.flag, base=o.base)
            return V(h('item', base.vn, self.ixvn(ix) if ix is not Ellipsis else 0))
        if type(o) is Lst:
            if type(ix) is C and isinstance(ix.val, int) and o.items is not None and -len(o.items) <= ix.val < len(o.items):
                return o.items[ix.val]
            if o.uni and not isinstance(ix, (slice, tuple)):
                if type(ix) is N and ix.kind == 'idx':
                    self.idxcheck(st, o.uni[0], ix.space, node, ix.flag)
                return o.uni[1]
            if isinstance(ix, slice) and o.items is not None:
                try:
                    g = lambda x: None if x is None else x.val
                    sl = slice(g(ix.start), g(ix.stop), g(ix.step))
                    return self.new(st, Lst(o.items[sl], None, o.tags[sl]))
                except AttributeError:
                    pass
            if o.items:
                x = o.items[0]
                if all(type(y) is type(x) for y in o.items) and type(x) is N and all(y.kind == x.kind and y.space == x.space for y in o.items):
                    return N(x.kind, x.space, h('item', base.vn, self.ixvn(ix)), x.flag)
            return V(h('item', base.vn, self.ixvn(ix) if ix is not Ellipsis else 0))
        if type(o) is Dct:
            if type(ix) is C and ix.val in o.items:
                return o.items[ix.val]
            if o.uni is not None:
                u = o.uni
                if type(u) is N:
                    return N(u.kind, u.space, h('item', u.vn, self.ixvn(ix)), u.flag)
                return u
            return V(h('item', base.vn, self.ixvn(ix) if ix is not Ellipsis else 0))
        if type(base) is Tup:
            if type(ix) is C and isinstance(ix.val, int) and -len(base.items) <= ix.val < len(base.items):
                return base.items[ix.val]
            if isinstance(ix, slice):
                try:
                    g = lambda x: None if x is None else x.val
                    return Tup(base.items[slice(g(ix.start), g(ix.stop), g(ix.step))])
                except AttributeError:
                    pass
            return V(h('item', base.vn, self.ixvn(ix)))
        if type(base) is V:
            if type(ix) is A and self.paramlike(base.vn) and len(ix.axes) == 1:
                self.known(st, base)
                base = self.res(st, base)
            elif type(ix) is A and len(ix.axes) == 1 and ix.elem is not None:
                s = addop(ix.axes[0], ('sel', ix.elem[1])) if ix.elem[0] == 'mask' else ix.axes[0]
                return A([s], h('gather', base.vn, ix.vn))
            elif type(ix) is C and isinstance(ix.val, str):
                return V(h('item', base.vn, ix.val))
            else:
                return V(h('item', base.vn, self.ixvn(ix) if ix is not Ellipsis else 0))
        if type(base) is Ext and base.name in ('numpy.c_',) and isinstance(ix, tuple):
            xs = [x for x in ix if type(x) is A and len(x.axes) == 1]
            if xs and len(xs) == len(ix):
                self.align(st, xs, node, 'stack')
                return A([xs[0].axes[0], fix(len(xs))], h('c_', *[x.vn for x in xs]))
        if type(base) is not A:
            return V(h('item', base.vn, self.ixvn(ix) if ix is not Ellipsis else 0))
        ixs = ix if isinstance(ix, tuple) else (ix,)
        if Ellipsis in [x for x in ixs if not isinstance(x, (A, V, C, N, slice))]:
            return V(h('item', base.vn, 0))
        axes, ax = [], list(base.axes)
        vn = base.vn
        nadv = sum(1 for x in ixs if type(x) in (A,))
        first = True
        ident = True
        elem = base.elem
        for k, x in enumerate(ixs):
            if type(x) is C and x.val is None:
                axes.append(fix(1))
                continue
            if not ax:
                return V(h('item', base.vn, self.ixvn(ix)))
            s = ax.pop(0)
            if isinstance(x, slice):
                t = self.cutslice(st, s, x)
                if t != s and t[0] == 's' and t[2] and t[2][-1][0] in ('cut', 'slice'):
                    vn = h('cut', vn, self.ixvn(x)) if False else vn
                axes.append(t)
            elif type(x) is A:
                if len(x.axes) != 1:
                    if x.elem and x.elem[0] == 'mask':
                        return V(h('item', base.vn, x.vn))
                    if x.elem and x.elem[0] == 'idx':
                        self.idxcheck(st, s, x.elem[1], node, None)
                    axes += list(x.axes)
                    vn = h('gather', vn, x.vn)
                    continue
                t, key = self.gather(st, s, x, node)
                if t is None:
                    return V(h('item', base.vn, x.vn))
                if nadv > 1:
                    if first:
                        axes.append(t)
                        adv = t
                    else:
                        self.relate(st, adv, t, node, 'paired indices', what='index arrays used together')
                    first = False
                    vn = h('gather', vn, x.vn)
                    elem = None
                else:
                    axes.append(t)
                    if key is not None:
                        vn = h('gather', vn, key)
            elif type(x) is N and x.kind == 'idx':
                self.idxcheck(st, s, x.space, node, x.flag, vn=x.vn)
                vn = h('row', vn, x.vn)
            elif type(x) in (C, V, N):
                if type(x) is V and not isinstance(ix, tuple) and not scalarlike(x):
                    # could be an index array
                    return V(h('item', base.vn, x.vn))
                vn = h('row', vn, x.vn)
            else:
                return V(h('item', base.vn, h('x')))
        axes += ax
        if not axes:
            if elem and elem[0] == 'idx':
                return N('idx', elem[1], vn, None)
            return V(vn)
        if elem and elem[0] == 'mask' and (len(base.axes) > 1 or not any(type(x) in (A,) or isinstance(x, slice) for x in ixs)):
            elem = ('mask', frozenset([vn]))
        if elem and elem[0] == 'idx' and elem[3] and any(type(x) is A and x.elem and x.elem[0] in ('mask', 'idx') for x in ixs):
            elem = elem[:3] + (False,)
        if elem and elem[0] == 'idx' and elem[2] and len(base.axes) == 1 and len(axes) == 1:
            # identity index: gathered by a non identity index, it is a general one
            xa = ixs[0]
            if type(xa) is A and xa.elem and xa.elem[0] == 'idx' and not xa.elem[2]:
                elem = elem[:2] + (False,) + elem[3:]
            elif type(xa) is A and xa.elem is None:
                elem = elem[:2] + (False,) + elem[3:]
        return A(axes, vn, elem)

    def idxcheck(self, st, space, target, node, flag, base=None, vn=None):
        if flag == 'weak':
            cs = self.canon(st, space)
            a, b = noperm(cs), noperm(self.canon(st, target))
            if a == b:
                if vn is not None and not conds(cs):
                    was = self.walk.setdefault((vn, self.ctx, a), cs)
                    if was != cs:
                        return self.report(node, 'index', False, 'index: one counter walks rows %s and rows %s' % (show(was), show(cs)))
                return self.report(node, 'index', True)
            # a counter over some length: only compared with rows of the same origin
            if a[0] == 's' and b[0] == 's' and a[1] == b[1] and not isfix(a):
                self.relate(st, a, b, node, 'index', idx=True, what='counter over the length of other rows')
            return
        self.relate(st, space, target, node, 'index', idx=True, what='index')

    def gather(self, st, s, x, node):
        """rows of space s picked by the 1-d array x -> (space, value key or None when rows keep their identity)"""
        e = x.elem
        if e is not None and e[0] == 'mask':
            self.relate(st, s, x.axes[0], node, 'mask', idx=True, what='mask')
            return addop(s, ('sel', e[1])), None
        if e is not None and e[0] == 'idx':
            self.idxcheck(st, s, e[1], node, None)
            if e[3]:
                self.report(node, 'unmatched', False, 'index array holds -1 (or out of range values) for unmatched rows and is used without selecting the matched ones')
            else:
                self.report(node, 'unmatched', True)
            t = x.axes[0]
            if e[2]:
                return t, None
            return t, x.vn
        if isfix(x.axes[0]):
            return addop(s, ('pick', x.vn)) if False else sp('pick', x.vn), x.vn
        return sp('by', x.vn, x.axes[0]), x.vn

    def rowof(self, a, iv):
        """one row of an array"""
        vn = h('row', a.vn, iv.vn)
        if len(a.axes) > 1:
            return A(a.axes[1:], vn, a.elem if a.elem and a.elem[0] == 'idx' else None)
        if a.elem and a.elem[0] == 'idx':
            return N('idx', a.elem[1], vn, None)
        return V(vn)

    # ------------------------------------------------------------------ operations
    def align(self, st, xs, node, kind):
        """1-d arrays that must describe the same rows"""
        for x in xs[1:]:
            if x.axes and xs[0].axes:
                self.relate(st, xs[0].axes[0], x.axes[0], node, kind, what='arrays used together')

    def elementwise(self, st, op, vals, node, elem=None, vn=None):
        vals = [self.res(st, v) for v in vals]
        vals = [self.list_arr(st, self.get(st, v), node) or v if type(self.get(st, v)) is Lst else v for v in vals]
        arrs = [v for v in vals if type(v) is A]
        vns = [v.vn for v in vals]
        if op in COMM:
            vns = sorted(vns)
        vn = vn if vn is not None else h(op, *vns)
        if not arrs:
            return V(vn)
        nd = max(len(a.axes) for a in arrs)
        axes = []
        for k in range(nd):
            cur = None
            for a in arrs:
                j = k - (nd - len(a.axes))
                if j < 0:
                    continue
                x = a.axes[j]
                if cur is None or (isfix(cur) and not isfix(x)):
                    cur, cpos = x, positional(a)
                elif not isfix(x):
                    if cpos != positional(a) and noperm(self.canon(st, cur)) == noperm(self.canon(st, x)):
                        cur, cpos = (x if cpos else cur), False
                        continue
                    self.relate(st, cur, x, node, 'row by row', what='combined row by row')
            axes.append(cur)
        return A(axes, vn, elem)

    def binop(self, st, op, a, b, node):
        a, b = self.res(st, a), self.res(st, b)
        oa, ob = self.get(st, a), self.get(st, b)
        if type(a) is C and type(b) is C:
            try:
                r = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Div': lambda x, y: x / y, 'Mod': lambda x, y: x % y,
                     'FloorDiv': lambda x, y: x // y}[op](a.val, b.val)
                return C(r)
            except Exception:
                return V(h(op, a.vn, b.vn))
        if op == 'Add' and type(a) is Tup and type(b) is Tup:
            return Tup(a.items + b.items)
        if op == 'Add' and type(oa) is Lst and type(ob) is Lst:
            if oa.items is not None and ob.items is not None:
                return self.new(st, Lst(oa.items + ob.items))
            return self.new(st, Lst(None))
        if op == 'Mult' and (type(oa) is Lst or type(ob) is Lst):
            l, n = (oa, b) if type(oa) is Lst else (ob, a)
            if l.items and len(l.items) == 1 and type(n) is N and n.kind == 'len':
                return self.new(st, Lst(None, (n.space, l.items[0])))
            return self.new(st, Lst(None))
        if op == 'Div' and type(a) is N and type(b) is N and a.kind == 'sum' and b.kind == 'len':
            self.relate(st, a.space, b.space, node, 'mean', what='sum over one set of rows divided by the number of another')
            return V(h(op, a.vn, b.vn))
        if type(a) is N and a.kind == 'len' and type(b) is C and isinstance(b.val, int) and op in ('Sub', 'Add'):
            k = b.val if op == 'Sub' else -b.val
            if k > 0:
                return N('len', addop(a.space, ('cut', k)), h(op, a.vn, b.vn), None)
            return V(h(op, a.vn, b.vn))
        if type(a) is N and type(b) is N and a.kind == b.kind == 'sum' and op in ('Add', 'Sub') and a.space == b.space:
            return N('sum', a.space, h(op, a.vn, b.vn))
        if type(a) is N and a.kind == 'sum' and op in ('Mult',) and type(b) in (C, V):
            return N('sum', a.space, h(op, a.vn, b.vn))
        if op == 'MatMult':
            return self.dot(st, a, b, node) or V(h(op, a.vn, b.vn))
        elem = None
        ma, mb = ismask(a), ismask(b)
        if op in ('BitAnd',) or (op == 'Mult' and ma and mb):
            if ma and mb:
                at = a.elem[1] | b.elem[1]
                return self.elementwise(st, op, [a, b], node, ('mask', at), vn=h('m', *sorted(at)) if len(at) > 1 else None)
            if ma or mb:
                m = a if ma else b
                o = b if ma else a
                at = m.elem[1] | frozenset([o.vn])
                return self.elementwise(st, op, [a, b], node, ('mask', at), vn=h('m', *sorted(at)))
        if op in ('BitOr', 'BitXor') and (ma or mb):
            r = self.elementwise(st, op, [a, b], node)
            return r.but(elem=('mask', frozenset([r.vn]))) if type(r) is A else r
        if (ma or mb or isw(a) or isw(b)) and op in ('Mult', 'Div', 'Add', 'Sub'):
            elem = ('wt',)
        for x, y in ((a, b), (b, a)):
            if type(x) is A and x.elem and x.elem[0] == 'fill' and type(y) is C and isinstance(y.val, (int, float)) and x.elem[1] is not None:
                try:
                    p, q = (x.elem[1], y.val) if x is a else (y.val, x.elem[1])
                    elem = ('fill', {'Add': p + q, 'Sub': p - q, 'Mult': p * q}[op])
                except KeyError:
                    pass
        return self.elementwise(st, op, [a, b], node, elem)

    def compare(self, st, op, a, b, node, raw):
        if op in ('is', 'isnot'):
            an, bn = a, b
            if type(bn) is C and bn.val is None:
                if type(an) is Phi:
                    x = an
                    if x.c in st.assume:
                        x = x.a if st.assume[x.c] else x.b
                        return self.compare(st, op, x, b, node, raw)
                    na = type(x.a) is C and x.a.val is None
                    nb = type(x.b) is C and x.b.val is None
                    if na != nb and type(x.a) is not Phi and type(x.b) is not Phi:
                        # None exactly when the condition holds
                        isn = x.c if na else h('not', x.c)
                        v = V(isn)
                        return v if op == 'is' else V(neg(isn))
                if type(an) is C:
                    r = (an.val is None) == (op == 'is')
                    return C(r)
                if type(an) in (A, Ref, Tup, N, Fun, Cls):
                    return C(op == 'isnot')
                if type(an) is V and an.vn in self.nonnull:
                    return C(op == 'isnot')
            v = h('cmp', 'is', an.vn, bn.vn)
            return V(v if op == 'is' else neg(v))
        a, b = self.res(st, a), self.res(st, b)
        if op in ('in', 'notin'):
            o = self.get(st, b)
            r = None
            if type(a) is C:
                vals = None
                if type(o) is Lst and o.items is not None and all(type(x) is C for x in o.items):
                    vals = [x.val for x in o.items]
                elif type(b) is Tup and all(type(x) is C for x in b.items):
                    vals = [x.val for x in b.items]
                elif type(o) is Dct and o.exact and o.uni is None:
                    vals = list(o.items)
                elif type(b) is C and isinstance(b.val, str) and isinstance(a.val, str):
                    vals = b.val
                if vals is not None and (not isinstance(vals, str) or isinstance(a.val, str)):
                    return C((a.val in vals) == (op == 'in'))
            v = h('in', a.vn, b.vn)
            return V(v if op == 'in' else neg(v))
        if type(a) is C and type(b) is C:
            try:
                return C({'==': a.val == b.val, '!=': a.val != b.val}[op] if op in ('==', '!=') else {'<': a.val < b.val, '<=': a.val <= b.val, '>': a.val > b.val, '>=': a.val >= b.val}[op])
            except Exception:
                pass
        x, y, o = a, b, op
        if o in SWAP:
            x, y, o = b, a, SWAP[o]
        if o == '!=' and type(a) is not A and type(b) is not A:
            return V(neg(h('cmp', '==', *sorted((x.vn, y.vn)))))
        vns = sorted((x.vn, y.vn)) if o in COMM else (x.vn, y.vn)
        vn = h('cmp', o, *vns)
        r = self.elementwise(st, 'cmp', [x, y], node, None, vn=vn)
        if type(r) is A:
            return r.but(elem=('mask', frozenset([vn])))
        return r

    # ------------------------------------------------------------------ expressions
    def ev(self, st, mod, fr, e, raw=False):
        self.steps += 1
        if self.steps > MAXSTEP:
            raise Budget()
        E = lambda x: self.ev(st, mod, fr, x)
        t = type(e)
        if t is ast.Constant:
            return C(e.value)
        if t is ast.Name:
            v = self.name(st, mod, fr, e.id)
            if type(v) is Phi and v.c in st.assume:
                v = v.a if st.assume[v.c] else v.b
            return v
        if t is ast.Attribute:
            return self.attr(st, mod, fr, E(e.value), e.attr, e)
        if t is ast.Subscript:
            b = E(e.value)
            return self.take(st, b, self.index(st, mod, fr, e.slice), e, None)
        if t is ast.BinOp:
            return self.binop(st, type(e.op).__name__, E(e.left), E(e.right), e)
        if t is ast.UnaryOp:
            v = self.res(st, E(e.operand))
            if isinstance(e.op, ast.Not):
                if type(v) is C:
                    return C(not v.val)
                return V(neg(v.vn))
            if isinstance(e.op, ast.Invert):
                if type(v) is A:
                    at = v.elem[1] if ismask(v) else frozenset([v.vn])
                    vn = neg(list(at)[0]) if len(at) == 1 else h('not', h('m', *sorted(at)))
                    return A(v.axes, vn, ('mask', frozenset([vn])))
                return V(neg(v.vn))
            if type(v) is C and isinstance(v.val, (int, float)):
                return C(-v.val if isinstance(e.op, ast.USub) else v.val)
            if type(v) is A:
                el = ('fill', -v.elem[1]) if v.elem and v.elem[0] == 'fill' and isinstance(e.op, ast.USub) and v.elem[1] is not None else None
                return A(v.axes, h('neg', v.vn) if isinstance(e.op, ast.USub) else v.vn, el if isinstance(e.op, ast.USub) else v.elem)
            return V(h('neg', v.vn))
        if t is ast.BoolOp:
            vs = []
            isand = isinstance(e.op, ast.And)
            for x in e.values:
                v = self.ev(st, mod, fr, x, raw=True)
                tr = self.truth(v)
                if tr is not None:
                    if tr != isand:
                        return v if not vs else V(h('and' if isand else 'or', *[y.vn for y in vs] + [v.vn])) if not isinstance(v, C) else C(tr) if not vs else C(tr)
                    continue
                vs.append(v)
            if not vs:
                return C(isand)
            if len(vs) == 1:
                return vs[0]
            return V(h('and' if isand else 'or', *[v.vn for v in vs]))
        if t is ast.Compare:
            a = self.ev(st, mod, fr, e.left, raw=True)
            out = None
            for op, c in zip(e.ops, e.comparators):
                b = self.ev(st, mod, fr, c, raw=True)
                r = self.compare(st, CMP[type(op)], a, b, e, raw)
                out = r if out is None else V(h('and', out.vn, r.vn))
                a = b
            return out
        if t is ast.Call:
            return self.callexpr(st, mod, fr, e)
        if t is ast.IfExp:
            vn, tr = self.branch(st, mod, fr, e.test)
            if tr is not None:
                return E(e.body if tr else e.orelse)
            a, b = E(e.body), E(e.orelse)
            st.heap2 = st.heap
            r = self.jv(st, vn, a, b) if _REV[vn][0] != 'not' else self.jv(st, _REV[vn][1], b, a)
            del st.heap2
            return r
        if t is ast.Tuple:
            return Tup([E(x.value if isinstance(x, ast.Starred) else x) for x in e.elts])
        if t in (ast.List, ast.Set):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.new(st, Lst(None))
            return self.new(st, Lst([E(x) for x in e.elts]))
        if t is ast.Dict:
            it, ok = {}, True
            for k, v in zip(e.keys, e.values):
                kv = E(k) if k is not None else None
                vv = E(v)
                if type(kv) is C and isinstance(kv.val, (str, int)):
                    it[kv.val] = vv
                else:
                    ok = False
            return self.new(st, Dct(it, None, ok))
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            return self.comp(st, mod, fr, e)
        if t is ast.Lambda:
            return Fun(mod, e, fr)
        if t is ast.JoinedStr:
            vs = [E(x.value) for x in e.values if isinstance(x, ast.FormattedValue)]
            return V(h('fstr', e.lineno, *[v.vn for v in vs]))
        if t is ast.NamedExpr:
            v = E(e.value)
            self.assign(st, mod, fr, e.target, v, e)
            return v
        if t is ast.Starred:
            return E(e.value)
        return V(h('expr', mod.name, getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0)))

    def comp(self, st, mod, fr, e):
        self.nid += 1
        fid = self.nid
        st.frames[fid] = {'<parent>': fr}
        try:
            return self.comp_(st, mod, fid, e)
        finally:
            st.frames.pop(fid, None)

    def comp_(self, st, mod, fid, e):
        gens = e.generators
        g = gens[0]
        src = self.res(st, self.ev(st, mod, fid, g.iter))
        its = self.items(st, src, e, g.iter)
        isd = isinstance(e, ast.DictComp)

        def rest(k):
            """evaluate the remaining generators and the element; None when filtered out for certain"""
            fs = []
            for c in gens[k].ifs:
                v = self.ev(st, mod, fid, c, raw=True)
                tr = self.truth(v)
                if tr is False:
                    return None, fs
                if tr is None:
                    fs.append(v.vn)
            if k + 1 < len(gens):
                i2 = self.items(st, self.ev(st, mod, fid, gens[k + 1].iter), e, gens[k + 1].iter)
                self.assign(st, mod, fid, gens[k + 1].target, (i2[0] if i2 else V(h('x'))) if isinstance(i2, list) else i2(st, 0), e)
                v, f2 = rest(k + 1)
                return (v, ['nested'])
            if isd:
                return (self.ev(st, mod, fid, e.key), self.ev(st, mod, fid, e.value)), fs
            return self.ev(st, mod, fid, e.elt), fs
        if isinstance(its, list):
            out, exact = [], len(gens) == 1
            for x in its:
                self.assign(st, mod, fid, g.target, x, e)
                v, fs = rest(0)
                if v is None:
                    continue
                if fs:
                    exact = False
                out.append(v)
            if isd:
                if exact and all(type(k) is C for k, _ in out):
                    return self.new(st, Dct({k.val: v for k, v in out}))
                return self.new(st, Dct({}, out[0][1] if out and all(o[1] == out[0][1] for o in out) else None, False))
            return self.new(st, Lst(out if exact else None))
        self.assign(st, mod, fid, g.target, its(st, 0), e)
        v, fs = rest(0)
        if v is None:
            return self.new(st, Lst([]) if not isd else Dct())
        spc = self.iter_space(st, src)
        if isd:
            return self.new(st, Dct({}, v[1], False))
        if spc is None or 'nested' in fs:
            return self.new(st, Lst(None))
        if type(v) is N and v.kind == 'idx' and v.flag is None:
            self.catalogues(st, spc, v.space)
        if fs:
            # a filter on the row: selection by that condition
            spc = addop(spc, ('sel', frozenset(fs)))
        return self.new(st, Lst(None, (spc, v)))

    def iter_space(self, st, src):
        if type(src) is Ext and src.name == '<enum>':
            return self.iter_space(st, self.res(st, src.recv))
        if type(src) is Ext and src.name == '<zip>':
            for p in src.recv.items:
                s = self.iter_space(st, self.res(st, p))
                if s is not None:
                    return s
            return None
        if type(src) is Ext and src.name == '<range>' and type(src.recv) is N and src.recv.kind == 'len':
            return src.recv.space
        return self.space_of(st, src)

    # ------------------------------------------------------------------ attributes
    def attr(self, st, mod, fr, b, name, node):
        b = self.res(st, b)
        o = self.get(st, b)
        if type(b) is Ext and b.recv is None:
            return self.dotted(st, b.name + '.' + name)
        if type(o) is Obj:
            if name in o.attrs:
                return o.attrs[name]
            if o.cls is not None and type(o.cls) is Cls:
                q = S.qual(o.cls.node) + '.' + name
                if q in o.cls.mod.funcs:
                    return self.bind(o.cls.mod, o.cls.mod.funcs[q], b, o.cls)
                for s in o.cls.node.body:
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets) and isinstance(s.value, ast.Constant):
                        return C(s.value.value)
            if o.cls == '<tree>':
                return Ext('<tree>.' + name, b)
            return V(h('attr', o.vn if o.vn is not None else b.vn, name))
        if type(b) is Cls:
            q = S.qual(b.node) + '.' + name
            if q in b.mod.funcs:
                return self.bind(b.mod, b.mod.funcs[q], None, b)
            return V(h('attr', b.vn, name))
        if type(b) is A:
            if name == 'T':
                return A(b.axes[::-1], h('T', b.vn) if len(b.axes) > 1 else b.vn, b.elem if len(b.axes) == 1 else None)
            if name == 'size':
                if len(b.axes) == 1:
                    return N('len', b.axes[0], h('len', str(b.axes[0])))
                return V(h('size', b.vn))
            if name == 'shape':
                return Ext('<shape>', Tup([V(h('len', str(a))) for a in b.axes]) if False else b)
            if name in ('data', 'value', 'values', 'mask', 'quantity', 'real'):
                return b if name != 'mask' else V(h('attr', b.vn, name))
            if name in ('dtype', 'ndim', 'unit'):
                return V(h('attr', b.vn, name))
            return Ext('<arr>.' + name, b)
        if type(o) is Tab:
            if name in ('dtype', 'colnames', 'meta', 'columns', 'names'):
                return V(h('attr', b.vn, name))
            if name == 'size':
                return N('len', o.space, h('len', str(o.space))) if o.space is not None else V(h('size', b.vn))
            return Ext('<tab>.' + name, b)
        if type(o) is Lst:
            return Ext('<list>.' + name, b)
        if type(o) is Dct:
            return Ext('<dict>.' + name, b)
        if type(b) is V:
            if name == 'size' and self.paramlike(b.vn):
                return N('len', sp('par', b.vn), h('len', str(sp('par', b.vn))))
            if name == 'shape' and self.paramlike(b.vn):
                return Ext('<shape>', b)
            if name in ('data', 'T', 'value'):
                k = _REV[b.vn]
                if name == 'T':
                    return V(k[1] if k[0] == 'T' else h('T', b.vn))
                return V(b.vn)
            return Ext('<v>.' + name, b)
        if type(b) is C:
            return Ext('<const>.' + name, b)
        return Ext('<v>.' + name, V(b.vn))

    def bind(self, mod, node, obj, cls):
        deco = {d.id for d in node.decorator_list if isinstance(d, ast.Name)}
        if 'staticmethod' in deco:
            return Fun(mod, node)
        if 'classmethod' in deco:
            return Fun(mod, node, None, cls)
        if 'property' in deco:
            return V(h('prop', obj.vn if obj is not None else 0, node.name))
        return Fun(mod, node, None, obj)

    # ------------------------------------------------------------------ calls
    def callexpr(self, st, mod, fr, e):
        f = self.ev(st, mod, fr, e.func)
        args, star = [], False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.res(st, self.ev(st, mod, fr, a.value))
                o = self.get(st, v)
                if type(v) is Tup:
                    args += list(v.items)
                elif type(o) is Lst and o.items is not None:
                    args += list(o.items)
                else:
                    star = True
            else:
                args.append(self.ev(st, mod, fr, a))
        kw = {}
        for k in e.keywords:
            v = self.ev(st, mod, fr, k.value)
            if k.arg is None:
                star = True
            else:
                kw[k.arg] = v
        return self.call(st, mod, f, args, kw, e, star)

    def call(self, st, mod, f, args, kw, node, star=False):
        f = self.res(st, f)
        if type(f) is Fun:
            return self.callfun(st, f, args, kw, node, star)
        if type(f) is Cls:
            o = self.new(st, Obj(f, {}, h('new', f.vn, node.lineno, node.col_offset, *map(str, self.iters))))
            q = S.qual(f.node) + '.__init__'
            if q in f.mod.funcs and not star:
                self.callfun(st, Fun(f.mod, f.mod.funcs[q], None, o), args, kw, node, star)
            return o
        if type(f) is Ext:
            r = self.ext(st, mod, f, args, kw, node)
            if r is not None:
                return r
            return V(h('call', f.name, f.recv.vn if f.recv is not None else -1, *([a.vn for a in args] + [x for k in sorted(kw) for x in (k, kw[k].vn)] + (self.fresh(node) if any(i in f.name for i in IMPURE) else []))))
        o = self.get(st, f)
        if type(o) is Obj and o.cls == '<interp>':
            return self.elementwise(st, 'interp', [args[0]], node, None, vn=h('interp', o.vn, args[0].vn))
        return V(h('call', f.vn, *[a.vn for a in args]))

    def fresh(self, node):
        return [node.lineno, node.col_offset] + [str(i) for i in self.iters] + list(self.ctx)

    def callfun(self, st, f, args, kw, node, star):
        if self.depth > MAXDEPTH or any(fn is f.node for _, fn in self.stack[-12:]) or star:
            return V(h('call', f.vn, *([a.vn for a in args] + [x for k in sorted(kw) for x in (k, kw[k].vn)])))
        n = f.node.args
        pos = [a.arg for a in n.posonlyargs + n.args]
        allp = pos + [a.arg for a in n.kwonlyargs]
        vals = ([f.self] if f.self is not None else []) + list(args)
        env = {}
        if len(vals) > len(pos):
            if n.vararg is None:
                return V(h('badcall', f.vn))
            env[n.vararg.arg] = Tup(vals[len(pos):])
            vals = vals[:len(pos)]
        elif n.vararg is not None:
            env[n.vararg.arg] = Tup([])
        for p, v in zip(pos, vals):
            env[p] = v
        extra = {}
        for k, v in kw.items():
            if k in allp:
                env[k] = v
            else:
                extra[k] = v
        if n.kwarg is not None:
            env[n.kwarg.arg] = self.new(st, Dct(extra))
        dn = n.defaults
        for p, d in list(zip(pos[len(pos) - len(dn):], dn)) + [(a.arg, d) for a, d in zip(n.kwonlyargs, n.kw_defaults) if d is not None]:
            if p not in env:
                env[p] = self.ev(st, f.mod, f.frame, d) if f.frame is not None else self.defval(st, f.mod, d)
        for p in allp:
            if p not in env:
                env[p] = V(h('missing', f.vn, p))
        ev = tabparams(f.node)
        for p in ev:
            v = self.res(st, env.get(p)) if env.get(p) is not None else None
            if type(v) is V:
                env[p] = self.astab(st, v)
        plain = f.frame is None and all(type(v) in (V, C) for v in env.values())
        if plain and f.node in self.inert:
            r = V(h('call', f.vn, *([a.vn for a in args] + [x for k in sorted(kw) for x in (k, kw[k].vn)])))
            k = self.inert[f.node]
            return r if k is None else Tup([V(h('item', r.vn, i)) for i in range(k)])
        marks = (len(self.sites), st.heap.copy(), dict(st.glob), len(st.alias)) if plain else None
        val, out = self.run(st, f, env)
        if plain and out is not None and type(val) in (V, C, Tup) and flatv(val) and len(self.sites) == marks[0] and out.glob == marks[2] and len(out.alias) == marks[3] and all(out.heap.get(k) is v for k, v in marks[1].items()):
            self.inert[f.node] = len(val.items) if type(val) is Tup else None
        if out is None:
            self.dead = True
            return V(h('noreturn'))
        self.into(st, out)
        return val

    def astab(self, st, v):
        return self.new(st, Tab(sp('par', v.vn), v.vn))

    def defval(self, st, mod, d):
        try:
            return self.lit(st, ast.literal_eval(d))
        except Exception:
            if isinstance(d, ast.Name):
                return self.modname(st, mod, d.id)
            return V(h('default', mod.name, d.lineno, d.col_offset))

    # ------------------------------------------------------------------ external operations
    def lenof(self, st, v):
        v = self.res(st, v)
        o = self.get(st, v)
        if type(v) is A and v.axes:
            return N('len', v.axes[0], h('len', str(v.axes[0])))
        if type(o) is Tab and o.space is not None:
            return N('len', o.space, h('len', str(o.space)))
        if type(o) is Lst and o.items is not None:
            return N('len', ('s', ('list', o.tags), ()) if o.tags and len(o.tags) == len(o.items) else fix(len(o.items)), h('len', v.vn, len(o.items)), len(o.items))
        if type(o) is Lst and o.uni:
            return N('len', o.uni[0], h('len', str(o.uni[0])))
        if type(v) is Tup:
            return C(len(v.items))
        if type(v) is C and isinstance(v.val, str):
            return C(len(v.val))
        if type(v) is V and self.paramlike(v.vn):
            return N('len', sp('par', v.vn), h('len', str(sp('par', v.vn))))
        return V(h('len', v.vn))

    def shape_axes(self, st, v):
        """axes for zeros(v)"""
        v = self.res(st, v)
        if type(v) is N and v.kind == 'len':
            return [v.space]
        if type(v) is C and isinstance(v.val, int):
            return [fix(v.val)]
        if type(v) is Ext and v.name == '<shape>':
            a = v.recv
            if type(a) is A:
                return list(a.axes)
            if type(a) is V:
                return [sp('par', a.vn)]
            return None
        if type(v) is V:
            return [sp('n', v.vn)] if _REV[v.vn][0] not in ('par', 'attr', 'item', 'call') else None
        items = None
        if type(v) is Tup:
            items = v.items
        else:
            o = self.get(st, v)
            if type(o) is Lst and o.items is not None:
                items = o.items
        if items is not None:
            out = []
            for x in items:
                y = self.shape_axes(st, x)
                if y is None or len(y) != 1:
                    y = [sp('n', x.vn)]
                out += y
            return out
        return None

    def aslist(self, st, v):
        v = self.res(st, v)
        if type(v) is Tup:
            return list(v.items)
        o = self.get(st, v)
        if type(o) is Lst:
            return o.items
        return None

    def toarr(self, st, v, node):
        """np.array(v)"""
        v = self.res(st, v)
        if type(v) is A:
            return v.but()
        o = self.get(st, v)
        if type(o) is Tab:
            return v
        items = self.aslist(st, v)
        if items is not None and items:
            items = [self.res(st, x) for x in items]
            items = [self.list_arr(st, self.get(st, x), node) or x if type(self.get(st, x)) is Lst else x for x in items]
            if all(type(x) is A for x in items):
                if len(set(len(x.axes) for x in items)) == 1:
                    for k in range(len(items[0].axes)):
                        for x in items[1:]:
                            self.relate(st, items[0].axes[k], x.axes[k], node, 'stack', what='arrays stacked together')
                    lead = fix(len(items))
                    if type(o) is Lst and o.tags and len(o.tags) == len(items):
                        lead = ('s', ('list', o.tags), ())
                    e = items[0].elem if len(set(x.elem for x in items)) == 1 and items[0].elem and items[0].elem[0] == 'idx' else None
                    return A([lead] + list(items[0].axes), h('stack', *[x.vn for x in items]), e)
                return V(h('array', v.vn))
            if all(type(x) is V and self.paramlike(x.vn) for x in items) and len(items) > 1:
                return V(h('stackV', *[x.vn for x in items]))
        if type(o) is Lst:
            a = self.list_arr(st, o, node)
            if a is not None:
                return a
            return V(h('array', v.vn))
        if type(v) is V:
            if _REV[v.vn][0] == 'item':        # a column or element made an array is not None
                self.nonnull.add(v.vn)
            return v
        return V(h('array', v.vn))

    def ext(self, st, mod, f, args, kw, node):
        name, recv = f.name, f.recv
        last = name.split('.')[-1]
        pre = name.split('.')[0]
        args = list(args)
        a0 = self.res(st, args[0]) if args else None
        # ---- builtins
        if '.' not in name and recv is None:
            if name == 'len' and args:
                return self.lenof(st, a0)
            if name == 'range':
                n = self.res(st, args[-1] if len(args) == 1 else args[1]) if args else None
                if len(args) == 2 and type(self.res(st, args[0])) is not C:
                    # range(i+1, n): still counts rows of the same length
                    if type(n) is N and n.kind == 'len':
                        return Ext('<range>', N('len', n.space, n.vn, None))
                    return Ext('<range>', V(h('range', *[x.vn for x in args])))
                if len(args) == 2 and type(n) is C and type(self.res(st, args[0])) is C:
                    return V(h('range', *[x.vn for x in args])) if n.val - self.res(st, args[0]).val > 4 else self.new(st, Lst([C(k) for k in range(self.res(st, args[0]).val, n.val)]))
                if type(n) in (C, N, V):
                    return Ext('<range>', n)
                return Ext('<range>', V(n.vn))
            if name == 'enumerate' and a0 is not None:
                return Ext('<enum>', a0)
            if name == 'zip':
                items = [self.res(st, x) for x in args]
                sps = [(x, self.iter_space(st, x)) for x in items]
                sps = [s for x, s in sps if s is not None]
                for s in sps[1:]:
                    self.relate(st, sps[0], s, node, 'zip', what='iterated together')
                return Ext('<zip>', Tup(items))
            if name in ('list', 'tuple', 'sorted', 'reversed', 'set', 'iter'):
                if not args:
                    return self.new(st, Lst([]))
                o = self.get(st, a0)
                if name in ('list', 'tuple', 'iter'):
                    if type(a0) in (A, Tup):
                        return a0 if type(a0) is A else self.new(st, Lst(list(a0.items)))
                    if type(o) is Lst:
                        return self.new(st, Lst(list(o.items) if o.items is not None else None, o.uni, o.tags))
                    if type(a0) is Ext:
                        return a0
                return V(h(name, a0.vn))
            if name == 'dict':
                return self.new(st, Dct(dict(kw), None, not args))
            if name in ('abs', 'float', 'int', 'round', 'bool', 'str') and args:
                if type(a0) is A:
                    return self.elementwise(st, name, [a0], node)
                if type(a0) is C and name in ('int', 'float'):
                    try:
                        return C({'int': int, 'float': float}[name](a0.val))
                    except Exception:
                        return None
                if type(a0) is N and name == 'int':
                    return a0
                if type(a0) is N and name == 'float' and a0.kind in ('len', 'sum'):
                    return a0
                return V(h(name, a0.vn))
            if name == 'sum' and args:
                if type(a0) is A and len(a0.axes) == 1:
                    return self.sumof(a0)
                o = self.get(st, a0)
                if type(o) is Lst and o.uni:
                    return N('sum', o.uni[0], h('sum', o.uni[1].vn, str(o.uni[0])))
            if name in ('min', 'max') and args:
                return V(h(name, *[x.vn for x in args]))
            if name == 'isinstance':
                return V(h('isinstance', *[x.vn for x in args]))
            return None
        if last in ('exit', '_exit') and pre in ('sys', 'os'):
            self.dead = True
            return V(h('noreturn'))
        # ---- lists
        if pre == '<list>':
            o = st.heap.get(recv.id)
            tag = (node.lineno, len(self.ctx)) + self.iters
            if last == 'append' and type(o) is Lst:
                t = ('a',) + self.iters + tuple(sorted((k, v) for k, v in st.assume.items() if k not in self.outer(st)))
                if o.items is not None:
                    st.heap[recv.id] = Lst(o.items + [args[0]], None, o.tags + (t,))
                return C(None)
            if last == 'extend' and type(o) is Lst:
                st.heap[recv.id] = Lst(None)
                return C(None)
            if last in ('sort', 'reverse', 'insert', 'pop', 'remove', 'clear'):
                st.heap[recv.id] = Lst(None)
                return V(h('call', last, recv.vn, *self.fresh(node)))
            if last == 'copy':
                return self.new(st, Lst(o.items, o.uni, o.tags))
            return None
        if pre == '<dict>':
            o = st.heap.get(recv.id)
            if last == 'keys':
                return recv
            if last == 'items' and o.exact and o.uni is None:
                return Ext('<dictitems>', Tup([Tup([C(k), v]) for k, v in o.items.items()]))
            if last == 'values' and o.exact and o.uni is None:
                return Tup(o.items.values())
            if last == 'get' and args:
                if type(a0) is C and a0.val in o.items:
                    return o.items[a0.val]
            if last == 'update':
                st.heap[recv.id] = Dct(o.items, V(h('upd', recv.vn)), False)
            if last == 'copy':
                return self.new(st, Dct(dict(o.items), o.uni, o.exact))
            return None
        # ---- tables
        if pre == '<tab>':
            return self.tabmeth(st, recv, last, args, kw, node)
        if pre == '<arr>':
            return self.arrmeth(st, recv, last, args, kw, node)
        if pre == '<tree>':
            return self.treemeth(st, recv, last, args, kw, node)
        if pre == '<v>' and last in ('astype', 'copy', 'filled', 'ravel', 'flatten', 'squeeze', 'reshape', 'tolist'):
            return V(recv.vn)
        if pre == '<v>' and last == 'dot' and args:
            return self.dot(st, recv, args[0], node)
        if pre == '<v>' and last == 'fromkeys':
            return None
        if pre in ('numpy', 'scipy', 'math', 'astropy', 'fitsio', 'pandas', 'matplotlib'):
            return self.lib(st, name, last, args, kw, node)
        if pre == 'copy' and last in ('copy', 'deepcopy') and args:
            o = self.get(st, a0)
            if type(a0) is A:
                return a0.but()
            if o is not None:
                return self.new(st, o)
            return a0
        if pre == 'random' or last in ('seed',):
            return None
        return None

    def outer(self, st):
        return ()

    def sumof(self, a):
        if ismask(a):
            s = addop(a.axes[0], ('sel', a.elem[1]))
            return N('len', s, h('len', str(s)))
        if a.elem and a.elem[0] == 'wt':
            return V(h('sum', a.vn, str(a.axes[0])))
        return N('sum', a.axes[0], h('sum', a.vn, str(a.axes[0])))

    def reduce(self, st, last, a, args, kw, node):
        ax = kw.get('axis') or (args[1] if len(args) > 1 and last not in ('percentile', 'quantile') else None)
        if ax is not None and type(ax) is C and isinstance(ax.val, int) and len(a.axes) > 1:
            axes = list(a.axes)
            try:
                del axes[ax.val]
            except IndexError:
                return None
            return A(axes, h(last, a.vn, ax.val))
        if last in ('sum', 'nansum', 'count_nonzero'):
            if len(a.axes) == 1:
                if last == 'count_nonzero' and not ismask(a):
                    return V(h(last, a.vn, str(a.axes)))
                return self.sumof(a)
        return V(h(last, a.vn, str(a.axes)))

    def argsort(self, st, a):
        s = a.axes[0]
        if a.elem and a.elem[0] == 'idx' and a.elem[2] and self.canon(st, s) != self.canon(st, a.elem[1]) and noperm(self.canon(st, s)) == noperm(self.canon(st, a.elem[1])):
            # argsort of a permutation: its inverse
            return A([a.elem[1]], h('inv', a.vn, str(s)), ('idx', s, True, False))
        t = addop(s, ('perm', a.vn))
        return A([t], h('argsort', a.vn, str(s)), ('idx', s, True, False))

    def dot(self, st, a, b, node):
        a, b = self.toarr(st, a, node), self.toarr(st, b, node)
        if type(a) is not A and type(b) is not A:
            return None
        vn = h('dot', a.vn, b.vn)
        if type(a) is A and type(b) is A and a.axes and b.axes:
            k = 0 if len(b.axes) == 1 else len(b.axes) - 2
            self.relate(st, a.axes[-1], b.axes[k], node, 'row by row', what='multiplied and summed row by row')
            axes = list(a.axes[:-1]) + [x for i, x in enumerate(b.axes) if i != k]
            if not axes:
                return N('sum', a.axes[0], vn) if not isfix(a.axes[0]) else V(vn)
            return A(axes, vn)
        if type(b) is A and len(b.axes) == 2:         # (matrix of unknown shape) . b
            return A([sp('dot', a.vn), b.axes[1]], vn)
        if type(a) is A and len(a.axes) == 2:
            return A([a.axes[0], sp('dot', b.vn)], vn) if _REV[b.vn][0] in ('T', 'array') else None
        return None

    def arrmeth(self, st, a, last, args, kw, node):
        if last == 'dot' and args:
            return self.dot(st, a, args[0], node)
        if last == 'astype':
            return A(a.axes, a.vn, a.elem if a.elem and a.elem[0] in ('idx', 'fill', 'wt', 'mask') else None)
        if last in EMETH:
            return A(a.axes, a.vn if last in ('copy', 'filled', 'view') else h(last, a.vn), a.elem if last in ('copy', 'filled', 'view') else None)
        if last in REDUCE or last in ('sum',):
            return self.reduce(st, last, a, [a] + args, kw, node)
        if last in ('ravel', 'flatten', 'squeeze', 'tolist') and len(a.axes) == 1:
            return A(a.axes, a.vn, a.elem)
        if last == 'argsort' and len(a.axes) == 1:
            return self.argsort(st, a)
        if last in ('argmin', 'argmax') and len(a.axes) == 1:
            return N('idx', a.axes[0], h(last, a.vn, str(a.axes[0])))
        if last in ('nonzero',):
            return self.where1(st, a)
        if last == 'sort' and len(a.axes) == 1:
            self.update(st, a, A([addop(a.axes[0], ('perm', a.vn))], a.vn, None, a.oid))
            return C(None)
        if last in ('dot', 'transpose', 'reshape', 'item'):
            if last == 'transpose' and not args:
                return A(a.axes[::-1], h('T', a.vn))
            return None
        if last == 'fill':
            self.update(st, a, A(a.axes, h('fill', args[0].vn), ('fill', args[0].val if type(args[0]) is C and isinstance(args[0].val, (int, float)) else None), a.oid))
            return C(None)
        if last == 'all' or last == 'any':
            return V(h(last, a.vn))
        return None

    def points(self, st, v, node):
        """an array of points, one per row"""
        v = self.toarr(st, v, node)
        if type(v) is V and _REV[v.vn][0] == 'T' and _REV[_REV[v.vn][1]][0] == 'stackV':
            xs = [V(x) for x in _REV[_REV[v.vn][1]][1:]]
            self.known(st, *xs)
            xs = [self.res(st, x) for x in xs]
            self.align(st, xs, node, 'stack')
            return A([xs[0].axes[0], fix(len(xs))], v.vn)
        return v

    def where1(self, st, m):
        if type(m) is not A or len(m.axes) != 1:
            return None
        at = m.elem[1] if ismask(m) else frozenset([h('cmp', '!=', m.vn, C(0).vn)])
        s = addop(m.axes[0], ('sel', at))
        return Tup([A([s], h('where', h('m', *sorted(at)), str(m.axes[0])), ('idx', m.axes[0], True, False))])

    def treemeth(self, st, ref, last, args, kw, node):
        o = st.heap[ref.id]
        s = o.attrs['<space>']
        if last == 'query' and args:
            q = self.points(st, self.res(st, args[0]), node)
            k = self.res(st, kw.get('k', args[1] if len(args) > 1 else C(1)))
            if type(q) is not A or len(q.axes) != 2:
                return None
            qs = q.axes[0]
            out = [qs]
            if type(k) is C and isinstance(k.val, int):
                if k.val != 1:
                    out.append(('s', ('neigh', k.val, o.vn, q.vn), ()))
            else:
                return None
            a, b = self.canon(st, qs), self.canon(st, s)
            if a != b and not conds(a) and not conds(b) and a[1] != b[1]:
                st.distinct = st.distinct | {frozenset((a, b))}
            neg_ = 'distance_upper_bound' in kw
            vn = h('query', o.vn, q.vn, k.vn)
            return Tup([A(out, h('qd', vn)), A(out, h('qi', vn), ('idx', s, False, neg_))])
        if last == 'query_ball_point' and args:
            q = self.res(st, args[0])
            vn = h('ballpoint', o.vn, q.vn, *[x.vn for x in args[1:]])
            inner = self.new(st, Lst(None, (sp('ballpoint', vn), N('idx', s, vn))))
            if type(q) is A and len(q.axes) == 2:
                return self.new(st, Lst(None, (q.axes[0], inner)))
            if type(q) is A and len(q.axes) == 1 and isfix(q.axes[0]) or type(q) is Tup:
                return inner
            return None
        if last == 'query_ball_tree' and args:
            o2 = self.get(st, args[0], Obj)
            if o2 is not None and o2.cls == '<tree>':
                self.catalogues(st, s, o2.attrs['<space>'])
                inner = self.new(st, Lst(None, (sp('ball', o.vn, o2.vn), N('idx', o2.attrs['<space>'], h('ball', o.vn, o2.vn)))))
                return self.new(st, Lst(None, (s, inner)))
        return None

    def tabmeth(self, st, ref, last, args, kw, node):
        o = st.heap[ref.id]
        a0 = self.res(st, args[0]) if args else None
        if last in ('copy', 'filled', 'to_table'):
            return self.new(st, Tab(o.space, o.base, {k: (v.but() if type(v) is A else v) for k, v in o.cols.items()}))
        if last in ('sort', 'reverse'):
            if o.space is None:
                return C(None)
            keys = []
            for x in args + list(kw.values()):
                it = self.aslist(st, x)
                for y in (it if it is not None else [x]):
                    y = self.res(st, y)
                    keys.append(self.getcol(st, ref, y.val).vn if type(y) is C and isinstance(y.val, str) else y.vn)
            o = st.heap[ref.id]
            s = addop(o.space, ('perm', keys[0] if len(keys) == 1 else h('keys', *keys)))
            st.heap[ref.id] = Tab(s, o.base, {k: (A((s,) + v.axes[1:], v.vn, v.elem) if type(v) is A else v) for k, v in o.cols.items()})
            return C(None)
        if last in ('remove_rows', 'remove_row', 'add_row', 'insert_row', 'drop'):
            if o.space is None:
                return C(None)
            if last.startswith('remove') and type(a0) is A and a0.elem and a0.elem[0] == 'idx':
                self.idxcheck(st, o.space, a0.elem[1], node, None)
            if last.startswith('remove') and type(a0) is N and a0.kind == 'idx':
                self.idxcheck(st, o.space, a0.space, node, a0.flag)
            op = ('del', a0.vn if a0 is not None else 0) if last.startswith('remove') else ('app', h('row', *self.fresh(node)))
            s = addop(o.space, op)
            st.heap[ref.id] = Tab(s, o.base, {k: (A((s,) + v.axes[1:], v.vn, v.elem) if type(v) is A else v) for k, v in o.cols.items()})
            return C(None)
        if last == 'add_column' and args:
            nm = kw.get('name') or (args[2] if len(args) > 2 else None)
            if type(nm) is C:
                self.setcol(st, ref, nm.val, a0, node)
            elif type(a0) is A and o.space is not None:
                self.relate(st, o.space, a0.axes[0], node, 'column', what='column of a table')
            return C(None)
        if last == 'rename_column' and len(args) == 2 and all(type(self.res(st, x)) is C for x in args):
            a, b = [self.res(st, x).val for x in args]
            c = self.getcol(st, ref, a)
            o = st.heap[ref.id]
            cols = dict(o.cols)
            cols.pop(a, None)
            cols[b] = c
            st.heap[ref.id] = Tab(o.space, o.base, cols)
            return C(None)
        if last in ('remove_column', 'remove_columns'):
            return C(None)
        if last in ('keys', 'write', 'pprint', 'info', 'show_in_notebook', 'as_array', 'iterrows', 'itercols', 'group_by', 'index_column'):
            return V(h('call', last, ref.vn, *[x.vn for x in args]))
        return None

    def lib(self, st, name, last, args, kw, node):
        a0 = self.res(st, args[0]) if args else None
        R = lambda v: self.res(st, v)
        numpy_ = name.startswith('numpy.') and not name.startswith('numpy.linalg') and not name.startswith('numpy.random')
        if last in ('cKDTree', 'KDTree') and args:
            a = self.points(st, a0, node)
            if type(a) is A and len(a.axes) == 2:
                return self.new(st, Obj('<tree>', {'<space>': a.axes[0]}, h('tree', a.vn)))
            return None
        if last == 'linear_sum_assignment' and type(a0) is A and len(a0.axes) == 2:
            r = sp('lsa', a0.vn)
            x, y = self.canon(st, a0.axes[0]), self.canon(st, a0.axes[1])
            if x != y and not conds(x) and not conds(y) and x[1] != y[1]:
                st.distinct = st.distinct | {frozenset((x, y))}
            return Tup([A([r], h('lsa', 0, a0.vn), ('idx', a0.axes[0], False, False)), A([r], h('lsa', 1, a0.vn), ('idx', a0.axes[1], False, False))])
        if last in ('interp1d', 'CubicSpline', 'UnivariateSpline', 'InterpolatedUnivariateSpline') and len(args) >= 2:
            xs = [x for x in (R(args[0]), R(args[1])) if type(x) is A and len(x.axes) == 1]
            if len(xs) == 2:
                self.align(st, xs, node, 'interpolation')
            return self.new(st, Obj('<interp>', {}, h('interp1d', *[x.vn for x in args])))
        if name.startswith('astropy.table') or name in ('astropy.io.ascii.read', 'astropy.io.fits.getdata'):
            return self.table(st, name, last, args, kw, node)
        if name.startswith('scipy.special') and args:
            return self.elementwise(st, last, args, node)
        if name.startswith('math.'):
            return None
        if not numpy_:
            return None
        if last in ('where', 'flatnonzero', 'nonzero', 'argwhere'):
            if len(args) == 1:
                r = self.where1(st, a0)
                if r is not None:
                    if last == 'flatnonzero':
                        return r.items[0]
                    if last == 'argwhere':
                        return None
                    return r
                return None
            return self.elementwise(st, 'where', args, node)
        if last in ('logical_and',) and len(args) == 2:
            return self.binop(st, 'BitAnd', args[0], args[1], node)
        if last == 'logical_not' and type(a0) is A:
            at = a0.elem[1] if ismask(a0) else frozenset([a0.vn])
            vn = neg(list(at)[0]) if len(at) == 1 else h('not', h('m', *sorted(at)))
            return A(a0.axes, vn, ('mask', frozenset([vn])))
        if last in ELEM:
            r = self.elementwise(st, last, args, node)
            if last in BOOLF and type(r) is A:
                return r.but(elem=('mask', frozenset([r.vn])))
            return r
        if last in COPY and args:
            r = self.toarr(st, a0, node)
            if type(r) is A and 'dtype' in kw and type(kw['dtype']) is Ext and kw['dtype'].name == 'bool' and r.elem is None:
                r = r.but(elem=('mask', frozenset([r.vn])))
            return r
        if last in REDUCE or last in ('sum', 'nansum', 'count_nonzero'):
            if last == 'average' and type(kw.get('weights')) is A and type(a0) is A:
                self.align(st, [a0, kw['weights']], node, 'weights')
            if type(a0) is A:
                return self.reduce(st, last, a0, args, kw, node)
            o = self.get(st, a0)
            if type(o) is Lst and o.uni and last == 'sum':
                return N('sum', o.uni[0], h('sum', o.uni[1].vn, str(o.uni[0])))
            return None
        if last in ('zeros', 'ones', 'empty', 'full') and args:
            ax = self.shape_axes(st, a0)
            if ax is None:
                return None
            val = {'zeros': 0, 'ones': 1}.get(last)
            if last == 'full':
                v = R(args[1]) if len(args) > 1 else R(kw.get('fill_value', C(None)))
                val = v.val if type(v) is C and isinstance(v.val, (int, float)) else None
            return A(ax, h(last, val if isinstance(val, int) else str(val)), ('fill', val))
        if last in ('zeros_like', 'ones_like', 'empty_like', 'full_like') and args:
            a = a0
            if type(a) is V and self.paramlike(a.vn):
                return V(h(last, a.vn))
            if type(a) is A:
                val = {'zeros_like': 0, 'ones_like': 1}.get(last)
                if last == 'full_like' and len(args) > 1 and type(R(args[1])) is C and isinstance(R(args[1]).val, (int, float)):
                    val = R(args[1]).val
                return A(a.axes, h(last, str(val)), ('fill', val))
            return None
        if last == 'arange' and len(args) == 1:
            if type(a0) is N and a0.kind == 'len':
                return A([a0.space], h('pos', str(a0.space)), ('idx', a0.space, True, False))
            if type(a0) is C and isinstance(a0.val, int):
                return A([fix(a0.val)], h('arange', a0.val))
            if type(a0) is V:
                return A([sp('n', a0.vn)], h('arange', a0.vn))
            return None
        if last in ('repeat', 'tile') and len(args) == 2:
            n = R(args[1])
            if type(a0) is not A and type(n) is N and n.kind == 'len':
                return A([n.space], h('repeat', a0.vn), ('fill', a0.val) if type(a0) is C and isinstance(a0.val, (int, float)) else None)
            if type(a0) is A and last == 'repeat':
                nv = self.toarr(st, n, node)
                return A([sp('rep', str(a0.axes[0]), n.vn)], h('repeat', a0.vn, n.vn), a0.elem if a0.elem and a0.elem[0] == 'idx' and False else (('idx', a0.elem[1], False, a0.elem[3]) if a0.elem and a0.elem[0] == 'idx' else None))
            return None
        if last == 'linspace' and len(args) >= 3:
            ax = self.shape_axes(st, args[2])
            return A(ax, h('linspace', *[x.vn for x in args])) if ax and len(ax) == 1 else None
        if last == 'argsort' and type(a0) is A and len(a0.axes) == 1:
            return self.argsort(st, a0)
        if last == 'lexsort' and type(a0) is Tup and all(type(x) is A for x in a0.items):
            xs = list(a0.items)
            self.align(st, xs, node, 'sort keys')
            return A([addop(xs[0].axes[0], ('perm', a0.vn))], h('lexsort', a0.vn), ('idx', xs[0].axes[0], True, False))
        if last == 'sort' and type(a0) is A and len(a0.axes) == 1:
            return A([addop(a0.axes[0], ('perm', a0.vn))], a0.vn, None)
        if last in ('argmin', 'argmax', 'nanargmin', 'nanargmax') and type(a0) is A and len(a0.axes) == 1 and 'axis' not in kw:
            return N('idx', a0.axes[0], h(last, a0.vn, str(a0.axes[0])))
        if last == 'unique' and args:
            a = self.toarr(st, a0, node)
            if type(a) is A and len(a.axes) == 1:
                u = sp('uniq', a.vn, str(a.axes[0]))
                res = [A([u], h('unique', a.vn, str(a.axes[0])), ('idx', a.elem[1], False, a.elem[3]) if a.elem and a.elem[0] == 'idx' else None)]
                for k in ('return_index', 'return_inverse', 'return_counts'):
                    if k in kw and type(kw[k]) is C and kw[k].val:
                        if k == 'return_index':
                            res.append(A([u], h('uindex', a.vn), ('idx', a.axes[0], True, False)))
                        elif k == 'return_inverse':
                            res.append(A([a.axes[0]], h('uinv', a.vn), ('idx', u, False, False)))
                        else:
                            res.append(A([u], h('ucount', a.vn)))
                return Tup(res) if len(res) > 1 else res[0]
            return None
        if last in ('isin', 'in1d') and len(args) >= 2 and type(a0) is A:
            vn = h('isin', a0.vn, R(args[1]).vn)
            return A(a0.axes, vn, ('mask', frozenset([vn])))
        if last == 'searchsorted' and len(args) >= 2:
            v = R(args[1])
            if type(a0) is A and type(v) is A and len(a0.axes) == 1:
                if v.axes:
                    self.catalogues(st, a0.axes[0], v.axes[0])
                return A(v.axes, h('searchsorted', a0.vn, v.vn), ('idx', a0.axes[0], False, False))
            return None
        if last == 'interp' and len(args) >= 3:
            x, xp, fp = R(args[0]), R(args[1]), R(args[2])
            if type(xp) is A and type(fp) is A and len(xp.axes) == len(fp.axes) == 1:
                self.align(st, [xp, fp], node, 'interpolation')
            if type(x) is A:
                return A(x.axes, h('interp', x.vn, xp.vn, fp.vn))
            return None
        if last == 'polyfit' and len(args) >= 2:
            xs = [x for x in (R(args[0]), R(args[1]), R(kw.get('w', C(None)))) if type(x) is A and len(x.axes) == 1]
            if len(xs) > 1:
                self.align(st, xs, node, 'fit')
            return None
        if last == 'polyval' and len(args) == 2 and type(R(args[1])) is A:
            return self.elementwise(st, 'polyval', [args[1]], node, None, vn=h('polyval', args[0].vn, args[1].vn))
        if last == 'delete' and len(args) >= 2 and type(a0) is A and len(a0.axes) == 1:
            ix = R(args[1])
            lo = self.get(st, ix)
            if type(lo) is Lst:
                ix = self.list_arr(st, lo, node) or ix
            if type(ix) is N and ix.kind == 'idx':
                self.idxcheck(st, a0.axes[0], ix.space, node, ix.flag)
            if type(ix) is A and ix.elem and ix.elem[0] == 'idx':
                self.idxcheck(st, a0.axes[0], ix.elem[1], node, None)
            if type(ix) is A and ismask(ix):
                self.relate(st, a0.axes[0], ix.axes[0], node, 'mask', what='mask')
            return A([addop(a0.axes[0], ('del', ix.vn))], a0.vn, a0.elem)
        if last == 'append' and len(args) >= 2:
            a, b = self.toarr(st, a0, node), R(args[1])
            if type(a) is V and self.paramlike(a.vn):
                a = self.as_arr(a)
            if type(a) is A and len(a.axes) == 1:
                n = b.axes[0] if type(b) is A and len(b.axes) == 1 else 1
                return A([addop(a.axes[0], ('app', n)) if not isfix(a.axes[0]) else sp('app', a.axes[0], n, *map(str, self.iters))], h('append', a.vn, b.vn), a.elem if a.elem and a.elem[0] == 'idx' and False else None)
            return None
        if last in ('concatenate', 'hstack') and args:
            it = self.aslist(st, a0)
            if it:
                it = [R(x) for x in it]
                it = [self.toarr(st, x, node) if type(x) is not A else x for x in it]
                if all(type(x) is A and len(x.axes) == 1 for x in it):
                    es = [x.elem for x in it]
                    e = ('idx', es[0][1], False, any(x[3] for x in es)) if all(x and x[0] == 'idx' for x in es) and len(set(x[1] for x in es)) == 1 else None
                    return A([sp('cat', *[self.canon(st, x.axes[0]) for x in it])], h('cat', *[x.vn for x in it]), e)
            o = self.get(st, a0)
            if type(o) is Lst and o.uni:
                inner = self.get(st, o.uni[1], Lst)
                if inner is not None and inner.uni and type(inner.uni[1]) is N and inner.uni[1].kind == 'idx':
                    return A([sp('flat', inner.uni[1].vn)], h('flat', inner.uni[1].vn), ('idx', inner.uni[1].space, False, False))
            return None
        if last in ('vstack', 'stack', 'column_stack') and args:
            it = self.aslist(st, a0)
            if it:
                it = [R(x) for x in it]
                if all(type(x) is A and len(x.axes) == 1 for x in it):
                    self.align(st, it, node, 'stack')
                    s = it[0].axes[0]
                    vn = h('stack', *[x.vn for x in it])
                    axn = kw.get('axis')
                    if last == 'column_stack' or (last == 'stack' and type(axn) is C and axn.val in (1, -1)):
                        return A([s, fix(len(it))], h('T', vn))
                    return A([fix(len(it)), s], vn)
                if len(it) > 1 and all(type(x) is V and self.paramlike(x.vn) for x in it):
                    v = h('stackV', *[x.vn for x in it])
                    axn = kw.get('axis')
                    if last == 'column_stack' or (last == 'stack' and type(axn) is C and axn.val in (1, -1)):
                        return V(h('T', v))
                    return V(v)
            return None
        if last == 'transpose' and type(a0) is A and len(args) == 1:
            return A(a0.axes[::-1], h('T', a0.vn))
        if last == 'diff' and type(a0) is A and len(a0.axes) == 1:
            if 'prepend' in kw or 'append' in kw:
                return A(a0.axes, h('diff', a0.vn))
            return A([addop(a0.axes[0], ('cut', 1))], h('diff', a0.vn))
        if last in ('dot', 'matmul') and len(args) == 2:
            return self.dot(st, args[0], args[1], node)
        if last == 'ravel' and type(a0) is A and len(a0.axes) == 1:
            return a0
        if last == 'size' and args:
            return self.lenof(st, a0)
        return None

    def table(self, st, name, last, args, kw, node):
        a0 = self.res(st, args[0]) if args else None
        if last in ('Table', 'QTable'):
            if a0 is None and not kw.get('rows'):
                return self.new(st, Tab(None, None, {}))
            o = self.get(st, a0) if a0 is not None else None
            if type(o) is Tab:
                return self.new(st, Tab(o.space, o.base, {k: (v.but() if type(v) is A else v) for k, v in o.cols.items()}))
            t = self.new(st, Tab(None, h('table', *self.fresh(node)), {}))
            if type(o) is Dct:
                for k, v in o.items.items():
                    v = self.res(st, v)
                    if isinstance(k, str) and (type(v) is A or type(self.get(st, v)) is Lst):
                        self.setcol(st, t, k, v, node)
                return t if st.heap[t.id].space is not None else None
            items = self.aslist(st, a0) if a0 is not None else None
            if items is not None:
                nm = kw.get('names')
                nms = self.aslist(st, nm) if nm is not None else None
                nms = [x.val if type(x) is C else i for i, x in enumerate(nms)] if nms is not None and len(nms) == len(items) else list(range(len(items)))
                for k, v in zip(nms, items):
                    v = self.res(st, v)
                    if type(v) is A or type(self.get(st, v)) is Lst:
                        self.setcol(st, t, str(k), v, node)
                return t if st.heap[t.id].space is not None else None
            if type(a0) is V:
                return self.new(st, Tab(sp('par', a0.vn), a0.vn))
            return None
        if last == 'read' or last == 'getdata':
            vn = h('read', *([x.vn for x in args] + [y for k in sorted(kw) for y in (k, kw[k].vn)]))
            return self.new(st, Tab(sp('read', vn), vn))
        if last == 'Column' or last == 'MaskedColumn':
            d = kw.get('data') or a0
            if d is not None:
                return self.toarr(st, d, node)
            return None
        if last in ('vstack', 'join', 'unique', 'hstack', 'Row'):
            if last == 'Row':
                return None
            if last == 'unique':
                vn = h('tunique', a0.vn, *self.fresh(node)) if a0 is not None else h('tunique')
            else:
                vn = h('t' + last, *self.fresh(node))
            return self.new(st, Tab(sp('t' + last, vn), vn))
        return None


RIGID = ('read', 'uniq', 'lsa', 'tvstack', 'tjoin', 'tunique')


def flatv(v):
    return type(v) in (V, C) or (type(v) is Tup and all(type(x) in (V, C) for x in v.items))


def neg(vn):
    k = _REV[vn]
    return k[1] if k[0] == 'not' else h('not', vn)


def ismask(v):
    return type(v) is A and v.elem is not None and v.elem[0] == 'mask'


def isw(v):
    return type(v) is A and v.elem is not None and v.elem[0] == 'wt'


def isbool(v):
    return type(v) is V and _REV[v.vn][0] in ('cmp', 'not', 'in', 'and', 'or')


def positional(a):
    """one value per row that does not depend on which row it is: row numbers, fill values"""
    return (a.elem is not None and a.elem[0] == 'fill') or _REV[a.vn][0] in ('pos', 'linspace', 'random')


def scalarlike(v):
    return _REV[v.vn][0] in ('it', 'elem', 'row', 'argmin', 'argmax', 'Add', 'Sub', 'Mult', 'FloorDiv', 'len')


_TP = {}
TATTR = ('colnames', 'dtype', 'remove_rows', 'remove_row', 'sort', 'add_column', 'rename_column', 'add_row', 'remove_columns')


def tabparams(fn):
    """parameters used as tables: string subscripts together with a row selection, len(), or a table method"""
    if fn in _TP:
        return _TP[fn]
    out = set()
    if not isinstance(fn, ast.Lambda):
        names = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        strs, ev = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in names:
                if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                    strs.add(n.value.id)
                elif not isinstance(n.slice, ast.Constant) and not (isinstance(n.slice, ast.Name) and n.slice.id in ('k', 'key', 'col', 'k1', 'k2', 'name', 'xkey', 'ykey')):
                    ev.add(n.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id in names and isinstance(n.value.slice, ast.Constant) and isinstance(n.value.slice.value, str):
                ev.add(n.value.value.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names and n.attr in TATTR:
                ev.add(n.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in names:
                ev.add(n.args[0].id)
        out = strs & ev
    _TP[fn] = out
    return out


def analyse(repo, progress=None):
    r = Rows(repo)
    for m in sorted(repo.modules(), key=lambda m: m.name):
        for q, fn in sorted(m.funcs.items()):
            if isinstance(fn.parent, (ast.Module, ast.ClassDef)) or isinstance(fn.parent, ast.If):
                if progress:
                    progress(m.name + '.' + q)
                r.entry(m, fn)
        if m.script:
            if progress:
                progress(m.name)
            r.main(m)
    return r
