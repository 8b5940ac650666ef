"""Value graph: hash-consed terms, algebraic normal form, equality decision.

A term denotes the value computed by a program fragment as a function of its
symbolic inputs (gated value graph: joins are `ite` nodes).  Nothing here runs
code of the analysed repository.
"""
from fractions import Fraction
import hashlib, math, random

F = Fraction


class T(object):
    __slots__ = ('op', 'args', 'data', 'id', '_dims', '_nf', '__weakref__')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, args=(), data=None):
    key = (op, tuple(a.id for a in args), data)
    t = T._tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.data = op, tuple(args), data
        T._n += 1
        t.id = T._n
        t._dims = None
        t._nf = None
        T._tab[key] = t
    return t


# ---------------------------------------------------------------- construct
def const(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return mk('c', (), F(x))
    if isinstance(x, Fraction):
        return mk('c', (), x)
    if isinstance(x, float):
        if math.isnan(x):
            return mk('f', (), 'NAN')
        if math.isinf(x):
            return mk('f', (), 'INF') if x > 0 else neg(mk('f', (), 'INF'))
        return mk('c', (), F(repr(x)))
    raise TypeError(x)


def strc(s):
    return mk('str', (), s)


NONE = mk('none')


def sym(name, dims=(), boolean=False, **props):
    """props: positive=True, integer=True, lo=, hi= : sampling / simplification facts"""
    return mk('bs' if boolean else 's', (), (name, frozenset(dims), tuple(sorted(props.items()))))


TRUE = mk('true')
FALSE = mk('false')
PI = mk('f', (), 'PI')
ZERO = const(0)
ONE = const(1)

BOOL_OPS = {'true', 'false', 'lt', 'eq', 'and', 'or', 'not', 'bs'}
BOOL_FUNS = {'isfinite', 'isin', 'any', 'all', 'isnan', 'streq', 'contains'}


def is_bool(t):
    if t.op in BOOL_OPS:
        return True
    if t.op == 'f' and t.data in BOOL_FUNS:
        return True
    if t.op == 'f' and t.data in ('sel', 'unsel', 'at', 'take'):
        return is_bool(t.args[0])
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def is_const(t):
    return t.op == 'c'


def cval(t):
    return t.data


def num(t):
    """boolean used as number"""
    if is_bool(t):
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return ite(t, ONE, ZERO)
    return t


def add(*ts):
    c = F(0)
    out = []
    for t in ts:
        t = num(t)
        if t.op == '+':
            for a in t.args:
                if a.op == 'c':
                    c += a.data
                else:
                    out.append(a)
        elif t.op == 'c':
            c += t.data
        elif t.op == 'f' and t.data == 'NAN':
            return t
        else:
            out.append(t)
    if c != 0 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda a: a.id)
    return mk('+', out)


def mul(*ts):
    c = F(1)
    out = []
    for t in ts:
        t = num(t)
        if t.op == '*':
            for a in t.args:
                if a.op == 'c':
                    c *= a.data
                else:
                    out.append(a)
        elif t.op == 'c':
            c *= t.data
        elif t.op == 'f' and t.data == 'NAN':
            return t
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.append(const(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda a: a.id)
    return mk('*', out)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def power(a, b):
    a, b = num(a), num(b)
    if b.op == 'c':
        e = b.data
        if e == 1:
            return a
        if e == 0:
            return ONE
        if a.op == 'c':
            if e.denominator == 1 and (a.data != 0 or e > 0) and abs(e) < (200 if a.data.denominator == 1 and e > 0 else 64):
                return const(a.data ** int(e))
            if e == F(1, 2):
                return fn('sqrt', a)
        if e == F(1, 2):
            return fn('sqrt', a)
        if e == F(-1, 2):
            return power(fn('sqrt', a), const(-1))
        if a.op == 'pow' and e.denominator == 1 and a.args[1].op == 'c':
            return power(a.args[0], const(a.args[1].data * e))
        return mk('pow', (a, b))
    return mk('pow', (a, b))


def div(a, b):
    return mul(num(a), power(num(b), const(-1)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) != is_bool(b):
        if is_bool(a):
            a = num(a)
        else:
            b = num(b)
        if a is b:
            return a
    if is_bool(a):
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    return mk('ite', (c, a, b))


def tobool(t):
    if is_bool(t):
        return t
    if t.op == 'c':
        return TRUE if t.data != 0 else FALSE
    if t.op == 'str':
        return TRUE if t.data else FALSE
    if t.op == 'none':
        return FALSE
    if t.op == 'ite':
        return or_(and_(t.args[0], tobool(t.args[1])), and_(not_(t.args[0]), tobool(t.args[2])))
    return not_(eq(t, ZERO))


def not_(c):
    c = tobool(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', (c,))


def and_(*cs):
    out = {}
    for c in cs:
        c = tobool(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            for a in c.args:
                out[a.id] = a
        else:
            out[c.id] = c
    for a in list(out.values()):
        if not_(a).id in out:
            return FALSE
    if not out:
        return TRUE
    l = sorted(out.values(), key=lambda a: a.id)
    if len(l) == 1:
        return l[0]
    return mk('and', l)


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


ORDER = {}      # positive symbols of a known order: symbol -> rank


def order(a, b):
    """-1, 0, 1 when the order of two terms follows from that of the ordered symbols, otherwise None"""
    if a is b:
        return 0
    if a in ORDER and b in ORDER:
        x, y = ORDER[a], ORDER[b]
        return (x > y) - (x < y)
    for x, y, s in ((a, b, 1), (b, a, -1)):
        if x in ORDER and y.op == 'f' and y.data == 'INF':
            return -s
        if x in ORDER and y.op == 'c' and y.data <= 0:
            return s
    if a.op == b.op and a.op in ('+', '*') and len(a.args) == len(b.args) == 2:
        d = [i for i in (0, 1) if a.args[i] is not b.args[i]]
        if len(d) == 1:
            k = a.args[1 - d[0]]
            r = order(a.args[d[0]], b.args[d[0]])
            if r is not None and a.op == '+':
                return r
            if r is not None and k.op == 'c' and k.data != 0:
                return r if k.data > 0 else -r
    return None


POINT = None    # values of the symbols at a point: comparisons are decided near it


def setpoint(values=None):
    global POINT
    POINT = PointEv(values) if values is not None else None


def at_point(a, b):
    """-1 or 1 when the order of two terms is clear at the point; 0 when they are close; None when not known"""
    try:
        x, y = float(POINT.ev(a)), float(POINT.ev(b))
    except (Unevaluable, RecursionError, OverflowError):
        return None
    if math.isnan(x) or math.isnan(y):
        return None
    small = [abs(float(t.data)) for t in (a, b) if t.op == 'c' and 0 < abs(t.data) < 1e-6]
    if abs(x - y) <= (1e-3 * small[0] if small else 1e-9 * max(1e-3, min(abs(x), abs(y)))):
        return 0
    return -1 if x < y else 1


def closed(t):
    """interval of a number built from constants by sums, products, powers and square roots, or None"""
    if t.op == 'c':
        return (t.data, t.data)
    if t.op == 'f' and t.data == 'sqrt' and len(t.args) == 1:
        v = closed(t.args[0])
        if v is None or v[0] < 0:
            return None
        q = 10 ** 24
        return (F(math.isqrt(int(v[0] * q * q)), q), F(math.isqrt(int(v[1] * q * q)) + 1, q))
    if t.op in ('+', '*') and len(t.args) <= 6:
        r = None
        for x in t.args:
            v = closed(x)
            if v is None:
                return None
            if r is None:
                r = v
            elif t.op == '+':
                r = (r[0] + v[0], r[1] + v[1])
            else:
                e = [p * q for p in r for q in v]
                r = (min(e), max(e))
        return r
    if t.op == 'pow' and t.args[1].op == 'c' and t.args[1].data.denominator == 1 and abs(t.args[1].data) < 8:
        v, n = closed(t.args[0]), int(t.args[1].data)
        if v is None or v[0] <= 0:
            return None
        return (v[0] ** n, v[1] ** n) if n > 0 else (v[1] ** n, v[0] ** n)
    return None


def lt(a, b):
    a, b = num(a), num(b)
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.data < b.data else FALSE
    if ORDER:
        r = order(a, b)
        if r is not None:
            return TRUE if r < 0 else FALSE
    if a is b:
        return FALSE
    if a.op == 'str' and b.op == 'str':
        return TRUE if a.data < b.data else FALSE
    if a.op in ('c', 'f', '+', '*', 'pow') and b.op in ('c', 'f', '+', '*', 'pow'):
        x = closed(a)
        y = closed(b) if x is not None else None
        if y is not None:
            if x[1] < y[0]:
                return TRUE
            if y[1] < x[0]:
                return FALSE
    if b.op == 'c' and b.data <= 2 and a.op == 'f' and a.data == 'dimlen':
        return FALSE          # array dimensions are generic: at least two entries
    if a.op == 'c' and a.data <= 1 and b.op == 'f' and b.data == 'dimlen':
        return TRUE
    for x, y, w in ((a, b, 0), (b, a, 1)):
        if x.op == 'f' and x.data == 'INF' and y.op == 'c':
            return FALSE if w == 0 else TRUE
    if b.op == 'c' and b.data <= 0 and a.op == 'f' and a.data in ('sqrt', 'abs') and len(a.args) == 1:
        return FALSE
    if POINT is not None:
        r = at_point(a, b)
        if r:
            return TRUE if r < 0 else FALSE
    return mk('lt', (a, b))


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if is_bool(a) and is_bool(b):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    if ORDER:
        r = order(a, b)
        if r is not None:
            return TRUE if r == 0 else FALSE
    K = ('c', 'str', 'none')
    if a.op in K and b.op in K:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'f' and x.data == 'dimlen' and y.op in K:
            return FALSE
    if (a.op in ('str', 'none') and b.op in ('s', '+', '*')) or (b.op in ('str', 'none') and a.op in ('s', '+', '*')):
        if not (isinstance(a.data, tuple) and dict(a.data[2]).get('any') or isinstance(b.data, tuple) and dict(b.data[2]).get('any')):
            return FALSE
    if a.op == 'ite' and b.op in K:
        return or_(and_(a.args[0], eq(a.args[1], b)), and_(not_(a.args[0]), eq(a.args[2], b)))
    if b.op == 'ite' and a.op in K:
        return eq(b, a)
    if POINT is not None and at_point(a, b):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b))


REWRITERS = []      # list of callables (name, args) -> T or None


def fn(name, *args):
    args = [a for a in args]
    if name in ('sin', 'cos', 'tan', 'sqrt', 'abs', 'floor', 'exp', 'log', 'asin', 'acos', 'atan', 'atan2', 'mod', 'sign'):
        args = [num(a) for a in args]
    if name == 'sqrt' and args[0].op == 'c':
        p = args[0].data
        if p >= 0:
            n, d = math.isqrt(p.numerator), math.isqrt(p.denominator)
            if n * n == p.numerator and d * d == p.denominator:
                return const(F(n, d))
    if name == 'abs' and args[0].op == 'c':
        return const(abs(args[0].data))
    if name == 'sign' and args[0].op == 'c':
        x = args[0].data
        return const(0 if x == 0 else (1 if x > 0 else -1))
    if name == 'floor' and args[0].op == 'c':
        return const(math.floor(args[0].data))
    if name == 'mod' and args[0].op == 'c' and args[1].op == 'c' and args[1].data != 0:
        return const(args[0].data % args[1].data)
    if name == 'mod' and args[0].op == 'f' and args[0].data == 'mod' and args[0].args[1] is args[1]:
        return args[0]
    if name in ('sin', 'tan', 'asin', 'atan', 'floor') and args[0] is ZERO:
        return ZERO
    if name == 'cos' and args[0] is ZERO:
        return ONE
    if name == 'sel':
        return sel(args[0], args[1])
    if name == 'unsel':
        return unsel(args[0], args[1])
    for r in REWRITERS:
        x = r(name, args)
        if x is not None:
            return x
    return mk('f', args, name)


def fmin(a, b):
    return ite(lt(b, a), b, a)


def fmax(a, b):
    return ite(lt(a, b), b, a)


# ---------------------------------------------------------------- dims
REDUCERS = {'sum', 'mean', 'median', 'max', 'min', 'any', 'all', 'len', 'std', 'argmax', 'argmin', 'prod'}
SCALAR_F = set()


def dims(t):
    """set of array dimensions the term varies over"""
    if t._dims is not None:
        return t._dims
    if t.op in ('s', 'bs'):
        d = t.data[1]
    elif t.op == 'f' and t.data in REDUCERS:
        d = frozenset()
        if t.data in ('sum', 'mean', 'median', 'max', 'min', 'any', 'all', 'std', 'prod', 'argmax', 'argmin') and len(t.args) > 1 and t.args[1].op == 'str':
            d = dims(t.args[0]) - frozenset([t.args[1].data])
    elif t.op == 'f' and t.data in ('sel',):
        base = dims(t.args[0])
        md = dims(t.args[1])
        d = frozenset(x if x not in md else seldim(x, t.args[1]) for x in base)
    elif t.op == 'f' and t.data == 'unsel':
        m = t.args[1]
        d = frozenset(x for x in dims(t.args[0]) if x not in [seldim(y, m) for y in dims(m)]) | dims(m)
    elif t.op == 'f' and t.data == 'at':
        dd = dims(t.args[0])
        d = frozenset(x for x in dd if x != t.args[2].data) if len(t.args) > 2 else frozenset()
    elif t.op == 'f' and t.data == 'take':
        dd = dims(t.args[0])
        d = frozenset(x for x in dd if x != t.args[2].data) | dims(t.args[1]) if len(t.args) > 2 else dims(t.args[1])
    elif t.op == 'f' and t.data == 'idx':
        d = frozenset([t.args[0].data])
    else:
        d = frozenset()
        for a in t.args:
            d |= dims(a)
    t._dims = d
    return d


SELDIM = {}


def seldim(d, m):
    name = '%s|%d' % (d, m.id)
    SELDIM[name] = (d, m)
    return name


def sel(x, m):
    """x restricted to the elements where mask m is true"""
    if m is TRUE:
        return x
    dd = dims(m)
    if not dd or not (dims(x) & dd):
        return x
    if x.op in ('+', '*', 'pow', 'ite', 'lt', 'eq', 'and', 'or', 'not'):
        return rebuild(x, [sel(a, m) for a in x.args])
    if x.op == 'f' and x.data in POINTWISE:
        return fn(x.data, *[sel(a, m) for a in x.args])
    if x.op == 'f' and x.data == 'unsel' and x.args[1] is m:
        return x.args[0]
    if x.op == 'f' and x.data == 'item' and dims(x.args[0]):
        return fn('item', sel(x.args[0], m), sel(x.args[1], m))
    if x is m:
        return TRUE
    return mk('f', (x, m), 'sel')


def unsel(v, m):
    """value v (over selected elements) re-expressed over the full dimension"""
    dd = [seldim(y, m) for y in dims(m)]
    if not (dims(v) & frozenset(dd)):
        return v
    if v.op == 'f' and v.data == 'sel' and v.args[1] is m:
        return v.args[0]
    if v.op in ('+', '*', 'pow', 'ite', 'lt', 'eq', 'and', 'or', 'not'):
        return rebuild(v, [unsel(a, m) for a in v.args])
    if v.op == 'f' and v.data in POINTWISE:
        return fn(v.data, *[unsel(a, m) for a in v.args])
    if v.op == 'f' and v.data == 'item':
        return fn('item', *[unsel(a, m) for a in v.args])
    return mk('f', (v, m), 'unsel')


POINTWISE = {'erf', 'erfc', 'sin', 'cos', 'tan', 'sqrt', 'abs', 'floor', 'exp', 'log', 'asin', 'acos', 'atan', 'atan2', 'mod', 'sign',
             'isfinite', 'isnan', 'bitand', 'bitor', 'bitxor', 'int', 'round', 'interp', 'log10'}


def rebuild(x, args):
    o = x.op
    if o == '+':
        return add(*args)
    if o == '*':
        return mul(*args)
    if o == 'pow':
        return power(*args)
    if o == 'ite':
        return ite(*args)
    if o == 'lt':
        return lt(*args)
    if o == 'eq':
        return eq(*args)
    if o == 'and':
        return and_(*args)
    if o == 'not':
        return not_(*args)
    if o == 'f':
        return fn(x.data, *args)
    return x


def subst(t, m, cache=None):
    """m: dict T->T"""
    if cache is None:
        cache = {}
    if t in m:
        return m[t]
    r = cache.get(t)
    if r is not None:
        return r
    if not t.args:
        r = t
    else:
        na = [subst(a, m, cache) for a in t.args]
        r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
    cache[t] = r
    return r


def diff(t, x, cache=None):
    """derivative of a term with respect to the symbol x (elementary functions only, None otherwise)"""
    if cache is None:
        cache = {}
    if t in cache:
        return cache[t]
    r = None
    if t is x:
        r = ONE
    elif not any(y is x for y in walk(t)):
        r = ZERO
    elif t.op == '+':
        ds = [diff(a, x, cache) for a in t.args]
        r = None if any(d is None for d in ds) else add(*ds)
    elif t.op == '*':
        ds = [diff(a, x, cache) for a in t.args]
        if not any(d is None for d in ds):
            r = add(*[mul(*([d] + [a for j, a in enumerate(t.args) if j != i])) for i, d in enumerate(ds)])
    elif t.op == 'pow' and len(t.args) == 2 and t.args[1].op == 'c':
        d = diff(t.args[0], x, cache)
        r = None if d is None else mul(t.args[1], power(t.args[0], sub(t.args[1], ONE)), d)
    elif t.op == 'ite':
        a, b = diff(t.args[1], x, cache), diff(t.args[2], x, cache)
        r = None if a is None or b is None else ite(t.args[0], a, b)
    elif t.op == 'f' and len(t.args) == 1:
        u = t.args[0]
        d = diff(u, x, cache)
        k = {'sin': lambda: fn('cos', u), 'cos': lambda: neg(fn('sin', u)), 'exp': lambda: t, 'sqrt': lambda: div(const(F(1, 2)), t),
             'log': lambda: div(ONE, u), 'tan': lambda: add(ONE, mul(t, t)), 'abs': lambda: fn('sign', u),
             'erf': lambda: div(mul(const(2), fn('exp', neg(mul(u, u)))), fn('sqrt', PI)), 'erfc': lambda: div(mul(const(-2), fn('exp', neg(mul(u, u)))), fn('sqrt', PI))}.get(t.data)
        r = None if d is None or k is None else mul(k(), d)
    elif t.op == 'f' and t.data == 'atan2':
        a, b = t.args
        da, db = diff(a, x, cache), diff(b, x, cache)
        if da is not None and db is not None:
            r = div(sub(mul(b, da), mul(a, db)), add(mul(a, a), mul(b, b)))
    cache[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def show(t, depth=6):
    if t.op == 'c':
        f = t.data
        if f.denominator == 1:
            return str(f.numerator)
        s = '%.10g' % float(f)
        return s
    if t.op in ('s', 'bs'):
        return t.data[0]
    if t.op == 'str':
        return repr(t.data)
    if t.op in ('true', 'false', 'none'):
        return t.op
    if depth <= 0:
        return '…'
    a = [show(x, depth - 1) for x in t.args]
    if t.op == '+':
        return '(' + ' + '.join(a) + ')'
    if t.op == '*':
        return '*'.join(a)
    if t.op == 'pow':
        return '%s^%s' % (a[0], a[1])
    if t.op == 'lt':
        return '(%s < %s)' % tuple(a)
    if t.op == 'eq':
        return '(%s == %s)' % tuple(a)
    if t.op == 'and':
        return '(' + ' and '.join(a) + ')'
    if t.op == 'not':
        return 'not ' + a[0]
    if t.op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(a)
    return '%s(%s)' % (t.data, ', '.join(a)) if a else str(t.data)


# ======================================================================
# Algebraic normal form: numerator polynomial / factored denominator
# polynomial: dict monomial->Fraction ; monomial: tuple of (atom id, exp) sorted
class Blowup(Exception):
    pass


LIMIT = 6000
ATOMS = {}     # key -> int
ATOMINFO = []  # int -> (kind, payload)


def atom(kind, payload):
    k = (kind, payload)
    i = ATOMS.get(k)
    if i is None:
        i = len(ATOMINFO)
        ATOMS[k] = i
        ATOMINFO.append(k)
    return i


def p_const(c):
    return {(): F(c)} if c != 0 else {}


def p_atom(i, e=1):
    return {((i, e),): F(1)}


def p_key(p):
    return tuple(sorted(p.items()))


POLYS = {}


def p_intern(p):
    k = p_key(p)
    POLYS[k] = p
    return k


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def reduce_mono(m, c):
    """apply cos^2 = 1-sin^2, sqrt(p)^2 = p, abs(p)^2 = p^2 ; returns polynomial"""
    for idx, (a, e) in enumerate(m):
        kind, payload = ATOMINFO[a]
        if e >= 2 and kind in ('cos', 'sqrt', 'abs', 'bool', 'sign'):
            rest = m[:idx] + m[idx + 1:]
            if kind == 'bool':
                return reduce_mono(tuple(sorted(rest + ((a, 1),))), c)
            if kind == 'cos':
                s = atom('sin', payload)
                base = p_add(p_const(1), {((s, 2),): F(-1)})
            elif kind == 'sqrt':
                base = POLYS[payload]
            elif kind == 'abs':
                q = POLYS[payload]
                base = p_mul(q, q)
            else:
                continue
            r = {rest if e % 2 == 0 else tuple(sorted(rest + ((a, 1),))): c}
            for _ in range(e // 2):
                r = p_mul(r, base)
            return r
    return {m: c}


NEEDRED = {}


def needs(m):
    for a, e in m:
        if e >= 2 and ATOMINFO[a][0] in ('cos', 'sqrt', 'abs', 'bool'):
            return True
    return False


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT * 20:
        raise Blowup()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            if needs(m):
                for mm, cc in reduce_mono(m, c).items():
                    v = r.get(mm, 0) + cc
                    if v:
                        r[mm] = v
                    else:
                        r.pop(mm, None)
            else:
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    if len(r) > LIMIT:
        raise Blowup()
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


class R(object):
    """rational function: num / prod(den factors)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}     # polykey -> exp

    def iszero(self):
        return not self.n


def lead(p):
    return p[min(p)]


def mono_only(p):
    return len(p) == 1


def r_norm(n, d):
    """cancel denominators that divide numerator textually"""
    if not n:
        return R({}, {})
    d = dict(d)
    # monomial factors of denominators are folded into the numerator as negative exponents
    for k in list(d):
        e = d[k]
        q = POLYS[k]
        if len(q) == 1:
            (m, c), = q.items()
            inv = {tuple((a, -x) for a, x in m): 1 / c}
            for _ in range(e):
                n = p_mul_neg(n, inv)
            del d[k]
    for k in list(d):
        q = POLYS[k]
        while d.get(k, 0) > 0:
            x = p_divexact(n, q)
            if x is None:
                break
            n = x
            d[k] -= 1
        if d.get(k) == 0:
            d.pop(k, None)
    return R(n, d)


def p_mul_neg(a, b):
    return p_mul(a, b)


def p_divexact(n, q):
    """exact division of polynomials by multivariate long division; None when not exact"""
    if len(q) > 40 or len(n) > 2000:
        return None
    lm = max(q)
    lc = q[lm]
    r = dict(n)
    out = {}
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        m = max(r)
        qm = m_mul(m, tuple((a, -e) for a, e in lm))
        # require divisibility with non negative exponents for atoms present in lm
        if any(e < 0 for a, e in qm if any(a == b for b, _ in lm)) and not any(e < 0 for a, e in m):
            return None
        c = r[m] / lc
        t = {qm: c}
        before = m
        sub_ = p_mul(q, t)
        r = p_add(r, p_scale(sub_, -1))
        if before in r:
            return None
        if r and max(r) >= before:
            return None
        out = p_add(out, t)
    return out


def r_add(a, b):
    if a.iszero():
        return b
    if b.iszero():
        return a
    if a.d == b.d:
        return r_norm(p_add(a.n, b.n), a.d)
    d = dict(a.d)
    for k, e in b.d.items():
        d[k] = max(d.get(k, 0), e)
    na, nb = a.n, b.n
    for k, e in d.items():
        q = POLYS[k]
        for _ in range(e - a.d.get(k, 0)):
            na = p_mul(na, q)
        for _ in range(e - b.d.get(k, 0)):
            nb = p_mul(nb, q)
    return r_norm(p_add(na, nb), d)


def r_mul(a, b):
    d = dict(a.d)
    for k, e in b.d.items():
        d[k] = d.get(k, 0) + e
    return r_norm(p_mul(a.n, b.n), d)


def content(p):
    """(unit factor, primitive polynomial) with leading coefficient 1 and
    common monomial factored out"""
    c = p[min(p)]
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) if (e >= 0 or d.get(a, 0) >= 0) else max(e, d.get(a, 0))
                      for a, e in common.items() if a in d}
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
    # atoms with negative exponents anywhere must be factored as well
    mins = {}
    for m in p:
        for a, e in m:
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    for a, e in mins.items():
        common[a] = e
    mono = tuple(sorted((a, e) for a, e in common.items() if e))
    inv = tuple((a, -e) for a, e in mono)
    prim = {m_mul(m, inv): v / c for m, v in p.items()}
    return c, mono, prim


def r_inv(a):
    if a.iszero():
        raise ZeroDivisionError
    c, mono, prim = content(a.n)
    c2 = lead(prim)
    n = {(): 1 / c}
    if mono:
        n = {tuple((x, -e) for x, e in mono): 1 / c}
    for k, e in a.d.items():
        for _ in range(e):
            n = p_mul(n, POLYS[k])
    if prim == {(): F(1)}:
        return r_norm(n, {})
    k = p_intern(prim)
    return r_norm(n, {k: 1})


def r_pow(a, n):
    if n < 0:
        a = r_inv(a)
        n = -n
    r = R(p_const(1))
    for _ in range(n):
        r = r_mul(r, a)
    return r


def r_key(r):
    return (p_key(r.n), tuple(sorted(r.d.items())))


def r_const(r):
    if r.d:
        return None
    if not r.n:
        return F(0)
    if len(r.n) == 1 and () in r.n:
        return r.n[()]
    return None


RKEYS = {}


def rk(r):
    k = r_key(r)
    RKEYS[k] = r
    return k


PI_ATOM = atom('pi', None)


def positive_atom(i):
    kind, pl = ATOMINFO[i]
    if kind in ('sqrt', 'abs', 'pi', 'exp'):
        return True
    if kind == 'sym':
        return dict(pl[2]).get('positive', False)
    return False


def p_positive(p):
    """syntactic positivity: all coefficients positive and all atoms positive or even powers"""
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not positive_atom(a):
                return False
    return True


def nf(t):
    if t._nf is None:
        t._nf = _nf(t)
    return t._nf


def _nf(t):
    op = t.op
    if op == 'c':
        return R(p_const(t.data))
    if op == 's':
        return R(p_atom(atom('sym', t.data)))
    if op == '+':
        r = R({})
        for a in t.args:
            r = r_add(r, nf(a))
        return r
    if op == '*':
        r = R(p_const(1))
        for a in t.args:
            r = r_mul(r, nf(a))
        return r
    if op == 'pow':
        e = t.args[1]
        if e.op == 'c' and e.data.denominator == 1 and abs(e.data) <= 24:
            return r_pow(nf(t.args[0]), int(e.data))
        if e.op == 'c' and e.data.denominator == 2 and abs(e.data) <= 8:
            s = nf_sqrt(nf(t.args[0]))
            return r_pow(s, int(e.data * 2))
        return R(p_atom(atom('pow', (rk(nf(t.args[0])), rk(nf(t.args[1]))))))
    if op in ('str', 'none', 'true', 'false'):
        return R(p_atom(atom(op, t.data)))
    if op == 'f':
        return nf_fun(t.data, t.args)
    if op in BOOL_OPS or op == 'ite':
        return R(p_atom(atom('bool' if op != 'ite' else 'term', bkey(t))))
    raise TypeError(op)


def bkey(t):
    """key of a boolean / gated term modulo arithmetic normal form"""
    if t.op == 'bs':
        return ('bs', t.data)
    if t.op in ('true', 'false'):
        return (t.op,)
    if t.op == 'not':
        return ('not', bkey(t.args[0]))
    if t.op == 'and':
        return ('and', tuple(sorted((bkey(a) for a in t.args), key=repr)))
    if t.op == 'lt':
        r = nf(sub(t.args[0], t.args[1]))
        return ('lt',) + sgnkey(r)
    if t.op == 'eq':
        r = nf(sub(t.args[0], t.args[1]))
        if r.iszero():
            return ('true',)
        k = eqkey(r)
        return ('eq', k)
    if t.op == 'ite':
        return ('ite', bkey(t.args[0]), rk(nf(t.args[1])), rk(nf(t.args[2])))
    if t.op == 'f':
        return ('f', rk(nf(t)))
    return ('o', rk(nf(t)))


def sgnkey(r):
    """sign-preserving canonical key of r (r up to positive scaling)"""
    if r.iszero():
        return ('zero',)
    n = r.n
    for k, e in r.d.items():
        q = POLYS[k]
        if e % 2 and not p_positive(q):
            n = p_mul(n, q)
    # multiply out negative exponents
    n = clear_neg(n)
    c = abs(n[min(n)])
    return (p_key(p_scale(n, 1 / c)),)


def clear_neg(n):
    mins = {}
    for m in n:
        for a, e in m:
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    if not mins:
        return n
    # multiply by even powers (or positive atoms) so that the sign is kept
    mm = []
    for a, e in mins.items():
        k = -e
        if k % 2 and not positive_atom(a):
            k += 1
        mm.append((a, k))
    return p_mul(n, {tuple(sorted(mm)): F(1)})


def eqkey(r):
    n = clear_neg(r.n)
    c = n[min(n)]
    return p_key(p_scale(n, 1 / c))


def nf_sqrt(r):
    c = r_const(r)
    if c is not None and c >= 0:
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return R(p_const(F(a, b)))
    if r.iszero():
        return R({})
    # pull out even denominators
    n = r.n
    out = R(p_const(1))
    extra = {}
    for k, e in r.d.items():
        h = e // 2
        q = POLYS[k]
        if e % 2:
            n = p_mul(n, q)
            h = (e + 1) // 2
        if h:
            ab = nf_abs(R(q))
            out = r_mul(out, r_inv(r_pow(ab, h)))
    cc, mono, prim = content(n)
    sgn = 1 if cc > 0 else -1
    cc = abs(cc)
    a, b = math.isqrt(cc.numerator), math.isqrt(cc.denominator)
    inner = p_scale(prim, sgn)
    if a * a == cc.numerator and b * b == cc.denominator:
        out = r_mul(out, R(p_const(F(a, b))))
    else:
        inner = p_scale(inner, cc)
    for at, e in mono:
        if e % 2:
            inner = p_mul(inner, {((at, 1),): F(1)})
            e -= 1
        if e:
            base = R(p_atom(at)) if positive_atom(at) else nf_abs(R(p_atom(at)))
            out = r_mul(out, r_pow(base, e // 2))
    if inner == {(): F(1)}:
        return out
    # perfect square of a polynomial (small)
    s = p_sqrt(inner)
    if s is not None:
        return r_mul(out, nf_abs(R(s)))
    return r_mul(out, R(p_atom(atom('sqrt', p_intern(inner)))))


def p_sqrt(p):
    """square root of a perfect-square polynomial of two terms (a±b)^2, else None"""
    if len(p) != 3:
        return None
    sq = []
    for m, c in p.items():
        if c > 0 and all(e % 2 == 0 for _, e in m):
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                sq.append({tuple((x, e // 2) for x, e in m): F(a, b)})
    if len(sq) < 2:
        return None
    for s1 in sq:
        for s2 in sq:
            if s1 is s2:
                continue
            for sg in (1, -1):
                q = p_add(s1, p_scale(s2, sg))
                if p_mul(q, q) == p:
                    return q
    return None


def nf_abs(r):
    if r.iszero():
        return r
    c = r_const(r)
    if c is not None:
        return R(p_const(abs(c)))
    if not r.d and p_positive(r.n):
        return r
    out = R(p_const(1))
    for k, e in r.d.items():
        out = r_mul(out, r_inv(r_pow(nf_abs(R(POLYS[k])), e)))
    cc, mono, prim = content(r.n)
    out = r_mul(out, R(p_const(abs(cc))))
    for a, e in mono:
        if e % 2 == 0 or positive_atom(a):
            out = r_mul(out, R({((a, e),): F(1)}))
        else:
            out = r_mul(out, R({((a, e - (1 if e > 0 else -1)),): F(1)})) if abs(e) > 1 else out
            ab = R(p_atom(atom('abs', p_intern(p_atom(a)))))
            out = r_mul(out, ab if e > 0 else r_inv(ab))
    if prim != {(): F(1)}:
        if p_positive(prim):
            out = r_mul(out, R(prim))
        else:
            # canonical sign already (leading coefficient 1)
            out = r_mul(out, R(p_atom(atom('abs', p_intern(prim)))))
    return out


def pi_multiple(c):
    """(sin, cos) for angle c*pi when exactly known"""
    c = c % 2
    tab = {F(0): (0, 1), F(1, 2): (1, 0), F(1): (0, -1), F(3, 2): (-1, 0)}
    if c in tab:
        return tab[c]
    tab2 = {F(1, 6): (F(1, 2), 's3'), F(5, 6): (F(1, 2), '-s3')}
    return None


def strip_mod(arg):
    """arg: polynomial-with-denominators r ; drop whole turns: k*(pi/180)*mod(e,360)"""
    n = dict(arg.n)
    changed = False
    for m in list(n):
        for i, (a, e) in enumerate(m):
            if e == 1 and ATOMINFO[a][0] == 'mod':
                ek, mk_ = ATOMINFO[a][1]
                per = r_const(RKEYS[mk_])
                rest = m[:i] + m[i + 1:]
                ok = False
                if per is not None and rest == ((PI_ATOM, 1),):
                    k = n[m] * per / 2
                    ok = (k.denominator == 1)
                if not rest:
                    pr = RKEYS[mk_]
                    # mod(e, 2*pi*k)
                    if not pr.d and list(pr.n) == [((PI_ATOM, 1),)]:
                        k = n[m] * pr.n[((PI_ATOM, 1),)] / 2
                        ok = (k.denominator == 1)
                if ok:
                    c = n.pop(m)
                    r = r_mul(R({rest: c}), RKEYS[ek])
                    return strip_mod(r_add(R(n, arg.d), r)) if not arg.d else arg
    return arg


def nf_trig(arg):
    """returns (sin, cos) as R for normal-form argument"""
    arg = strip_mod(arg)
    if arg.iszero():
        return R({}), R(p_const(1))
    if arg.d:
        return trig_atom(arg)
    # list of summands
    S, C = R({}), R(p_const(1))
    if len(arg.n) > 6:
        return trig_atom(arg)
    for m, c in sorted(arg.n.items()):
        s, co = trig_mono(m, c)
        S, C = r_add(r_mul(S, co), r_mul(C, s)), r_add(r_mul(C, co), r_mul(S, R(p_scale(s.n, -1), s.d)))
    return S, C


def trig_atom(arg):
    # canonical sign
    lc = arg.n[min(arg.n)]
    sg = 1
    if lc < 0:
        arg = R(p_scale(arg.n, -1), arg.d)
        sg = -1
    k = rk(arg)
    return R(p_scale(p_atom(atom('sin', k)), sg)), R(p_atom(atom('cos', k)))


def trig_mono(m, c):
    # inverse functions
    if len(m) == 1 and m[0][1] == 1:
        kind, pl = ATOMINFO[m[0][0]]
        if kind == 'pi':
            t = pi_multiple(c)
            if t:
                return R(p_const(t[0])), R(p_const(t[1]))
        inv = None
        if kind == 'atan2':
            y, x = RKEYS[pl[0]], RKEYS[pl[1]]
            h = nf_sqrt(r_add(r_mul(y, y), r_mul(x, x)))
            try:
                hi = r_inv(h)
                inv = r_mul(y, hi), r_mul(x, hi)
            except ZeroDivisionError:
                inv = None
        elif kind == 'asin':
            z = RKEYS[pl]
            inv = z, nf_sqrt(r_add(R(p_const(1)), r_mul(R(p_const(-1)), r_mul(z, z))))
        elif kind == 'acos':
            z = RKEYS[pl]
            inv = nf_sqrt(r_add(R(p_const(1)), r_mul(R(p_const(-1)), r_mul(z, z)))), z
        elif kind == 'atan':
            z = RKEYS[pl]
            h = nf_sqrt(r_add(R(p_const(1)), r_mul(z, z)))
            inv = r_mul(z, r_inv(h)), r_inv(h)
        if inv is not None and c.denominator == 1 and 0 < abs(c) <= 6:
            return multi(inv[0], inv[1], int(c))
    # integer multiples
    nnum = c.numerator
    if abs(nnum) > 1 and abs(nnum) <= 8:
        s, co = trig_atom(R({m: F(1, c.denominator)}))
        return multi(s, co, nnum)
    return trig_atom(R({m: c}))


def multi(s, c, n):
    sg = 1 if n > 0 else -1
    n = abs(n)
    S, C = R({}), R(p_const(1))
    for _ in range(n):
        S, C = r_add(r_mul(S, c), r_mul(C, s)), r_add(r_mul(C, c), r_mul(R(p_scale(S.n, -1), S.d), s))
    if sg < 0:
        S = R(p_scale(S.n, -1), S.d)
    return S, C


def nf_fun(name, args):
    if name == 'PI':
        return R(p_atom(PI_ATOM))
    if name in ('sin', 'cos', 'tan'):
        s, c = nf_trig(nf(args[0]))
        if name == 'sin':
            return s
        if name == 'cos':
            return c
        try:
            return r_mul(s, r_inv(c))
        except ZeroDivisionError:
            return R(p_atom(atom('tan', rk(nf(args[0])))))
    if name == 'sqrt':
        return nf_sqrt(nf(args[0]))
    if name == 'abs':
        return nf_abs(nf(args[0]))
    if name == 'atan2':
        y, x = nf(args[0]), nf(args[1])
        # positive common scale
        if y.iszero() and x.iszero():
            return R({})
        scale = None
        dcommon = {}
        d = dict(y.d)
        for k, e in x.d.items():
            d[k] = max(d.get(k, 0), e)
        for k, e in list(d.items()):
            if p_positive(POLYS[k]) or e % 2 == 0:
                f = R(p_pow(POLYS[k], e))
                y, x = r_mul(y, f), r_mul(x, f)
        # factor out common positive atoms
        ref = x.n if x.n else y.n
        allp = list(x.n) + list(y.n)
        if allp:
            common = None
            for m in allp:
                dm = dict(m)
                common = {a: e for a, e in dm.items() if positive_atom(a)} if common is None else \
                    {a: min(e, dm.get(a, 0)) for a, e in common.items()}
            for m in allp:
                for a, e in m:
                    if e < 0 and positive_atom(a):
                        common[a] = min(common.get(a, 0), e)
            mono = tuple(sorted((a, -e) for a, e in common.items() if e))
            if mono:
                y, x = r_mul(y, R({mono: F(1)})), r_mul(x, R({mono: F(1)}))
            c = abs((x.n or y.n)[min(x.n or y.n)])
            y, x = R(p_scale(y.n, 1 / c), y.d), R(p_scale(x.n, 1 / c), x.d)
        # atan2(r sin a, r cos a) with r>0 and a a plain angle
        a = try_angle(y, x)
        if a is not None:
            return a
        return R(p_atom(atom('atan2', (rk(y), rk(x)))))
    if name in ('asin', 'acos', 'atan'):
        r = nf(args[0])
        if name == 'asin' and not r.d and len(r.n) == 1:
            (m, c), = r.n.items()
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and ATOMINFO[m[0][0]][0] == 'sin' and ANGLE_PRINCIPAL:
                return R(p_scale(RKEYS[ATOMINFO[m[0][0]][1]].n, c), RKEYS[ATOMINFO[m[0][0]][1]].d)
        return R(p_atom(atom(name, rk(r))))
    if name == 'mod':
        return nf_mod(nf(args[0]), nf(args[1]))
    if name == 'floor':
        r = nf(args[0])
        return R(p_atom(atom('floor', rk(r))))
    if name in ('sum', 'mean') and args:
        # linear reductions: split sums and pull out constants
        r = nf(args[0])
        rest = tuple(rk(nf(a)) for a in args[1:])
        if not r.d:
            tot = R({})
            for m, c in r.n.items():
                tot = r_add(tot, R(p_scale(p_atom(atom('fn', (name, (rk(R({m: F(1)})),) + rest))), c)))
            return tot
    return R(p_atom(atom('fn', (name, tuple(rk(nf(a)) for a in args)))))


ANGLE_PRINCIPAL = False   # treat input angles as principal values (mod whole turns)


def try_angle(y, x):
    """y = k sin(u), x = k cos(u), k positive constant after scaling -> u (up to whole turns)"""
    if not ANGLE_PRINCIPAL:
        return None
    if y.d or x.d or len(y.n) != 1 or len(x.n) != 1:
        return None
    (my, cy), = y.n.items()
    (mx, cx), = x.n.items()
    if len(my) != 1 or len(mx) != 1:
        return None
    (ay, ey), (ax, ex) = my[0], mx[0]
    if ey != 1 or ex != 1 or ATOMINFO[ay][0] != 'sin' or ATOMINFO[ax][0] != 'cos':
        return None
    if ATOMINFO[ay][1] != ATOMINFO[ax][1] or abs(cy) != abs(cx) or cx < 0:
        return None
    u = RKEYS[ATOMINFO[ay][1]]
    return u if cy > 0 else R(p_scale(u.n, -1), u.d)


def nf_mod(a, m):
    # drop inner mods with the same period and integer coefficient, and constant multiples
    mk_ = rk(m)
    n = dict(a.n)
    if not a.d:
        for mono in list(n):
            if len(mono) == 1 and mono[0][1] == 1 and ATOMINFO[mono[0][0]][0] == 'mod' and ATOMINFO[mono[0][0]][1][1] == mk_ and n[mono].denominator == 1:
                c = n.pop(mono)
                inner = RKEYS[ATOMINFO[mono[0][0]][1][0]]
                return nf_mod(r_add(R(n), r_mul(R(p_const(c)), inner)), m)
        pc = r_const(m)
        if pc is not None and pc > 0 and () in n:
            k = n[()] // pc
            if k:
                n[()] -= k * pc
                if n[()] == 0:
                    del n[()]
                return nf_mod(R(n), m)
    return R(p_atom(atom('mod', (rk(a), mk_))))


# ======================================================================
# gates: Shannon expansion over condition atoms
def cond_atoms(t, cache=None):
    """first gating condition found, outermost-first"""
    seen = set()
    st = [t]
    out = []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            for c in bool_atoms(x.args[0]):
                out.append(c)
        elif x.op in ('and', 'not'):
            for c in bool_atoms(x):
                out.append(c)
        st.extend(x.args)
    return out


def bool_atoms(c):
    if c.op in ('and', 'not'):
        for a in c.args:
            for x in bool_atoms(a):
                yield x
    elif c.op in ('true', 'false'):
        return
    else:
        yield c


def restrict(t, key2val, cache):
    """replace condition atoms whose bkey is known"""
    r = cache.get(t)
    if r is not None:
        return r
    if t.op in ('lt', 'eq', 'bs') or (t.op == 'f' and is_bool(t)):
        try:
            k = bkey(t)
        except (Blowup, ZeroDivisionError):
            k = None
        if k is not None:
            if k == ('true',):
                r = TRUE
            elif k == ('lt', 'zero'):
                r = FALSE
            elif k in key2val:
                r = TRUE if key2val[k] else FALSE
    if r is None:
        if not t.args:
            r = t
        else:
            na = [restrict(a, key2val, cache) for a in t.args]
            r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
    cache[t] = r
    return r


def gated_equal(a, b, budget=None):
    """True if a==b in every gate combination by normal form; False if not shown"""
    if budget is None:
        budget = [300]
    if a is b:
        return True
    if budget[0] <= 0:
        return False
    budget[0] -= 1
    if is_bool(a) or is_bool(b):
        if is_bool(a) and is_bool(b) and not (a in (TRUE, FALSE) and b in (TRUE, FALSE)):
            try:
                if bkey(a) == bkey(b):
                    return True
            except (Blowup, ZeroDivisionError):
                pass
            ats = list(bool_atoms(a)) + list(bool_atoms(b))
        elif is_bool(a) and is_bool(b):
            return False
        else:
            return gated_equal(num(a) if is_bool(a) else a, num(b) if is_bool(b) else b, budget)
    else:
        ats = cond_atoms(a) + cond_atoms(b)
    if not ats:
        try:
            return nf(sub(a, b)).iszero()
        except (Blowup, ZeroDivisionError, RecursionError):
            return False
    c = ats[0]
    # innermost: an atom that itself contains no gates
    for x in ats:
        if not cond_atoms_inside(x):
            c = x
            break
    try:
        k = bkey(c)
    except (Blowup, ZeroDivisionError):
        return False
    for v in (True, False):
        kv = {k: v}
        if k[0] == 'lt' and v:
            try:
                kv[bkey(lt(c.args[1], c.args[0]))] = False
                kv[bkey(eq(c.args[1], c.args[0]))] = False
            except (Blowup, ZeroDivisionError):
                pass
        if k[0] == 'eq' and v:
            try:
                kv[bkey(lt(c.args[1], c.args[0]))] = False
                kv[bkey(lt(c.args[0], c.args[1]))] = False
            except (Blowup, ZeroDivisionError):
                pass
        cache = {}
        a2, b2 = restrict(a, kv, cache), restrict(b, kv, cache)
        if a2 is a and b2 is b:
            return False
        if not gated_equal(a2, b2, budget):
            return False
    return True


def cond_atoms_inside(c):
    for a in c.args:
        for x in walk(a):
            if x.op in ('ite', 'and', 'not'):
                return True
    return False


# ======================================================================
# random interpretation of value graphs (Gulwani/Necula): only used to confirm
# that two graphs the normal form could not identify really denote different
# functions, or (never exact) that no difference shows.
class Unevaluable(Exception):
    pass


DIMN = 4


def _h(*xs):
    d = hashlib.sha256(repr(xs).encode()).digest()
    return int.from_bytes(d[:6], 'big') / float(1 << 48)


FIXDEF = {}


def strval(s, op='str'):
    return _h('k', op, s) * 10 + 3


class Ev(object):
    def __init__(self, seed, dom=None, special=0.0):
        self.seed = seed
        self.dom = dom or {}
        self.special = special
        self.symc = {}
        self.cache = {}
        self.n = 0
        self.concrete = None

    def fixval(self, tag):
        """values of the variables carried by a convergence loop, at the end of the loop"""
        f = FIXDEF[tag]
        if f.get('busy'):
            raise Unevaluable('nested fixpoint')
        f['busy'] = True
        try:
            cur = {}
            def pos(t):
                return list(self.iters(sorted(dims(t)), {}))
            for p, t in zip(f['ph'], f['init']):
                for ix in pos(p):
                    cur[(p.data[0], tuple((d, ix.get(d, 0)) for d in sorted(p.data[1])))] = self.ev(t, ix)
            for k in range(f['n']):
                e = Ev(self.seed, self.dom, self.special)
                e.symc = dict(self.symc)
                e.symc.update(cur)
                new = {}
                stop = bool(e.ev(f['cond'], {}))
                for p, t in zip(f['ph'], f['brk'] if stop else f['cont']):
                    for ix in pos(p):
                        new[(p.data[0], tuple((d, ix.get(d, 0)) for d in sorted(p.data[1])))] = e.ev(t, ix)
                cur = new
                if stop:
                    break
            self.symc.update(cur)
        finally:
            f['busy'] = False

    def symval(self, data, idx):
        name, dd, props = data
        if name in FIXDEF:
            k = (name, tuple((d, idx.get(d, 0)) for d in sorted(dd)))
            if k not in self.symc:
                self.fixval(FIXDEF[name])
            return self.symc[k]
        k = (name, tuple((d, idx.get(d, 0)) for d in sorted(dd)))
        v = self.symc.get(k)
        if v is None:
            rng = random.Random(repr((self.seed, k)))
            p = dict(props)
            if name in self.dom:
                d = self.dom[name]
                if callable(d):
                    v = d(rng)
                else:
                    lo, hi = d
                    v = rng.uniform(lo, hi)
            else:
                lo, hi = p.get('lo'), p.get('hi')
                if lo is None:
                    lo = 0.05 if p.get('positive') else -2.0
                if hi is None:
                    hi = 2.5
                v = rng.uniform(lo, hi)
                if p.get('integer'):
                    v = float(math.floor(v)) if not (lo == -2.0 and hi == 2.5) else float(rng.randint(-3, 6))
                elif self.special and rng.random() < self.special:
                    v = rng.choice([float(lo), float(hi), 0.0 if lo <= 0 <= hi else float(lo), 1.0 if lo <= 1 <= hi else float(hi)])
            self.symc[k] = v
        return v

    def drange(self, d):
        if d in SELDIM:
            base, m = SELDIM[d]
            return [j for j in self.drange(base) if self.ev(m, {base: j})]
        return list(range(DIMN))

    def basedim(self, d):
        return d

    def ev(self, t, idx=None):
        idx = idx or {}
        dd = dims(t)
        key = (t.id, tuple((d, idx[d]) for d in sorted(dd) if d in idx))
        if key in self.cache:
            return self.cache[key]
        v = self._ev(t, idx)
        if isinstance(v, float) and (math.isnan(v)) and not (t.op == 'f' and t.data == 'NAN') :
            pass
        self.cache[key] = v
        return v

    def _ev(self, t, idx):
        self.n += 1
        if self.n > 400000:
            raise Unevaluable('too large')
        op = t.op
        if op == 'c':
            return float(t.data)
        if op == 's':
            return self.symval(t.data, idx)
        if op == 'bs':
            k = ('b', t.data[0], tuple((d, idx.get(d, 0)) for d in sorted(t.data[1])))
            if t.data[0] in self.dom:
                d = self.dom[t.data[0]]
                if isinstance(d, bool):
                    return d
            return _h(self.seed, k) < 0.5
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op in ('str', 'none'):
            return strval(t.data, op)
        E = lambda i: self.ev(t.args[i], idx)
        if op == '+':
            return math.fsum(float(self.ev(a, idx)) for a in t.args)
        if op == '*':
            r = 1.0
            for a in t.args:
                r *= float(self.ev(a, idx))
            return r
        if op == 'pow':
            try:
                v = float(E(0)) ** float(E(1))
            except (ZeroDivisionError, OverflowError):
                raise DivByZero('div by zero')
            if isinstance(v, complex):
                raise Unevaluable('complex')
            return v
        if op == 'ite':
            return E(1) if E(0) else E(2)
        if op == 'lt':
            return E(0) < E(1)
        if op == 'eq':
            a, b = E(0), E(1)
            return a == b or (isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-13 * max(1, abs(a), abs(b)))
        if op == 'and':
            return all(self.ev(a, idx) for a in t.args)
        if op == 'not':
            return not E(0)
        if op == 'f':
            return self.fun(t, t.data, idx)
        raise Unevaluable(op)

    def fun(self, t, name, idx):
        E = lambda i: float(self.ev(t.args[i], idx))
        try:
            if name == 'PI':
                return math.pi
            if name == 'NAN':
                return 1234.56789
            if name == 'INF':
                return 1e300
            if name in ('sin', 'cos', 'tan', 'exp', 'asin', 'acos', 'atan', 'log', 'sqrt', 'log10', 'erf', 'erfc'):
                return getattr(math, name)(E(0))
            if name == 'atan2':
                return math.atan2(E(0), E(1))
            if name == 'text':      # a column of strings, given by the value of the string
                return E(0)
            if name == 'abs':
                return abs(E(0))
            if name == 'floor':
                return float(math.floor(E(0)))
            if name == 'round':
                return float(round(E(0)))
            if name == 'int':
                return float(int(E(0)))
            if name == 'sign':
                x = E(0)
                return float((x > 0) - (x < 0))
            if name == 'mod':
                return E(0) % E(1)
            if name == 'isfinite':
                return True
            if name == 'isnan':
                return False
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Unevaluable('domain of %s' % name)
        if name in ('sum', 'mean', 'median', 'max', 'min', 'any', 'all', 'std', 'len', 'argmax', 'argmin', 'prod') and t.args:
            a = t.args[0]
            over = [t.args[1].data] if len(t.args) > 1 and t.args[1].op == 'str' else sorted(dims(a))
            free = [d for d in over if d in dims(a)]
            vals = [self.ev(a, ix) for ix in self.iters(free, idx)]
            vals = [float(v) for v in vals]
            if name == 'sum':
                return math.fsum(vals)
            if name == 'len':
                return float(len(vals))
            if name == 'any':
                return any(vals)
            if name == 'all':
                return all(vals)
            if name == 'prod':
                r = 1.
                for v in vals:
                    r *= v
                return r
            if not vals:
                raise Unevaluable('empty reduction')
            if name == 'mean':
                return math.fsum(vals) / len(vals)
            if name == 'max':
                return max(vals)
            if name == 'min':
                return min(vals)
            if name == 'argmax':
                return float(vals.index(max(vals)))
            if name == 'argmin':
                return float(vals.index(min(vals)))
            if name == 'median':
                s = sorted(vals)
                k = len(s)
                return s[k // 2] if k % 2 else 0.5 * (s[k // 2 - 1] + s[k // 2])
            if name == 'std':
                mu = math.fsum(vals) / len(vals)
                return math.sqrt(math.fsum((v - mu) ** 2 for v in vals) / len(vals))
        if name == 'sel':
            m = t.args[1]
            ix = dict(idx)
            for d in dims(m):
                sd = seldim(d, m)
                if sd in ix:
                    ix[d] = ix[sd]
                elif d not in ix:
                    ix[d] = 0
            return self.ev(t.args[0], ix)
        if name == 'unsel':
            m = t.args[1]
            ix = dict(idx)
            for d in dims(m):
                ix[seldim(d, m)] = ix.get(d, 0)
            return self.ev(t.args[0], ix)
        if name in ('at', 'take') and len(t.args) > 2:
            d = t.args[2].data
            i = float(self.ev(t.args[1], idx))
            rr = self.drange(d)
            if not rr:
                raise Unevaluable('empty')
            i = int(i) if abs(i - round(i)) < 1e-9 else int(abs(i) * 7)
            ix = dict(idx)
            ix[d] = rr[i % len(rr)]
            return self.ev(t.args[0], ix)
        if name == 'dimlen':
            return float(len(self.drange(t.args[0].data)))
        if name == 'idx':
            return float(idx.get(t.args[0].data, 0))
        if self.concrete and name in self.concrete:
            try:
                return float(self.concrete[name](*[float(self.ev(a, idx)) for a in t.args]))
            except (TypeError, ValueError, ZeroDivisionError):
                raise Unevaluable(name)
        # uninterpreted function: smooth pseudo-random interpretation
        tot = 0.3 + _h('c0', name)
        for i, a in enumerate(t.args):
            free = [d for d in dims(a) if d not in idx]
            if name not in POINTWISE and free:
                vals = [float(self.ev(a, ix)) for ix in self.iters(free, idx)]
            else:
                vals = [float(self.ev(a, idx))]
            for j, v in enumerate(vals):
                w = 0.5 + _h('w', name, i, j)
                ph = 6.28 * _h('p', name, i, j)
                cc = 0.2 + _h('a', name, i, j)
                if abs(v) > 1e8:
                    v = math.log(abs(v)) * (1 if v > 0 else -1)
                tot += cc * math.sin(w * v + ph)
        if is_bool(t):
            return tot > 0.8
        return tot

    def iters(self, free, idx):
        if not free:
            yield dict(idx)
            return
        d = free[0]
        for j in self.drange(d):
            ix = dict(idx)
            ix[d] = j
            for y in self.iters(free[1:], ix):
                yield y


NUMERIC = {'PI', 'INF', 'sin', 'cos', 'tan', 'exp', 'asin', 'acos', 'atan', 'log', 'sqrt', 'log10', 'erf', 'erfc', 'atan2', 'abs', 'floor', 'round', 'int', 'sign', 'mod'}


class PointEv(Ev):
    """value of a term at a point; only for terms of known meaning"""
    def __init__(self, values):
        Ev.__init__(self, 0)
        self.values = values
        self.ids = {}

    def ev(self, t, idx=None):
        self.n = 0
        v = self.ids.get(t.id)
        if v is None:
            if t.op in ('c', '+', '*', 'pow', 's', 'ite', 'lt', 'eq', 'and', 'not', 'true', 'false') or t.op == 'f' and t.data in NUMERIC:
                try:
                    v = self._ev(t, {})
                except Unevaluable as e:
                    v = e
            else:
                v = Unevaluable('unknown')
            self.ids[t.id] = v
        if isinstance(v, Unevaluable):
            raise v
        return v

    def symval(self, data, idx):
        if data[1] or data[0] not in self.values:
            raise Unevaluable('symbol')
        return self.values[data[0]]


class DivByZero(Unevaluable):
    pass


class Verdict(object):
    def __init__(self, kind, how, witness=None):
        self.kind = kind      # 'holds' | 'differs' | 'undecided'
        self.how = how
        self.witness = witness


CONCRETE = {}   # functions defined by a data table of the repository: name -> numeric interpretation
UNSUPPORTED = 'unsupported'


def has_unsupported(t):
    return any(x.op == 'f' and x.data.startswith(UNSUPPORTED) for x in walk(t))


INTERPRETED = {'erf', 'erfc', 'sin', 'cos', 'tan', 'exp', 'asin', 'acos', 'atan', 'log', 'log10', 'sqrt', 'atan2', 'abs', 'floor', 'sign', 'mod', 'PI', 'sum', 'mean',
               'median', 'max', 'min', 'any', 'all', 'sel', 'unsel', 'at', 'take', 'idx', 'len', 'round', 'int', 'isfinite', 'isnan', 'std', 'prod', 'argmax', 'argmin', 'NAN', 'INF', 'dimlen'}


def skeleton(t, extra=()):
    return frozenset(x.data for x in walk(t) if x.op == 'f' and x.data not in INTERPRETED)


def allops(t):
    """every function and input a graph is built from"""
    return frozenset((n.op, str(n.data)) for n in walk(t) if n.op in ('f', 's', 'bs', 'str'))


def equal(a, b, dom=None, tol=1e-7, seed=1, trials=24, period=None, accept_skeleton=True, constraint=None, prove=True, absolute=False, concrete=None):
    """decide whether two value graphs denote the same function."""
    if a is b:
        return Verdict('holds', 'identical value number')
    if prove:
        try:
            if gated_equal(a, b):
                return Verdict('holds', 'normal form')
            if period is not None:
                if gated_equal(fn('mod', a, const(period)), fn('mod', b, const(period))):
                    return Verdict('holds', 'normal form')
        except (Blowup, RecursionError, ZeroDivisionError):
            pass
    if has_unsupported(a) or has_unsupported(b):
        return Verdict('undecided', 'construct outside the modelled language')
    ok = 0
    bad = []
    # a value without inputs, of known operations only: undefined once means always
    fixed = all(x.op in ('c', '+', '*', 'pow', 'ite', 'lt', 'eq', 'and', 'not', 'true', 'false') or x.op == 'f' and x.data in NUMERIC for x in walk(a))
    boolean = is_bool(a) and is_bool(b)
    for k in range(trials):
        e = Ev((seed, k), dom, special=0.0 if k % 2 == 0 else 0.15)
        e.concrete = concrete
        try:
            if constraint is not None and not e.ev(constraint):
                continue
            free = sorted(dims(a) | dims(b))
            rows = list(e.iters(free, {}))[:4]
            if not rows:
                continue
            for ix in rows:
                vb = e.ev(b, ix)
                try:
                    va = e.ev(a, ix)
                except DivByZero:
                    if fixed:
                        return Verdict('differs', 'division by zero', ({}, math.nan, float(vb)))
                    raise
                va, vb = float(va), float(vb)
                d = va - vb
                if d != d or abs(va) == math.inf:
                    raise Unevaluable('not finite')
                if period is not None:
                    d = (d + period / 2.) % period - period / 2.
                if abs(d) > (tol if absolute else tol * max(1.0, abs(va), abs(vb))):
                    bad.append((dict((n[0], v) for n, v in e.symc.items()), va, vb))
                    break
            else:
                ok += 1
        except (Unevaluable, OverflowError, RecursionError):
            continue
    if bad:
        ign = accept_skeleton if isinstance(accept_skeleton, (set, frozenset)) else frozenset()
        if accept_skeleton and skeleton(a) - ign != skeleton(b) - ign and not (skeleton(a) < skeleton(b) and allops(a) <= allops(b)):
            if concrete is None and CONCRETE and (skeleton(a) ^ skeleton(b)) <= set(CONCRETE):
                # functions given by a data table: decided with the table itself
                return equal(a, b, dom, max(tol, 1e-3), seed, max(trials, 160), period, accept_skeleton, constraint, False, absolute, CONCRETE)
            if concrete is None or not (skeleton(a) ^ skeleton(b)) <= set(concrete):
                return Verdict('undecided', 'different sets of uninterpreted functions: %s' % sorted(skeleton(a) ^ skeleton(b)))
        return Verdict('differs', 'normal forms differ; witness valuation', bad[0])
    if ok >= trials // 3:
        return Verdict('holds', 'random interpretation (%d valuations)' % ok)
    return Verdict('undecided', 'value graph could not be interpreted')
