"""Models of builtins / numpy / math used by the analysed code."""
import itertools, math
from fractions import Fraction as F
from . import terms as tm
from .terms import (T, const, strc, NONE, TRUE, FALSE, ZERO, ONE, PI, sym, fn, add, sub, mul, div, neg, power,
                    ite, lt, le, eq, and_, or_, not_, tobool, dims, sel, is_bool, num, mk)
from . import interp as I


def U(x):
    raise I.Unsupported(x)


D2R = div(PI, const(180))
R2D = div(const(180), PI)

ELEM = {
    'sin': lambda t: fn('sin', t), 'cos': lambda t: fn('cos', t), 'tan': lambda t: fn('tan', t),
    'arcsin': lambda t: fn('asin', t), 'arccos': lambda t: fn('acos', t), 'arctan': lambda t: fn('atan', t),
    'asin': lambda t: fn('asin', t), 'acos': lambda t: fn('acos', t), 'atan': lambda t: fn('atan', t),
    'sqrt': lambda t: fn('sqrt', t), 'abs': lambda t: fn('abs', t), 'absolute': lambda t: fn('abs', t), 'fabs': lambda t: fn('abs', t),
    'exp': lambda t: fn('exp', t), 'log': lambda t: fn('log', t), 'log10': lambda t: fn('log10', t),
    'floor': lambda t: fn('floor', t), 'ceil': lambda t: neg(fn('floor', neg(t))),
    'sign': lambda t: fn('sign', t), 'negative': neg, 'square': lambda t: mul(t, t),
    'deg2rad': lambda t: mul(t, D2R), 'radians': lambda t: mul(t, D2R), 'rad2deg': lambda t: mul(t, R2D), 'degrees': lambda t: mul(t, R2D),
    'isfinite': lambda t: TRUE if t.op == 'c' else FALSE if t in (fn('NAN'), fn('INF')) else fn('isfinite', t), 'isnan': lambda t: FALSE if t.op == 'c' else TRUE if t is fn('NAN') else FALSE if t is fn('INF') else fn('isnan', t),
    'signbit': lambda t: lt(t, ZERO), 'logical_not': lambda t: not_(t), 'round': lambda t: fn('round', t), 'rint': lambda t: fn('round', t), 'around': lambda t: fn('round', t),
    'cbrt': lambda t: fn('cbrt', t), 'reciprocal': lambda t: div(ONE, t), 'invert': lambda t: not_(t) if is_bool(t) else sub(neg(t), ONE),
}
ELEM2 = {
    'arctan2': lambda a, b: fn('atan2', a, b), 'atan2': lambda a, b: fn('atan2', a, b),
    'hypot': lambda a, b: fn('sqrt', add(mul(a, a), mul(b, b))),
    'power': power, 'pow': power, 'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div,
    'minimum': tm.fmin, 'maximum': tm.fmax, 'fmin': tm.fmin, 'fmax': tm.fmax, 'mod': lambda a, b: fn('mod', a, b), 'remainder': lambda a, b: fn('mod', a, b),
    'logical_and': and_, 'logical_or': or_, 'less': lt, 'greater': lambda a, b: lt(b, a), 'less_equal': le, 'greater_equal': lambda a, b: le(b, a),
    'equal': eq, 'not_equal': lambda a, b: not_(eq(a, b)), 'copysign': lambda a, b: mul(fn('abs', a), ite(lt(b, ZERO), const(-1), ONE)),
    'bitwise_and': I._bitand, 'bitwise_or': I._bitor, 'bitwise_xor': I._bitxor, 'floor_divide': I._floordiv,
}
IDENT = {'asarray', 'array', 'atleast_1d', 'ascontiguousarray', 'asfarray', 'copy', 'float64', 'asanyarray', 'squeeze', 'float'}

# keyword arguments a model accounts for; any other keyword with a non-default value is not modelled (the obligation stays undecided)
NEUTRAL = {'copy', 'subok', 'casting', 'like', 'dtype', 'requires_grad'}
KWOK = {'meshgrid': {'indexing'}, 'average': {'axis', 'weights'}, 'cross': {'axis'}, 'stack': {'axis'}, 'concatenate': {'axis'}, 'hstack': {'axis'}, 'zeros': {'shape', 'order'},
        'empty': {'shape', 'order'}, 'ones': {'shape', 'order'}, 'full': {'order'}, 'array': {'order', 'ndmin'}, 'asarray': {'order'}, 'copy': {'order'}, 'astype': {'order'},
        'ravel': {'order'}, 'flatten': {'order'}, 'ascontiguousarray': set(), 'unique': None, 'interp': None, 'sort': {'axis', 'kind'}, 'argsort': {'kind'},
        'zeros_like': {'order', 'shape'}, 'ones_like': {'order'}, 'empty_like': {'order'}, 'full_like': {'order'}, 'isclose': None, 'allclose': None, 'searchsorted': None, 'bincount': None}
for _n in ('sum', 'mean', 'median', 'max', 'min', 'amax', 'amin', 'any', 'all', 'std', 'prod', 'nanmax', 'nanmin', 'argmax', 'argmin'):
    KWOK[_n] = {'axis'}
KWDEFAULT = {'order': ('C', 'K', 'A'), 'keepdims': (False,), 'ddof': (0,), 'ndmin': (0, 1), 'copy': None}


def kwfilter(n, kwargs):
    ok = KWOK.get(n, set())
    if ok is None:
        return
    for k, v in kwargs.items():
        if k in ok or k in NEUTRAL or v is NONE:
            continue
        d = KWDEFAULT.get(k)
        if d and isinstance(v, T) and ((v.op == 'str' and v.data in d) or (v is FALSE and False in d) or (v is ZERO and 0 in d)):
            continue
        U('keyword %s= of %s' % (k, n))


def cast(v):
    """element-wise effect of a dtype argument"""
    if v is None or v is NONE:
        return None
    nm = v.name.split('.')[-1] if isinstance(v, I.Ext) else (v.data if isinstance(v, T) and v.op == 'str' else '')
    nm = nm.lstrip('<>=|')
    if nm.startswith(('int', 'uint')) or nm in ('i2', 'i4', 'i8', 'u2', 'u4', 'u8', 'i', 'l', 'long'):
        return toint
    if nm.startswith('bool'):
        return tobool
    if nm in ('float32', 'float16', 'f4', 'f2', 'single', 'half'):
        return lambda t: t if t.op == 'c' and t.data == int(t.data) and abs(t.data) < 2048 else fn('single_precision', t)
    return None


def order_f(kwargs, args, pos):
    v = kwargs.get('order', args[pos] if len(args) > pos else None)
    if v is None:
        return False
    if isinstance(v, T) and v.op == 'str':
        return v.data == 'F'
    U('order=')


def flat(ip, o, f_order):
    c = arr(ip, o)
    if isinstance(c, T):
        if len(dims(c) - frozenset(ip.mapdims)) > 1:
            U('ravel')
        return c
    if len(c.fixed) > 1 or (f_order and len(c.shape) > 1):
        if not all(isinstance(x, int) for x in c.shape):
            U('ravel')
        if f_order:
            if len(c.shape) != 2:
                U('ravel')
            n, m = c.shape
            return ip.new(I.ArrC((n * m,), [c.vals[i * m + j] for j in range(m) for i in range(n)]))
        return ip.new(I.ArrC((len(c.vals),), c.vals))
    return ip.new(c)


def fold(t):
    """numerical constant folding of a closed term -> float or None"""
    if t.op == 'c':
        return t.data
    if tm.dims(t) or any(x.op in ('s', 'bs', 'str', 'none') or (x.op == 'f' and x.data not in tm.INTERPRETED) for x in tm.walk(t)):
        return None
    try:
        return float(tm.Ev(0).ev(t))
    except Exception:
        return None


def arr(ip, v):
    """T, ArrC content, or raise"""
    if isinstance(v, T):
        return v
    a = ip.to_arr(v)
    if a is None:
        if ip.exact:
            it = ip.known_items(v)
            it = [ip.get(x) if isinstance(x, I.Ref) and ip.get(x).kind == 'arr' else None for x in it or ()]
            if it and all(x is not None and all(isinstance(s, int) for s in x.shape) for x in it) and len(set(tuple(x.shape) for x in it)) > 1:
                ip.rowerror('array of rows of different lengths')
        U('array of structure')
    return a if isinstance(a, T) else ip.get(a)


def wrap(ip, shape, vals):
    if not shape:
        return vals[0]
    if not any(isinstance(s, int) for s in shape):
        return vals[0]
    return ip.new(I.ArrC(shape, vals))


def free_dims(ip, t):
    d = dims(t)
    if d & frozenset(ip.mapdims):
        U('reduction inside symbolic loop')
    return sorted(d)


def red1(ip, name, t, one=None):
    """full reduction of a term over its dimensions"""
    ds = free_dims(ip, t)
    if not ds:
        return t
    if name in ('sum', 'mean', 'max', 'min', 'any', 'all', 'prod'):
        for d in ds:
            t = fn(name, t, strc(d))
        return t
    if len(ds) == 1:
        return fn(name, t, strc(ds[0]))
    return fn(name, t)


def fold_red(name, vals):
    if name == 'sum':
        return add(*vals) if vals else ZERO
    if name == 'mean':
        return div(add(*vals), const(len(vals)))
    if name == 'prod':
        return mul(*vals) if vals else ONE
    if name == 'any':
        return or_(*vals) if vals else FALSE
    if name == 'all':
        return and_(*vals) if vals else TRUE
    if name in ('max', 'min'):
        r = vals[0]
        for v in vals[1:]:
            r = tm.fmax(r, v) if name == 'max' else tm.fmin(r, v)
        return r
    if name == 'median' and len(vals) == 1:
        return vals[0]
    if name == 'median' and vals and all(v.op == 'c' for v in vals):
        o = sorted(vals, key=lambda v: v.data)
        return div(add(o[(len(o) - 1) // 2], o[len(o) // 2]), const(2))
    if name == 'std':
        m = div(add(*vals), const(len(vals)))
        return fn('sqrt', div(add(*[power(sub(v, m), const(2)) for v in vals]), const(len(vals))))
    return None


def bag_reduce(name, c):
    gv = [(g, num(x)) for g, x in zip(c.gates, c.vals)]
    if name in ('sum', 'mean', 'std') and gv:
        tot = lambda l: add(*[ite(g, x, ZERO) for g, x in l])
        if name == 'sum':
            return tot(gv)
        n = count(c)
        m = div(tot(gv), n)
        if name == 'mean':
            return m
        return fn('sqrt', div(tot([(g, power(sub(x, m), const(2))) for g, x in gv]), n))
    if name == 'any':
        return or_(*[and_(g, tobool(x)) for g, x in gv])
    if name == 'all':
        return and_(*[or_(not_(g), tobool(x)) for g, x in gv])
    if name in ('max', 'min'):
        inf = fn('INF') if name == 'min' else neg(fn('INF'))
        f = tm.fmax if name == 'max' else tm.fmin
        r = inf
        for g, x in gv:
            r = ite(g, f(r, x), r)
        return r
    U('%s of a selection' % name)


def reduce_(ip, name, v, axis=None, keepdims=None):
    if isinstance(v, I.Choice):
        a, b = reduce_(ip, name, v.a, axis), reduce_(ip, name, v.b, axis)
        return ip.choice(v.c, a, b)
    if isinstance(v, I.Ref) and ip.get(v).kind == 'list' and any(g is not TRUE for g, _ in ip.get(v).items):
        its = ip.get(v).items
        if name == 'sum' and axis is None:
            return add(*[ite(g, num(x), ZERO) for g, x in its])
        if name == 'any':
            return or_(*[and_(g, ip.truth(x)) for g, x in its])
        if name == 'all':
            return and_(*[or_(not_(g), ip.truth(x)) for g, x in its])
        U('reduction of guarded list')
    if bag(ip, v):
        return bag_reduce(name, bag(ip, v))
    a = arr(ip, v)
    ax = None
    if axis is not None and axis is not NONE:
        ax = ip.cint(axis) if isinstance(axis, T) else U('axis')
        if ax is None:
            U('axis')
    if isinstance(a, T):
        if ax is not None and len(dims(a)) > 1:
            U('axis of opaque array')
        if name in ('any', 'all') and not dims(a):
            return tobool(a)
        if name == 'std' and not dims(a):
            return ZERO
        return red1(ip, name, a)
    shape, vals = list(a.shape), list(a.vals)
    if ax is None:
        if all(isinstance(s, int) for s in shape):
            r = fold_red(name, vals)
            if r is None:
                return fn(name, *vals)
            return r
        if name in ('sum', 'any', 'all', 'prod', 'max', 'min'):
            return fold_red(name, [red1(ip, name, x) if dims(x) else (mul(x, fn('dimlen', strc([s for s in shape if isinstance(s, str)][0]))) if name == 'sum' else x) for x in vals])
        if name == 'mean':
            return fold_red('mean', [red1(ip, 'mean', x) for x in vals])
        U('full reduction')
    n = len(shape)
    ax %= n
    s = shape[ax]
    rest = shape[:ax] + shape[ax + 1:]
    if isinstance(s, str):
        out = []
        for x in vals:
            if s in dims(x):
                if s in ip.mapdims:
                    U('reduction inside symbolic loop')
                out.append(fn(name, x, strc(s)))
            elif name in ('mean', 'median', 'max', 'min', 'any', 'all'):
                out.append(x)
            elif name == 'sum':
                out.append(mul(x, fn('dimlen', strc(s))))
            else:
                U('axis reduction')
        if not rest:
            return out[0]
        return wrap(ip, rest, out)
    fx = [(i, q) for i, q in enumerate(shape) if isinstance(q, int)]
    pos = [i for i, _ in fx].index(ax)
    fdims = [q for _, q in fx]
    out = []
    other = fdims[:pos] + fdims[pos + 1:]
    for idx in itertools.product(*[range(q) for q in other]):
        col = []
        for j in range(s):
            full = list(idx[:pos]) + [j] + list(idx[pos:])
            k = 0
            for q, i in zip(fdims, full):
                k = k * q + i
            col.append(vals[k])
        r = fold_red(name, col)
        if r is None:
            r = fn(name, *col)
        out.append(r)
    return wrap(ip, rest, out) if rest else out[0]


def mat(ip, v):
    """fixed matrix -> (nrow, ncol or None, rows list, extra dims)"""
    a = arr(ip, v)
    if isinstance(a, T):
        return a
    return a


def dot(ip, x, y):
    if isinstance(x, I.Choice):
        return ip.choice(x.c, dot(ip, x.a, y), dot(ip, x.b, y))
    if isinstance(y, I.Choice):
        return ip.choice(y.c, dot(ip, x, y.a), dot(ip, x, y.b))
    a, b = arr(ip, x), arr(ip, y)
    if isinstance(a, T) and isinstance(b, T):
        if len(dims(a)) == 1 and dims(a) == dims(b):
            return red1(ip, 'sum', mul(a, b))
        if not dims(a) or not dims(b):
            if any(z.op == 'f' and z.data in ('linalg.inv',) for z in (a, b)):
                return fn('dot', a, b)
            return mul(a, b)
        return fn('dot', a, b)
    if isinstance(a, T) or isinstance(b, T):
        return fn('unsupported:dot', ip.toterm(x), ip.toterm(y))
    sa, sb = list(a.shape), list(b.shape)
    ka = sa[-1]
    kb = sb[0] if len(sb) == 1 else sb[-2]
    if not isinstance(ka, int):
        if ka == kb:
            # contraction over a symbolic axis
            ra = sa[:-1]
            na = 1
            for s in ra:
                na *= s if isinstance(s, int) else U('dot')
            rb = [q for q in (sb[:-2] + sb[-1:])] if len(sb) > 1 else []
            nb = 1
            for s in rb:
                nb *= s if isinstance(s, int) else U('dot')
            out = [fn('sum', mul(p, q), strc(ka)) for p in a.vals for q in b.vals]
            return wrap(ip, ra + rb, out)
        U('dot over symbolic axis')
    if ka != kb:
        U('dot shapes %s %s' % (sa, sb))
    # a: [..rows.., k], rows may be int or dim (at most)
    ra = sa[:-1]
    na = 1
    for s in ra:
        if isinstance(s, int):
            na *= s
    rb = (sb[:-2] + sb[-1:]) if len(sb) > 1 else []
    if len(sb) > 2:
        U('dot rank')
    nb = 1
    for s in rb:
        if isinstance(s, int):
            nb *= s
    out = []
    for i in range(na):
        for j in range(nb):
            out.append(add(*[mul(a.vals[i * ka + k], b.vals[k * nb + j]) for k in range(ka)]))
    return wrap(ip, ra + rb, out)


def transpose(ip, v):
    a = arr(ip, v)
    if isinstance(a, T):
        return a if len(dims(a)) <= 1 else fn('transpose', a)
    if len(a.shape) == 1:
        return v
    if len(a.shape) != 2:
        U('transpose rank')
    n, m = a.shape
    if isinstance(n, int) and isinstance(m, int):
        return wrap(ip, (m, n), [a.vals[i * m + j] for j in range(m) for i in range(n)])
    return wrap(ip, (m, n), a.vals)


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return sub(mul(M[0][0], M[1][1]), mul(M[0][1], M[1][0]))
    return add(*[mul(const((-1) ** j), M[0][j], det([r[:j] + r[j + 1:] for r in M[1:]])) for j in range(n)])


def gauss(M, B):
    """solution of M X = B by elimination (generic entries: a pivot that is not the constant zero is non-zero)"""
    n, m = len(M), len(B[0])
    M = [list(r) for r in M]
    B = [list(r) for r in B]
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k] is not ZERO), None)
        if p is None:
            U('singular matrix')
        M[k], M[p], B[k], B[p] = M[p], M[k], B[p], B[k]
        for i in range(k + 1, n):
            if M[i][k] is ZERO:
                continue
            f = div(M[i][k], M[k][k])
            M[i] = [ZERO if j <= k else sub(M[i][j], mul(f, M[k][j])) for j in range(n)]
            B[i] = [sub(B[i][j], mul(f, B[k][j])) for j in range(m)]
    X = [None] * n
    for i in reversed(range(n)):
        X[i] = [div(sub(B[i][j], add(*[mul(M[i][k], X[k][j]) for k in range(i + 1, n)]) if i + 1 < n else ZERO), M[i][i]) for j in range(m)]
    return X


def solve(ip, A, B):
    a, b = arr(ip, A), arr(ip, B)
    if isinstance(a, T) or isinstance(b, T) or len(a.shape) != 2 or not all(isinstance(s, int) for s in a.shape + b.shape) or a.shape[0] != a.shape[1] or b.shape[0] != a.shape[0] or len(b.shape) > 2:
        return None
    n, m = a.shape[0], (b.shape[1] if len(b.shape) == 2 else 1)
    X = gauss([a.vals[i * n:(i + 1) * n] for i in range(n)], [b.vals[i * m:(i + 1) * m] for i in range(n)])
    return wrap(ip, b.shape, [x for r in X for x in r])


def known_matrix(ip, v):
    a = arr(ip, v)
    return not isinstance(a, T) and len(a.shape) == 2 and all(isinstance(s, int) for s in a.shape)


def base_linalg(ip, n, args, kwargs):
    if n == 'cho_solve':
        return isinstance(args[0], tuple) and len(args[0]) == 2 and known_matrix(ip, args[0][0])
    return n in ('cho_factor', 'cholesky', 'solve', 'inv', 'lstsq', 'pinv') and bool(args) and known_matrix(ip, args[0])


def cholesky(M):
    """lower triangle of a positive definite matrix"""
    n = len(M)
    L = [[ZERO] * n for _ in range(n)]
    for j in range(n):
        L[j][j] = fn('sqrt', sub(M[j][j], add(*[mul(L[j][k], L[j][k]) for k in range(j)]) if j else ZERO))
        for i in range(j + 1, n):
            L[i][j] = div(sub(M[i][j], add(*[mul(L[i][k], L[j][k]) for k in range(j)]) if j else ZERO), L[j][j])
    return L


def scipy_linalg(ip, n, args, kwargs):
    if n in ('cho_factor', 'cholesky'):
        a = arr(ip, args[0])
        k = a.shape[0]
        low = kwargs.get('lower', args[1] if len(args) > 1 else FALSE)
        if low not in (TRUE, FALSE):
            U('orientation of a factor')
        # only the triangle of the asked side is read
        M = [[a.vals[i * k + j] if (j <= i) == (low is TRUE) or i == j else a.vals[j * k + i] for j in range(k)] for i in range(k)]
        L = cholesky(M)
        rest = (lambda i, j: ZERO) if n == 'cholesky' else (lambda i, j: a.vals[i * k + j])
        out = wrap(ip, (k, k), [(L[i][j] if low is TRUE else L[j][i]) if ((j <= i) if low is TRUE else (i <= j)) else rest(i, j) for i in range(k) for j in range(k)])
        return out if n == 'cholesky' else (out, low)
    if n == 'cho_solve':
        a, low = arr(ip, args[0][0]), args[0][1]
        if low not in (TRUE, FALSE):
            U('orientation of a factor')
        k = a.shape[0]
        L = [[(a.vals[i * k + j] if low is TRUE else a.vals[j * k + i]) if j <= i else ZERO for j in range(k)] for i in range(k)]
        b = arr(ip, args[1])
        if isinstance(b, T) or b.shape[0] != k or len(b.shape) > 2:
            U('right hand side of a factor')
        m = b.shape[1] if len(b.shape) == 2 else 1
        out = [[None] * m for _ in range(k)]
        for q in range(m):
            y = []
            for i in range(k):
                y.append(div(sub(b.vals[i * m + q], add(*[mul(L[i][p], y[p]) for p in range(i)]) if i else ZERO), L[i][i]))
            for i in reversed(range(k)):
                out[i][q] = div(sub(y[i], add(*[mul(L[p][i], out[p][q]) for p in range(i + 1, k)]) if i + 1 < k else ZERO), L[i][i])
        return wrap(ip, b.shape, [x for r in out for x in r])
    if n == 'lstsq':
        a, at = arr(ip, args[0]), transpose(ip, args[0])
        r, k = a.shape
        if r == 0:
            return (filled(ip, (const(k),), ZERO), NONE, ZERO, NONE)
        if r >= k:
            x = solve(ip, dot(ip, at, args[0]), dot(ip, at, args[1]))
        else:       # the shortest solution
            x = dot(ip, at, solve(ip, dot(ip, args[0], at), args[1]))
        if x is None:
            U('least squares')
        return (x, fn('lstsq:residuals', ip.toterm(x)), const(min(r, k)), fn('lstsq:singular', ip.toterm(args[0])))
    return call(ip, 'numpy.linalg.' + n, args, kwargs, None, None)


def inv(ip, v):
    a = arr(ip, v)
    if not isinstance(a, T) and len(a.shape) == 2 and all(isinstance(s, int) for s in a.shape) and 3 < a.shape[0] == a.shape[1] <= 24:
        n = a.shape[0]
        X = gauss([a.vals[i * n:(i + 1) * n] for i in range(n)], [[ONE if i == j else ZERO for j in range(n)] for i in range(n)])
        return wrap(ip, (n, n), [x for r in X for x in r])
    if isinstance(a, T) or len(a.shape) != 2 or not all(isinstance(s, int) for s in a.shape) or a.shape[0] > 3:
        return fn('linalg.inv', ip.toterm(v))
    n = a.shape[0]
    M = [list(a.vals[i * n:(i + 1) * n]) for i in range(n)]
    d = det(M)
    out = []
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
            c = det(minor) if minor else ONE
            out.append(div(mul(const((-1) ** (i + j)), c), d))
    return wrap(ip, (n, n), out)


def filled(ip, shape, val):
    """array of constant value"""
    if isinstance(shape, I.Ref) or isinstance(shape, tuple):
        sh = ip.known_items(shape)
        if sh is None:
            return val
    else:
        sh = [shape]
    out = []
    n = 1
    for s in sh:
        i = ip.cint(s)
        if i is not None:
            out.append(i)
            n *= i
        elif isinstance(s, T) and s.op == 'f' and s.data == 'dimlen':
            out.append(s.args[0].data)
        else:
            return val
    if n > ip.MAXCELLS or not any(isinstance(s, int) for s in out):
        return val
    return ip.new(I.ArrC(out, [val] * n))


def length(ip, v):
    if isinstance(v, tuple):
        return const(len(v))
    if isinstance(v, I.Ref):
        c = ip.get(v)
        if c.kind == 'list':
            if c.vec is not None:
                d = ip.pick_dim(c.vec)
                return dimlen(d) if d else fn('len', ip.toterm(v))
            if all(g is TRUE for g, _ in c.items):
                return const(len(c.items))
            return add(*[ite(g, ONE, ZERO) for g, _ in c.items])
        if c.kind == 'dict' and not c.sym:
            return const(len(c.items))
        if c.kind == 'bag':
            return count(c)
        if c.kind == 'arr':
            return const(c.shape[0]) if isinstance(c.shape[0], int) else dimlen(c.shape[0])
        if c.kind == 'inst':
            m = c.cls.lookup('__len__')
            if isinstance(m, I.Native):
                return m.f(ip, [v], {})
            if m:
                return ip.call_func(m, [v], {})
    if isinstance(v, T):
        if v.op == 'str':
            return const(len(v.data))
        ds = sorted(dims(v) - frozenset(ip.mapdims))
        if len(ds) == 1:
            return dimlen(ds[0])
        if v.op == 'f' and v.data in ('tuple', 'list'):
            return const(len(v.args))
        return fn('len', v)
    if isinstance(v, I.Choice):
        return ite(v.c, length(ip, v.a), length(ip, v.b))
    U('len')


def dimlen(d):
    return fn('dimlen', strc(d))


def count(c):
    """number of elements of a selection"""
    return add(*[ite(g, ONE, ZERO) for g in c.gates]) if c.gates else ZERO


def bag(ip, v):
    return ip.get(v) if isinstance(v, I.Ref) and ip.get(v).kind == 'bag' else None


def size(ip, v):
    if bag(ip, v):
        return count(bag(ip, v))
    a = ip.to_arr(v)
    if a is None:
        return length(ip, v)
    if isinstance(a, T):
        ds = sorted(dims(a) - frozenset(ip.mapdims))
        if not ds:
            return ONE
        return mul(*[dimlen(d) for d in ds])
    n = []
    for s in ip.get(a).shape:
        n.append(const(s) if isinstance(s, int) else dimlen(s))
    return mul(*n) if n else ONE


def shape(ip, v):
    if bag(ip, v):
        return (count(bag(ip, v)),)
    a = ip.to_arr(v)
    if a is None:
        U('shape')
    if isinstance(a, T):
        return tuple(dimlen(d) for d in sorted(dims(a) - frozenset(ip.mapdims)))
    return tuple(const(s) if isinstance(s, int) else dimlen(s) for s in ip.get(a).shape)


def kindof(ip, v):
    """set of python type names a value may have (None: unknown)"""
    if isinstance(v, I.Slice):
        return {'slice'}
    if isinstance(v, tuple):
        return {'tuple'}
    if isinstance(v, I.Ref):
        c = ip.get(v)
        return {'list': {'list', 'set'}, 'dict': {'dict', 'OrderedDict'}, 'arr': {'ndarray'}, 'inst': None}[c.kind] if c.kind in ('list', 'dict', 'arr') else None
    if isinstance(v, T):
        if v.op == 'none':
            return {'NoneType'}
        if v.op == 'str' or I.is_strfn(v):
            return {'str'}
        if v in (TRUE, FALSE):
            return {'bool'}
        if dims(v) - frozenset(ip.mapdims):
            return {'ndarray'}
        if v.op in ('c',):
            return {'int', 'float', 'number'} if v.data.denominator == 1 else {'float', 'number'}
        if v.op in ('s', '+', '*', 'pow', 'bs'):
            return {'float', 'number', 'float64'}
        if v.op == 'f' and v.data in tm.INTERPRETED:
            return {'float', 'number', 'float64'}
    return None


def isinst(ip, v, cls):
    if isinstance(cls, tuple):
        return or_(*[isinst(ip, v, c) for c in cls])
    if isinstance(v, I.Choice):
        return or_(and_(v.c, isinst(ip, v.a, cls)), and_(not_(v.c), isinst(ip, v.b, cls)))
    if isinstance(cls, I.Class):
        if isinstance(v, I.Ref) and ip.get(v).kind == 'inst':
            def sub_(c):
                return c is cls or any(sub_(b) for b in c.bases if isinstance(b, I.Class))
            return TRUE if sub_(ip.get(v).cls) else FALSE
        if isinstance(v, T) and v.op not in ('s', 'f'):
            return FALSE
        return fn('isin', ip.toterm(v), ip.toterm(cls))
    if isinstance(cls, I.Ext):
        n = cls.name.split('.')[-1]
        k = kindof(ip, v)
        if k is not None:
            al = {'Number': 'number', 'Real': 'number', 'Sequence': 'list', 'floating': 'float', 'integer': 'int', 'Iterable': 'list'}
            n = al.get(n, n)
            if n == 'list' and cls.name.endswith(('Sequence', 'Iterable')):
                return TRUE if k & {'list', 'tuple', 'ndarray'} else FALSE
            if n in k:
                if len(k) > 1 and n == 'int' and isinstance(v, T) and v.op != 'c':
                    return fn('isin', v, ip.toterm(cls))
                return TRUE
            return FALSE
        return fn('isin', ip.toterm(v), ip.toterm(cls))
    U('isinstance')


def stack(ip, seq, axis):
    it = ip.known_items(seq)
    if it is None:
        U('stack')
    cs = []
    for x in it:
        a = arr(ip, x)
        cs.append(a)
    if axis == 0:      # vstack
        if all(isinstance(c, T) for c in cs):
            if not any(dims(c) for c in cs):
                return ip.new(I.ArrC((len(cs), 1), list(cs)))
            r = ip.to_arr(tuple(cs))
            return r
        rows = []
        sh = None
        n = 0
        for c in cs:
            if isinstance(c, T):
                U('vstack mix')
            s = list(c.shape)
            if len(s) == 1:
                s = [1] + s
            if not isinstance(s[0], int) or (sh is not None and s[1:] != sh):
                U('vstack')
            sh = s[1:]
            n += s[0]
            rows += list(c.vals)
        return ip.new(I.ArrC([n] + sh, rows))
    U('stack')


def concat(ip, seq):
    it = ip.known_items(seq)
    if it is None:
        U('concatenate')
    vals, sh = [], None
    n = 0
    for x in it:
        a = arr(ip, x)
        if isinstance(a, T) or not isinstance(a.shape[0], int):
            return fn('concatenate', *[ip.toterm(y) for y in it])
        if sh is not None and tuple(a.shape[1:]) != sh:
            U('concatenate')
        sh = tuple(a.shape[1:])
        n += a.shape[0]
        vals += list(a.vals)
    return ip.new(I.ArrC((n,) + sh, vals))


def cross(ip, a, b, axis=-1):
    ca, cb = arr(ip, a), arr(ip, b)
    if isinstance(ca, T) or isinstance(cb, T):
        return fn('unsupported:cross', ip.toterm(a), ip.toterm(b))

    def comp(c):
        if c.fixed != (3,):
            U('cross shape')
        return c.vals
    x, y = comp(ca), comp(cb)
    out = [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))]
    sh = ca.shape if len(ca.shape) >= len(cb.shape) else cb.shape
    return ip.new(I.ArrC(sh, out))


def rng(ip, args):
    ints = [ip.cint(a) for a in args]
    if all(i is not None for i in ints):
        r = list(range(*ints))
        if len(r) > 2000:
            U('long range')
        return ip.new(I.ListC([(TRUE, const(i)) for i in r]))
    a = args[-1] if len(args) <= 2 else None
    if a is not None and (len(args) == 1 or args[0] is ZERO):
        if isinstance(a, T) and a.op == 'f' and a.data == 'dimlen':
            d = a.args[0].data
            return I.Iter(('map', fn('idx', strc(d)), d))
        if isinstance(a, T):
            d = 'range%d' % a.id
            return I.Iter(('map', fn('idx', strc(d)), d))
    U('range')


def zipped(ip, args):
    its = []
    for a in args:
        if isinstance(a, I.Iter):
            its.append(a.tup)
        else:
            its.append(ip.iterable(a))
    if all(i[0] == 'items' for i in its):
        n = min(len(i[1]) for i in its) if its else 0
        out = []
        for j in range(n):
            out.append((and_(*[i[1][j][0] for i in its]), tuple(i[1][j][1] for i in its)))
        return I.Iter(('items', out))
    if all(i[0] == 'map' for i in its):
        d = its[0][2]
        if any(i[2] != d for i in its):
            U('zip of different dims')
        return I.Iter(('map', tuple(i[1] for i in its), d))
    U('zip')


def enum(ip, a, start=ZERO):
    t = a.tup if isinstance(a, I.Iter) else ip.iterable(a)
    if t[0] == 'items':
        if any(g is not TRUE for g, _ in t[1]):
            U('enumerate guarded')
        return I.Iter(('items', [(g, (add(const(i), start), v)) for i, (g, v) in enumerate(t[1])]))
    if t[0] == 'map':
        return I.Iter(('map', (fn('idx', strc(t[2])), t[1]), t[2]))
    U('enumerate group')


def toint(t):
    f = fold(t)
    if f is not None:
        return const(int(f))
    if t.op == 'f' and t.data in ('int', 'floor', 'dimlen', 'len', 'idx'):
        return t if t.data != 'floor' else fn('int', t)
    if t.op == 's' and dict(t.data[2]).get('integer'):
        return t
    if is_bool(t):
        return num(t)
    return fn('int', t)


def ext_call(ip, name, args, kwargs):
    return ip.fn_alias(name, *([ip.toterm(a) for a in args] + [fn('kw:' + k, ip.toterm(v)) for k, v in sorted(kwargs.items())]))


NUMPY = ('numpy.', 'math.', 'scipy.')


def call(ip, name, args, kwargs, fi, node):
    if name.startswith('builtins.'):
        return builtin(ip, name[9:], args, kwargs, fi, node)
    if I.ignorable(name):
        return I.IGN
    if name.startswith('numpy.linalg.'):
        n = name[13:]
        if n == 'inv':
            return inv(ip, args[0])
        if n == 'solve':
            a = arr(ip, args[0])
            if not isinstance(a, T) and len(a.shape) == 2 and a.shape[0] in (1, 2, 3):
                return dot(ip, inv(ip, args[0]), args[1])
            x = solve(ip, args[0], args[1])
            return x if x is not None else ext_call(ip, name, args, kwargs)
        if n in ('lstsq', 'pinv'):
            a = arr(ip, args[0])
            if not isinstance(a, T) and len(a.shape) == 2 and all(isinstance(s, int) for s in a.shape) and a.shape[0] >= a.shape[1]:
                at = transpose(ip, args[0])
                if n == 'pinv':
                    return dot(ip, inv(ip, dot(ip, at, args[0])), at)
                x = solve(ip, dot(ip, at, args[0]), dot(ip, at, args[1]))
                if x is not None:
                    return (x, fn('lstsq:residuals', ip.toterm(x)), const(a.shape[1]), fn('lstsq:singular', ip.toterm(args[0])))
        if n == 'det':
            a = arr(ip, args[0])
            if not isinstance(a, T) and len(a.shape) == 2 and a.shape[0] in (1, 2, 3):
                k = a.shape[0]
                return det([list(a.vals[i * k:(i + 1) * k]) for i in range(k)])
        if n == 'norm' and len(args) == 1:
            ax = kwargs.get('axis')
            sq = ip.map1(lambda t: mul(t, t), args[0])
            return ip.map1(lambda t: fn('sqrt', t), reduce_(ip, 'sum', sq, ax))
        return ext_call(ip, name, args, kwargs)
    if name.startswith('scipy.linalg.') and base_linalg(ip, name.split('.')[-1], args, kwargs):
        return scipy_linalg(ip, name.split('.')[-1], args, kwargs)
    if name.startswith('numpy.random.'):
        return ext_call(ip, name, args, kwargs)
    base = name.split('.')[-1]
    if name.startswith(('numpy.', 'math.')) and name.count('.') == 1:
        r = npcall(ip, base, args, kwargs, fi, node, name)
        if r is not NotImplemented:
            return r
        return ext_call(ip, name, args, kwargs)
    if base in ('erf', 'erfc') and name.startswith('scipy.special.') and len(args) == 1 and not kwargs:
        return ip.map1(lambda t: fn(base, t), args[0])
    if name == 'json.loads':
        a = args[0]
        if isinstance(a, T) and a.op == 'f' and a.data == 'json.dumps':
            return ip.json_in(a)
        return ext_call(ip, name, args, kwargs)
    if name == 'json.dumps':
        return ip.fn_alias('json.dumps', ip.toterm(args[0]))
    if name in ('yaml.safe_load', 'yaml.load') and args and isinstance(args[0], T) and args[0].op == 'str':
        r = plainyaml(ip, args[0].data)
        if r is not None:
            return r
    if name == 'os.path.join':
        if all(isinstance(a, T) and a.op == 'str' for a in args):
            return strc('/'.join(a.data for a in args))
        return fn('pathjoin', *[ip.toterm(a) for a in args])
    if name in ('os.path.basename', 'os.path.dirname', 'os.path.split', 'os.path.splitext', 'os.path.normpath') and len(args) == 1 and not kwargs and isinstance(args[0], T) and args[0].op == 'str':
        import posixpath
        r = getattr(posixpath, name.split('.')[-1])(args[0].data)
        return tuple(strc(x) for x in r) if isinstance(r, tuple) else strc(r)
    if name in ('os.path.abspath', 'os.path.realpath') and len(args) == 1 and not kwargs and isinstance(args[0], T) and args[0].op == 'str':
        import posixpath
        # relative paths: from one working directory, without links
        return strc(posixpath.normpath(posixpath.join('/working/directory', args[0].data)))
    if name == 'copy.deepcopy' or name == 'copy.copy':
        return clone(ip, args[0])
    if name == 'collections.OrderedDict':
        return builtin(ip, 'dict', args, kwargs, fi, node)
    return ext_call(ip, name, args, kwargs)


def formatted(v, spec=''):
    """text of a known string or whole number; None when not known"""
    if not isinstance(v, T):
        return None
    if v.op == 'str':
        x = v.data
    elif v.op == 'c' and v.data.denominator == 1:
        x = int(v.data)
    else:
        return None
    if spec and (spec[-1:] not in ('d', 's') or not all(ch.isdigit() or ch in '<>^' for ch in spec[:-1])):
        return None
    try:
        return format(x, spec)
    except ValueError:
        return None


def strformat(ip, text, args, kwargs):
    import string
    out, k = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            out.append(lit)
            if field is None:
                continue
            if field == '':
                field, k = str(k), k + 1
            if conv not in (None, 's'):
                return None
            if field.isdigit() and int(field) < len(args):
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                return None
            v = formatted(I.intvalue(ip, v), spec or '')
            if v is None:
                return None
            out.append(v)
    except ValueError:
        return None
    return ''.join(out)


def percent(ip, text, vals):
    import re
    parts = re.split(r'(%0?\d*[ds]|%%)', text)
    if any('%' in x for x in parts[::2]):
        return None
    out, vals = [], list(vals)
    for i, x in enumerate(parts):
        if i % 2 == 0:
            out.append(x)
        elif x == '%%':
            out.append('%')
        else:
            v = formatted(I.intvalue(ip, vals.pop(0))) if vals else None
            if v is None or x[-1] == 'd' and not v.lstrip('-').isdigit():
                return None
            out.append(x % (int(v) if x[-1] == 'd' else v))
    return ''.join(out) if not vals else None


def plainyaml(ip, text):
    """a literal of the form 'name:' followed by rows '- [word, number, "text"]'; None when it is anything else"""
    import re
    out, rows = {}, None
    for l in text.split('\n'):
        l = l.strip()
        if not l or l.startswith('#'):
            continue
        m = re.match(r'^(\w+)\s*:$', l)
        if m:
            rows = out[m.group(1)] = []
            continue
        m = re.match(r'^-\s*\[\s*(\w+)\s*,\s*(\d+)\s*,\s*(?:"([^"\\]*)"|\'([^\'\\]*)\')\s*\]$', l)
        if not m or rows is None or m.group(1).lower() in ('yes', 'no', 'on', 'off', 'true', 'false', 'null', 'y', 'n') or re.match(r'^\d', m.group(1)) \
                or len(m.group(2)) > 1 and m.group(2)[0] == '0':
            return None
        rows.append(ip.new(I.ListC([(TRUE, strc(m.group(1))), (TRUE, const(int(m.group(2)))), (TRUE, strc(m.group(3) if m.group(3) is not None else m.group(4)))])))
    return ip.new(I.DictC({k: ip.new(I.ListC([(TRUE, x) for x in v])) for k, v in out.items()}))


def clone(ip, v):
    if isinstance(v, I.Ref):
        return ip.new(ip.get(v))
    return v


def npcall(ip, n, args, kwargs, fi, node, full):
    r = npcall_(ip, n, args, kwargs, fi, node, full)
    if r is not NotImplemented:
        kwfilter(n, kwargs)
    return r


def npcall_(ip, n, args, kwargs, fi, node, full):
    if 'out' in kwargs or 'where' in kwargs:
        U('out= keyword')
    if n == 'ravel':
        return flat(ip, args[0], order_f(kwargs, args, 1))
    if n == 'reshape' and len(args) == 2:
        if order_f(kwargs, args, 2):
            U('reshape order')
        return reshape(ip, args[0], args[1:])
    if n in ('float32', 'float16', 'single', 'half'):
        return ip.map1(cast(strc('f4')), args[0])
    if n in IDENT and (kwargs.get('dtype') is not None or len(args) > 1):
        f = cast(kwargs.get('dtype', args[1] if len(args) > 1 else None))
        if f is not None:
            return ip.map1(f, npcall(ip, n, args[:1], {}, fi, node, full))
    if n in ELEM and len(args) == 1:
        return ip.map1(ELEM[n], args[0])
    if n in ELEM2 and len(args) == 2:
        return ip.map2(ELEM2[n], args[0], args[1])
    if n in IDENT and len(args) >= 1:
        v = args[0]
        if isinstance(v, T):
            return v
        if isinstance(v, I.Choice):
            return ip.choice(v.c, npcall(ip, n, [v.a], kwargs, fi, node, full), npcall(ip, n, [v.b], kwargs, fi, node, full))
        if isinstance(v, I.Ref) and ip.get(v).kind == 'inst':
            return ip.toterm(v)
        a = ip.to_arr(v)
        if a is None:
            it = ip.known_items(v)
            if it is not None and it and all(isinstance(x, T) for x in it):
                return ip.new(I.ArrC((len(it),), it))
            U('array of structure')
        if isinstance(a, I.Ref) and n in ('array', 'copy') and isinstance(v, I.Ref) and a.oid == v.oid:
            return ip.new(ip.get(a))
        return a
    if n in ('sum', 'mean', 'median', 'max', 'min', 'amax', 'amin', 'any', 'all', 'std', 'prod', 'nanmax', 'nanmin', 'average', 'argmax', 'argmin'):
        if n == 'average' and (len(args) > 1 or 'weights' in kwargs):
            w = kwargs.get('weights', args[2] if len(args) > 2 else None)
            if w is None:
                return NotImplemented
            num_ = reduce_(ip, 'sum', ip.map2(mul, args[0], w), kwargs.get('axis'))
            return ip.map2(div, num_, reduce_(ip, 'sum', w, kwargs.get('axis')))
        nn = {'amax': 'max', 'amin': 'min', 'average': 'mean'}.get(n, n)
        if n in ('argmax', 'argmin'):
            a = arr(ip, args[0])
            if not isinstance(a, T) and all(isinstance(s, int) for s in a.shape):
                return argext(ip, list(a.vals), n == 'argmax')
        return reduce_(ip, nn, args[0], kwargs.get('axis', args[1] if len(args) > 1 else None))
    if n == 'where':
        if len(args) == 1:
            c = arr(ip, args[0])
            if isinstance(c, T):
                return (fn('where', tobool(c)),)
            if len(c.shape) == 1 and isinstance(c.shape[0], int) and all(x.op == 'c' or is_bool(x) for x in c.vals):
                g = [tobool(x) for x in c.vals]
                js = [j for j in range(len(g)) if g[j] is not FALSE]
                if all(g[j] is TRUE for j in js):
                    return (ip.new(I.ArrC((len(js),), [const(j) for j in js])),)
                return (ip.new(I.BagC([g[j] for j in js], [const(j) for j in js])),)
            if len(c.shape) == 2 and all(isinstance(k, int) for k in c.shape) and all(x.op == 'c' or is_bool(x) for x in c.vals):
                g = [tobool(x) for x in c.vals]
                if all(x is TRUE or x is FALSE for x in g):
                    js = [divmod(j, c.shape[1]) for j in range(len(g)) if g[j] is TRUE]
                    return tuple(ip.new(I.ArrC((len(js),), [const(j[k]) for j in js])) for k in (0, 1))
            return (fn('where', ip.toterm(args[0])),)
        c, a, b = args
        tt = ip.map2(lambda x, y: mk('f', (x, y), 'pair'), a, b)
        return ip.map2(lambda cc, p: ite(tobool(cc), p.args[0], p.args[1]), c, tt)
    if n in ('bitwise_or.reduce', 'logical_or.reduce', 'bitwise_and.reduce', 'logical_and.reduce', 'add.reduce', 'maximum.reduce', 'minimum.reduce') and len(args) == 1:
        c = arr(ip, args[0])
        if not isinstance(c, T) and len(c.shape) == 1 and isinstance(c.shape[0], int) and c.vals:
            r = c.vals[0]
            for v in c.vals[1:]:
                r = npcall(ip, n.split('.')[0], [r, v], {}, fi, node, full)
            return r
        return NotImplemented
    if n == 'nonzero' and len(args) == 1:
        return npcall(ip, 'where', args, kwargs, fi, node, full)
    if n == 'argwhere' and len(args) == 1:
        c = arr(ip, args[0])
        if not isinstance(c, T) and len(c.shape) == 1:
            r = ip.get(npcall(ip, 'where', args, kwargs, fi, node, full)[0])
            if r.kind == 'arr' and isinstance(r.shape[0], int):
                return ip.new(I.ArrC((r.shape[0], 1), r.vals))
        if not isinstance(c, T) and len(c.shape) == 2:
            r = npcall(ip, 'where', args, kwargs, fi, node, full)
            if len(r) == 2:
                v = [ip.get(x).vals for x in r]
                return ip.new(I.ArrC((len(v[0]), 2), [x for q in zip(*v) for x in q]))
        return NotImplemented
    if n == 'unravel_index' and len(args) == 2 and not kwargs:
        sh = [ip.cint(x) for x in (args[1] if isinstance(args[1], tuple) else ip.known_items(args[1]) or [])]
        if len(sh) == 2 and None not in sh:
            return (ip.map1(lambda t: I._floordiv(t, const(sh[1])), args[0]), ip.map1(lambda t: fn('mod', t, const(sh[1])), args[0]))
        return NotImplemented
    if n in ('indices', 'mgrid') and len(args) == 1 and not kwargs:
        sh = [ip.cint(x) for x in (args[0] if isinstance(args[0], tuple) else ip.known_items(args[0]) or [])]
        if len(sh) == 2 and None not in sh:
            return tuple(ip.new(I.ArrC(tuple(sh), [const((i, j)[k]) for i in range(sh[0]) for j in range(sh[1])])) for k in (0, 1))
        return NotImplemented
    if n == 'meshgrid' and len(args) == 2 and not set(kwargs) - {'indexing'}:
        x, y = ip.known_items(ip.to_arr(args[0])), ip.known_items(ip.to_arr(args[1]))
        ij = kwargs.get('indexing', strc('xy'))
        if x is not None and y is not None and ij in (strc('xy'), strc('ij')):
            if ij is strc('ij'):
                return (ip.new(I.ArrC((len(x), len(y)), [a for a in x for _ in y])), ip.new(I.ArrC((len(x), len(y)), [b for _ in x for b in y])))
            return (ip.new(I.ArrC((len(y), len(x)), [a for _ in y for a in x])), ip.new(I.ArrC((len(y), len(x)), [b for b in y for _ in x])))
        return NotImplemented
    if n == 'flatnonzero':
        c = arr(ip, args[0])
        if not isinstance(c, T) and len(c.shape) == 2 and all(isinstance(k, int) for k in c.shape):
            c = I.ArrC((len(c.vals),), c.vals)
            args = [ip.new(c)]
        if not isinstance(c, T):
            return npcall(ip, 'where', args, kwargs, fi, node, full)[0]
        return fn('where', tobool(ip.toterm(args[0])))
    if n in ('zeros', 'empty', 'ones'):
        v = ONE if n == 'ones' else ZERO
        f = cast(kwargs.get('dtype', args[1] if len(args) > 1 else None))
        return filled(ip, args[0] if args else kwargs['shape'], tobool(v) if f is tobool else v)
    if n == 'full':
        return filled(ip, args[0], args[1] if isinstance(args[1], T) else U('full'))
    if n in ('zeros_like', 'empty_like', 'ones_like', 'full_like'):
        v = {'ones_like': ONE}.get(n, ZERO)
        if n == 'full_like':
            v = args[1]
        if cast(kwargs.get('dtype')) is tobool:
            v = tobool(v)
        return ip.map1(lambda t: v, args[0])
    if n in ('eye', 'identity'):
        k = ip.cint(args[0])
        if k is None or k > 40:
            U('eye')
        return ip.new(I.ArrC((k, k), [ONE if i == j else ZERO for i in range(k) for j in range(k)]))
    if n == 'diag':
        a = arr(ip, args[0])
        if not isinstance(a, T) and len(a.shape) == 1 and isinstance(a.shape[0], int):
            k = a.shape[0]
            return ip.new(I.ArrC((k, k), [a.vals[i] if i == j else ZERO for i in range(k) for j in range(k)]))
        if not isinstance(a, T) and len(a.shape) == 2 and all(isinstance(s, int) for s in a.shape) and len(args) == 1 and not kwargs:
            k = min(a.shape)
            return ip.new(I.ArrC((k,), [a.vals[i * a.shape[1] + i] for i in range(k)]))
        return NotImplemented
    if n == 'arange':
        ints = [ip.cint(a) for a in args]
        if all(i is not None for i in ints):
            r = list(range(*ints))
            if len(r) <= ip.MAXCELLS:
                return ip.new(I.ArrC((len(r),), [const(i) for i in r]))
        nums = [num(a) if isinstance(a, T) else None for a in args]
        if nums and all(a is not None and a.op == 'c' for a in nums) and not kwargs:
            lo, hi, st = (ZERO.data, nums[0].data, ONE.data) if len(nums) == 1 else (nums[0].data, nums[1].data, nums[2].data if len(nums) > 2 else ONE.data)
            r = []
            while st and len(r) < 400 and (lo < hi if st > 0 else lo > hi):
                r.append(const(lo))
                lo += st
            if len(r) < 400:
                return ip.new(I.ArrC((len(r),), r))
        if len(args) == 1 and isinstance(args[0], T) and args[0].op == 'f' and args[0].data == 'dimlen':
            return fn('idx', args[0].args[0])
        return NotImplemented
    if n in ('vstack',):
        return stack(ip, args[0], 0)
    if n in ('hstack', 'concatenate'):
        if 'axis' in kwargs or len(args) > 1:
            return NotImplemented
        return concat(ip, args[0])
    if n == 'stack' and len(args) <= 2 and not set(kwargs) - {'axis'}:
        ax = ip.cint(kwargs.get('axis', args[1] if len(args) == 2 else ZERO))
        it = ip.known_items(args[0])
        cs = [arr(ip, x) for x in it] if it is not None else []
        if cs and all(not isinstance(c, T) and len(c.shape) == 1 and isinstance(c.shape[0], int) and c.shape == cs[0].shape for c in cs) and ax in (0, 1, -1):
            k = cs[0].shape[0]
            if ax == 0:
                return ip.new(I.ArrC((len(cs), k), [v for c in cs for v in c.vals]))
            return ip.new(I.ArrC((k, len(cs)), [c.vals[i] for i in range(k) for c in cs]))
    if n == 'stack':
        if kwargs.get('axis', ZERO) is ZERO and len(args) == 1:
            r = ip.to_arr(args[0])
            if r is not None:
                return r
        return NotImplemented
    if n == 'column_stack':
        r = stack(ip, args[0], 0)
        return transpose(ip, r)
    if n == 'append' and len(args) == 2:
        a, b = args
        la, lb = ip.known_items(a), ip.known_items(b)
        if lb is None and isinstance(b, T) and not dims(b):
            lb = [b]
        if la is None and isinstance(a, T) and a.op == 'c':
            la = [a]
        if la is not None and lb is not None:
            return concat(ip, (ip.to_arr(tuple(la)), ip.to_arr(tuple(lb))))
        return NotImplemented
    if n in ('cross',):
        return cross(ip, args[0], args[1], kwargs.get('axis'))
    if n in ('dot', 'matmul'):
        return dot(ip, args[0], args[1])
    if n == 'inner':
        return dot(ip, args[0], args[1])
    if n == 'transpose':
        return transpose(ip, args[0])
    if n == 'outer':
        a, b = ip.known_items(args[0]), ip.known_items(args[1])
        if a is None or b is None:
            if isinstance(args[0], T) and not dims(args[0]) and b is None:
                return mul(args[0], args[1])
            A, B = arr(ip, args[0]), arr(ip, args[1])
            if not isinstance(A, T) and isinstance(B, T) and dims(B):
                return ip.new(I.ArrC(list(A.shape) + [sorted(dims(B))[0]], [mul(x, B) for x in A.vals]))
            return NotImplemented
        return ip.new(I.ArrC((len(a), len(b)), [mul(x, y) for x in a for y in b]))
    if n == 'size':
        return size(ip, args[0])
    if n == 'shape':
        return shape(ip, args[0])
    if n == 'ndim':
        return const(len(shape(ip, args[0])))
    if n == 'isscalar':
        k = kindof(ip, args[0])
        if k is not None:
            return FALSE if k & {'ndarray', 'list', 'tuple', 'dict', 'NoneType'} else TRUE
        return NotImplemented
    if n == 'clip' and len(args) == 3:
        x = args[0]
        if args[1] is not NONE:
            x = ip.map2(tm.fmax, x, args[1])
        if args[2] is not NONE:
            x = ip.map2(tm.fmin, x, args[2])
        return x
    if n == 'bincount':
        it = ip.known_items(ip.to_arr(args[0]))
        if it is not None and len(args) == 1 and not kwargs and all(isinstance(x, T) and x.op == 'c' and x.data.denominator == 1 and x.data >= 0 for x in it):
            v = [int(x.data) for x in it]
            w = [const(v.count(i)) for i in range(max(v, default=-1) + 1)]
            return ip.new(I.ArrC((len(w),), w))
        b = dict(zip(('x', 'weights', 'minlength'), args))
        b.update(kwargs)
        wt = ip.known_items(ip.to_arr(b['weights'])) if b.get('weights', NONE) is not NONE else [ONE] * len(it or [])
        m = ip.cint(b.get('minlength', ZERO))
        if it is not None and wt is not None and m is not None and not set(b) - {'x', 'weights', 'minlength'} and all(isinstance(x, T) and x.op == 'c' and x.data.denominator == 1 and x.data >= 0 for x in it):
            if len(wt) != len(it):
                ip.rowerror('%d weights of %d values' % (len(wt), len(it)))
            v = [int(x.data) for x in it]
            w = [add(ZERO, *[num(x) for x, i in zip(wt, v) if i == k]) for k in range(max(v + [m - 1]) + 1)]
            return ip.new(I.ArrC((len(w),), w))
        return NotImplemented
    if n == 'unique':
        it = ordered(ip, args[0])
        if it is not None and not set(kwargs) - {'return_index', 'return_inverse', 'return_counts'} and len(args) == 1:
            return uniques(ip, it, kwargs)
        if kwargs or len(args) > 1:
            return NotImplemented
        return fn('unique', ip.toterm(args[0]))
    if n == 'delete' and len(args) == 2 and not kwargs:
        v, d = ip.known_items(ip.to_arr(args[0])), args[1]
        d = [d] if isinstance(d, T) else ip.known_items(ip.to_arr(d))
        if v is not None and d is not None and all(isinstance(x, T) and x.op == 'c' and x.data.denominator == 1 for x in d):
            d = [int(x.data) for x in d]
            if any(not -len(v) <= k < len(v) for k in d):
                ip.rowerror('row %s of %d is deleted' % (d, len(v)))
            d = {k % len(v) for k in d} if v else set()
            w = [x for i, x in enumerate(v) if i not in d]
            return ip.new(I.ArrC((len(w),), w))
    if n == 'linspace':
        b = dict(zip(('start', 'stop', 'num'), args))
        b.update(kwargs)
        k = ip.cint(b.get('num', const(50)))
        if k is not None and 2 <= k <= 24 and not set(b) - {'start', 'stop', 'num'} and all(isinstance(b.get(q), T) and not dims(b[q]) for q in ('start', 'stop')):
            return ip.new(I.ArrC((k,), [add(b['start'], mul(const(tm.F(i, k - 1)), sub(b['stop'], b['start']))) for i in range(k)]))
        return NotImplemented
    if n == 'searchsorted' and len(args) in (2, 3):
        a, v = ordered(ip, args[0]), args[1]
        side = kwargs.get('side', args[2] if len(args) == 3 else strc('left'))
        if a is not None and side in (strc('left'), strc('right')) and not set(kwargs) - {'side'}:
            before = (lambda x, t: lt(x, t)) if side is strc('left') else (lambda x, t: le(x, t))
            return ip.map1(lambda t: tm.add(*[num(before(x, t)) for x in a]) if a else ZERO, v)
        return NotImplemented
    if n == 'lexsort' and len(args) == 1 and not kwargs:
        ks = ip.known_items(args[0])
        ks = [ordered(ip, k) for k in ks] if ks is not None else [None]
        if ks and all(k is not None for k in ks):
            r = list(range(len(ks[0])))
            for k in ks:
                r = ranks(k, r)
            return ip.new(I.ArrC((len(r),), [const(i) for i in r]))
        return NotImplemented
    if n == 'repeat' and len(args) == 2 and not kwargs:
        it, ks = ip.known_items(args[0]), ip.known_items(args[1])
        if it is not None and ks is not None and len(it) == len(ks) and all(ip.cint(k) is not None for k in ks):
            r = [x for x, k in zip(it, ks) for _ in range(ip.cint(k))]
            return ip.new(I.ArrC((len(r),), r))
        k = ip.cint(args[1])
        if k is not None and 0 <= k <= 64 and isinstance(args[0], T) and not dims(args[0]) and args[0].op != 'str':
            return ip.new(I.ArrC((k,), [args[0]] * k))
    if n in ('isin', 'in1d'):
        it = ip.known_items(args[1])
        if it is not None and len(it) < 20:
            return ip.map1(lambda t: or_(*[eq(t, ip.toterm(x)) for x in it]), args[0])
        return fn('isin', ip.toterm(args[0]), ip.toterm(args[1]))
    if n == 'argsort':
        it = ordered(ip, args[0])
        if it is not None:
            return ip.new(I.ArrC((len(it),), [const(i) for i in ranks(it)]))
        return fn('argsort', ip.toterm(args[0]))
    if n == 'count_nonzero':
        return reduce_(ip, 'sum', ip.map1(lambda t: num(tobool(t)), args[0]))
    if n == 'interp' and len(args) == 3 and not kwargs:
        xp, fp = ip.toterm(args[1]), ip.toterm(args[2])
        return ip.map1(lambda t: ip.fn_alias('interp', t, xp, fp), args[0])
    if n == 'polyval':
        it = ip.known_items(args[0])
        if it is None:
            return NotImplemented
        r = ZERO
        for c in it:
            r = ip.binop(I.ast.Add(), ip.binop(I.ast.Mult(), r, args[1]), c)
        return r
    if n == 'poly1d':
        it = ip.known_items(args[0])
        if it is None:
            return NotImplemented
        return mk('f', tuple(ip.toterm(x) for x in it), 'poly1d')
    if n == 'tile' and len(args) == 2 and not kwargs and isinstance(args[0], I.Ref):
        o = ip.get(ip.to_arr(args[0]))
        reps = [args[1]] if isinstance(args[1], T) else (list(args[1]) if isinstance(args[1], tuple) else ip.known_items(args[1]))
        reps = [ip.cint(r) for r in reps] if reps else [None]
        if all(r is not None and 0 <= r < 500 for r in reps) and all(isinstance(k, int) for k in o.shape) and len(o.shape) in (1, 2) and len(reps) <= 2:
            a, b = ([1] + reps)[-2:]
            h, w = ((1,) + o.shape)[-2:]
            v = [[o.vals[i * w + j] for j in range(w)] * b for i in range(h)] * a
            flat_ = [x for row in v for x in row]
            return ip.new(I.ArrC((len(flat_),) if len(o.shape) == 1 and len(reps) == 1 else (h * a, w * b), flat_))
    if n == 'repeat' or n == 'tile':
        if isinstance(args[0], T) and not dims(args[0]) and args[0].op != 'f':
            return args[0]
        return NotImplemented
    if n == 'diff' and len(args) == 1:
        it = ip.known_items(args[0])
        if it is not None and all(isinstance(x, T) for x in it):
            return ip.new(I.ArrC((len(it) - 1,), [sub(b, a) for a, b in zip(it, it[1:])]))
        return NotImplemented
    if n in ('isclose', 'allclose'):
        return NotImplemented
    if n in ('broadcast_to', 'reshape'):
        return NotImplemented
    if n == 'broadcast_arrays':
        if not any(isinstance(a, I.Ref) for a in args):
            return tuple(args)
        z = ZERO
        for a in args:
            z = ip.map2(lambda p, q: ZERO, z, a)
        return tuple(ip.map2(lambda p, q: p, a, z) for a in args)
    if n == 'fmod':
        return NotImplemented
    if n == 'ndarray':
        return NotImplemented
    if n in ('int64', 'int32', 'intp', 'uint32', 'uint64', 'int', 'int_'):
        return ip.map1(toint, args[0])
    if n in ('bool_', 'bool'):
        return ip.map1(tobool, args[0])
    return NotImplemented


def ordered(ip, v):
    """the entries of a one dimensional array, if they are totally ordered"""
    try:
        v = ip.to_arr(v)
        c = ip.get(v) if isinstance(v, I.Ref) else None
        if c is not None and (c.kind != 'arr' or len(c.shape) != 1):
            return None
        it = ip.known_items(v)
    except I.Unsupported:
        return None
    if it is None or not all(isinstance(x, T) for x in it):
        return None
    it = [num(x) for x in it]
    for i, x in enumerate(it):
        for y in it[:i]:
            if lt(x, y) not in (TRUE, FALSE) or lt(y, x) not in (TRUE, FALSE) or eq(x, y) not in (TRUE, FALSE):
                return None
    return it


def ranks(it, start=None):
    import functools
    return sorted(start if start is not None else range(len(it)),
                  key=functools.cmp_to_key(lambda i, j: -1 if lt(it[i], it[j]) is TRUE else 1 if lt(it[j], it[i]) is TRUE else 0))


def uniques(ip, it, kwargs):
    o = ranks(it)
    groups = []
    for i in o:
        if groups and eq(it[groups[-1][0]], it[i]) is TRUE:
            groups[-1].append(i)
        else:
            groups.append([i])
    ia = lambda v: ip.new(I.ArrC((len(v),), [x if isinstance(x, T) else const(x) for x in v]))
    r = [ia([it[g[0]] for g in groups])]
    on = lambda k: kwargs.get(k, FALSE) in (TRUE, ONE)
    if on('return_index'):
        r.append(ia([min(g) for g in groups]))
    if on('return_inverse'):
        r.append(ia([next(k for k, g in enumerate(groups) if i in g) for i in range(len(it))]))
    if on('return_counts'):
        r.append(ia([len(g) for g in groups]))
    return tuple(r) if len(r) > 1 else r[0]


def argext(ip, vals, mx):
    best, bi = vals[0], ZERO
    for i, v in enumerate(vals[1:]):
        c = lt(best, v) if mx else lt(v, best)
        best, bi = ite(c, v, best), ite(c, const(i + 1), bi)
    return bi


def scalarize(ip, v):
    if isinstance(v, I.Ref) and ip.get(v).kind == 'arr' and len(ip.get(v).vals) == 1 and all(s == 1 for s in ip.get(v).shape):
        return ip.get(v).vals[0]
    return v


def builtin(ip, n, args, kwargs, fi, node):
    if n in ('float', 'int', 'bool', 'complex') and args:
        args = [scalarize(ip, args[0])] + list(args[1:])
    if n == 'len':
        return length(ip, args[0])
    if n == 'range':
        return rng(ip, args)
    if n == 'zip':
        return zipped(ip, args)
    if n == 'enumerate':
        return enum(ip, args[0], *(args[1:] or ([kwargs['start']] if 'start' in kwargs else [])))
    if n == 'float':
        if args and isinstance(args[0], T):
            if args[0].op == 'str':
                try:
                    return const(float(args[0].data))
                except ValueError:
                    raise I.Raised('ValueError', 'could not convert string to float')
            return num(args[0]) if is_bool(args[0]) else args[0]
        return ip.map1(lambda t: t, args[0]) if args else ZERO
    if n == 'int':
        if isinstance(args[0], T) and args[0].op == 'str':
            try:
                return const(int(args[0].data))
            except ValueError:
                raise I.Raised('ValueError', 'invalid literal for int()')
        if isinstance(args[0], I.Ref) and ip.get(args[0]).kind == 'arr' and len(ip.get(args[0]).vals) == 1 and all(q == 1 for q in ip.get(args[0]).shape):
            return toint(ip.get(args[0]).vals[0])
        return ip.map1(toint, args[0])
    if n == 'bool':
        return ip.truth(args[0])
    if n == 'str':
        if not args:
            return strc('')
        t = ip.toterm(args[0])
        if t.op == 'str':
            return t
        if t.op == 'c' and t.data.denominator == 1:
            return strc(str(int(t.data)))
        return fn('str', t)
    if n == 'divmod' and len(args) == 2 and all(isinstance(a, T) for a in args):
        return (I._floordiv(*args), fn('mod', *args))
    if n == 'abs':
        return ip.map1(lambda t: fn('abs', t), args[0])
    if n == 'round' and len(args) == 1:
        return ip.map1(lambda t: fn('round', t), args[0])
    if n == 'pow' and len(args) == 2:
        return ip.map2(power, *args)
    if n == 'isinstance':
        return isinst(ip, args[0], args[1])
    if n == 'type':
        v = args[0]
        if isinstance(v, I.Ref) and ip.get(v).kind == 'inst':
            return ip.get(v).cls
        k = kindof(ip, v)
        if k and len(k) == 1:
            return I.Ext('builtins.' + list(k)[0] if list(k)[0] != 'ndarray' else 'numpy.ndarray')
        return fn('type', ip.toterm(v))
    if n in ('min', 'max'):
        if kwargs:
            U('min key')
        if len(args) == 1:
            return reduce_(ip, n, args[0])
        r = args[0]
        for x in args[1:]:
            r = ip.map2(tm.fmin if n == 'min' else tm.fmax, r, x)
        return r
    if n == 'sum':
        r = reduce_(ip, 'sum', args[0])
        return r if len(args) == 1 else ip.binop(I.ast.Add(), r, args[1])
    if n in ('any', 'all'):
        return reduce_(ip, n, args[0])
    if n in ('list', 'tuple', 'set'):
        if not args:
            return () if n == 'tuple' else ip.new(I.ListC(()))
        v = args[0]
        if isinstance(v, I.Iter):
            t = v.tup
            if t[0] == 'items':
                if n == 'tuple':
                    return tuple(x for g, x in t[1])
                return ip.new(I.ListC(t[1]))
            if t[0] == 'map':
                return ip.new(I.ListC((), (), t[1]))
            U('list of group')
        it = ip.known_items(v)
        if it is not None:
            if n == 'set':
                out = []
                for x in it:
                    if not any(x is y for y in out):
                        out.append(x)
                it = out
            return tuple(it) if n == 'tuple' else ip.new(I.ListC([(TRUE, x) for x in it]))
        if isinstance(v, I.Ref) and ip.get(v).kind == 'list':
            return ip.new(ip.get(v))
        if isinstance(v, T):
            return v if n != 'set' else fn('unique', v)
        U('list()')
    if n == 'dict':
        d = {}
        if args:
            a = args[0]
            if isinstance(a, I.Ref) and ip.get(a).kind == 'dict':
                d.update(ip.get(a).items)
            else:
                t = a.tup if isinstance(a, I.Iter) else ip.iterable(a)
                if t[0] != 'items':
                    U('dict')
                for g, x in t[1]:
                    it = ip.known_items(x)
                    d[ip.dkey(it[0])] = it[1]
        for k, v in kwargs.items():
            d[k] = v
        return ip.new(I.DictC(d))
    if n == 'sorted':
        v = args[0]
        it = ip.known_items(v)
        rev = kwargs.get('reverse', FALSE)
        if it is not None and not set(kwargs) - {'reverse'} and rev in (TRUE, FALSE) and all(isinstance(x, T) and x.op in ('str', 'c') for x in it):
            return ip.new(I.ListC([(TRUE, x) for x in sorted(it, key=lambda x: x.data, reverse=rev is TRUE)]))
        if isinstance(v, I.Ref) and ip.get(v).kind == 'list' and ip.get(v).vec is None:
            r = ip.new(ip.get(v))
            method(ip, r, 'sort', [], kwargs, fi, node)
            return r
        if it is not None:
            r = ip.new(I.ListC([(TRUE, x) for x in it]))
            method(ip, r, 'sort', [], kwargs, fi, node)
            return r
        return fn('sorted', ip.toterm(v))
    if n == 'reversed':
        it = ip.known_items(args[0])
        if it is None:
            U('reversed')
        return ip.new(I.ListC([(TRUE, x) for x in it[::-1]]))
    if n == 'map' and len(args) == 2:
        it = ip.known_items(args[1])
        if it is not None:
            return ip.new(I.ListC([(TRUE, ip.call(args[0], [x], {}, fi, node)) for x in it]))
        U('map')
    if n == 'getattr':
        if isinstance(args[1], T) and args[1].op == 'str':
            try:
                return ip.getattr(args[0], args[1].data)
            except I.Unsupported:
                if len(args) > 2:
                    return args[2]
                raise
        U('getattr')
    if n == 'setattr':
        if isinstance(args[1], T) and args[1].op == 'str':
            ip.setattr(args[0], args[1].data, args[2])
            return NONE
        U('setattr')
    if n == 'hasattr':
        o, a = args
        if isinstance(o, I.Ref) and ip.get(o).kind == 'inst':
            c = ip.get(o)
            return TRUE if a.data in c.attrs or c.cls.lookup(a.data) is not None else FALSE
        if isinstance(o, T) and isinstance(a, T) and a.op == 'str':
            k = kindof(ip, o)
            if a.data in ('__len__', '__iter__', 'shape', 'size', '__getitem__') and k is not None:
                return TRUE if k & {'ndarray', 'list', 'tuple'} else FALSE
        if isinstance(o, (tuple,)) and a.data in ('__len__', '__iter__'):
            return TRUE
        if isinstance(o, I.Ref) and a.data in ('__len__', '__iter__'):
            return TRUE
        return fn('contains', ip.toterm(o), ip.toterm(a))
    if n == 'callable':
        return TRUE if isinstance(args[0], (I.Func, I.Bound, I.Class, I.Ext)) else fn('contains', strc('callable'), ip.toterm(args[0]))
    if n == 'slice':
        a = list(args)
        if len(a) == 1:
            return I.Slice(NONE, a[0], NONE)
        return I.Slice(a[0], a[1], a[2] if len(a) > 2 else NONE)
    if n == 'print':
        return I.IGN
    if n == 'id':
        return fn('id', ip.toterm(args[0]))
    if n == 'super':
        if len(args) == 2 and isinstance(args[0], I.Class):
            return I.Super(args[0], args[1])
        U('super')
    return fn('builtins.' + n, *([ip.toterm(a) for a in args] + [fn('kw:' + k, ip.toterm(v)) for k, v in sorted(kwargs.items())]))


PASS = {'copy', 'astype', 'tolist', 'ravel', 'flatten', 'squeeze', 'item', 'view'}


SETOPS = {'union': '|', 'difference': '-', 'intersection': '&', 'symmetric_difference': '^'}


def const_bool(b):
    return TRUE if b else FALSE


def setitems(ip, v):
    it = ip.known_items(v)
    if it is None or not all(isinstance(x, T) and x.op in ('c', 'str', 'none') or x is NONE for x in it):
        U('set of unknown members')
    out = []
    for x in it:
        if not any(x is y for y in out):
            out.append(x)
    return out


def setop(ip, op, a, b):
    a, b = setitems(ip, a), setitems(ip, b)
    has = lambda x, s: any(x is y for y in s)
    r = {'|': lambda: a + [x for x in b if not has(x, a)],
         '-': lambda: [x for x in a if not has(x, b)],
         '&': lambda: [x for x in a if has(x, b)],
         '^': lambda: [x for x in a if not has(x, b)] + [x for x in b if not has(x, a)]}[op]()
    return ip.new(I.ListC([(TRUE, x) for x in r]))


def method(ip, o, n, args, kwargs, fi, node):
    if isinstance(o, I.Ref):
        c = ip.get(o)
        if c.kind == 'list':
            if n == 'append':
                if c.vec is not None:
                    U('append to vector list')
                if c.keys:
                    U('append after sort')
                ip.put(o, I.ListC(c.items + ((TRUE, args[0]),)))
                return NONE
            if n == 'extend':
                ip.list_extend(o, args[0])
                return NONE
            if n == 'copy':
                return ip.new(c)
            if n == 'add':
                if not any(g is TRUE and v is args[0] for g, v in c.items):
                    ip.put(o, I.ListC(c.items + ((TRUE, args[0]),)))
                return NONE
            if n in SETOPS and not kwargs:
                r = o
                for a in args:
                    r = setop(ip, SETOPS[n], r, a)
                return r if args else ip.new(c)
            if n in ('update', 'difference_update', 'intersection_update') and not kwargs:
                r = o
                for a in args:
                    r = setop(ip, {'update': '|', 'difference_update': '-', 'intersection_update': '&'}[n], r, a)
                ip.put(o, ip.get(r))
                return NONE
            if n in ('discard', 'remove') and all(g is TRUE for g, _ in c.items) and all(isinstance(v, T) and v.op in ('c', 'str') for v in [args[0]] + [v for _, v in c.items]):
                i = [k for k, (_, v) in enumerate(c.items) if v is args[0]]
                if not i and n == 'remove':
                    U('remove of an absent item')
                ip.put(o, I.ListC([x for k, x in enumerate(c.items) if k not in i[:1]]))
                return NONE
            if n in ('issubset', 'issuperset', 'isdisjoint'):
                a, b = setitems(ip, o), setitems(ip, args[0])
                if n == 'isdisjoint':
                    return const_bool(not any(x in b for x in a))
                if n == 'issuperset':
                    a, b = b, a
                return const_bool(all(x in b for x in a))
            if n == 'sort':
                if c.vec is not None:
                    U('sort')
                key = kwargs.get('key')
                rev = kwargs.get('reverse')
                ks = []
                for g, v in c.items:
                    k = ip.call(key, [v], {}, fi, node) if key is not None and key is not NONE else v
                    if not isinstance(k, T):
                        its = ip.known_items(k)
                        U('sort key')
                    if rev is TRUE:
                        k = neg(num(k))
                    elif rev is not None and rev is not FALSE:
                        U('sort reverse')
                    ks.append(k)
                if all(k.op == 'c' for k in ks) and not c.keys:
                    order = sorted(range(len(ks)), key=lambda i: ks[i].data)
                    ip.put(o, I.ListC([c.items[i] for i in order]))
                else:
                    ip.put(o, I.ListC(c.items, tuple(c.keys) + (tuple(ks),)))
                return NONE
            if n == 'index':
                for i, (g, v) in enumerate(c.items):
                    if v is args[0]:
                        return const(i)
                if all(g is TRUE for g, _ in c.items) and c.vec is None and all(isinstance(v, T) and v.op in ('c', 'str') for v in [args[0]] + [v for _, v in c.items]):
                    raise I.Raised('ValueError', 'not in list')
                U('index')
            if n == 'pop':
                if c.vec is None and all(g is TRUE for g, _ in c.items) and not c.keys:
                    i = ip.cint(args[0]) if args else -1
                    if i is not None and c.items:
                        it = list(c.items)
                        v = it.pop(i)
                        ip.put(o, I.ListC(it))
                        return v[1]
                U('pop')
            if n == 'insert':
                i = ip.cint(args[0])
                it = list(c.items)
                if i is None or c.vec is not None:
                    U('insert')
                it.insert(i, (TRUE, args[1]))
                ip.put(o, I.ListC(it))
                return NONE
            if n == 'reverse':
                ip.put(o, I.ListC(c.items[::-1]))
                return NONE
            U('list.' + n)
        if c.kind == 'dict':
            if n == 'get':
                k = ip.dkey(args[0])
                if k in c.items:
                    return c.items[k]
                if not c.sym and not isinstance(k, T):
                    return args[1] if len(args) > 1 else NONE
                U('dict.get')
            if n == 'keys':
                return ip.new(I.ListC([(TRUE, ip.unkey(k)) for k in c.items]))
            if n == 'values':
                return ip.new(I.ListC([(TRUE, v) for v in c.items.values()]))
            if n == 'items':
                return ip.new(I.ListC([(TRUE, (ip.unkey(k), v)) for k, v in c.items.items()]))
            if n == 'copy':
                return ip.new(c)
            if n == 'update':
                d = dict(c.items)
                if args and isinstance(args[0], I.Ref) and ip.get(args[0]).kind == 'dict':
                    d.update(ip.get(args[0]).items)
                elif args:
                    U('dict.update')
                d.update(kwargs)
                ip.put(o, I.DictC(d, c.sym))
                return NONE
            if n == 'pop':
                k = ip.dkey(args[0])
                d = dict(c.items)
                if k in d:
                    v = d.pop(k)
                    ip.put(o, I.DictC(d, c.sym))
                    return v
                if len(args) > 1:
                    return args[1]
                U('dict.pop')
            if n == 'setdefault':
                k = ip.dkey(args[0])
                if k in c.items:
                    return c.items[k]
                d = dict(c.items)
                d[k] = args[1] if len(args) > 1 else NONE
                ip.put(o, I.DictC(d, c.sym))
                return d[k]
            U('dict.' + n)
        if c.kind == 'arr':
            return arr_method(ip, o, n, args, kwargs, fi, node)
        if c.kind == 'bag':
            if n in ('copy', 'ravel', 'flatten'):
                return ip.new(c)
            if n in ('sum', 'mean', 'max', 'min', 'any', 'all', 'std') and not args and not kwargs:
                return bag_reduce(n, c)
        U('method ' + n)
    if isinstance(o, tuple):
        if n == 'index':
            for i, v in enumerate(o):
                if v is args[0]:
                    return const(i)
        if n == 'count':
            return const(sum(1 for v in o if v is args[0]))
        U('tuple.' + n)
    if isinstance(o, T):
        if o.op == 'str':
            if all(isinstance(a, T) and a.op in ('str', 'c') for a in args) and not kwargs:
                pa = [a.data if a.op == 'str' else int(a.data) for a in args]
                if n in ('lower', 'upper', 'strip', 'replace', 'lstrip', 'rstrip', 'title'):
                    return strc(getattr(o.data, n)(*pa))
                if n in ('startswith', 'endswith'):
                    return TRUE if getattr(o.data, n)(*pa) else FALSE
                if n in ('find', 'rfind', 'count', 'index', 'rindex', '__contains__'):
                    try:
                        return const(int(getattr(o.data, n)(*pa)))
                    except ValueError:
                        U('index of an absent text')
                if n in ('isdigit', 'isalpha', 'isnumeric', 'isupper', 'islower', 'isalnum'):
                    return TRUE if getattr(o.data, n)() else FALSE
                if n == 'split':
                    return ip.new(I.ListC([(TRUE, strc(x)) for x in o.data.split(*pa)]))
            if n == 'format':
                r = strformat(ip, o.data, args, kwargs) if o.op == 'str' else None
                if r is not None:
                    return strc(r)
                return fn('strformat', o, *([ip.toterm(a) for a in args] + [fn('kw:' + k, ip.toterm(v)) for k, v in sorted(kwargs.items())]))
            if n == 'join':
                it = ip.known_items(args[0])
                if it is not None and all(isinstance(x, T) and x.op == 'str' for x in it):
                    return strc(o.data.join(x.data for x in it))
            return fn('strmethod:' + n, o, *[ip.toterm(a) for a in args])
        return arr_method(ip, o, n, args, kwargs, fi, node)
    if isinstance(o, I.Ignore):
        return I.IGN
    U('method %s of %s' % (n, type(o).__name__))


def arr_method(ip, o, n, args, kwargs, fi, node):
    if isinstance(o, T) and not dims(o) and o.op in ('f', 's') and not (n in PASS):
        pass
    else:
        kwfilter(n, kwargs)
    if n == 'astype' and (args or 'dtype' in kwargs):
        f = cast(args[0] if args else kwargs['dtype'])
        if f is not None:
            return ip.map1(f, o)
    if n in ('ravel', 'flatten'):
        return flat(ip, o, order_f(kwargs, args, 0))
    if n in PASS:
        if isinstance(o, T):
            return o
        c = ip.get(o)
        if n == 'tolist' and len(c.shape) == 1:
            return ip.new(I.ListC([(TRUE, v.args[0] if isinstance(v, T) and v.op == 'f' and v.data == 'npint' else v) for v in c.vals]))
        if n == 'item':
            U('item')
        return ip.new(c)
    if n in ('sum', 'mean', 'max', 'min', 'any', 'all', 'std', 'prod', 'argmin', 'argmax'):
        return npcall(ip, n, [o] + list(args), kwargs, fi, node, n)
    if n == 'dot':
        return dot(ip, o, args[0])
    if n in ('transpose',) and not args:
        return transpose(ip, o)
    if n == 'reshape':
        if order_f(kwargs, (), 0):
            U('reshape order')
        return reshape(ip, o, args)
    if n == 'clip':
        return npcall(ip, 'clip', [o] + list(args), kwargs, fi, node, n)
    if n == 'fill' and isinstance(o, I.Ref):
        c = ip.get(o)
        ip.put(o, I.ArrC(c.shape, [args[0]] * len(c.vals)))
        return NONE
    if n in ('keys', 'items', 'values') and isinstance(o, T):
        return fn('getattr:' + n, o)
    if isinstance(o, T):
        ts = [ip.toterm(a) for a in args] + [fn('kw:' + k, ip.toterm(v)) for k, v in sorted(kwargs.items())]
        return ip.fn_alias('method:' + n, o, *ts)
    U('array method ' + n)


def reshape(ip, o, args):
    sh = args[0] if len(args) == 1 else tuple(args)
    it = ip.known_items(sh) if not isinstance(sh, T) else [sh]
    a = arr(ip, o)
    if it is None:
        U('reshape')
    if isinstance(a, T):
        if all(isinstance(s, T) and s.op == 'f' and s.data == 'dimlen' for s in it):
            return a
        if len(it) == 1 and ip.cint(it[0]) == -1:
            return a
        U('reshape')
    ints = [ip.cint(s) for s in it]
    if all(isinstance(s, int) for s in a.shape) and all(i is not None for i in ints):
        n = len(a.vals)
        if -1 in ints:
            k = 1
            for i in ints:
                if i != -1:
                    k *= i
            ints[ints.index(-1)] = n // k
        return ip.new(I.ArrC(ints, a.vals))
    new = []
    for s, i in zip(it, ints):
        if i is not None and i >= 0:
            new.append(i)
        elif isinstance(s, T) and s.op == 'f' and s.data == 'dimlen':
            new.append(s.args[0].data)
        else:
            U('reshape')
    fx = [s for s in new if isinstance(s, int)]
    n = 1
    for s in fx:
        n *= s
    if n != len(a.vals):
        U('reshape')
    return ip.new(I.ArrC(new, a.vals))


NPCONST = {'pi': PI, 'nan': fn('NAN'), 'NaN': fn('NAN'), 'inf': fn('INF'), 'Inf': fn('INF'), 'infty': fn('INF'), 'newaxis': NONE, 'e': fn('exp', ONE)}


def ext_attr(ip, name, a):
    if name in ('numpy', 'math', 'scipy') and a in NPCONST:
        return NPCONST[a]
    if name == 'sys.float_info' and a == 'epsilon':
        return const(F(1, 2 ** 52))
    if name == 'os' and a == 'environ':
        return fn('os.environ')
    if name == 'os.path' and a == 'sep':
        return strc('/')
    if I.ignorable(name):
        return I.IGN
    return I.Ext(name + '.' + a)


def attr(ip, o, a):
    if isinstance(o, I.Ref):
        c = ip.get(o)
        if c.kind == 'arr':
            if a == 'shape':
                return shape(ip, o)
            if a == 'size':
                return size(ip, o)
            if a == 'T':
                return transpose(ip, o)
            if a == 'ndim':
                return const(len(c.shape))
            if a == 'dtype':
                return fn('getattr:dtype', ip.toterm(o))
        if c.kind == 'bag':
            if a in ('size', 'shape'):
                return size(ip, o) if a == 'size' else shape(ip, o)
            return I.Method(o, a)
        if c.kind in ('list', 'dict', 'arr'):
            return I.Method(o, a)
        U('attr ' + a)
    if isinstance(o, tuple):
        return I.Method(o, a)
    if isinstance(o, T):
        if a == 'size':
            return size(ip, o)
        if a == 'shape':
            return shape(ip, o)
        if a == 'T':
            return transpose(ip, o)
        if a == 'ndim':
            return const(len(dims(o) - frozenset(ip.mapdims)))
        if o.op in ('str',) or I.is_strfn(o):
            return I.Method(o, a)
        if a in METHODS and (dims(o) or o.op not in ('s',) or a in PASS):
            return I.Method(o, a)
        p = dict(o.data[2]) if o.op == 's' else {}
        if o.op == 's' and not p.get('any') and not dims(o):
            return I.Method(o, a) if a in METHODS else ip.fn_alias('getattr:' + a, o)
        return ip.fn_alias('getattr:' + a, o)
    if isinstance(o, I.Method):
        return fn('getattr:' + a, ip.toterm(o))
    if isinstance(o, I.Func):
        if a == '__name__':
            return strc(o.node.name)
    if isinstance(o, I.Slice):
        return {'start': o.lo, 'stop': o.hi, 'step': o.st}[a]
    U('attribute %s of %s' % (a, type(o).__name__))


METHODS = {'copy', 'astype', 'tolist', 'ravel', 'flatten', 'sum', 'mean', 'max', 'min', 'any', 'all', 'std', 'dot', 'transpose', 'reshape',
           'clip', 'argmin', 'argmax', 'item', 'squeeze', 'fill', 'prod', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'split', 'replace', 'format', 'join', 'view'}
