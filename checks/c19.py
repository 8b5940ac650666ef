"""Named bits: the bit mask class is interpreted on families of definitions (names and comments are tags, numbers are enumerated);
every lookup is compared with the definition it came from, and the two tables of the package with their documented numbers."""
import itertools
from sa.terms import *
from sa.terms import strc
from sa import interp as I
from sa import terms as tm

B = 'desimeter.bitmask.'
Q = B + 'BitMask'
MOVE = [('THETA_STUCK', 0), ('PHI_STUCK', 1), ('FAILED_FIT', 2), ('INVALID_TABLE', 3), ('INVALID_AFTER_FILTER', 4)]
POS = [('MATCHED', 0), ('PINHOLE', 1), ('POSITIONER', 2), ('FIDUCIAL', 3), ('FVCERROR', 4), ('BADPOSFID', 5), ('MOVED', 6), ('GIF', 7), ('ETC', 8),
       ('FITTEDPINHOLE', 9), ('MATCHEDCENTER', 10), ('AMBIGUOUS', 11), ('FVCPROC', 12), ('ASSIGNED', 14), ('CONVERGED', 15), ('NOTCTLENABLED', 16),
       ('BROKENFIBER', 17), ('COMERROR', 18), ('OVERLAP', 19), ('FROZEN', 20), ('UNREACHABLE', 21), ('BOUNDARYVIOLATION', 22), ('MULTIPLEREQUESTS', 23),
       ('NONFUNCTIONAL', 24), ('REJECTED', 25), ('EXPERTLIMIT', 26), ('BADNEIGHBOR', 27), ('MISSINGSPOT', 28), ('BADPERFORMANCE', 29)]
TABLES = [
    [('A', 0), ('B', 3)],
    [('HIGH', 5), ('LOW', 1), ('MID', 2), ('TOP', 31)],
    [('ONLY', 4)],
    [('A', 2), ('AB', 0), ('B', 1), ('ABC', 7)],
    [('Z', 0), ('Y', 1), ('X', 2), ('W', 3), ('V', 4)],
    [('FAR', 62), ('NEAR', 0), ('WIDE', 70)],
]
LOST = object()


def run(c):
    c.floor = 60
    for k, t in enumerate(TABLES):
        c.guard(table, c, k, t)
    c.guard(single, c)
    c.guard(package, c, 'desimeter.posparams.movemask', 'movemask', MOVE)
    c.guard(package, c, 'desimeter.posparams.posflags_mask', 'posflags_mask', POS)
    return ''


def value(R, v):
    """number or text of a result; a bit counts as its integer"""
    ip = R.ip
    if isinstance(v, I.Ref):
        o = ip.get(v)
        if o.kind == 'inst' and '__int__' in o.attrs:
            v = o.attrs['__int__']
        else:
            return [value(R, x) for x in ip.known_items(v)]
    if isinstance(v, T):
        if v.op == 'c':
            return int(v.data) if v.data == int(v.data) else v.data
        if v.op == 'str':
            return v.data
    raise I.Unsupported('a lookup whose result is not one value: %s' % (tm.show(v, 3) if isinstance(v, T) else type(v).__name__))


def outcome(R, f):
    """the value, or LOST when the call raises on every path"""
    ip = R.ip
    st, pc, n = ip.state, ip.pc, len(ip.raises)
    ip.state = st.fork()
    try:
        return f()
    except I.Unsupported as e:
        gone = isinstance(e, I.Raised) or ip.state is None and len(ip.raises) > n
        ip.state, ip.pc = st, pc
        if gone:
            return LOST
        raise


def ask(c, R, name, where, f, want):
    got = outcome(R, lambda: value(R, f()))
    show = lambda x: 'an error' if x is LOST else repr(x)
    rule = 'a lookup gives what the definition says'
    if got == want and (got is LOST) == (want is LOST):
        return c.ok(name, rule, R.where(where))
    return c.bad(name, rule, R.where(where), 'gives %s, expected %s' % (show(got), show(want)))


def key(k):
    return strc(k) if isinstance(k, str) else const(k)


def lookups(c, R, m, tag, bits, comment):
    ip = R.ip
    call = lambda f, *a: R.method(m, f, *[key(x) for x in a])
    for nm, n in bits:
        t = '%s, %s' % (tag, nm)
        ask(c, R, t + ': value of the name', Q, lambda: call('__getitem__', nm), 2 ** n)
        ask(c, R, t + ': value of the number', Q, lambda: call('__getitem__', n), 2 ** n)
        ask(c, R, t + ': value as an attribute', Q, lambda: R.attr(m, nm), 2 ** n)
        ask(c, R, t + ': mask of the name', Q, lambda: call('mask', nm), 2 ** n)
        ask(c, R, t + ': mask of the number', Q, lambda: call('mask', n), 2 ** n)
        ask(c, R, t + ': number of the name', Q, lambda: call('bitnum', nm), n)
        ask(c, R, t + ': name of the number', Q, lambda: call('bitname', n), nm)
        for k in (nm, n):
            ask(c, R, t + ': comment by %s' % ('name' if k == nm else 'number'), Q, lambda: call('comment', k), comment(nm))
        b = call('__getitem__', nm)
        for a, w in (('name', nm), ('bitnum', n), ('mask', 2 ** n), ('comment', comment(nm))):
            ask(c, R, t + ': attribute %s of the bit' % a, B + '_MaskBit', lambda: R.attr(b, a), w)
    known = dict((n, nm) for nm, n in bits)
    for r in range(2, min(4, len(bits)) + 1):
        for combo in list(itertools.permutations(bits, r))[:12]:
            ask(c, R, '%s: mask of %s' % (tag, '|'.join(x for x, _ in combo)), Q, lambda: call('mask', '|'.join(x for x, _ in combo)), sum(2 ** n for _, n in combo))
    nm = bits[-1][0]
    ask(c, R, '%s: mask of a name given twice' % tag, Q, lambda: call('mask', nm + '|' + nm), 2 ** bits[-1][1])
    ask(c, R, tag + ': list of all names', Q, lambda: R.method(m, 'names'), [known[n] for n in sorted(known)])
    top = max(known)
    masks = list(range(0, 40)) if top < 8 else [0, 1, 2, 3, 5]
    masks += [2 ** n for n in known] + [2 ** (top + 1), 2 ** top - 1, 2 ** (top + 1) - 1, 2 ** (top + 2) - 1, sum(2 ** n for n in known), 2 ** top + 1]
    for v in sorted(set(masks)):
        ask(c, R, '%s: names of %d' % (tag, v), Q, lambda: call('names', v), [known.get(n, 'UNKNOWN%d' % n) for n in range(v.bit_length()) if v >> n & 1])
    free = [n for n in range(top + 2) if n not in known][0]
    for what, f in (('item', lambda: call('__getitem__', 'NOSUCH')), ('attribute', lambda: R.attr(m, 'NOSUCH')), ('mask', lambda: call('mask', 'NOSUCH')),
                    ('mask of a combination', lambda: call('mask', nm + '|NOSUCH')), ('number', lambda: call('bitnum', 'NOSUCH')), ('comment', lambda: call('comment', 'NOSUCH')),
                    ('name of an undefined number', lambda: call('bitname', free)), ('mask of an undefined number', lambda: call('mask', free))):
        ask(c, R, '%s: unknown %s is refused' % (tag, what), Q, f, LOST)


def table(c, k, bits):
    R = c.runner()
    R.ip.exact, R.ip.MAXUNROLL = True, 200
    ip = R.ip
    comment = lambda nm: 'what %s%d means' % (nm.lower(), k)
    rows = []
    for i, (nm, n) in enumerate(bits):
        row = [strc(nm), const(n), strc(comment(nm))]
        if i == 1:
            row.append(ip.new(I.DictC({'weight': const(17)})))
        rows.append(R.lst(*row))
    other = R.lst(R.lst(strc(bits[0][0]), const(bits[0][1] + 9), strc('of another mask')))
    defs = ip.new(I.DictC({'other': other, 'mine': R.lst(*rows), 'third': other}))
    m = R(Q, strc('mine'), defs)
    tag = 'definitions %d' % k
    lookups(c, R, m, tag, bits, comment)
    if len(bits) > 1:
        ask(c, R, tag + ': extra information of a bit', B + '_MaskBit', lambda: R.attr(R.method(m, '__getitem__', strc(bits[1][0])), 'weight'), 17)


def single(c):
    for n in (0, 1, 6, 40):
        for how in ('no extra', 'extra None', 'empty extra', 'extra'):
            R = c.runner()
            R.ip.exact, R.ip.MAXUNROLL = True, 200
            a = [strc('N'), const(n), strc('text')]
            if how == 'extra None':
                a.append(NONE)
            elif how != 'no extra':
                a.append(R.ip.new(I.DictC({'w': const(3)} if how == 'extra' else {})))
            f = R.f(B + '_MaskBit')
            b = outcome(R, lambda: R(f, *a))
            t = 'one bit %d, %s' % (n, how)
            if b is LOST:
                c.bad(t, 'a bit can be made without extra information', R.where(B + '_MaskBit'), 'raises')
                continue
            ask(c, R, t + ': value', B + '_MaskBit', lambda: b, 2 ** n)
            for x, w in (('mask', 2 ** n), ('bitnum', n), ('name', 'N'), ('comment', 'text')):
                ask(c, R, t + ': ' + x, B + '_MaskBit', lambda: R.attr(b, x), w)


def package(c, module, name, want):
    R = c.runner()
    R.ip.exact, R.ip.MAXUNROLL = True, 200
    m = R.f(module + '.' + name)
    call = lambda f, *a: R.method(m, f, *[key(x) for x in a])
    got = value(R, R.method(m, 'names'))
    rule = 'the flags keep the names and the numbers of their documentation'
    w = R.ip.prog.path(module) or module
    if got == [x for x, _ in want]:
        c.ok('%s: names of all the flags' % name, rule, w)
    else:
        c.bad('%s: names of all the flags' % name, rule, w, 'names are %s' % got)
    for nm, n in want:
        ask(c, R, '%s: value of %s' % (name, nm), Q, lambda: call('__getitem__', nm), 2 ** n)
        ask(c, R, '%s: mask of %s' % (name, nm), Q, lambda: call('mask', nm), 2 ** n)
        ask(c, R, '%s: name of %d' % (name, n), Q, lambda: call('bitname', n), nm)
        ask(c, R, '%s: number of %s' % (name, nm), Q, lambda: call('bitnum', nm), n)
    top = max(n for _, n in want)
    known = dict((n, x) for x, n in want)
    for v in (0, 1, 5, 2 ** top, 2 ** (top + 1) - 1, 2 ** (top + 2) - 1, sum(2 ** n for n in known)):
        ask(c, R, '%s: names of %d' % (name, v), Q, lambda: call('names', v), [known.get(n, 'UNKNOWN%d' % n) for n in range(v.bit_length()) if v >> n & 1])
    said = {}
    for nm, n in want:
        t = value(R, call('comment', nm))
        said.setdefault(t, []).append(nm)
    double = [v for v in said.values() if len(v) > 1]
    if double or '' in said:
        c.bad('%s: comments' % name, 'each flag has its own explanation', w, 'same comment for %s' % double)
    else:
        c.ok('%s: comments' % name, 'each flag has its own explanation', w)
