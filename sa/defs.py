"""Path-sensitive definite-assignment analysis of local names.

State: for every local name the set of path conditions (conjunctions of branch literals) under
which it is still unassigned; None = unreachable.  Loops are taken to run at least once (an empty
loop is a matter of values, not of names); a try body may stop anywhere."""
import ast
from . import src as S

MAXC = 48


def key(n):
    return ast.dump(n, annotate_fields=False)


def literals(test, truth):
    """conjunction of literals implied by test having the given truth value"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return literals(test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == truth:
            out = frozenset()
            for v in test.values:
                out |= literals(v, truth)
            return out
        return frozenset([(norm(test)[0], truth)])
    k, flip = norm(test)
    return frozenset([(k, truth != flip)])


NAMES = {}


def norm(t):
    flip = False
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        op = t.ops[0]
        swap = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        if type(op) in swap:
            t = ast.Compare(left=t.left, ops=[swap[type(op)]()], comparators=t.comparators)
            flip = True
    k = key(t)
    if k not in NAMES:
        NAMES[k] = set(n.id for n in ast.walk(t) if isinstance(n, ast.Name))
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            c = t.comparators[0]
            if isinstance(t.ops[0], (ast.Eq, ast.Is)) and isinstance(c, ast.Constant):
                META[k] = (key(t.left), frozenset([repr(c.value)]))
            elif isinstance(t.ops[0], ast.In) and isinstance(c, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(e, ast.Constant) for e in c.elts):
                META[k] = (key(t.left), frozenset(repr(e.value) for e in c.elts))
    return k, flip


META = {}       # literal -> (subject, constants it is compared with)


def feasible(c):
    """tests of one subject against constants do not exclude each other"""
    allowed, excluded = {}, {}
    for k, v in c:
        if k in META:
            s, vals = META[k]
            if v:
                allowed[s] = allowed[s] & vals if s in allowed else vals
            else:
                excluded[s] = excluded.get(s, frozenset()) | vals
    return all(a - excluded.get(s, frozenset()) for s, a in allowed.items())


def simplify(cs):
    cs = set(cs)
    if frozenset() in cs:
        return frozenset([frozenset()])
    changed = True
    while changed:
        changed = False
        for a in list(cs):
            for k, v in a:
                b = (a - {(k, v)}) | {(k, not v)}
                if b in cs and a in cs:
                    cs -= {a, b}
                    cs.add(a - {(k, v)})
                    changed = True
                    break
            if changed:
                break
        if not changed:
            for a in list(cs):
                if any(b < a for b in cs):
                    cs.discard(a)
                    changed = True
    if len(cs) > MAXC:
        # keep it sound towards silence: too many paths, treat as unknown
        return frozenset()
    return frozenset(cs)


class Defs(object):
    def __init__(self, fn, module_names=(), toplevel=False):
        self.fn = fn
        self.reports = []
        if toplevel:
            names = set(module_names)
            params = set()
        else:
            names = S.local_names(fn)
            a = fn.args
            params = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
            if a.vararg:
                params.add(a.vararg.arg)
            if a.kwarg:
                params.add(a.kwarg.arg)
        self.names = names - params
        st = dict((n, frozenset([frozenset()])) for n in self.names)
        self.loops = []
        self.loopdefs = []
        self.block(fn.body, st)

    # state helpers
    def assume(self, st, test, truth):
        if st is None:
            return None
        if isinstance(test, ast.Constant):
            if bool(test.value) != truth:
                return None
            return st
        lits = literals(test, truth)
        out = {}
        for n, cs in st.items():
            r = set()
            for c in cs:
                if any((k, not v) in c for k, v in lits):
                    continue
                if feasible(c | lits):
                    r.add(c | lits)
            out[n] = simplify(r)
        return out

    def join(self, *sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        return dict((n, simplify(frozenset().union(*[s.get(n, frozenset()) for s in sts]))) for n in self.names)

    def define(self, st, n):
        if st is None:
            return
        if n in st:
            st[n] = frozenset()
        # conditions that mention n no longer say anything about its new value
        for m, cs in list(st.items()):
            if any(n in NAMES.get(k, ()) for c in cs for k, _ in c):
                st[m] = simplify(frozenset(l for l in c if n not in NAMES.get(l[0], ())) for c in cs)

    def use(self, st, node):
        if st is None or node.id not in self.names:
            return
        cs = st[node.id]
        if cs:
            always = frozenset() in cs
            # use before the definition of the same loop body: fine if a later statement of that loop defines it and the use is guarded
            self.reports.append((node.id, node, always, cs))
            st[node.id] = frozenset()

    def expr(self, e, st):
        """uses (and walrus definitions) in evaluation order, comprehension scopes excluded for their own targets"""
        if e is None or st is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.use(st, e)
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            bound = set()
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        bound.add(n.id)
            inner = dict(st)
            for b in bound:
                if b in inner:
                    inner[b] = frozenset()
            for g in e.generators:
                self.expr(g.iter, inner)
                for i in g.ifs:
                    self.expr(i, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, inner)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, st)
            self.expr(e.body, self.assume(dict(st), e.test, True))
            self.expr(e.orelse, self.assume(dict(st), e.test, False))
            return
        if isinstance(e, ast.BoolOp):
            cur = st
            for k, v in enumerate(e.values):
                self.expr(v, cur)
                cur = self.assume(dict(cur), v, isinstance(e.op, ast.And)) if cur is not None else None
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, st)
            self.define(st, e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension)) or isinstance(c, ast.Slice):
                self.expr(c, st)

    def target(self, t, st):
        if isinstance(t, ast.Name):
            self.define(st, t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, st)
        elif isinstance(t, ast.Starred):
            self.target(t.value, st)
        else:
            self.expr(t, st)
            d = t
            while isinstance(d, (ast.Subscript, ast.Attribute)):
                d = d.value
            if isinstance(d, ast.Name) and st is not None:
                # conditions about a modified object are dropped
                n = d.id
                for m, cs in list(st.items()):
                    if any(n in NAMES.get(k, ()) for c in cs for k, _ in c):
                        st[m] = simplify(frozenset(l for l in c if n not in NAMES.get(l[0], ())) for c in cs)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def tested(self):
        if not hasattr(self, '_tested'):
            self._tested = set(x.id for n in ast.walk(self.fn) if isinstance(n, (ast.If, ast.While, ast.IfExp)) for x in ast.walk(n.test) if isinstance(x, ast.Name))
        return self._tested

    def exits(self, e):
        return isinstance(e, ast.Call) and S.dotted(e.func) in (['sys', 'exit'], ['exit'], ['quit'], ['os', '_exit'])

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.expr(d, st)
            self.define(st, s.name)
            return st
        if isinstance(s, ast.ClassDef):
            self.define(st, s.name)
            return st
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.target(t, st)
            for t in s.targets:
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant) and t.id in self.tested():
                    lits = set()
                    v = s.value.value
                    ld = ast.Name(t.id, ast.Load())
                    lits |= literals(ld, bool(v))
                    lits |= literals(ast.Compare(left=ld, ops=[ast.Is()], comparators=[ast.Constant(None)]), v is None)
                    if v is not None:
                        lits |= literals(ast.Compare(left=ld, ops=[ast.Eq()], comparators=[ast.Constant(v)]), True)
                    for n in list(st):
                        st[n] = frozenset(c | lits for c in st[n])
            return st
        if isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                self.use(st, s.target)
            self.target(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            if s.value is not None:
                self.target(s.target, st)
            return st
        if isinstance(s, ast.Expr):
            self.expr(s.value, st)
            return None if self.exits(s.value) else st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return None
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            a = self.block(s.body, self.assume(dict(st), s.test, True))
            b = self.block(s.orelse, self.assume(dict(st), s.test, False))
            return self.join(a, b)
        if isinstance(s, ast.Assert):
            self.expr(s.test, st)
            return self.assume(st, s.test, True)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.expr(s.test, st)
                b0 = self.assume(dict(st), s.test, True)
                if b0 is None:
                    return self.block(s.orelse, st)
            else:
                self.expr(s.iter, st)
                b0 = dict(st)
                self.target(s.target, b0)
            self.loops.append([[], []])
            end = self.block(s.body, b0)
            brk, cont = self.loops.pop()
            out = self.join(end, *cont)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            if forever:
                out = None
            elif isinstance(s, ast.While) and out is not None:
                out = self.assume(out, s.test, False)
                if out is None:
                    out = self.join(end, *cont)
            if s.orelse:
                out = self.block(s.orelse, out) if out is not None else None
            return self.join(out, *brk)
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1].append(st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            entry = dict(st)
            mids = [entry]
            cur = st
            for b in s.body:
                if cur is None:
                    break
                cur = self.stmt(b, cur)
                if cur is not None:
                    mids.append(dict(cur))
            # the exception may come from the last statement before it assigned anything
            if len(mids) > 1 and cur is not None:
                mids = mids[:-1]
            h0 = self.join(*mids)
            outs = []
            if s.orelse and cur is not None:
                cur = self.block(s.orelse, cur)
            outs.append(cur)
            for h in s.handlers:
                hs = dict(h0)
                if h.name:
                    self.define(hs, h.name)
                outs.append(self.block(h.body, hs))
            out = self.join(*outs)
            if s.finalbody:
                f = self.join(*( [x for x in outs if x is not None] or [h0]))
                f = self.block(s.finalbody, dict(f))
                out = f if out is not None else None
            return out
        if isinstance(s, ast.Match):
            self.expr(s.subject, st)
            outs, rest = [], st
            for cs in s.cases:
                b = dict(rest)
                for n in ast.walk(cs.pattern):
                    nm = getattr(n, 'name', None) if isinstance(n, (ast.MatchAs, ast.MatchStar)) else getattr(n, 'rest', None) if isinstance(n, ast.MatchMapping) else None
                    if nm:
                        self.define(b, nm)
                if cs.guard is not None:
                    self.expr(cs.guard, b)
                outs.append(self.block(cs.body, b))
                if cs.guard is None and isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None:
                    rest = None
                    break
            return self.join(rest, *outs)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(st, ast.copy_location(ast.Name(t.id, ast.Load()), t))
                    if t.id in st:
                        st[t.id] = frozenset([frozenset()])
                else:
                    self.expr(t, st)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.define(st, a.asname or a.name.split('.')[0])
            return st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return st


def unbound(fn):
    return Defs(fn).reports


def unbound_module(mod):
    return Defs(mod.tree, mod.toplevel, True).reports
