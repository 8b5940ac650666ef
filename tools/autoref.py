#!/usr/bin/env python3
"""Applies refactorings that keep the behaviour to every function of the package at once, in a scratch copy, and runs
all checks on it: none may alarm or fail to answer.
usage: autoref.py [-t] [NAME ...]   (-t: also run the test suite on the copy)"""
import ast, copy, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
FUN = (ast.FunctionDef,)
SCOPE = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def own(node):
    """nodes of a function without those of nested scopes"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPE):
            todo.extend(ast.iter_child_nodes(n))


def nested(f):
    return any(isinstance(n, SCOPE) for n in ast.walk(f) if n is not f)


def blocks(node):
    for n in ast.walk(node):
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, k, b


class Namer:
    def __init__(self, f):
        self.used = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(f) if isinstance(n, ast.arg)}

    def new(self, base):
        i = 0
        while '%s%d' % (base, i) in self.used:
            i += 1
        r = '%s%d' % (base, i)
        self.used.add(r)
        return r


def name(n, ctx=ast.Load):
    return ast.Name(id=n, ctx=ctx())


def assign(n, v):
    return ast.Assign(targets=[name(n, ast.Store)], value=v)


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FUN)]


def t_unparse(tree):
    """only the layout"""


def t_rename(tree):
    for f in functions(tree):
        if nested(f) or any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)) for n in ast.walk(f)) or any(isinstance(n, ast.Name) and n.id in ('locals', 'vars') for n in ast.walk(f)):
            continue
        args = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler) and n.name}
        loc -= args
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = 'v_' + n.id
            if isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name = 'v_' + n.name


def t_result(tree):
    for f in functions(tree):
        nm = Namer(f)
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                    r = nm.new('result')
                    out += [assign(r, s.value), ast.Return(value=name(r))]
                else:
                    out.append(s)
            setattr(n, k, out)


def t_tuple(tree):
    for f in functions(tree):
        nm = Namer(f)
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                    r = nm.new('both')
                    out.append(assign(r, s.value))
                    for i, e in enumerate(s.targets[0].elts):
                        out.append(ast.Assign(targets=[e], value=ast.Subscript(value=name(r), slice=ast.Constant(i), ctx=ast.Load())))
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.Tuple):
                    el = []
                    for e in s.value.elts:
                        if isinstance(e, (ast.Name, ast.Constant)):
                            el.append(e)
                        else:
                            r = nm.new('part')
                            out.append(assign(r, e))
                            el.append(name(r))
                    s.value.elts = el
                    out.append(s)
                else:
                    out.append(s)
            setattr(n, k, out)


def t_temp(tree):
    """left operands of sums and products, and first arguments of calls, in variables of their own"""
    for f in functions(tree):
        nm = Namer(f)
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = s.value
                    if isinstance(v, ast.BinOp) and isinstance(v.left, (ast.BinOp, ast.Call)):
                        r = nm.new('term')
                        out.append(assign(r, v.left))
                        v.left = name(r)
                        if isinstance(v.right, (ast.BinOp, ast.Call)):
                            r = nm.new('term')
                            out.append(assign(r, v.right))
                            v.right = name(r)
                    elif isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.BinOp, ast.Call)) and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(v.func)):
                        r = nm.new('value')
                        out.append(assign(r, v.args[0]))
                        v.args[0] = name(r)
                out.append(s)
            setattr(n, k, out)


def t_invert(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse:
            t = n.test
            n.test = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(op=ast.Not(), operand=t)
            n.body, n.orelse = n.orelse, n.body


def t_else(tree):
    """if c: return x; rest  ->  if c: return x, else: rest"""
    def block(b):
        for i, s in enumerate(b):
            for k in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, k, None), list) and not isinstance(s, SCOPE):
                    setattr(s, k, block(getattr(s, k)))
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue)) and i + 1 < len(b):
                s.orelse = block(b[i + 1:])
                return b[:i + 1]
        return b
    for f in functions(tree):
        f.body = block(f.body)


def call_args(a):
    args = [name(x.arg) for x in a.posonlyargs + a.args]
    if a.vararg:
        args.append(ast.Starred(value=name(a.vararg.arg), ctx=ast.Load()))
    kws = [ast.keyword(arg=x.arg, value=name(x.arg)) for x in a.kwonlyargs]
    if a.kwarg:
        kws.append(ast.keyword(arg=None, value=name(a.kwarg.arg)))
    return args, kws


def t_delegate(tree):
    """the body of each function in a helper it hands over to"""
    def do(body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = do(s.body, s)
            if isinstance(s, FUN) and not s.name.startswith('__') and not (cls is None and False) and all(isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod') for d in s.decorator_list):
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                h = copy.deepcopy(s)
                h.name = '_do_' + s.name.lstrip('_')
                h.args.defaults, h.args.kw_defaults = [], [None for _ in h.args.kwonlyargs]
                h.body = h.body[len(doc):] or [ast.Pass()]
                args, kws = call_args(s.args)
                kind = [d.id for d in s.decorator_list]
                if cls is None:
                    fn = name(h.name)
                elif 'staticmethod' in kind:
                    fn = ast.Attribute(value=name(cls.name), attr=h.name, ctx=ast.Load())
                else:
                    fn = ast.Attribute(value=args.pop(0), attr=h.name, ctx=ast.Load())
                s.body = doc + [ast.Return(value=ast.Call(func=fn, args=args, keywords=kws))]
                out += [h, s]
            else:
                out.append(s)
        return out
    tree.body = do(tree.body, None)


def t_while(tree):
    """counting loops as while loops"""
    for f in functions(tree):
        nm = Namer(f)
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) in (1, 2) \
                        and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
                    i, e = nm.new('count'), nm.new('stop')
                    lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                    out += [assign(i, lo), assign(e, s.iter.args[-1])]
                    out.append(ast.While(test=ast.Compare(left=name(i), ops=[ast.Lt()], comparators=[name(e)]),
                                         body=[assign(s.target.id, name(i))] + s.body + [ast.AugAssign(target=name(i, ast.Store), op=ast.Add(), value=ast.Constant(1))], orelse=[]))
                else:
                    out.append(s)
            setattr(n, k, out)


def t_comp(tree):
    """list comprehensions as loops"""
    for f in functions(tree):
        nm = Namer(f)
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                v = getattr(s, 'value', None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1 and not nested(ast.Module(body=[ast.Expr(v)], type_ignores=[])):
                    g = v.generators[0]
                    ren = {x.id: nm.new('each') for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for part in [g.target, v.elt] + g.ifs:
                        for x in ast.walk(part):
                            if isinstance(x, ast.Name) and x.id in ren:
                                x.id = ren[x.id]
                    r = nm.new('collected')
                    add = ast.Expr(ast.Call(func=ast.Attribute(value=name(r), attr='append', ctx=ast.Load()), args=[v.elt], keywords=[]))
                    body = [add]
                    for c in reversed(g.ifs):
                        body = [ast.If(test=c, body=body, orelse=[])]
                    out += [assign(r, ast.List(elts=[], ctx=ast.Load())), ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
                    s.value = name(r)
                out.append(s)
            setattr(n, k, out)


def t_enumerate(tree):
    """enumerate and zip loops by index; other loops over a copy of the list"""
    for f in functions(tree):
        nm = Namer(f)
        for n, k, b in list(blocks(f)):
            for s in b:
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ('zip', 'enumerate') and isinstance(s.target, ast.Tuple) and not s.iter.keywords:
                    pair = nm.new('pair')
                    t = s.target
                    s.target = name(pair, ast.Store)
                    s.body = [ast.Assign(targets=[t], value=name(pair))] + s.body


def t_swap(tree):
    """comparisons written the other way round"""
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in flip:
            n.ops = [flip[type(n.ops[0])]()]
            n.left, n.comparators = n.comparators[0], [n.left]


def t_ifexp(tree):
    for f in functions(tree):
        for n, k, b in list(blocks(f)):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = s.value
                    out.append(ast.If(test=v.test, body=[ast.Assign(targets=s.targets, value=v.body)], orelse=[ast.Assign(targets=copy.deepcopy(s.targets), value=v.orelse)]))
                else:
                    out.append(s)
            setattr(n, k, out)


def t_and(tree):
    """if a and b without else -> nested"""
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            v = n.test.values
            n.test, n.body = v[0], [ast.If(test=v[1] if len(v) == 2 else ast.BoolOp(op=ast.And(), values=v[1:]), body=n.body, orelse=[])]


def t_square(tree):
    """x**2 as x*x for variables"""
    class X(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
                return ast.BinOp(left=n.left, op=ast.Mult(), right=copy.deepcopy(n.left))
            return n
    X().visit(tree)


def t_keywords(tree, sigs=None):
    """positional arguments of the package's functions by keyword"""
    stored = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in SIGS and n.func.id not in stored and not any(isinstance(a, ast.Starred) for a in n.args):
            p = SIGS[n.func.id]
            if p and len(n.args) <= len(p):
                kw = [ast.keyword(arg=a, value=v) for a, v in zip(p, n.args)]
                n.args, n.keywords = [], kw + n.keywords


def t_format(tree):
    """format calls as f-strings"""
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                import string
                out, k = [], 0
                for lit, field, spec, conv in string.Formatter().parse(n.func.value.value):
                    if lit:
                        out.append(ast.Constant(lit))
                    if field is None:
                        continue
                    if field != '' or conv or any(isinstance(x, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(x, 'value', ''), str) for x in ast.walk(n.args[k])):
                        return n
                    out.append(ast.FormattedValue(value=n.args[k], conversion=-1, format_spec=ast.JoinedStr(values=[ast.Constant(spec)]) if spec else None))
                    k += 1
                return ast.JoinedStr(values=out)
            return n
    X().visit(tree)


def t_aug(tree):
    """x = x + y as augmented assignment is not the same for arrays; the other way round neither: counters only"""
    for n, k, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                b[i] = assign(s.target.id, ast.BinOp(left=name(s.target.id), op=s.op, right=s.value))


def t_where(tree):
    """np.where(c)[0] as np.nonzero(c)[0]"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'where' and len(n.value.args) == 1 and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id == 'np':
            n.value.func.attr = 'nonzero'


def t_numpy(tree):
    """import numpy as np -> import numpy"""
    if any(isinstance(n, ast.Import) and any(a.name == 'numpy' and a.asname == 'np' for a in n.names) for n in ast.walk(tree)):
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == 'numpy' and a.asname == 'np':
                        a.asname = None
            if isinstance(n, ast.Name) and n.id == 'np':
                n.id = 'numpy'


def t_helper(tree):
    """each numeric right hand side of a module function that uses only names, in a helper function"""
    new = []
    for f in [s for s in tree.body if isinstance(s, FUN)]:
        if nested(f):
            continue
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        k = 0
        for n, key, b in list(blocks(f)):
            for s in b:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and all(isinstance(x, (ast.BinOp, ast.UnaryOp, ast.Name, ast.Constant, ast.operator, ast.unaryop, ast.expr_context, ast.Call, ast.Attribute)) for x in ast.walk(s.value)):
                    used = sorted({x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & loc)
                    h = '_part_%s_%d' % (f.name.lstrip('_'), k)
                    k += 1
                    new.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=u) for u in used], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(value=s.value)], decorator_list=[], type_params=[]))
                    s.value = ast.Call(func=name(h), args=[name(u) for u in used], keywords=[])
    tree.body += new if not any(isinstance(s, ast.If) for s in tree.body) else []
    if new and tree.body[-1] is not new[-1]:
        i = max(j for j, s in enumerate(tree.body) if isinstance(s, (FUN, ast.ClassDef))) + 1
        tree.body[i:i] = new


def t_method(tree):
    """each numeric right hand side of a method in a function of the module"""
    new = []
    for c in [s for s in tree.body if isinstance(s, ast.ClassDef)]:
        for f in [s for s in c.body if isinstance(s, FUN)]:
            if nested(f):
                continue
            loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
            k = 0
            for n, key, b in list(blocks(f)):
                for s in b:
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and all(isinstance(x, (ast.BinOp, ast.UnaryOp, ast.Name, ast.Constant, ast.operator, ast.unaryop, ast.expr_context, ast.Call, ast.Attribute)) for x in ast.walk(s.value)):
                        used = sorted({x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} & loc)
                        h = '_part_%s_%s_%d' % (c.name, f.name.lstrip('_'), k)
                        k += 1
                        new.append(ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=u) for u in used], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(value=s.value)], decorator_list=[], type_params=[]))
                        s.value = ast.Call(func=name(h), args=[name(u) for u in used], keywords=[])
    i = max([j for j, s in enumerate(tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))] or [-1]) + 1
    tree.body[i:i] = new


PURE = (ast.BinOp, ast.UnaryOp, ast.Name, ast.Constant, ast.operator, ast.unaryop, ast.expr_context, ast.Attribute, ast.Subscript, ast.Compare, ast.cmpop, ast.Slice, ast.Tuple)


def pure(e):
    return all(isinstance(x, PURE) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ('np', 'numpy', 'math') for x in ast.walk(e))


def t_inline(tree):
    """a variable that is set and used once, by the next statement, replaced by its value"""
    for f in functions(tree):
        if nested(f) or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            continue
        uses = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, []).append(n)
        for n, k, b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and t.value is not None:
                    v = s.targets[0].id
                    us = uses.get(v, [])
                    ld = [u for u in us if isinstance(u.ctx, ast.Load)]
                    if len(us) == 2 and len(ld) == 1 and any(x is ld[0] for x in ast.walk(t.value)) and not any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.IfExp, ast.BoolOp, ast.DictComp, ast.SetComp, ast.JoinedStr)) for x in ast.walk(t.value)):
                        class X(ast.NodeTransformer):
                            def visit_Name(self, m):
                                return s.value if m is ld[0] else m
                        t.value = X().visit(t.value)
                        del b[i]
                        continue
                i += 1


def t_commute(tree):
    """factors of products the other way round"""
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left


def t_reorder(tree):
    """neighbouring assignments that do not depend on each other, exchanged"""
    for f in functions(tree):
        for n, k, b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and pure(x.value) for x in (s, t)):
                    a, c = s.targets[0].id, t.targets[0].id
                    if a != c and not any(isinstance(x, ast.Name) and x.id == a for x in ast.walk(t.value)) and not any(isinstance(x, ast.Name) and x.id == c for x in ast.walk(s.value)):
                        b[i], b[i + 1] = t, s
                        i += 1
                i += 1


def t_npfun(tree):
    """other names of the same numpy functions, and operators as functions"""
    alt = {'abs': 'absolute', 'radians': 'deg2rad', 'degrees': 'rad2deg', 'deg2rad': 'radians', 'rad2deg': 'degrees', 'max': 'amax', 'min': 'amin', 'in1d': 'isin', 'vstack': 'row_stack' if False else 'vstack'}
    class X(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'np':
                a = n.func.attr
                if a in alt:
                    n.func.attr = alt[a]
                elif a == 'sqrt' and len(n.args) == 1 and not n.keywords:
                    v = n.args[0]
                    sq = lambda z: isinstance(z, ast.BinOp) and isinstance(z.op, ast.Pow) and isinstance(z.right, ast.Constant) and z.right.value == 2
                    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and sq(v.left) and sq(v.right):
                        return ast.Call(func=ast.Attribute(value=ast.Name(id='np', ctx=ast.Load()), attr='hypot', ctx=ast.Load()), args=[v.left.left, v.right.left], keywords=[])
            return n
    X().visit(tree)


def t_tail(tree):
    """the second half of a function, where it only needs parameters and local names, in a helper"""
    out = []
    for s in tree.body:
        if isinstance(s, FUN) and not nested(s) and not s.decorator_list and not s.args.kwarg and not s.args.vararg and len(s.body) >= 6 and not any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom, ast.Await)) for n in ast.walk(s)):
            h = len(s.body) // 2
            one, two = s.body[:h], s.body[h:]
            loc = {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)}
            must = set(loc)
            may = set(loc)
            for x in one:
                st = {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                may |= st
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)):
                    must |= st
            used = {n.id for x in two for n in ast.walk(x) if isinstance(n, ast.Name)} & may
            if used <= must and not any(isinstance(n, ast.Name) and n.id == 'locals' for n in ast.walk(s)):
                nm = '_rest_of_' + s.name.lstrip('_')
                us = sorted(used)
                out.append(ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=u) for u in us], kwonlyargs=[], kw_defaults=[], defaults=[]), body=two, decorator_list=[], type_params=[]))
                s.body = one + [ast.Return(value=ast.Call(func=name(nm), args=[name(u) for u in us], keywords=[]))]
        out.append(s)
    tree.body = out


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}
SIGS = {}


def sources(root):
    for d, _, fs in os.walk(root + '/py/desimeter'):
        if '/test' not in d:
            for f in sorted(fs):
                if f.endswith('.py') and f != '_version.py':
                    yield os.path.join(d, f)


def one(n):
    d = tempfile.mkdtemp(prefix='ar_')
    try:
        subprocess.run('git clone -q %s %s/r' % (os.environ.get('AR_REPO', '/repo'), d), shell=True, check=True)
        root = d + '/r'
        for p in sources(root):
            tree = ast.parse(open(p).read())
            for m in n.split('+'):
                ALL[m](tree)
            ast.fix_missing_locations(tree)
            open(p, 'w').write(ast.unparse(tree) + '\n')
        r = subprocess.run("cd %s && git diff --stat | tail -1" % root, shell=True, text=True, capture_output=True).stdout.strip()
        out = ['== %s: %s' % (n, r)]
        if '-t' in sys.argv:
            t = subprocess.run('cd %s && PYTHONPATH=%s/py PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q py/desimeter/test 2>&1 | tail -8' % (root, root), shell=True, text=True, capture_output=True)
            out.append('   tests: ' + t.stdout.strip().splitlines()[-1])
            out += ['   ' + l for l in t.stdout.splitlines() if l.startswith('FAILED')]

        def chk(i):
            try:
                p = subprocess.run(['python3', 'check.py', i], cwd=V, text=True, capture_output=True, timeout=900, env=dict(os.environ, VP_REPO=root, SA_EVID=d))
                return i, p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                return i, 'timeout', ''
        ids = os.environ.get('AR_IDS', '').split() or ['C%02d' % i for i in range(1, 29)]
        with ThreadPoolExecutor(int(os.environ.get('AR_JOBS', '7'))) as ex:
            for i, rc, o in ex.map(chk, ids):
                m = re.search(r'(\d+) obligations, (\d+) hold, (\d+) violated, \d+ known, (\d+) undecided', o)
                if rc != 0:
                    out.append('   %s rc=%s %s' % (i, rc, m.group(0) if m else o[-200:]))
                    out += ['        ' + l.strip()[:260] for l in o.splitlines() if 'violated:' in l or 'component' in l][:6]
                elif m and int(m.group(4)):
                    out.append('   %s %s' % (i, m.group(0)))
        return '\n'.join(out)
    finally:
        shutil.rmtree(d)


for f in sources(os.environ.get('AR_REPO', '/repo')):
    for s in ast.parse(open(f).read()).body:
        if isinstance(s, FUN):
            p = [a.arg for a in s.args.args] if not s.args.vararg and not s.args.posonlyargs else None
            SIGS[s.name] = p if s.name not in SIGS or SIGS[s.name] == p else None
if __name__ == '__main__':
    for n in [a for a in sys.argv[1:] if not a.startswith('-')] or ALL:
        print(one(n), flush=True)
