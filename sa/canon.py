"""Loops that count with while are brought to the form of a for loop over a range before anything else looks at the
source: `i = a; while i < e: ...; i += k` is `for i in range(a, e, k): ...` when nothing else assigns i or changes e, the
body has no continue and i is not used after the loop."""
import ast

SCOPE = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def _own(f):
    todo = list(ast.iter_child_nodes(f))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, SCOPE):
            todo.extend(ast.iter_child_nodes(n))


def _step(s, v):
    """positive constant added to v by the statement"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == v:
        k = s.value
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        a, b = s.value.left, s.value.right
        k = b if isinstance(a, ast.Name) and a.id == v else (a if isinstance(b, ast.Name) and b.id == v else None)
    else:
        return None
    return k.value if isinstance(k, ast.Constant) and type(k.value) is int and k.value > 0 else None


def _names(e):
    """names of a bound that a loop cannot change but by assigning them: None if it can be anything else"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Name, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)):
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and not n.keywords:
            continue
        return None
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} - {'len'}


def _has_continue(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)) or isinstance(s, SCOPE):
            continue
        for k in ('body', 'orelse', 'finalbody'):
            if _has_continue(getattr(s, k, []) or []):
                return True
        if any(_has_continue(h.body) for h in getattr(s, 'handlers', [])):
            return True
    return False


def _one(f, block, i):
    w = block[i]
    t = w.test
    if w.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, ast.Gt):
        a, op, b = b, ast.Lt(), a
    if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(a, ast.Name)):
        return None
    v = a.id
    k = _step(w.body[-1], v) if len(w.body) > 1 else None
    used = _names(b)
    if k is None or used is None or v in used or (isinstance(op, ast.NotEq) and k != 1) or _has_continue(w.body):
        return None
    # the assignment that starts the count: the last one before the loop in the same block
    lo = None
    for j in range(i - 1, -1, -1):
        s = block[j]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v:
            lo = s
            break
        if any(isinstance(n, ast.Name) and n.id == v for n in ast.walk(s)):
            return None
    if lo is None or _names(lo.value) is None or v in _names(lo.value):
        return None
    if isinstance(op, ast.NotEq) and not (isinstance(lo.value, ast.Constant) and lo.value.value == 0 and isinstance(b, ast.Call)):
        return None
    between = [n.id for s in block[block.index(lo) + 1:i] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]
    if set(between) & _names(lo.value):
        return None
    inside = set(map(id, ast.walk(w)))
    start = set(map(id, ast.walk(lo)))
    body = [n for s in w.body[:-1] for n in ast.walk(s)]
    for n in body:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and (n.id == v or n.id in used):
            return None
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return None
        # a bound that is the length of something the body may grow
        if isinstance(b, ast.Call) and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear') and {x.id for x in ast.walk(n.func.value) if isinstance(x, ast.Name)} & used:
            return None
        if isinstance(n, ast.Delete):
            return None
    # not used elsewhere unless assigned again first: only accepted when the name does not appear anywhere else but in
    # other counts of the same form
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and n.id == v and id(n) not in inside and id(n) not in start:
            if isinstance(n.ctx, ast.Load):
                return None
    first = None
    args = [lo.value, b] if not (isinstance(lo.value, ast.Constant) and lo.value.value == 0) else [b]
    if k != 1:
        args = [lo.value, b, ast.Constant(k)]
    var = v
    rest = w.body[:-1]
    # the body only copies the count into its own loop variable
    s = rest[0]
    if len(rest) > 1 and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and s.value.id == v \
            and sum(1 for n in body if isinstance(n, ast.Name) and n.id == v) == 1:
        var, rest = s.targets[0].id, rest[1:]
    r = ast.For(target=ast.Name(id=var, ctx=ast.Store()), iter=ast.Call(func=ast.Name(id='range', ctx=ast.Load()), args=args, keywords=[]), body=rest, orelse=[], type_comment=None)
    ast.copy_location(r, w)
    for n in ast.walk(r):
        if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt)):
            ast.copy_location(n, w)
    return r


def loops(tree):
    for f in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        if not any(isinstance(n, ast.While) for n in ast.walk(f)):
            continue
        todo = True
        while todo:
            todo = False
            for n in list(ast.walk(f)):
                for key in ('body', 'orelse', 'finalbody'):
                    b = getattr(n, key, None)
                    if isinstance(b, list):
                        for i, s in enumerate(b):
                            if isinstance(s, ast.While):
                                r = _one(f, b, i)
                                if r is not None:
                                    b[i] = r
                                    todo = True
    return tree
