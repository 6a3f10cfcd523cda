"""Names that only carry one value to the statement that uses it are read through before the analysis:
`t = E; if t: ...` is analysed as `if E: ...`. Only done where the two evaluate the same things in the same order."""
import ast

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
PURE_CALLS = {'isinstance', 'callable', 'hasattr', 'type', 'issubclass'}


def simple(e):
    """reads names only, and nothing it does can fail or change anything"""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for o in e.ops) and all(map(simple, [e.left] + e.comparators))
    if isinstance(e, ast.BoolOp):
        return all(map(simple, e.values))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return simple(e.operand)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in PURE_CALLS and not e.keywords:
        return all(map(simple, e.args))
    return False


def stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}


def quiet(e):
    """evaluating e runs no code of its own"""
    return not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.JoinedStr,
                                  ast.Starred) + SCOPES) for x in ast.walk(e))


def order(e, v):
    """sub-expressions of e evaluated before the name v is read; None where v may not be read at all"""
    if isinstance(e, ast.Name) and e.id == v:
        return []
    if isinstance(e, (ast.Lambda,)):
        return None
    if isinstance(e, ast.BoolOp):
        return order(e.values[0], v)
    if isinstance(e, ast.IfExp):
        return order(e.test, v)
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return order(e.generators[0].iter, v)
    if isinstance(e, ast.Compare):
        kids = [e.left, e.comparators[0]]
    elif isinstance(e, ast.Dict):
        kids = [x for p in zip(e.keys, e.values) for x in p if x is not None]
    elif isinstance(e, ast.Call):
        kids = [e.func] + e.args + [k.value for k in e.keywords]
    else:
        kids = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
    before = []
    for x in kids:
        got = order(x, v)
        if got is not None:
            return before + got
        before.append(x)
    return None


def head(s):
    """the expression a statement evaluates first and once"""
    if isinstance(s, ast.If):
        return 'test'
    if isinstance(s, ast.For):
        return 'iter'
    if isinstance(s, (ast.Return, ast.Expr)) and s.value is not None:
        return 'value'
    if isinstance(s, ast.Assign):
        return 'value'
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
        return 'value'
    return None


class Put(ast.NodeTransformer):
    def __init__(self, v, e):
        self.v, self.e = v, e

    def visit_Name(self, n):
        return self.e if n.id == self.v and isinstance(n.ctx, ast.Load) else n


def counts(f):
    stores, loads, deep = {}, {}, set()
    for x in ast.walk(f):
        if isinstance(x, ast.Name):
            d = loads if isinstance(x.ctx, ast.Load) else stores
            d[x.id] = d.get(x.id, 0) + 1
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            deep |= set(x.names)
        elif isinstance(x, ast.arg):
            stores[x.arg] = stores.get(x.arg, 0) + 1
        elif isinstance(x, (ast.ExceptHandler,)) and x.name:
            stores[x.name] = stores.get(x.name, 0) + 1
    return stores, loads, deep


def blocks(f):
    """statement lists of f itself, not of functions inside it"""
    todo = [f]
    while todo:
        n = todo.pop()
        for name in ('body', 'orelse', 'finalbody'):
            b = getattr(n, name, None)
            if isinstance(b, list):
                yield b
                todo += [s for s in b if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))]
        for h in getattr(n, 'handlers', None) or []:
            todo.append(h)


def step(f, info):
    stores, loads, deep = info
    for b in blocks(f):
        for i, s in enumerate(b):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
                continue
            v = s.targets[0].id
            if stores.get(v) != 1 or loads.get(v) != 1 or v in deep:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(s.value)):
                continue
            plain = simple(s.value)
            reads = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
            for j in range(i + 1, len(b)):
                t = b[j]
                h = head(t)
                if h is not None and isinstance(t, ast.If) and plain and any(
                        isinstance(x, ast.Name) and x.id == v for x in ast.walk(t.test)) and not any(
                        isinstance(x, SCOPES) for x in ast.walk(t.test)):
                    break
                before = order(getattr(t, h), v) if h is not None else None
                if before is not None and (plain or j == i + 1) and all(map(quiet, before)):
                    break
                if not plain or stored(t) & reads or isinstance(t, (ast.FunctionDef, ast.ClassDef)):
                    j = None
                    break
            else:
                j = None
            if j is None:
                continue
            t = b[j]
            h = head(t)
            setattr(t, h, Put(v, s.value).visit(getattr(t, h)))
            del b[i]
            stores[v] = loads[v] = 0
            return True
    return False


def read_through(tree):
    n = 0
    for f in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        info = counts(f)
        while step(f, info):
            n += 1
    return n
