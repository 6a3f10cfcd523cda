"""Expression part of the abstract interpreter."""
import ast

from . import interp as I
from .interp import (BOT, ANY, NONE, INT, FLOAT, STR, BOOL, TRUE, FALSE, C, K, const,
                     core, tags, union, join, STR_METHODS, MUTATORS, PRIM_TYPES, Frame)

NUM = {'int', 'float', 'bool'}


class ExprMixin:

    def eval(self, e):
        if self.st is None:
            return BOT
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e)

    def e_unknown(self, e):
        self.ev('unsupported', e, what=type(e).__name__)
        return ANY

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return ANY
        return const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_JoinedStr(self, e):
        tg = BOT
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = None if out is None else out + str(v.value)
            else:
                x = self.eval(v.value)
                if self.st is None:
                    return BOT
                self.use(x, e, 'format')
                tg |= tags(x)
                cx = core(x)
                if out is not None and len(cx) == 1 and v.format_spec is None and v.conversion == -1:
                    a = next(iter(cx))
                    out = out + str(a[2]) if a[0] == 'c' else None
                else:
                    out = None
        return (const(out) if out is not None else STR) | tg

    def e_FormattedValue(self, e):
        self.eval(e.value)
        return STR

    def e_Tuple(self, e):
        items, starred = [], False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                if self.st is None:
                    return BOT
                starred = True
                items.append(self.iterate(v, x))
            else:
                items.append(self.eval(x))
            if self.st is None:
                return BOT
        if starred:
            return frozenset([('T', union(BOT, *items))])
        if all(len(i) == 1 and next(iter(i))[0] == 'c' for i in items) and len(items) > 8:
            pass
        return I.norm(frozenset([('t', tuple(items), None)]))

    def e_List(self, e):
        el, x, exact = BOT, [], True
        for i in e.elts:
            if isinstance(i, ast.Starred):
                v = self.eval(i.value)
                if self.st is None:
                    return BOT
                v = self.iterate(v, i)
                exact = False
            else:
                v = self.eval(i)
            if self.st is None:
                return BOT
            el = union(el, v)
            if len(x) < 40:
                x.append(v)
            else:
                exact = False
        return frozenset([self.new_list(e, el, x=x if exact else None)])

    def e_Set(self, e):
        el = BOT
        for i in e.elts:
            v = self.eval(i.value if isinstance(i, ast.Starred) else i)
            if self.st is None:
                return BOT
            el = union(el, self.iterate(v, i) if isinstance(i, ast.Starred) else v)
        return frozenset([self.alloc('set', e, e=el)])

    def e_Dict(self, e):
        k, v = BOT, BOT
        for a, b in zip(e.keys, e.values):
            if a is None:
                x = self.eval(b)
                if self.st is None:
                    return BOT
                for y in x:
                    if y[0] == 'o':
                        k = union(k, self.st.get(('k', y[1])))
                        v = union(v, self.st.get(('e', y[1])))
                continue
            ka = self.eval(a)
            if self.st is None:
                return BOT
            vb = self.eval(b)
            if self.st is None:
                return BOT
            k, v = union(k, ka), union(v, vb)
        return frozenset([self.alloc('dict', e, e=v, k=k)])

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        if self.st is not None:
            self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        d, kd = self.eval_defaults(e.args)
        if self.st is None:
            return BOT
        return frozenset([self.make_func(e, d, kd)])

    def e_IfExp(self, e):
        t, f = self.branch(e.test)
        self.st = t
        a = self.eval(e.body) if t is not None else BOT
        sa = self.st
        self.st = f
        b = self.eval(e.orelse) if f is not None else BOT
        self.st = join(sa, self.st)
        return union(a, b)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        out = BOT
        done = None
        for i, x in enumerate(e.values):
            if i == len(e.values) - 1:
                v = self.eval(x)
                out = union(out, v)
                break
            v = self.eval(x)
            if self.st is None:
                break
            self.use(v, x, 'test')
            ct, cf = self.truth(v)
            stay = cf if isand else ct
            go = ct if isand else cf
            if stay:
                out = union(out, self.filter_truth(v, not isand))
                s2 = self.st.copy() if go else self.st
                s2 = self.refine(s2, x, not isand)
                done = join(done, s2)
            if not go:
                self.st = None
                break
            self.st = self.refine(self.st, x, isand)
            if self.st is None:
                break
        self.st = join(done, self.st)
        return out

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if self.st is None:
            return BOT
        self.use(v, e, 'op')
        if isinstance(e.op, ast.Not):
            t, f = self.truth(v)
            r = BOOL if t and f else (FALSE if t else TRUE)
            return r | tags(v)
        cv = core(v)
        out = BOT
        for a in cv:
            if a[0] == 'c' and isinstance(a[2], (int, float)) and isinstance(e.op, ast.USub):
                out |= const(-a[2])
            elif a[0] == 'c' and isinstance(a[2], (int, float)):
                out |= K('int')
            elif a[0] == 'k':
                out |= K('int' if a[1] == 'bool' else a[1])
            else:
                out |= ANY
        return I.norm(out) | tags(v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        if self.st is None:
            return BOT
        b = self.eval(e.right)
        if self.st is None:
            return BOT
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, e):
        self.use(a, e, 'op')
        self.use(b, e, 'op')
        tg = tags(a) | tags(b)
        ca, cb = core(a), core(b)
        h = self.hooks.get('binop')
        if h:
            tg = h(self, op, a, b, e, tg)
        if not ca or not cb:
            return tg
        out = BOT
        if len(ca) * len(cb) <= 16 and all(x[0] in 'ct' for x in ca | cb):
            ok = True
            for x in ca:
                for y in cb:
                    r = self.fold(op, x, y)
                    if r is None:
                        ok = False
                    else:
                        out = union(out, r)
            if ok:
                return out | tg
        out = BOT
        bad = []
        kinds = set()
        for x in ca:
            kinds.add(_kind(self, x))
        kb = set(_kind(self, y) for y in cb)
        if isinstance(op, ast.Mod) and 'str' in kinds:
            out |= STR
            kinds.discard('str')
        for x in kinds:
            for y in kb:
                if x in NUM and y in NUM:
                    if isinstance(op, ast.Div) or 'float' in (x, y):
                        out |= FLOAT
                    else:
                        out |= INT
                elif x == 'str' and (y == 'str' or isinstance(op, ast.Mult)) or \
                        y == 'str' and isinstance(op, ast.Mult) and x in NUM:
                    out |= STR
                elif x in ('list', 'deque') and (y == 'list' or isinstance(op, ast.Mult)):
                    out = union(out, frozenset([self.alloc(x, e, extra='op', e=union(
                        BOT, *[self.st.get(('e', z[1])) for z in ca | cb if z[0] == 'o']))]))
                elif y == 'list' and isinstance(op, ast.Mult) and x in NUM:
                    out = union(out, frozenset([self.alloc('list', e, extra='op', e=union(
                        BOT, *[self.st.get(('e', z[1])) for z in ca | cb if z[0] == 'o']))]))
                elif x == 'set' and y in ('set', 'view') or x == 'view' and y in ('set', 'view'):
                    els = [self.iterate(frozenset([z]), e) for z in (ca | cb) if z[0] == 'o']
                    out = union(out, frozenset([self.alloc('set', e, extra='op', e=union(BOT, *els))]))
                elif x in ('t', 'T') and (y in ('t', 'T') or isinstance(op, ast.Mult)):
                    for p in ca:
                        if p[0] not in 'tT':
                            continue
                        for q in cb:
                            if p[0] == 't' and q[0] == 't':
                                out = union(out, frozenset([('t', p[1] + q[1], None)]))
                            else:
                                els = [self.iterate(frozenset([z]), e) for z in (p, q) if z[0] in 'tT']
                                out = union(out, frozenset([('T', union(BOT, *els))]))
                elif x == 'u' or y == 'u' or x == 'E' or y == 'E':
                    if (x == 'str' or y == 'str') and isinstance(op, ast.Add):
                        out |= STR
                    elif x in NUM or y in NUM:
                        out |= ANY
                        if isinstance(op, ast.Mult):
                            pass
                    else:
                        out |= ANY
                else:
                    bad.append((x, y))
        for x, y in bad:
            self.ev('maybe_type_mismatch' if core(out) else 'type_mismatch', e,
                    op=type(op).__name__, a=str(x), b=str(y))
        if bad and not core(out):
            self.st = None
            return BOT
        return out | tg

    def fold(self, op, x, y):
        if x[0] == 't' or y[0] == 't':
            if isinstance(op, ast.Mod) and x[0] == 'c' and isinstance(x[2], str) and y[0] == 't':
                vals = []
                for i in y[1]:
                    ci = core(i)
                    if len(ci) != 1 or next(iter(ci))[0] != 'c':
                        return STR
                    vals.append(next(iter(ci))[2])
                try:
                    return const(x[2] % tuple(vals))
                except Exception:
                    return None
            return None
        p, q = x[2], y[2]
        if isinstance(p, str) and isinstance(op, ast.Mod):
            try:
                return const(p % (q,) if not isinstance(q, tuple) else p % q)
            except Exception:
                return None
        if not isinstance(p, (int, float, str)) or not isinstance(q, (int, float, str)):
            return None
        try:
            if isinstance(op, ast.Add):
                r = p + q
            elif isinstance(op, ast.Sub):
                r = p - q
            elif isinstance(op, ast.Mult):
                if isinstance(p, str) and len(p) * q > 200 or isinstance(q, str) and len(q) * p > 200:
                    return STR
                r = p * q
            elif isinstance(op, ast.FloorDiv):
                r = p // q
            elif isinstance(op, ast.Div):
                r = p / q
            elif isinstance(op, ast.Mod):
                r = p % q
            elif isinstance(op, ast.Pow) and abs(q) < 20 and abs(p) < 10000:
                r = p ** q
            else:
                return None
        except Exception:
            return None
        if isinstance(r, complex) or isinstance(r, int) and abs(r) > 10 ** 15:
            return INT
        return const(r)

    # --------------------------------------------------------- comparisons
    def e_Compare(self, e):
        left = self.eval(e.left)
        if self.st is None:
            return BOT
        res, tg = None, tags(left)
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            if self.st is None:
                return BOT
            h = self.hooks.get('compare')
            if h:
                h(self, op, left, right, e)
            if not isinstance(op, (ast.Is, ast.IsNot)) or True:
                self.use(left, e, 'compare')
                self.use(right, e, 'compare')
            r = self.compare(op, left, right, e)
            tg = tg | tags(right)
            if res is None:
                res = r
            else:
                t1, f1 = self.truth(res)
                t2, f2 = self.truth(r)
                res = (TRUE if t1 and t2 else BOT) | (FALSE if f1 or f2 else BOT)
            left = right
        out = BOT
        for a in res:
            out |= frozenset([a])
        return out | tg

    def compare(self, op, a, b, e):
        ca, cb = core(a), core(b)
        if not ca or not cb:
            # unknown (no value has been seen): both outcomes
            return TRUE | FALSE
        out = set()
        if isinstance(op, (ast.In, ast.NotIn)):
            for y in cb:
                if y[0] == 'o' and self.objs[y[1]].kind == 'inst':
                    m = self.getattr_atom(y, '__contains__', e, quiet=True)
                    if m:
                        self.call(m, [a], {}, e)
                        if self.st is None:
                            return BOT
                elif y[0] == 'c' and y[2] is None and len(cb) == 1:
                    self.ev('type_mismatch', e, op='in', a='?', b='None')
            for x in ca:
                for y in cb:
                    if x[0] == 'c' and y[0] == 'c' and isinstance(x[2], str) and isinstance(y[2], str):
                        out.add((x[2] in y[2]) == isinstance(op, ast.In))
                    elif x[0] == 'c' and y[0] == 't' and all(
                            len(core(i)) == 1 and next(iter(core(i)))[0] == 'c' for i in y[1]):
                        vals = [next(iter(core(i)))[2] for i in y[1]]
                        out.add((x[2] in vals) == isinstance(op, ast.In))
                    else:
                        out |= {True, False}
        else:
            for x in ca:
                for y in cb:
                    r = self.cmp1(op, x, y)
                    if r is None:
                        out |= {True, False}
                    else:
                        out.add(r)
        return (TRUE if True in out else BOT) | (FALSE if False in out else BOT)

    def cmp1(self, op, x, y):
        eq = isinstance(op, (ast.Eq, ast.Is))
        ne = isinstance(op, (ast.NotEq, ast.IsNot))
        if eq or ne:
            if x[0] == 'c' and y[0] == 'c':
                r = x[2] == y[2] if not isinstance(op, (ast.Is, ast.IsNot)) else (
                    x[1] == y[1] and x[2] == y[2])
                return r if eq else not r
            if ('c', 'NoneType', None) in (x, y):
                o = y if x == ('c', 'NoneType', None) else x
                if soft(o):
                    return None
                if o[0] in ('o', 't', 'T', 'f', 'm', 'C', 'M', 'N', 'B', 'b', 'k'):
                    return not eq
                return None
            if x[0] in ('B', 'C', 'N') and y[0] in ('B', 'C', 'N'):
                return (x == y) == eq
            if x[0] == 'B' and y[0] == 'E' or x[0] == 'E' and y[0] == 'B':
                return not eq
            if x[0] == 'f' and y[0] == 'f' or x[0] == 'f' and y[0] == 'B' or x[0] == 'B' and y[0] == 'f':
                return (x == y) == eq
            if x[0] == 't' and y[0] == 't' and all(
                    len(core(i)) == 1 and next(iter(core(i)))[0] == 'c' for i in x[1] + y[1]):
                r = [next(iter(core(i)))[2] for i in x[1]] == [next(iter(core(i)))[2] for i in y[1]]
                return r == eq
            return None
        if x[0] == 'c' and y[0] == 'c':
            try:
                p, q = x[2], y[2]
                return {ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)]
            except TypeError:
                return None
        if x[0] == 'E' and x[1] == 'sys.version_info' or y[0] == 'E' and y[1] == 'sys.version_info':
            swap = y[0] == 'E'
            o = x if swap else y
            if o[0] == 't':
                vals = []
                for i in o[1]:
                    ci = core(i)
                    if len(ci) != 1 or next(iter(ci))[0] != 'c':
                        return None
                    vals.append(next(iter(ci))[2])
                p, q = (tuple(vals), (3, 12, 3)) if swap else ((3, 12, 3), tuple(vals))
                return {ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)]
        return None

    # --------------------------------------------------------- truth, refinement
    def truth1(self, a):
        t = a[0]
        if soft(a):
            return True, True
        if t == 'c':
            b = bool(a[2])
            return b, not b
        if t in ('f', 'm', 'C', 'N', 'M', 'B', 'b'):
            return True, False
        if t == 't':
            return (len(a[1]) > 0), (len(a[1]) == 0)
        if t == 'o':
            o = self.objs[a[1]]
            if o.kind == 'inst':
                if self.class_attr(o.cls, '__len__') or self.class_attr(o.cls, '__bool__'):
                    return True, True
                return True, False
            if o.kind in ('file', 'gen', 'regex'):
                return True, False
            if ('x', a[1]) in self.st.d:
                n = len(self.st.d[('x', a[1])])
                return n > 0, n == 0
            if o.kind in ('list', 'set', 'dict', 'defaultdict', 'Counter', 'deque'):
                if not core(self.st.get(('e', a[1]))) and not core(self.st.get(('k', a[1]))) \
                        and not tags(self.st.get(('e', a[1]))):
                    return False, True
            return True, True
        return True, True

    def truth(self, av):
        ca = core(av)
        if not ca:
            return True, True
        t = f = False
        for a in ca:
            x, y = self.truth1(a)
            t, f = t or x, f or y
        return t, f

    def filter_truth(self, av, want):
        out = []
        for a in av:
            if a[0] == '#':
                out.append(a)
                continue
            t, f = self.truth1(a)
            if (t if want else f):
                if a == ('k', 'bool'):
                    a = C(want)
                out.append(a)
        return frozenset(out)

    def branch(self, test):
        """evaluate a condition: (state if it may hold, state if it may fail)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand)
            return f, t
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            acc = None
            for x in test.values:
                t, f = self.branch(x)
                if isand:
                    acc = join(acc, f)
                    self.st = t
                else:
                    acc = join(acc, t)
                    self.st = f
                if self.st is None:
                    break
            return (self.st, acc) if isand else (acc, self.st)
        v = self.eval(test)
        if self.st is None:
            return None, None
        self.use(v, test, 'test')
        self.hook('branch', test, v)
        t, f = self.truth(v)
        st = self.st
        ts = fs = None
        if t:
            ts = self.refine(st.copy() if f else st, test, True)
        if f:
            fs = self.refine(st, test, False)
        return ts, fs

    def path_key(self, e, st):
        """the store key an expression denotes, when it denotes exactly one"""
        if isinstance(e, ast.Name):
            for env in self.stack[-1].scopes:
                if ('l', env, e.id) in st.d:
                    return ('l', env, e.id)
            return None
        if isinstance(e, ast.Attribute):
            k = self.path_key(e.value, st)
            if k is None:
                return None
            cv = core(st.get(k))
            if len(cv) != 1:
                return None
            a = next(iter(cv))
            if a[0] == 'o' and a[1] not in self.weak and ('a', a[1], e.attr) in st.d:
                return ('a', a[1], e.attr)
        return None

    def refine(self, st, test, want):
        if st is None:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(st, test.operand, not want)
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            if isand == want:
                for x in test.values:
                    st = self.refine(st, x, want)
                    if st is None:
                        return None
            return st
        if isinstance(test, (ast.Name, ast.Attribute)):
            k = self.path_key(test, st)
            if k:
                save, self.st = self.st, st
                v = self.filter_truth(st.d[k], want)
                self.st = save
                if not core(v) and core(st.d[k]):
                    return None
                st.d[k] = v
            return st
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                pos = isinstance(op, (ast.Eq, ast.Is)) == want
                for x, y in ((test.left, test.comparators[0]), (test.comparators[0], test.left)):
                    k = self.path_key(x, st)
                    if k and isinstance(y, ast.Constant):
                        c = C(y.value)
                        v = st.d[k]
                        if pos:
                            keep = [a for a in v if a[0] == '#' or a == c or
                                    (a[0] in 'ku' and not (y.value is None and a[0] == 'k')) or
                                    (a[0] == 'E') or
                                    (a[0] == 'c' and a[2] == y.value)]
                            keep = [c if (a[0] == 'k' and a[1] == c[1]) else a for a in keep]
                        else:
                            keep = [a for a in v if a != c]
                        if not core(frozenset(keep)) and core(v):
                            return None
                        st.d[k] = frozenset(keep)
                    # type(x) == T
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'type' \
                            and len(x.args) == 1:
                        k = self.path_key(x.args[0], st)
                        if k:
                            r = self.refine_type(st, k, y, pos)
                            if r is None:
                                return None
            return st
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and len(test.args) == 2 \
                and test.func.id == 'isinstance':
            k = self.path_key(test.args[0], st)
            if k:
                return self.refine_type(st, k, test.args[1], want)
        return st

    def refine_type(self, st, k, texpr, want):
        save = self.st
        self.st = st.copy()
        tv = self.eval(texpr)
        self.st = save
        keep = []
        for a in st.d[k]:
            if a[0] == '#':
                keep.append(a)
                continue
            r = self.isinst(a, tv)
            if want in r:
                keep.append(a)
        if not core(frozenset(keep)) and core(st.d[k]):
            return None
        st.d[k] = frozenset(keep)
        return st

    def isinst(self, a, tv):
        """possible answers of isinstance(a, T)"""
        res = set()
        types = []
        for t in core(tv):
            if t[0] == 't':
                for i in t[1]:
                    types.extend(core(i))
            else:
                types.append(t)
        if any(t[0] == 'c' for t in types) and all(t[0] == 'c' for t in types):
            return {True, False}
        unknown = a[0] in ('u', 'E')
        if unknown:
            return {True, False}
        yes = False
        maybe = False
        for t in types:
            if t[0] in ('u', 'E'):
                d = t[1] if t[0] == 'E' else ''
                if a[0] == 'o' and self.objs[a[1]].kind in ('defaultdict', 'Counter', 'deque') \
                        and d.split('.')[-1] == self.objs[a[1]].kind:
                    yes = True
                elif a[0] == 'o' and self.objs[a[1]].kind in ('list', 'dict', 'set') or a[0] in 'cktT':
                    pass
                else:
                    maybe = True
            elif t[0] == 'C':
                if a[0] == 'o' and self.objs[a[1]].kind == 'inst':
                    if t[1] in self.mro(self.objs[a[1]].cls):
                        yes = True
            elif t[0] == 'N':
                if a[0] == 't' and a[2] == t[1]:
                    yes = True
            elif t[0] == 'B':
                n = t[1]
                k = _kind(self, a)
                if n == 'object' or n == k or k == 'bool' and n == 'int':
                    yes = True
                elif n == 'tuple' and k in ('t', 'T'):
                    yes = True
                elif n == 'dict' and k in ('defaultdict', 'Counter'):
                    yes = True
                elif n == 'type' and k in ('C', 'B', 'N'):
                    yes = True
        if yes:
            res.add(True)
        if maybe:
            res |= {True, False}
        if not yes:
            res.add(False)
        return res

    # --------------------------------------------------------- iteration
    def iterate(self, av, node):
        out = BOT
        bad, good = False, False
        if self.st is None:
            return BOT
        for a in av:
            t = a[0]
            if t == '#':
                out = union(out, frozenset([a]))
                continue
            if t == 'o':
                o = self.objs[a[1]]
                good = True
                if o.kind in ('dict', 'defaultdict', 'Counter'):
                    out = union(out, self.st.get(('k', a[1])))
                elif o.kind == 'inst':
                    m = self.getattr_atom(a, '__iter__', node, quiet=True)
                    if m:
                        r = self.call(m, [], {}, node)
                        if self.st is None:
                            return BOT
                        out = union(out, self.iterate(r, node))
                    else:
                        m = self.getattr_atom(a, '__getitem__', node, quiet=True)
                        if not m:
                            self.ev('not_iterable', node, what=o.cls)
                            bad = True
                elif o.kind == 'file':
                    out = union(out, STR)
                else:
                    out = union(out, self.st.get(('e', a[1])))
                h = self.hooks.get('iterate')
                if h:
                    out = h(self, a, out, node)
            elif t == 't':
                good = True
                for i in a[1]:
                    out = union(out, i)
            elif t == 'T':
                good = True
                out = union(out, a[1])
            elif t == 'c':
                if isinstance(a[2], str):
                    good = True
                    if len(a[2]) <= 12:
                        for ch in a[2]:
                            out = union(out, const(ch))
                    else:
                        out = union(out, STR)
                else:
                    bad = True
            elif t == 'k':
                if a[1] == 'str':
                    good = True
                    out = union(out, STR)
                else:
                    bad = True
            elif t in ('u', 'E'):
                good = True
                out = union(out, frozenset([('u', a[1] if t == 'u' else '')]))
            elif soft(a):
                good = True
                out = union(out, frozenset([('u', a[1][1] if a[1][0] == 'u' else '')]))
            else:
                bad = True
        if bad and not good:
            self.ev('not_iterable', node, what='value')
            self.st = None
            return BOT
        return out

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, e):
        el = self.comp(e, lambda: self.eval(e.elt))
        return frozenset([self.new_list(e, el)]) if self.st is not None else BOT

    def e_SetComp(self, e):
        el = self.comp(e, lambda: self.eval(e.elt))
        return frozenset([self.alloc('set', e, e=el)]) if self.st is not None else BOT

    def e_GeneratorExp(self, e):
        el = self.comp(e, lambda: self.eval(e.elt))
        return frozenset([self.alloc('gen', e, e=el)]) if self.st is not None else BOT

    def e_DictComp(self, e):
        box = [BOT]

        def both():
            k = self.eval(e.key)
            if self.st is None:
                return BOT
            box[0] = union(box[0], k)
            return self.eval(e.value)
        v = self.comp(e, both)
        if self.st is None:
            return BOT
        return frozenset([self.alloc('dict', e, e=v, k=box[0])])

    def comp(self, e, fn):
        fr = self.stack[-1]
        env = ('comp', e._nid, fr.fid)
        fr.scopes.insert(0, env)
        out = [BOT]

        def gen(i):
            if i == len(e.generators):
                v = fn()
                if self.st is not None:
                    out[0] = union(out[0], v)
                return
            g = e.generators[i]
            itv = self.eval(g.iter)
            if self.st is None:
                return
            self.use(itv, g.iter, 'iter')
            el = self.iterate(itv, g.iter)
            if self.st is None or not core(el):
                return
            before = self.st
            self.st = before.copy()
            self.assign(g.target, el, comp=True)
            for c in g.ifs:
                if self.st is None:
                    break
                t, f = self.branch(c)
                before = join(before, f)
                self.st = t
                self.hook('enter', c, True)
            if self.st is not None:
                gen(i + 1)
            for c in g.ifs:
                self.hook('leave', c, True)
            self.st = join(before, self.st)
        gen(0)
        fr.scopes.pop(0)
        if self.st is not None:
            # effects may feed back into later iterations: run once more when
            # the state changed
            self.drop_env(env, e)
        return out[0]

    def drop_env(self, env, e):
        if not self._comp_has_lambda(env[1]):
            d = self.st.d
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        d.pop(('l', env, n.id))

    def _comp_has_lambda(self, nid):
        if not hasattr(self, '_clam'):
            self._clam = {}
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        self._clam[n._nid] = any(isinstance(x, ast.Lambda) for x in ast.walk(n))
        return self._clam.get(nid, True)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        if self.st is not None:
            fr = self.stack[-1]
            fr.yields = union(fr.yields, v)
            self.hook('yield', e, v)
        return NONE | ANY

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        if self.st is not None:
            fr = self.stack[-1]
            fr.yields = union(fr.yields, self.iterate(v, e))
        return ANY

    # --------------------------------------------------------- subscripts
    def e_Slice(self, e):
        tg = BOT
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                v = self.eval(x)
                if self.st is None:
                    return BOT
                self.use(v, e, 'slice')
                tg |= tags(v)
        return frozenset([('k', 'slice')]) | tg

    def e_Subscript(self, e):
        b = self.eval(e.value)
        if self.st is None:
            return BOT
        sl = e.slice
        i = self.eval(sl)
        if self.st is None:
            return BOT
        self.use(i, e, 'index')
        self.use(b, e, 'item')
        r = self.load_item(b, i, e, isinstance(sl, ast.Slice), sl)
        h = self.hooks.get('subscript')
        if h and self.st is not None:
            r = h(self, e, b, i, r)
        return r

    def load_item(self, b, i, e, is_slice=False, sl=None):
        out = tags(b)
        if is_slice:
            out |= tags(i)
        ci = core(i)
        bad = False
        cb = core(b)
        for a in cb:
            t = a[0]
            if t == 'o':
                o = self.objs[a[1]]
                if o.kind == 'inst':
                    m = self.getattr_atom(a, '__getitem__', e, quiet=True)
                    if m:
                        out = union(out, self.call(m, [i], {}, e))
                        if self.st is None:
                            return BOT
                    else:
                        self.ev('not_subscriptable', e, what=o.cls)
                        bad = True
                    continue
                if is_slice and o.kind in ('list', 'deque', 'gen', 'view'):
                    x = self.st.d.get(('x', a[1]))
                    nx = None
                    if x is not None and isinstance(sl, ast.Slice):
                        nx = _slice_const(self, x, sl)
                    out = union(out, frozenset([self.new_list(
                        e, self.st.get(('e', a[1])), extra='slice', x=nx)]))
                    continue
                if o.kind == 'list' and ('x', a[1]) in self.st.d and len(ci) == 1:
                    c = next(iter(ci))
                    x = self.st.d[('x', a[1])]
                    if c[0] == 'c' and isinstance(c[2], int) and -len(x) <= c[2] < len(x):
                        out = union(out, x[c[2]])
                        continue
                if o.kind == 'defaultdict' and not present(e):
                    self.mutate(a[1], e, 'missing key of a defaultdict is created')
                    self.add_k(a[1], i)
                    fac = self.st.get(('a', a[1], '#factory'))
                    if core(fac):
                        r = self.call(fac, [], {}, self.objs[a[1]].node if hasattr(
                            self.objs[a[1]].node, '_nid') else e)
                        if self.st is None:
                            return BOT
                        self.add_e(a[1], r)
                if o.kind in ('set', 'gen', 'regex', 'file'):
                    self.ev('not_subscriptable', e, what=o.kind)
                    bad = True
                    continue
                if o.kind == 'match':
                    out |= STR
                    continue
                out = union(out, self.st.get(('e', a[1])))
                self.hook('load_item', e, a, i)
            elif t == 't':
                if is_slice:
                    r = _slice_const(self, a[1], sl) if isinstance(sl, ast.Slice) else None
                    if r is not None:
                        out = union(out, frozenset([('t', tuple(r), None)]))
                    else:
                        out = union(out, frozenset([('T', union(BOT, *a[1]))]))
                    continue
                hit = False
                for c in ci:
                    if c[0] == 'c' and isinstance(c[2], int):
                        if -len(a[1]) <= c[2] < len(a[1]):
                            out = union(out, a[1][c[2]])
                            hit = True
                        else:
                            self.ev('tuple_index', e, n=len(a[1]), i=c[2])
                    else:
                        hit = True
                        out = union(out, *a[1]) if a[1] else out
                if not hit and ci:
                    bad = True
            elif t == 'T':
                out = union(out, frozenset([a]) if is_slice else a[1])
            elif t == 'c' and isinstance(a[2], str):
                done = False
                if isinstance(sl, ast.Slice):
                    lo, hi = _cint(self, sl.lower), _cint(self, sl.upper)
                    if lo != 'x' and hi != 'x' and sl.step is None:
                        out = union(out, const(a[2][lo:hi]))
                        done = True
                elif len(ci) == 1:
                    c = next(iter(ci))
                    if c[0] == 'c' and isinstance(c[2], int) and -len(a[2]) <= c[2] < len(a[2]):
                        out = union(out, const(a[2][c[2]]))
                        done = True
                if not done:
                    out = union(out, STR)
            elif t == 'k' and a[1] in ('str', 'bytes'):
                out = union(out, STR)
            elif t in ('u', 'E'):
                lab = a[1] if t == 'u' else ''
                if t == 'E' and a[1] == 'sys.version_info':
                    out |= const(3)
                else:
                    out = union(out, frozenset([('u', lab)]))
            elif soft(a):
                out = union(out, frozenset([('u', a[1][1] if a[1][0] == 'u' else '')]))
            elif t == 'c' and a[2] is None:
                bad = True
                self.ev('none_subscript', e)
            else:
                bad = True
                self.ev('not_subscriptable', e, what=str(a[0:2]))
        if bad and not core(out):
            self.st = None
            return BOT
        return out

    # --------------------------------------------------------- attributes
    def mro(self, key):
        out = []
        todo = [key]
        while todo:
            k = todo.pop(0)
            if k in out or k not in self.classes:
                continue
            out.append(k)
            for b in self.classes[k].bases:
                if b[0] == 'C':
                    todo.append(b[1])
        return out

    def class_attr(self, key, name):
        for k in self.mro(key):
            v = self.st.d.get(('ca', k, name))
            if v:
                return v
        return BOT

    def ext_bases(self, key):
        for k in self.mro(key):
            for b in self.classes[k].bases:
                if b[0] != 'C' and b != ('B', 'object'):
                    return True
        return False

    def e_Attribute(self, e):
        b = self.eval(e.value)
        if self.st is None:
            return BOT
        out = tags(b)
        any_ok = False
        cb = core(b)
        nothing = ('c', 'NoneType', None)
        if nothing in cb and len(cb) > 1:
            # not certain to be None here: assume the caller knows
            self.ev('maybe_none_attr', e, name=e.attr)
            cb = cb - {nothing}
        for a in cb:
            v = self.getattr_atom(a, e.attr, e)
            if self.st is None:
                return BOT
            if v is not None:
                any_ok = True
                out = union(out, v)
        if not any_ok and core(b):
            self.st = None
            return BOT
        if not core(b):
            return out
        return out

    def getattr_atom(self, a, name, node, quiet=False):
        """value of a.name; None when it cannot exist"""
        t = a[0]
        if t == 'o':
            o = self.objs[a[1]]
            if o.kind == 'inst':
                v = self.st.d.get(('a', a[1], name))
                ca = self.class_attr(o.cls, name)
                prop = next((x for x in ca if x[0] == 'property'), None)
                if prop is not None:
                    return self.call_user(prop[1], [frozenset([a])], {}, node)
                if v is not None:
                    return v
                if ca:
                    out = BOT
                    for x in ca:
                        if x[0] == 'f':
                            out |= frozenset([('m', x, a)])
                        elif x[0] == 'staticmethod':
                            out |= x[1]
                        elif x[0] == 'classmethod':
                            for y in x[1]:
                                out |= frozenset([('m', y, ('C', o.cls))])
                        else:
                            out |= frozenset([x])
                    return out
                if name == '__class__':
                    return frozenset([('C', o.cls)])
                if name in ('__dict__', '__doc__', '__module__'):
                    return ANY
                if quiet:
                    return None
                if self.ext_bases(o.cls):
                    return ANY
                self.ev('unresolved_attr', node, name=name, cls=o.cls)
                return None
            if quiet:
                return None
            return self.builtin_attr(a, o.kind, name, node)
        if t == 'u':
            return frozenset([('b', a, name)])
        if t == 'k' or t == 'c':
            ty = a[1]
            if quiet:
                return None
            return self.builtin_attr(a, ty, name, node)
        if t == 't':
            if a[2] is not None:
                fields = self.nt_fields[a[2]]
                if name in fields:
                    return a[1][fields.index(name)]
                if name in ('_replace', '_asdict', '_fields'):
                    return frozenset([('b', a, name)])
            if quiet:
                return None
            if name in ('count', 'index'):
                return frozenset([('b', a, name)])
            self.ev('unresolved_attr', node, name=name, cls=a[2] or 'tuple')
            return None
        if t == 'T':
            if name in ('count', 'index'):
                return frozenset([('b', a, name)])
            self.ev('unresolved_attr', node, name=name, cls='tuple')
            return None
        if t == 'M':
            v = self.st.d.get(('g', a[1], name))
            if v is not None:
                return v
            if self.import_module(a[1] + '.' + name):
                return frozenset([('M', a[1] + '.' + name)])
            self.ev('unresolved_attr', node, name=name, cls='module ' + a[1])
            return None
        if t == 'E':
            return self.ext_attr(a[1], name)
        if t == 'C':
            v = self.class_attr(a[1], name)
            out = BOT
            for x in v:
                if x[0] == 'staticmethod':
                    out |= x[1]
                elif x[0] == 'classmethod':
                    for y in x[1]:
                        out |= frozenset([('m', y, a)])
                else:
                    out |= frozenset([x])
            if out:
                return out
            if name == '__name__':
                return STR
            if quiet:
                return None
            if self.ext_bases(a[1]):
                return ANY
            self.ev('unresolved_attr', node, name=name, cls=a[1])
            return None
        if t == 'N':
            if name == '_fields':
                return frozenset([('t', tuple(const(f) for f in a[2]), None)])
            if name == '_make':
                return frozenset([('b', a, name)])
            if name == '__name__':
                return STR
            return ANY
        if t == 'B':
            return frozenset([('b', a, name)])
        if t == 'f' or t == 'm':
            if name in ('__name__', '__doc__', '__qualname__'):
                return STR
            return ANY
        if t == 'b':
            return frozenset([('u', a[1][1])]) if a[1][0] == 'u' else ANY
        if quiet:
            return None
        return ANY

    # --------------------------------------------------------- calls
    def e_Call(self, e):
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            fv = self.super_attr(e.func.attr, e)
        else:
            fv = self.eval(e.func)
        if self.st is None:
            return BOT
        args, kwargs, star, dstar = [], {}, None, None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                if self.st is None:
                    return BOT
                cv = core(v)
                if len(cv) == 1 and next(iter(cv))[0] == 't':
                    args.extend(next(iter(cv))[1])
                else:
                    el = self.iterate(v, x)
                    star = union(star or BOT, el)
            else:
                v = self.eval(x)
                if star is not None:
                    star = union(star, v)
                else:
                    args.append(v)
            if self.st is None:
                return BOT
        for kw in e.keywords:
            v = self.eval(kw.value)
            if self.st is None:
                return BOT
            if kw.arg is None:
                vals = BOT
                for a in v:
                    if a[0] == 'o':
                        vals = union(vals, self.st.get(('e', a[1])))
                    elif a[0] == 'u':
                        vals = union(vals, frozenset([a]))
                dstar = union(dstar or BOT, vals)
            else:
                kwargs[kw.arg] = v
        r = self.call(fv, args, kwargs, e, star, dstar)
        if self.st is None:
            return BOT
        tg = tags(fv)
        if tg:
            self.use(tg, e, 'call')
            if any(a[0] in 'buE' for a in fv):
                r = r | tg
        h = self.hooks.get('result')
        if h:
            r = h(self, e, fv, args, r)
        return r

    def super_attr(self, name, node):
        fr = self.stack[-1]
        f = fr.f
        while f.cls is None and f.penv:
            break
        if f.cls is None:
            return ANY
        pn = f.node.args.args[0].arg if f.node.args.args else None
        selfv = self.st.get(('l', fr.fid, pn)) if pn else BOT
        mro = self.mro(f.cls)
        for k in mro[1:]:
            v = self.st.d.get(('ca', k, name))
            if v:
                out = BOT
                for x in v:
                    for s in core(selfv):
                        out |= frozenset([('m', x, s)])
                return out
        return ANY

    def call(self, fv, args, kwargs, node, star=None, dstar=None):
        out = BOT
        cf = core(fv)
        if not cf:
            return BOT
        base = self.st
        acc = None
        ok = False
        many = len(cf) > 1
        for a in cf:
            self.st = base.copy() if many else base
            r = self.call_atom(a, args, kwargs, node, star, dstar)
            if self.st is not None:
                ok = True
                out = union(out, r)
                acc = join(acc, self.st)
        self.st = acc
        return out

    def call_atom(self, a, args, kwargs, node, star, dstar):
        t = a[0]
        if t == 'f':
            return self.call_user(frozenset([a]), args, kwargs, node, star, dstar)
        if t == 'm':
            return self.call_user(frozenset([a[1]]), [frozenset([a[2]])] + list(args), kwargs,
                                  node, star, dstar)
        if t == 'C':
            return self.instantiate(a[1], args, kwargs, node, star, dstar)
        if t == 'N':
            return self.nt_new(a, args, kwargs, node, star, dstar)
        if t == 'B':
            return self.call_builtin(a[1], args, kwargs, node, star, dstar)
        if t == 'b':
            return self.call_method(a[1], a[2], args, kwargs, node, star, dstar)
        if t == 'E':
            return self.call_ext(a[1], args, kwargs, node, star, dstar)
        if t == 'o':
            o = self.objs[a[1]]
            if o.kind == 'inst':
                m = self.getattr_atom(a, '__call__', node, quiet=True)
                if m:
                    return self.call(m, args, kwargs, node, star, dstar)
            self.ev('not_callable', node, what=o.cls or o.kind)
            self.st = None
            return BOT
        if t == 'u':
            for v in list(args) + list(kwargs.values()):
                self.use(v, node, 'unknown call')
            return self.unknown_call(a, args, node)
        self.ev('not_callable', node, what=str(a[:2]))
        self.st = None
        return BOT

    def unknown_call(self, a, args, node):
        return ANY

    def instantiate(self, key, args, kwargs, node, star=None, dstar=None):
        for k in self.mro(key):
            for b in self.classes[k].bases:
                if b[0] == 'N':
                    return self.nt_new(b, args, kwargs, node, star, dstar)
        o = self.alloc('inst', node, cls=key)
        init = self.class_attr(key, '__init__')
        if init:
            self.call_user(init, [frozenset([o])] + list(args), kwargs, node, star, dstar)
            if self.st is None:
                return BOT
        elif self.ext_bases(key):
            for v in args:
                self.use(v, node, 'ext base')
        elif args or kwargs:
            self.ev('bad_call', node, callee=key, why='takes no arguments')
            self.st = None
            return BOT
        return frozenset([o])

    def nt_new(self, a, args, kwargs, node, star, dstar):
        fields = a[2]
        vals = list(args)
        if star is not None or dstar is not None:
            rest = len(fields) - len(vals) - len(kwargs)
            fill = union(star or BOT, dstar or BOT)
            byname = {f: kwargs.get(f, fill) for f in fields[len(vals):]}
            vals += [byname[f] for f in fields[len(vals):]]
        else:
            names = list(fields[len(vals):])
            bad = len(vals) > len(fields) or set(kwargs) != set(names)
            if bad:
                self.ev('bad_call', node, callee=a[1], why='namedtuple fields')
                self.st = None
                return BOT
            vals += [kwargs[n] for n in names]
        self.hook('nt_new', node, a, vals)
        return I.norm(frozenset([('t', tuple(vals), a[1])]))

    def bind_args(self, f, args, kwargs, node, star, dstar):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwo = [p.arg for p in a.kwonlyargs]
        out = {}
        args = list(args)
        n = len(args)
        if n > len(pos) and not a.vararg:
            return None, 'takes %d positional arguments but %d were given' % (len(pos), n)
        for p, v in zip(pos, args):
            out[p] = v
        extra = args[len(pos):]
        if a.vararg:
            if star is None:
                out[a.vararg.arg] = frozenset([('t', tuple(extra), None)])
            else:
                out[a.vararg.arg] = frozenset([('T', union(star, *extra))])
        extrakw = BOT
        for k, v in kwargs.items():
            if k in out and k in pos:
                return None, 'got multiple values for argument %s' % k
            if k in pos or k in kwo:
                out[k] = v
            elif a.kwarg:
                extrakw = union(extrakw, v)
            else:
                return None, 'unexpected keyword argument %s' % k
        fill = None
        if star is not None or dstar is not None:
            fill = union(star or BOT, dstar or BOT)
        for p in pos + kwo:
            if p in out:
                continue
            dv = f.defaults.get(p, f.kwdefaults.get(p))
            if fill is not None:
                out[p] = union(fill, dv or BOT)
            elif dv is not None:
                out[p] = dv
            else:
                return None, 'missing argument %s' % p
        if a.kwarg:
            out[a.kwarg.arg] = ('**', union(extrakw, dstar or BOT))
        return out, None

    def call_user(self, fv, args, kwargs, node, star=None, dstar=None):
        fa = next(iter(core(fv)))
        if len(core(fv)) > 1 or fa[0] != 'f':
            return self.call(fv, args, kwargs, node, star, dstar)
        f = self.funcs[fa[1]]
        self.reached_funcs.add(f.node._nid)
        self.calls_resolved.add((node._nid if hasattr(node, '_nid') else -1, f.node._nid))
        bound, why = self.bind_args(f, args, kwargs, node, star, dstar)
        if bound is None:
            self.ev('bad_call', node, callee=f.qual, why=why)
            self.st = None
            return BOT
        nrec = sum(1 for x in self.stack if x.f is f)
        if nrec >= 2 or len(self.stack) > self.MAX_DEPTH:
            prev = self.rec_ret.get(f.fid, BOT)
            if f.isgen:
                return frozenset([self.alloc('gen', f.node, extra='rec', e=prev)])
            return prev if core(prev) else ANY
        nid = getattr(node, '_nid', 0)
        ctx = (self.stack[-1].ctx if self.stack else ()) + (nid,)
        fid = ('f', f.fid, ctx)
        fr = Frame(f, fid, ctx)
        d = self.st.d
        for p, v in bound.items():
            if isinstance(v, tuple):
                self.stack.append(fr)
                o = self.alloc('dict', f.node, extra='kwargs', e=v[1], k=STR)
                self.stack.pop()
                v = frozenset([o])
            d[('l', fid, p)] = v
        self.hook('call', node, f, bound, fr)
        self.stack.append(fr)
        if isinstance(f.node, ast.Lambda):
            v = self.eval(f.node.body)
            fr.ret = v
            fr.ret_state = self.st
        else:
            loops, self.loops = getattr(self, 'loops', []), []
            self.exec_block(f.node.body)
            self.loops = loops
            if self.st is not None:
                fr.ret = union(fr.ret, NONE) if not f.isgen else fr.ret
                fr.ret_state = join(fr.ret_state, self.st)
                self.hook('fallthrough', f.node, fr)
        self.stack.pop()
        if f.isgen:
            st = fr.ret_state
            self.st = st if st is not None else self.st
            if self.st is None:
                return BOT
            self.rec_ret[f.fid] = union(self.rec_ret.get(f.fid, BOT), fr.yields)
            out = frozenset([self.alloc('gen', f.node, extra=nid, e=fr.yields)])
        else:
            self.st = fr.ret_state
            out = fr.ret
            self.rec_ret[f.fid] = union(self.rec_ret.get(f.fid, BOT), out)
        if self.st is not None and not f.hasnested:
            d = self.st.d
            for n in f.locals:
                d.pop(('l', fid, n), None)
        self.hook('returned', node, f, bound, out)
        return out


def _implies(test, want, truth=True):
    """does the test, being `truth`, say that the key is in the container?"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return _implies(test.operand, want, not truth)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == truth:
            return any(_implies(v, want, truth) for v in test.values)
        return all(_implies(v, want, truth) for v in test.values)
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = test.ops[0]
        if isinstance(op, ast.In) and truth or isinstance(op, ast.NotIn) and not truth:
            return (ast.dump(test.left), ast.dump(test.comparators[0])) == want
    return False


def _leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def present(e):
    """d[k] where k is known, from the tests around it, to be a key of d"""
    if not isinstance(e, ast.Subscript):
        return False
    got = getattr(e, '_present', None)
    if got is not None:
        return got
    want = (ast.dump(e.slice), ast.dump(e.value).replace('Store()', 'Load()'))
    n, res = e, False
    while not res:
        p = getattr(n, '_parent', None)
        if p is None or isinstance(p, (ast.FunctionDef, ast.Lambda)) and n is not e and isinstance(p, ast.Lambda):
            break
        if isinstance(p, (ast.If, ast.While)) and n in p.body and _implies(p.test, want):
            res = True
        elif isinstance(p, ast.If) and n in p.orelse and _implies(p.test, want, False):
            res = True
        elif isinstance(p, ast.IfExp) and (n is p.body and _implies(p.test, want) or
                                           n is p.orelse and _implies(p.test, want, False)):
            res = True
        elif isinstance(p, ast.BoolOp) and n in p.values:
            before = p.values[:p.values.index(n)]
            res = any(_implies(v, want, isinstance(p.op, ast.And)) for v in before)
        elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            res = any(_implies(v, want) for g in p.generators for v in g.ifs) or any(
                _iterates(g.target, g.iter, want) for g in p.generators)
        elif isinstance(p, ast.For) and n in p.body and _iterates(p.target, p.iter, want):
            res = True
        if not res:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    for s in b[:b.index(n)]:
                        if isinstance(s, ast.If) and not s.orelse and _leaves(s.body) \
                                and _implies(s.test, want, False):
                            res = True
        if isinstance(p, ast.FunctionDef):
            break
        n = p
    e._present = res
    return res


def _iterates(target, it, want):
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys'):
        if it.func.attr == 'items' and isinstance(target, ast.Tuple) and target.elts:
            target = target.elts[0]
        it = it.func.value
    return ast.dump(it) == want[1] and ast.dump(target).replace('Store()', 'Load()') == want[0]


def soft(a):
    """an attribute of something unknown is itself unknown"""
    return a[0] == 'b' and (a[1][0] in ('u', 'E') or soft(a[1]))


def _kind(an, a):
    t = a[0]
    if soft(a):
        return 'u'
    if t == 'c' or t == 'k':
        return a[1]
    if t == 'o':
        o = an.objs[a[1]]
        return o.kind if o.kind != 'inst' else ('inst', o.cls)
    return t


def _cint(an, e):
    if e is None:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value
    save = an.st
    an.st = save.copy()
    v = core(an.eval(e))
    an.st = save
    if len(v) == 1:
        a = next(iter(v))
        if a[0] == 'c' and (isinstance(a[2], int) or a[2] is None):
            return a[2]
    return 'x'


def _slice_const(an, x, sl):
    lo, hi, stp = _cint(an, sl.lower), _cint(an, sl.upper), _cint(an, sl.step)
    if 'x' in (lo, hi, stp):
        return None
    return list(x[lo:hi:stp])
