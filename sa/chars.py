"""Abstract values of terms over one character whose code is a linear form of bounded symbols.

Values: ('lin', k, ((sym, coef)..)) integers, ('char', lin) one-character strings, ('s', str), ('list', (v..)),
('tuple', (v..)), ('dict', ((v, v)..)), ('at', list, lin) an element of a constant list, ('b', bool), ('none',).
A condition that is true on one part of a symbol's range and false on the rest raises Split; the caller then
evaluates both parts, so that every result holds for a whole box of characters."""


class Unknown(Exception):
    pass


class Split(Exception):
    def __init__(self, sym, at):
        self.sym, self.at = sym, at          # lo..at-1 and at..hi


def K(n):
    return ('lin', n, ())


def sym(s):
    return ('lin', 0, ((s, 1),))


def plus(a, b, m=1):
    d = dict(a[2])
    for s, k in b[2]:
        d[s] = d.get(s, 0) + m * k
    return ('lin', a[1] + m * b[1], tuple(sorted((s, k) for s, k in d.items() if k)))


def times(a, n):
    return ('lin', a[1] * n, tuple((s, k * n) for s, k in a[2] if n))


class Eval:
    def __init__(self, bounds, params, attrs=None, loops=None, hook=None):
        self.bounds = bounds        # symbol -> (lo, hi)
        self.params = params        # parameter name -> value
        self.attrs = attrs or {}    # attribute of self -> term
        self.loops = loops or {}    # loop -> value of its element
        self.hook = hook
        self.busy = 0
        self.memo = {}

    def range(self, a):
        lo = hi = a[1]
        for s, k in a[2]:
            l, h = self.bounds[s]
            lo += k * (l if k > 0 else h)
            hi += k * (h if k > 0 else l)
        return lo, hi

    def const(self, a):
        lo, hi = self.range(a)
        return lo if lo == hi else None

    # ---- order of two integers
    def less(self, a, b):
        """a < b"""
        d = plus(a, b, -1)
        lo, hi = self.range(d)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        free = [(s, k) for s, k in d[2] if self.bounds[s][0] != self.bounds[s][1]]
        if len(free) == 1:
            s, k = free[0]
            base = d[1] + sum(kk * self.bounds[ss][0] for ss, kk in d[2] if ss != s)
            # base + k*s < 0
            raise Split(s, -(base // k) if k > 0 else base // -k + 1)
        self.halve(free)

    def same(self, a, b):
        d = plus(a, b, -1)
        lo, hi = self.range(d)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        free = [(s, k) for s, k in d[2] if self.bounds[s][0] != self.bounds[s][1]]
        if len(free) == 1:
            s, k = free[0]
            base = d[1] + sum(kk * self.bounds[ss][0] for ss, kk in d[2] if ss != s)
            if base % k:
                return False
            v = -base // k
            l, h = self.bounds[s]
            if l < v:
                raise Split(s, v)
            raise Split(s, v + 1)
        self.halve(free)

    def halve(self, free):
        s, k = max(free, key=lambda x: abs(x[1]) * (self.bounds[x[0]][1] - self.bounds[x[0]][0]))
        lo, hi = self.bounds[s]
        raise Split(s, (lo + hi) // 2 + 1)

    def divmod(self, a, n):
        if n <= 0:
            raise Unknown('divisor')
        q = ('lin', a[1] // n, tuple((s, k // n) for s, k in a[2] if k // n))
        r = plus(a, times(q, n), -1)
        lo, hi = self.range(r)
        if lo // n == hi // n:
            d = lo // n
            return plus(q, K(d)), plus(r, K(d * n), -1)
        raise Unknown('division of %s by %d' % (a, n))

    # ---- strings
    def code(self, v):
        """the code of a one-character string"""
        if v[0] == 'char':
            return v[1]
        if v[0] == 's' and len(v[1]) == 1:
            return K(ord(v[1]))
        if v[0] == 'at':
            n = self.const(v[2])
            if n is not None:
                return self.code(self.pick(v[1], n))
            lo, hi = self.range(v[2])
            xs = [self.code(self.pick(v[1], i)) for i in range(lo, hi + 1)]
            if all(not x[2] for x in xs) and all(x[1] - xs[0][1] == i for i, x in enumerate(xs)):
                return plus(v[2], K(xs[0][1] - lo))
        raise Unknown('code of %s' % v[0])

    def pick(self, l, n):
        if not -len(l) <= n < len(l):
            raise Unknown('index outside the table')
        return l[n]

    def equal(self, a, b):
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == 'at':
                lo, hi = self.range(x[2])
                if lo < 0 or hi >= len(x[1]):
                    raise Unknown('index outside the table')
                if y[0] == 's':
                    hit = [i for i in range(lo, hi + 1) if x[1][i] == y]
                    if not hit:
                        return False
                    if len(hit) == hi - lo + 1:
                        return True
                    return self.same(x[2], K(hit[0])) if len(hit) == 1 else self.unknown('several equal entries')
                if y[0] == 'at' and x[1] == y[1] and len(set(x[1])) == len(x[1]):
                    return self.same(x[2], y[2])
        t = {a[0], b[0]}
        if t == {'lin'}:
            return self.same(a, b)
        if t <= {'char', 's'}:
            if any(x[0] == 's' and len(x[1]) != 1 for x in (a, b)):
                return False
            return self.same(self.code(a), self.code(b))
        if t == {'char', 'at'}:
            return self.same(self.code(a), self.code(b))
        if 'none' in t or t in ({'lin', 's'}, {'lin', 'char'}, {'tuple', 's'}, {'tuple', 'lin'}):
            return False
        if t == {'tuple'} or t == {'list'}:
            if len(a[1]) != len(b[1]):
                return False
            return all(self.equal(x, y) for x, y in zip(a[1], b[1]))
        raise Unknown('equality of %s and %s' % (a[0], b[0]))

    def unknown(self, why):
        raise Unknown(why)

    def truth(self, v):
        if v[0] == 'b':
            return v[1]
        if v[0] == 'none':
            return False
        if v[0] in ('s', 'list', 'tuple', 'dict'):
            return bool(v[1])
        if v[0] == 'char':
            return True
        if v[0] == 'lin':
            return not self.same(v, K(0))
        if v[0] == 'at':
            return True if all(x[0] == 's' and x[1] for x in v[1]) else self.unknown('truth of a table entry')
        raise Unknown('truth of %s' % v[0])

    # ---- terms
    def ev(self, t):
        self.busy += 1
        if self.busy > 400:
            raise Unknown('too deep')
        try:
            if self.hook:
                v = self.hook(self, t)
                if v is not None:
                    return v
            f = getattr(self, 't_' + t[0].replace('-', '_'), None)
            if f is None:
                raise Unknown(t[0])
            if t[0] not in ('cmp', 'and', 'or', 'ite', 'item'):
                return f(t)
            k = (id(t), tuple(self.loops.items()))
            v = self.memo.get(k)
            if v is None:
                v = self.memo[k] = (f(t), t)       # t is kept so that its id stays taken
            return v[0]
        finally:
            self.busy -= 1

    def lift(self, v):
        if v is None:
            return ('none',)
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, int):
            return K(v)
        if isinstance(v, str):
            return ('s', v)
        raise Unknown('constant')

    def t_c(self, t):
        return self.lift(t[1])

    def t_p(self, t):
        if t[1] in self.params:
            return self.params[t[1]]
        raise Unknown('parameter ' + t[1])

    def t_attr(self, t):
        if t[1] == ('p', 'self') and t[2] in self.attrs:
            return self.ev(self.attrs[t[2]])
        raise Unknown('attribute ' + str(t[2]))

    def t_lin(self, t):
        out = K(t[1]) if isinstance(t[1], int) else self.unknown('float')
        for x, k in t[2]:
            v = self.ev(x)
            if v[0] == 's' and k == 1:
                raise Unknown('string sum')
            if v[0] != 'lin':
                raise Unknown('sum of %s' % v[0])
            out = plus(out, times(v, k))
        return out

    def t_bin(self, t):
        a, b = self.ev(t[2]), self.ev(t[3])
        if t[1] in ('//', '%') and a[0] == b[0] == 'lin':
            n = self.const(b)
            if n is None:
                raise Unknown('divisor')
            q, r = self.divmod(a, n)
            return q if t[1] == '//' else r
        if t[1] == '+' and a[0] == b[0] and a[0] in ('list', 'tuple'):
            return (a[0], a[1] + b[1])
        if t[1] == '+' and a[0] == b[0] == 's':
            return ('s', a[1] + b[1])
        if t[1] == '*' and a[0] == b[0] == 'lin':
            for x, y in ((a, b), (b, a)):
                n = self.const(y)
                if n is not None:
                    return times(x, n)
        if t[1] == '-' and a[0] == b[0] == 'lin':
            return plus(a, b, -1)
        raise Unknown('operator ' + str(t[1]))

    def t_mul(self, t):
        return self.t_bin(('bin', '*') + t[1:3])

    def t_list(self, t):
        return ('list', tuple(self.ev(x) for x in t[1]))

    def t_tuple(self, t):
        return ('tuple', tuple(self.ev(x) for x in t[1]))

    def t_listof(self, t):
        v = self.ev(t[1])
        if v[0] in ('list', 'tuple'):
            return ('list', v[1])
        if v[0] == 's':
            return ('list', tuple(('s', x) for x in v[1]))
        raise Unknown('list of ' + v[0])

    def t_tupleof(self, t):
        return ('tuple', self.t_listof(t)[1])

    def t_dict(self, t):
        return ('dict', tuple((self.ev(a), self.ev(b)) for a, b in t[1]))

    def t_not(self, t):
        return ('b', not self.truth(self.ev(t[1])))

    def t_and(self, t):
        for x in t[1]:
            if not self.truth(self.ev(x)):
                return ('b', False)
        return ('b', True)

    def t_or(self, t):
        for x in t[1]:
            if self.truth(self.ev(x)):
                return ('b', True)
        return ('b', False)

    def t_ite(self, t):
        return self.ev(t[2] if self.truth(self.ev(t[1])) else t[3])

    def t_cmp(self, t):
        op, a, b = t[1], self.ev(t[2]), self.ev(t[3])
        if op in ('==', 'is'):
            return ('b', self.equal(a, b))
        if op in ('!=', 'isnot'):
            return ('b', not self.equal(a, b))
        if op in ('in', 'notin'):
            if b[0] == 's':
                xs = [('s', x) for x in b[1]]
                if a[0] == 's' and len(a[1]) != 1:
                    return ('b', (a[1] in b[1]) == (op == 'in'))
            elif b[0] in ('list', 'tuple', 'setof'):
                xs = b[1]
            elif b[0] == 'dict':
                xs = [k for k, _ in b[1]]
            elif b[0] == 'range':
                hit = not self.less(a, b[1]) and self.less(a, b[2])
                return ('b', hit == (op == 'in'))
            else:
                raise Unknown('membership in ' + b[0])
            hit = False
            for x in xs:
                if self.equal(a, x):
                    hit = True
                    break
            return ('b', hit == (op == 'in'))
        if op in ('<', '<='):
            if a[0] != 'lin':
                a, b = self.code(a), self.code(b)
            if b[0] != 'lin':
                raise Unknown('order')
            return ('b', self.less(a, b) if op == '<' else not self.less(b, a))
        raise Unknown('comparison ' + op)

    def t_range(self, t):
        return ('range',) + tuple(self.ev(x) for x in t[1:3])

    def t_len(self, t):
        v = self.ev(t[1])
        if v[0] in ('list', 'tuple', 'dict', 's'):
            return K(len(v[1]))
        if v[0] in ('char',):
            return K(1)
        raise Unknown('length of ' + v[0])

    def t_item(self, t):
        d = self.ev(t[1])
        i = self.ev(t[2])
        if d[0] in ('list', 'tuple', 's'):
            xs = d[1] if d[0] != 's' else tuple(('s', x) for x in d[1])
            if i[0] != 'lin':
                raise Unknown('index')
            n = self.const(i)
            if n is not None:
                return self.pick(xs, n)
            lo, hi = self.range(i)
            if lo < 0:                       # counted from the end
                if self.less(i, K(0)):
                    i = plus(i, K(len(xs)))
                lo, hi = self.range(i)
            if lo < 0 or hi >= len(xs):
                raise Unknown('index outside the table')
            return ('at', xs, i)
        if d[0] == 'dict':
            return self.lookup(d, i, None)
        raise Unknown('item of ' + d[0])

    def t_get(self, t):
        d = self.ev(t[1])
        if d[0] == 'dict':
            return self.lookup(d, self.ev(t[2]), t[3] if len(t) > 3 else ('c', None))
        raise Unknown('get of ' + d[0])

    def lookup(self, d, k, default):
        keys = [a for a, _ in d[1]]
        if k[0] == 'at' and tuple(keys) == k[1] and len(set(keys)) == len(keys):
            vs = [b for _, b in d[1]]
            if all(v == K(i) for i, v in enumerate(vs)):
                return k[2]
        for a, b in reversed(d[1]):
            if self.equal(k, a):
                return b
        if default is None:
            raise Unknown('missing key')
        return self.ev(default)

    def t_elem(self, t):
        x = t[1]
        if t[2] in self.loops:
            if x[0] == 'comp' and x[1] in ('list', 'gen') and len(x[2]) == 1 and not x[3]:
                L = x[2][0][0]
                old = self.loops.get(L)
                self.loops[L] = self.loops[t[2]]
                try:
                    return self.ev(x[4])
                finally:
                    if old is None:
                        del self.loops[L]
                    else:
                        self.loops[L] = old
            return self.loops[t[2]]
        raise Unknown('element')

    def t_rng(self, t):
        if len(t) > 2 and t[-1] in self.loops:
            return self.loops[t[-1]]
        raise Unknown('counter')

    def t_comp(self, t):
        if len(t[2]) != 1 or t[3]:
            raise Unknown('comprehension')
        L, it = t[2][0]
        if it[0] == 'range':
            a, b = self.ev(it[1]), self.ev(it[2])
            a, b = self.const(a), self.const(b)
            if a is None or b is None or b - a > 2000:
                raise Unknown('range')
            xs = [K(i) for i in range(a, b)]
        else:
            v = self.ev(it)
            if v[0] == 's':
                v = ('list', tuple(('s', x) for x in v[1]))
            if v[0] not in ('list', 'tuple'):
                raise Unknown('comprehension over ' + v[0])
            xs = v[1]
        out = []
        old = self.loops.get(L)
        for i, x in enumerate(xs):
            self.loops[L] = x
            self.index = {L: K(i)}
            out.append(self.ev(t[4]))
        if old is None:
            self.loops.pop(L, None)
        else:
            self.loops[L] = old
        if t[1] == 'dict':
            return ('dict', tuple(x[1] for x in out)) if all(x[0] == 'tuple' for x in out) else self.unknown('dict')
        return ('list', tuple(out))

    def t_index(self, t):
        ix = getattr(self, 'index', {})
        if t[-1] in ix:
            return ix[t[-1]]
        raise Unknown('counter')

    def t_str(self, t):
        out = ''
        for x in t[1]:
            v = self.ev(x)
            if v[0] != 's':
                raise Unknown('text')
            out += v[1]
        return ('s', out)

    def t_fmt(self, t):
        v = self.ev(t[1])
        if t[2] == '' and v[0] == 'lin' and self.const(v) is not None:
            return ('s', str(self.const(v)))
        if t[2] == '' and v[0] == 's':
            return v
        raise Unknown('text')

    def t_call(self, t):
        f, args = t[1], t[2]
        if f[0] == 'g':
            vs = [self.ev(x) for x in args]
            if f[1] == 'ord' and len(vs) == 1:
                return self.code(vs[0])
            if f[1] == 'chr' and len(vs) == 1 and vs[0][0] == 'lin':
                n = self.const(vs[0])
                return ('char', vs[0]) if n is None else ('s', chr(n))
            if f[1] == 'str' and len(vs) == 1:
                if vs[0][0] in ('s', 'char'):
                    return vs[0]
                if vs[0][0] == 'lin' and self.const(vs[0]) is not None:
                    return ('s', str(self.const(vs[0])))
            if f[1] == 'int' and len(vs) == 1 and vs[0][0] == 'lin':
                return vs[0]
            if f[1] == 'bool' and len(vs) == 1:
                return ('b', self.truth(vs[0]))
            if f[1] == 'len' and len(vs) == 1:
                return self.t_len(('len', args[0]))
            if f[1] == 'divmod' and len(vs) == 2 and self.const(vs[1]) is not None:
                return ('tuple', self.divmod(vs[0], self.const(vs[1])))
            if f[1] in ('list', 'tuple') and len(vs) == 1 and vs[0][0] in ('list', 'tuple'):
                return (f[1], vs[0][1])
            if f[1] in ('set', 'frozenset') and len(vs) == 1:
                v = vs[0]
                return ('setof', v[1] if v[0] != 's' else tuple(('s', x) for x in v[1]))
            if f[1] == 'range' and len(vs) == 2:
                return ('range', vs[0], vs[1])
        if f[0] == 'ext' and f[1] in ('numpy.asarray', 'numpy.array') and len(args) == 1:
            return self.ev(args[0])
        if f[0] == 'attr' and f[2] == 'index' and len(args) == 1:
            l, x = self.ev(f[1]), self.ev(args[0])
            xs = l[1] if l[0] in ('list', 'tuple') else tuple(('s', y) for y in l[1]) if l[0] == 's' else self.unknown('index')
            if x[0] == 'at':
                if x[1] == xs and len(set(xs)) == len(xs):
                    return x[2]
                # another table: the same entries, shifted by a constant
                lo, hi = self.range(x[2])
                if lo < 0 or hi >= len(x[1]):
                    raise Unknown('index outside the table')
                part = x[1][lo:hi + 1]
                if len(set(xs)) == len(xs) and all(y in xs for y in part):
                    d = xs.index(part[0]) - lo
                    if all(xs.index(y) == lo + i + d for i, y in enumerate(part)):
                        return plus(x[2], K(d))
                if not any(y in xs for y in part):
                    raise Unknown('not in the table')
                # entries in no regular order: one by one
                free = [(s, k) for s, k in x[2][2] if self.bounds[s][0] != self.bounds[s][1]]
                if free:
                    self.halve(free)
                raise Unknown('not in the table')
            for i, y in enumerate(xs):
                if self.equal(x, y):
                    return K(i)
            raise Unknown('not in the table')
        raise Unknown('call of %s' % (f[1:],))


def boxes(bounds, run, limit=4000):
    """(bounds, value) for every box into which the conditions split the range; value Unknown instance if not decided"""
    todo = [dict(bounds)]
    out = []
    n = 0
    while todo:
        b = todo.pop()
        n += 1
        if n > limit:
            out.append((b, Unknown('too many cases')))
            break
        try:
            out.append((b, run(b)))
        except Split as s:
            lo, hi = b[s.sym]
            at = s.at
            if not lo < at <= hi:
                out.append((b, Unknown('split outside the range')))
                continue
            todo += [dict(b, **{s.sym: (lo, at - 1)}), dict(b, **{s.sym: (at, hi)})]
        except Unknown as u:
            out.append((b, u))
    return out
