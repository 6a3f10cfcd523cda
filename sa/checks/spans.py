"""Spans: text pieces of an eojeol, where they lie, and whether together they tile it (C17, C18)."""
from ..terms import walk, lin, unlin, add, sub, neg, conj, cmp, c

NONE = ('c', None)
SELF = ('p', 'self')
W = ('W',)
N = ('len', W)
WRAPS = ('copy', 'copy2', 'deepcopy', 'listof', 'tupleof', 'iterof')


class Vague(Exception):
    """not understood: undecided"""


class Wrong(Exception):
    def __init__(self, kind, message, node=None):
        Exception.__init__(self, message)
        self.kind, self.message, self.node = kind, message, node


# -- an order domain: differences of terms --------------------------------

class Order:
    """x - y <= c between terms"""

    def __init__(self, facts=()):
        self.d = {}
        self.vars = {c(0)}
        self.true = set()
        for f in facts:
            self.say(f)

    def copy(self):
        o = Order()
        o.d, o.vars, o.true = dict(self.d), set(self.vars), set(self.true)
        return o

    @staticmethod
    def diff(t):
        """t = x - y + k as (x, y, k), or None"""
        k, d = lin(t)
        pos = [x for x, n in d.items() if n == 1]
        neg_ = [x for x, n in d.items() if n == -1]
        if len(pos) + len(neg_) != len(d) or len(pos) > 1 or len(neg_) > 1:
            return None
        return (pos[0] if pos else c(0)), (neg_[0] if neg_ else c(0)), k

    def le(self, t):
        """t <= 0"""
        x = self.diff(t)
        if x is None:
            return
        a, b, k = x
        self.vars |= {a, b}
        self.d[(a, b)] = min(self.d.get((a, b), -k), -k)

    def say(self, g):
        if g[0] == 'and':
            for x in g[1]:
                self.say(x)
            return
        self.true.add(g)
        if g[0] == 'cmp':
            if g[1] == '<':
                self.le(add(sub(g[2], g[3]), c(1)))
            elif g[1] == '<=':
                self.le(sub(g[2], g[3]))
            elif g[1] == '==':
                self.le(sub(g[2], g[3]))
                self.le(sub(g[3], g[2]))

    def close(self):
        vs = list(self.vars)
        for m in vs:
            for a in vs:
                x = self.d.get((a, m))
                if x is None:
                    continue
                for b in vs:
                    y = self.d.get((m, b))
                    if y is not None and a != b and self.d.get((a, b), x + y + 1) > x + y:
                        self.d[(a, b)] = x + y

    def entails_le(self, t):
        x = self.diff(t)
        if x is None:
            return None
        a, b, k = x
        if a == b:
            return k <= 0
        if a not in self.vars or b not in self.vars:
            return None
        v = self.d.get((a, b))
        return v is not None and v <= -k

    def holds(self, g):
        """True: follows; False: may fail, all of it is about known places; None: about something else"""
        if g[0] == 'c':
            return bool(g[1])
        if g in self.true:
            return True
        if g[0] == 'and':
            rs = [self.holds(x) for x in g[1]]
            return None if None in rs and False not in rs else all(rs)
        if g[0] == 'or':
            rs = [self.holds(x) for x in g[1]]
            return True if True in rs else None if None in rs else False
        if g[0] == 'not':
            return self.holds(neg(g[1])) if g[1][0] in ('cmp', 'and', 'or', 'not') else None
        if g[0] == 'cmp':
            a, b = g[2], g[3]
            if g[1] == '<':
                return self.entails_le(add(sub(a, b), c(1)))
            if g[1] == '<=':
                return self.entails_le(sub(a, b))
            if g[1] == '==':
                return self.both(self.entails_le(sub(a, b)), self.entails_le(sub(b, a)))
            if g[1] == '!=':
                x = self.entails_le(add(sub(a, b), c(1)))
                y = self.entails_le(add(sub(b, a), c(1)))
                return None if None in (x, y) else x or y
            return None
        if g in self.vars:                  # a number that is not zero
            return self.holds(('cmp', '!=', g, c(0)))
        if g[0] == 'lin':
            return self.holds(cmp('!=', g, c(0)))
        return None

    @staticmethod
    def both(x, y):
        return None if None in (x, y) else x and y


# -- reading the terms -------------------------------------------------------

class Way:
    """one way an element gets into a list"""

    def __init__(self, elt, guards, loops, node):
        self.elt, self.guards, self.loops, self.node = elt, tuple(guards), tuple(loops), node

    def also(self, guards, loops=()):
        return Way(self.elt, tuple(guards) + self.guards, tuple(loops) + self.loops, self.node)


class Spans:
    def __init__(self, r, is_word):
        """is_word(term): is it the eojeol?"""
        self.r = r
        self.is_word = is_word
        self.memo = {}
        self.effects = [(e, self.norm(e.target), tuple(self.norm(a) for a in e.args), tuple(self.norm(g) for g in e.guards))
                        for e in r.effects]
        self.checked = 0

    # normal form: the eojeol is W

    def norm(self, t):
        if not isinstance(t, tuple):
            return t
        if t in self.memo:
            return self.memo[t]
        if t and isinstance(t[0], str):
            if self.is_word(t):
                self.memo[t] = W
                return W
        x = tuple(self.norm(y) if isinstance(y, tuple) else y for y in t)
        x = self.tidy(x)
        self.memo[t] = x
        return x

    def tidy(self, x):
        if not x or not isinstance(x[0], str):
            return x
        h = x[0]
        if h == 'call' and x[1][0] == 'attr' and x[1][1] == W and x[1][2] == 'strip' and not x[2]:
            return W
        if h == 'listof' and x[1] == W:
            return W
        if h in ('max', 'min') and len(x) == 5 and x[4] == 'of' and x[3] == NONE and x[2] and x[2][0] == 'lam':
            return ('item', ('sorted', x[1][0], x[2], c(h == 'max')), c(0))
        if h == 'slice' and x[4] in (NONE, c(1)):
            lo, hi = (c(0) if x[2] == NONE else x[2]), (NONE if x[3] == ('len', x[1]) else x[3])
            if lo == c(0) and hi == NONE:
                return x[1]
            return ('slice', x[1], lo, hi, NONE)
        if h == 'item' and x[1] == W and not self.isneg(x[2]):
            return ('slice', W, x[2], add(x[2], c(1)), NONE)
        if h == 'item' and x[2][0] == 'c' and isinstance(x[2][1], int):
            k, b = x[2][1], x[1]
            if b[0] in ('tuple', 'list') and -len(b[1]) <= k < len(b[1]) and not any(y[0] == 'star' for y in b[1]):
                return b[1][k]
            if b[0] == 'nt' and -len(b[2]) <= k < len(b[2]):
                return b[2][k][1]
            if b[0] == 'ite':
                return ('ite', b[1], self.tidy(('item', b[2], x[2])), self.tidy(('item', b[3], x[2])))
        if h == 'attr' and x[1][0] == 'nt':
            for n, v in x[1][2]:
                if n == x[2]:
                    return v
        if h == 'lin':
            out = c(x[1])
            for y, k in x[2]:
                out = add(out, y if k == 1 else unlin(lin(y)[0] * k, {z: n * k for z, n in lin(y)[1].items()}))
            return out
        if h == 'cmp':
            return cmp(x[1], x[2], x[3])
        if h == 'len':
            y = x[1]
            if y[0] in ('tuple', 'list'):
                return c(len(y[1]))
            if y[0] == 'c' and isinstance(y[1], str):
                return c(len(y[1]))
            if y[0] == 'slice' and y[1] == W and y[4] == NONE:
                return sub(N if y[3] == NONE else y[3], y[2])
            if y[0] in ('sorted', 'reversed') + WRAPS and y != W:
                return self.tidy(('len', y[1]))
            if y[0] == 'slice' and y[4] == NONE and y[2][0] == 'c' and (y[3] == NONE or y[3][0] == 'c') and isinstance(y[2][1], int):
                lo, hi = y[2][1], 0 if y[3] == NONE else y[3][1]
                if lo >= 0 and hi <= 0:
                    return add(('len', y[1]), c(hi - lo)) if y[1][0] not in ('sorted', 'reversed') + WRAPS \
                        else add(self.tidy(('len', y[1])), c(hi - lo))
        return x

    @staticmethod
    def isneg(t):
        return t[0] == 'c' and isinstance(t[1], int) and t[1] < 0

    def put(self, t, m):
        """replace terms and tidy up"""
        seen = {}

        def rec(x):
            if not isinstance(x, tuple):
                return x
            if x in seen:
                return seen[x]
            if x in m:
                y = m[x]
            else:
                y = self.tidy(tuple(rec(z) if isinstance(z, tuple) else z for z in x))
            seen[x] = y
            return y
        return rec(t)

    # lists

    def on(self, X):
        return [x for x in self.effects if x[1] == X]

    def made(self, X, depth=0):
        """the ways elements get into X (what is removed again is ignored)"""
        if depth > 25:
            raise Vague('a list that refers to itself')
        h = X[0]
        if h == 'added':
            return self.added(X[1], depth)
        if h in ('list', 'tuple') and X[1] is not None:
            out = [Way(x, (), (), None) for x in X[1] if x[0] != 'star']
            if len(out) != len(X[1]):
                raise Vague('a starred element')
            return out + self.added(X, depth)
        if h == 'comp' and X[1] in ('list', 'gen'):
            return [Way(X[4], X[3], [L for L, _ in X[2]], None)] + self.added(X, depth)
        if h in ('sorted', 'reversed') + WRAPS:
            return self.made(X[1], depth + 1) + self.added(X, depth)
        if h == 'slice' and X[1] != W:
            return self.made(X[1], depth + 1) + self.added(X, depth)
        if h == 'bin' and X[1] == '+':
            return self.made(X[2], depth + 1) + self.made(X[3], depth + 1) + self.added(X, depth)
        if h == 'ite':
            return [w.also((X[1],)) for w in self.made(X[2], depth + 1)] + [w.also((neg(X[1]),)) for w in self.made(X[3], depth + 1)]
        if h == 'new' and X[1] == 'list':
            out = []
            for a in X[3:]:
                if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] != 'c':
                    out += self.made(a, depth + 1)
            return out + self.added(X, depth)
        if h in ('out', 'phi') and X[1] in self.r.loops:
            return self.looped(X, depth)
        raise Vague('a list of unknown making (%s)' % h)

    def added(self, X, depth):
        out = []
        for e, _, args, gs in self.on(X):
            if e.kind == 'append':
                out.append(Way(args[0], gs, e.loops, e.node))
            elif e.kind == 'insert' and len(args) == 2:
                out.append(Way(args[1], gs, e.loops, e.node))
            elif e.kind == 'extend':
                out += [Way(w.elt, gs + w.guards, e.loops + tuple(L for L in w.loops if L not in e.loops), w.node or e.node)
                        for w in self.made(args[0], depth + 1)]
            elif e.kind in ('pop', 'del', 'remove', 'clear', 'sort', 'reverse', 'print'):
                pass
            else:
                raise Vague('a list changed by %s' % e.kind)
        return out

    def looped(self, X, depth):
        info = self.r.loops[X[1]]
        me = (('phi', X[1], X[2]), ('out', X[1], X[2]))
        init = info['init'].get(X[2])
        if init is None or depth > 20:
            raise Vague('a list made by a loop')
        out = self.made(self.norm(init), depth + 1)
        for gs, env in info.get('ends') or []:
            v = env.get(X[2])
            if v is None or v in me:
                continue
            v = self.norm(v)
            out += [w.also(tuple(self.norm(g) for g in gs), (X[1],) if X[1] not in w.loops else ())
                    for w in self.grown(v, me, depth + 1)]
        for x in me:
            out += self.added(x, depth)
        return out

    def grown(self, v, me, depth):
        if v in me:
            return []
        if v[0] == 'bin' and v[1] == '+' or v[0] in ('sorted', 'reversed') + WRAPS:
            return [w for x in v[1:] if isinstance(x, tuple) and x[0] != 'lam' and x[0] != 'c' for w in self.grown(x, me, depth)]
        if v[0] == 'comp' and len(v[2]) == 1 and v[4] == ('elem', v[2][0][1], v[2][0][0]):
            return self.grown(v[2][0][1], me, depth)        # only drops
        return self.made(v, depth + 1)

    def source(self, t):
        """the list t is taken from"""
        if t[0] in ('elem', 'popped'):
            return t[1]
        if t[0] == 'item' and t[1][0] in ('sorted', 'new', 'out', 'phi', 'comp', 'slice') and t[1][1] != W:
            return t[1]
        return None

    def resolve(self, rec, depth=0, limit=400):
        """rec with every element of a list replaced by how it was made: [(rec, guards)]"""
        if depth > 12:
            raise Vague('records nested too deep')
        best = None
        for x in walk(rec):
            s = self.source(x)
            if s is None or s == W:
                continue
            if x[0] == 'elem' and s[0] in ('call', 'p', 'attr', 'range'):
                continue
            if best is None or any(y == best for y in walk(x)):
                best = x            # the outermost
        if best is None:
            return [(rec, ())]
        try:
            ws = self.made(self.source(best))
        except Vague:
            return [(rec, ())]
        out = []
        for w in ws:
            if any(y == best for y in walk(w.elt)):
                raise Vague('a record made of itself')
            for r2, g2 in self.resolve(self.put(rec, {best: w.elt}), depth + 1, limit):
                out.append((r2, w.guards + g2))
                if len(out) > limit:
                    raise Vague('too many ways')
        return out

    # text

    def text(self, ts):
        """(lo, hi) of the piece of W the texts are together, lo == hi when empty; None if not such a piece"""
        lo = hi = None
        for t in ts:
            if t == c(''):
                continue
            if t == W:
                a, b = c(0), N
            elif t[0] == 'slice' and t[1] == W and t[4] == NONE:
                a, b = t[2], N if t[3] == NONE else t[3]
                a, b = [add(N, x) if self.isneg(x) else x for x in (a, b)]
            elif t[0] == 'lin' and t[1] == 0 and all(n == 1 for _, n in t[2]):
                raise Vague('joined text')
            else:
                if any(altered(x) for x in walk(t)):
                    raise Wrong('text', 'the text of a piece is not the text of the eojeol')
                return None
            if a == b:
                continue
            if lo is None:
                lo, hi = a, b
            elif hi == a:
                hi = b
            else:
                raise Wrong('text', 'pieces of text that do not adjoin')
        if lo is None:
            return ()
        return lo, hi


def altered(t):
    """text cut out of the eojeol and then changed"""
    if t[0] != 'call' or t[1][0] != 'attr' or not any(y == W for y in walk(t[1][1])):
        return False
    return t[1][2] in ('lower', 'upper', 'replace', 'title', 'swapcase', 'casefold') or \
        t[1][2] in ('strip', 'lstrip', 'rstrip') and t[2] not in ((), (NONE,))


def about(t, *xs):
    return any(y in xs for y in walk(t))


def known_places(t):
    """only numbers, counters and the length of the eojeol"""
    for x, _ in lin(t)[1].items():
        if x == N or x[0] in ('rng',) or x[0] == 'min':
            continue
        return False
    return True


def lower(t):
    """a number t is at least, or None"""
    k, d = lin(t)
    for x, n in d.items():
        if x[0] == 'rng' and n > 0:
            b = lower(x[1])
            if b is None:
                return None
            k += n * b
        elif x == N and n > 0:
            k += 0
        else:
            return None
    return k


def told_of(g, x):
    """the guard speaks of this number itself, not only of a piece of text cut there"""
    if g == x:
        return True
    if g[0] in ('slice', 'rng', 'comp', 'elem') or not isinstance(g, tuple):
        return False
    todo = list(g[1:])
    while todo:
        y = todo.pop()
        if isinstance(y, tuple) and y:
            if isinstance(y[0], str):
                if told_of(y, x):
                    return True
            else:
                todo += y
    return False


def at_most_len(t, guards, depth=0):
    """True: t <= len(W); False: nothing says so and all of t is understood; None"""
    k, d = lin(sub(t, N))
    if not d:
        return k <= 0
    for g in guards:
        for x in (g[1] if g[0] == 'and' else (g,)):
            if x[0] == 'cmp' and x[1] in ('<', '<='):
                kk, dd = lin(sub(sub(x[3], x[2]), sub(N, t)))
                if not dd:                       # x3 - x2 == (N - t) + kk
                    # known: x3 - x2 >= (1 if '<' else 0), so N - t >= that - kk
                    return (1 if x[1] == '<' else 0) - kk >= 0
    best = False
    if not depth:
        for x in d:
            # a counter that runs further whatever the length
            if x[0] == 'rng' and d[x] == 1 and any(y[0] == 'attr' and m > 0 for y, m in lin(x[2])[1].items()) and \
                    not any(y == N or y[0] == 'min' for y in lin(x[2])[1]) and \
                    not any(told_of(g, x) for g in guards):
                return False
            if x[0] == 'rng' and d[x] == 1 and not any(y == N or y[0] in ('call', 'phi', 'out', 'choice') for y in walk(x[2])) and \
                    not any(y == x for g in guards for y in walk(g) if any(z == N for z in walk(g))) and x[2][0] != 'c':
                return False
    for x, n in sorted(d.items(), key=repr):
        if n != 1:
            continue
        if x[0] == 'rng' and depth < 6:
            hi = sub(x[2], c(1))
            rest = unlin(lin(t)[0], {y: m for y, m in lin(t)[1].items() if y != x})
            r = at_most_len(add(rest, hi), guards, depth + 1)
            if r:
                return True
            if r is None:
                best = None
            # what the other terms were bounded by this counter's own bound
        elif x[0] == 'min' and depth < 6 and isinstance(x[1], tuple):
            rest = unlin(lin(t)[0], {y: m for y, m in lin(t)[1].items() if y != x})
            for a in (x[1] if x[1] and isinstance(x[1][0], tuple) else (x[1],)):
                if at_most_len(add(rest, a), guards, depth + 1):
                    return True
        elif x[0] not in ('rng', 'min') and x != N:
            best = None
    return best


# -- records ------------------------------------------------------------------

class View:
    """where the text, begin, end and length of a record are"""

    def __init__(self, texts, b=None, e=None, n=None):
        self.texts, self.b, self.e, self.n = texts, b, e, n


def field(sp, rec, acc):
    return sp.tidy((acc[0], rec, c(acc[1]) if acc[0] == 'item' else acc[1]))


def bottom(t):
    """rng counters replaced by where they start"""
    for _ in range(6):
        k, d = lin(t)
        for x, n in sorted(d.items(), key=repr):
            if x[0] == 'rng' and n > 0:
                rest = unlin(k, {y: m for y, m in d.items() if y != x})
                t = add(rest, unlin(lin(x[1])[0] * n, {z: m * n for z, m in lin(x[1])[1].items()}))
                break
        else:
            break
    k, d = lin(t)
    if not d:
        return k
    return k if all(x == N and n > 0 for x, n in d.items()) else None


def differ(a, b):
    """True: always different; False: equal; None"""
    t = sub(a, b)
    k, d = lin(t)
    if not d:
        return k != 0
    for x in (t, sub(b, a)):
        v = bottom(x)
        if v is not None and v > 0:
            return True
    return None


def free(t):
    """made of places that given spans tell"""
    d = lin(t)[1]
    return bool(d) and all(x == N or x[0] == 'attr' and x[1][0] in ('item', 'elem') and
                           (x[1][1][0] == 'p' or x[1][1][0] == 'slice' and x[1][1][1][0] == 'p') for x in d)


def sound(sp, view, rec, guards, node, what='record', deep=True):
    """the text of rec is the eojeol between the begin and end rec tells"""
    ts = [field(sp, rec, a) for a in view.texts]
    b, e = field(sp, rec, view.b), field(sp, rec, view.e)
    n = field(sp, rec, view.n) if view.n is not None else None
    b0, e0 = b, e
    whole = ('tuple', tuple(ts) + (b, e) + ((n,) if n is not None else ()))
    try:
        p = sp.text(ts)
    except Vague:
        p = None
    if p and p == (b, e) and (n is None or n == sub(e, b)) and not known_places(e):
        sp.checked += 1
        return
    if not deep:
        raise Vague('a record')
    for r2, g2 in sp.resolve(whole):
        ts2, b, e = list(r2[1][:len(ts)]), r2[1][len(ts)], r2[1][len(ts) + 1]
        p = sp.text(ts2)
        if p is None:
            raise Vague('the text of a record')
        if p == ():
            if differ(b, e):
                raise Wrong('record', 'a record of no text that spans some', node)
            continue
        bad = [w for w, x, y in (('begin', p[0], b), ('end', p[1], e)) if differ(x, y)]
        if bad:
            raise Wrong('record', 'the %s of a %s is not where its text %ss' % (bad[0], what, bad[0]), node)
        if p != (b, e):
            odd = p[0] if p[0] != b else p[1]
            told = b if p[0] != b else e
            if p[0] == b and e == N:
                o = Order(tuple(guards) + tuple(g2))
                o.close()
                if o.holds(cmp('<=', N, p[1])):
                    continue
            o = Order(tuple(guards) + tuple(g2))
            o.close()
            if known_places(odd) and known_places(told) and (not any(x[0] == 'min' for x in walk(('t', told, odd))) or
                                                             odd[0] == told[0] == 'rng') or \
                    o.holds(cmp('!=', odd, told)) is True or free(odd) and free(told) and o.holds(cmp('==', odd, told)) is not True:
                raise Wrong('record', 'a %s tells another place than that of its text' % what, node)
            raise Vague('the place of a record')
        if n is not None:
            m = r2[1][-1]
            if differ(m, sub(e, b)):
                raise Wrong('record', 'the length of a %s is not that of its text' % what, node)
            if m != sub(e, b):
                raise Vague('the length of a record')
        if known_places(e):
            r = at_most_len(e, tuple(guards) + tuple(g2))
            if r is False:
                raise Wrong('record', 'a %s may end behind the end of its eojeol' % what, node)
            if r is None:
                raise Vague('the end of a record')
        sp.checked += 1


# -- lists of spans -----------------------------------------------------------

def core(sp, Z):
    """Z without sorting and copying"""
    while True:
        if Z[0] in ('sorted', 'reversed') + WRAPS:
            Z = Z[1]
        elif Z[0] == 'comp' and Z[1] in ('list', 'gen') and len(Z[2]) == 1 and not Z[3] and Z[4] == ('elem', Z[2][0][1], Z[2][0][0]):
            Z = Z[2][0][1]
        else:
            return Z


def split_parts(sp, X):
    more = []
    while X[0] in WRAPS or X[0] == 'comp' and core(sp, X) != X:
        if any(e.kind in ('append', 'extend', 'insert') for e, _, _, _ in sp.on(X)):
            more.append(('added', X))
        X = core(sp, X) if X[0] == 'comp' else X[1]
    if more:
        return split_parts(sp, X) + more
    if X[0] == 'bin' and X[1] == '+':
        mine = [('added', X)] if any(e.kind in ('append', 'extend', 'insert') for e, _, _, _ in sp.on(X)) else []
        return split_parts(sp, X[2]) + split_parts(sp, X[3]) + mine
    return [X]


def referred(sp, t):
    """the lists of which t names the first, the last or a numbered element"""
    out = []
    for x in walk(t):
        if x[0] == 'item' and x[1][0] in ('sorted', 'new', 'p', 'out', 'comp') and not (x[1][0] == 'p' and x[1] == SELF):
            out.append(x[1])
        if x[0] == 'elem' and x[1][0] == 'slice' and x[1][1] != W:
            out.append(x[1][1])
        if x[0] == 'elem' and x[1][0] in ('sorted', 'p', 'new'):
            was = (sp.r.loops.get(x[2]) or {}).get('sorted')
            out.append(sp.norm(was) if was and sp.norm(was)[1] == x[1] else x[1])
    return out


class Place:
    def __init__(self, kind, loop=None, off=0):
        self.kind, self.loop, self.off = kind, loop, off


def place(sp, rec, R):
    """which element of R is rec?"""
    k = core(sp, R)
    if rec[0] == 'item' and core(sp, rec[1]) == k:
        i = rec[2]
        if i == c(0):
            return Place('first')
        if i == c(-1) or i == sub(sp.tidy(('len', k)), c(1)):
            return Place('last')
        kk, d = lin(i)
        if len(d) == 1:
            x, n = next(iter(d.items()))
            if n == 1 and x[0] == 'rng' and x[1][0] == 'c':
                return Place('nth', x[3], x[1][1] + kk)
        return None
    if rec[0] == 'elem':
        b = rec[1]
        if core(sp, b) == k:
            return Place('nth', rec[2], 0)
        if b[0] == 'slice' and core(sp, b[1]) == k and b[2][0] == 'c' and isinstance(b[2][1], int) and b[2][1] >= 0:
            return Place('nth', rec[2], b[2][1])
    return None


def rounds(sp, it, R):
    """rounds of a loop over it, less the length of R"""
    k = core(sp, R)
    n = sp.tidy(('len', k))
    if it is None:
        return None
    if it[0] == 'zip':
        rs = [rounds(sp, x, R) for x in it[1]]
        return None if None in rs else min(rs)
    if it[0] == 'range' and len(it) == 3:
        kk, d = lin(sub(it[2], it[1]))
        return kk if d == {n: 1} else None
    if it[0] == 'enumerate':
        return rounds(sp, it[1], R)
    if core(sp, it) == k:
        return 0
    kk, d = lin(sp.tidy(('len', it)))
    return kk if d == {n: 1} else None


class Piece:
    def __init__(self, lo, hi, guards, loops, node):
        self.lo, self.hi, self.guards, self.loops, self.node = lo, hi, guards, loops, node


def based(sp, view, ways, base_ok):
    """records made of the tokens of another tokenizer for one piece of text: [Piece], the remaining ways"""
    groups, rest = {}, []
    for w in ways:
        src = None
        for x in walk(w.elt):
            if x[0] == 'elem' and x[1][0] == 'call' and x[1][1][0] == 'attr' and len(x[1][2]) == 1:
                src = x
        if src is None:
            rest.append(w)
        else:
            groups.setdefault(src, []).append(w)
    out = []
    for src, ws in groups.items():
        call, L = src[1], src[2]
        if not base_ok(call[1]):
            raise Vague('the tokenizer of the remaining pieces')
        p = sp.text([call[2][0]])
        if not p:
            raise Vague('what the other tokenizer gets')
        lo, hi = p
        n = ('len', src)
        own = []
        some = Order([cmp('<=', c(1), n)])
        some.close()
        for w in ws:
            own.append([g for g in w.guards if about(g, src) and g != src and some.holds(g) is not True])
            ts = [t for t in (field(sp, w.elt, a) for a in view.texts) if t != c('')]
            if ts != [src]:
                raise Wrong('filled', 'a piece of the other tokenizer does not keep its text', w.node)
            b, e = field(sp, w.elt, view.b), field(sp, w.elt, view.e)
            x = sub(b, lo)
            if lo == c(0) and x[0] != 'phi':
                x = b
            if x[0] == 'phi' and x[1] == L:
                info = sp.r.loops[L]
                if sp.norm(info['init'].get(x[2], NONE)) != c(0):
                    raise Wrong('filled', 'the running place of the pieces does not begin at 0', w.node)
                if sp.norm(info['step'].get(x[2], NONE)) != add(x, n):
                    raise Wrong('filled', 'the running place does not go on by the length of each piece', w.node)
            elif any(y[0] == 'phi' and y[1] == L for y in walk(b)):
                k, d = lin(b)
                ph = [y for y in d if y[0] == 'phi' and y[1] == L]
                info = sp.r.loops[L]
                if len(ph) == 1 and sp.norm(info['init'].get(ph[0][2], NONE)) == lo and b == ph[0]:
                    if sp.norm(info['step'].get(ph[0][2], NONE)) != add(b, n):
                        raise Wrong('filled', 'the running place does not go on by the length of each piece', w.node)
                elif len(ph) == 1 and differ(sub(b, ph[0]), lo) is not False and (lo == c(0) or known_places(sub(b, ph[0])) or about(b, lo)):
                    raise Wrong('filled', 'the pieces are not placed where their text begins', w.node)
                else:
                    raise Vague('the place of the pieces')
            else:
                raise Vague('the place of the pieces')
            if e != add(b, n):
                if differ(e, add(b, n)) or lin(sub(e, b))[1].keys() <= {n}:
                    raise Wrong('filled', 'a piece does not end where its text ends', w.node)
                raise Vague('the end of the pieces')
        if len(own) == 1:
            if own[0]:
                raise Wrong('filled', 'some pieces of the other tokenizer are dropped', ws[0].node)
        elif len(own) == 2:
            if not (len(own[0]) == len(own[1]) == 1 and own[0][0] == neg(own[1][0])):
                if any(neg(g) in own[1] for g in own[0]):
                    raise Wrong('filled', 'some pieces of the other tokenizer are dropped', ws[0].node)
                raise Vague('the two ways a piece is kept')
        else:
            raise Vague('the ways a piece is kept')
        if sp.r.loops[L].get('breaks') or sp.r.loops[L].get('returns'):
            raise Vague('the pieces are cut short')
        w = ws[0]
        out.append(Piece(lo, hi, tuple(g for g in w.guards if not about(g, src)), tuple(x for x in w.loops if x != L), w.node))
    return out, rest


def facts_of(sp, view, R, conds, recs):
    o = Order()
    n = sp.tidy(('len', core(sp, R)))
    o.say(cmp('<=', c(1), n))
    o.say(cmp('<=', c(1), N))
    for g in conds:
        o.say(g)
    ends = [sp.tidy(('item', R, c(0))), sp.tidy(('item', R, c(-1)))]
    for rec in ends + recs:
        b, e = field(sp, rec, view.b), field(sp, rec, view.e)
        o.say(cmp('<', b, e))
        o.say(cmp('<=', c(0), b))
        o.say(cmp('<=', e, N))
    o.say(cmp('<=', field(sp, ends[0], view.b), field(sp, ends[1], view.b)))
    return o


def context(sp, R, g):
    """always so once there are spans"""
    return g == W or core(sp, g) == core(sp, R) or g[0] == 'cmp' and g[1] in ('<', '!=') and \
        (g[2], core(sp, g[3][1]) if g[3][0] == 'len' else None) == (c(0), core(sp, R))


def filling(sp, view, R, pieces, conds, ob):
    """the pieces fill what the spans of R leave"""
    got = {'first': [], 'last': [], 'between': []}
    for p in pieces:
        lo_r = p.lo[1] if p.lo[0] in ('item', 'attr') and len(p.lo) == 3 else None
        hi_r = p.hi[1] if p.hi[0] in ('item', 'attr') and len(p.hi) == 3 else None
        a = place(sp, lo_r, R) if lo_r is not None and field(sp, lo_r, view.e) == p.lo else None
        b = place(sp, hi_r, R) if hi_r is not None and field(sp, hi_r, view.b) == p.hi else None
        if p.lo == c(0) and b and b.kind == 'first':
            kind = 'first'
        elif a and a.kind == 'last' and p.hi == N:
            kind = 'last'
        elif a and b and a.kind == b.kind == 'nth' and a.loop == b.loop:
            kind = 'between'
            if b.off - a.off != 1:
                raise Wrong('filled', 'a piece between two spans reaches over others or back', p.node)
        else:
            near = [x for x in (p.lo, p.hi) if x in (c(0), N)] + [x for x in (lo_r, hi_r) if x is not None and place(sp, x, R)]
            if len(near) >= 2 and all(x in (c(0), N) or y is not None and place(sp, y, R) for x, y in ((p.lo, lo_r), (p.hi, hi_r))):
                raise Wrong('filled', 'a piece is not what lies before, between or after the spans', p.node)
            off = [lin(x)[0] for x in (p.lo, p.hi)]
            if any(off) and all(len(lin(x)[1]) <= 1 for x in (p.lo, p.hi)):
                raise Wrong('filled', 'a piece begins or ends beside the span next to it', p.node)
            raise Vague('a piece between the spans')
        recs = []
        if kind == 'between':
            recs = [lo_r, hi_r]
            info = sp.r.loops[a.loop]
            if info.get('sorted') or info.get('reversed') or info.get('breaks') or info.get('returns'):
                raise Vague('the walk over the spans')
            n = rounds(sp, sp.norm(info['iter']) if info['iter'] is not None else None, R)
            if n is None:
                raise Vague('how far the walk over the spans goes')
            # a.off .. a.off + rounds - 1 are looked at, 0 .. len - 2 must be
            if a.off > 0 or a.off + n < -1:
                raise Wrong('filled', 'not every gap between two spans is looked at', p.node)
        o = facts_of(sp, view, R, conds, recs)
        o.say(cmp('<', p.lo, p.hi))
        if kind == 'between':
            n = sp.tidy(('len', core(sp, R)))
            o.say(cmp('<=', c(2), n))
            for x in set(walk(('tuple', p.guards))):
                if x[0] == 'rng' and x[3] == a.loop:
                    o.say(cmp('<=', x[1], x))
                    o.say(cmp('<=', add(x, c(a.off + 1 - (x[1][1] if x[1][0] == 'c' else 0))), sub(n, c(1))))
        o.close()
        for g in p.guards:
            if context(sp, R, g):
                continue
            v = o.holds(g)
            if v is False:
                raise Wrong('filled', 'what lies %s the spans is left out in some cases' %
                            {'first': 'before', 'last': 'behind', 'between': 'between'}[kind], p.node)
            if v is None:
                if g[0] == 'cmp' and g[1] in ('in', 'notin') and sp.text([g[2]]):
                    raise Wrong('filled', 'text between the spans is kept only if it is known', p.node)
                raise Vague('the condition of a piece')
        extra = [L for L in p.loops if not (a and L == a.loop) and not (b and L == b.loop) and
                 sp.r.loops[L].get('iter') is None]
        if extra:
            raise Vague('a piece made in a loop')
        got[kind].append(p)
        ob('a piece %s the spans' % {'first': 'before', 'last': 'behind', 'between': 'between'}[kind])
    for k, ps in got.items():
        if not ps:
            raise Wrong('filled', 'what lies %s the chosen spans is not put back' %
                        {'first': 'before', 'last': 'behind', 'between': 'between'}[k])
        if len(ps) > 1:
            if any(neg(g) in q.guards for g in ps[0].guards for q in ps[1:]):
                raise Vague('a piece in two ways')
            raise Wrong('filled', 'a piece is put back twice', ps[1].node)


def chosen(sp, view, R, ob):
    """no two of the chosen spans overlap"""
    Y = core(sp, R)
    apps = [x for x in sp.on(Y) if x[0].kind == 'append']
    if Y[0] != 'new' or len(apps) != 1 or len([x for x in sp.on(Y) if x[0].kind not in ('append', 'sort', 'print')]):
        raise Vague('how the spans are chosen')
    e0, _, args, gA = apps[0]
    A = args[0]
    ps = {x for x in walk(A) if x[0] == 'popped'}
    if len(ps) != 1:
        raise Vague('how the spans are chosen')
    P = ps.pop()
    S = P[1]
    Lw = e0.loops[-1]
    b, e = field(sp, A, view.b), field(sp, A, view.e)
    last = sp.tidy(('item', Y, c(-1)))

    def member(L):
        k = S
        while k[0] in ('sorted', 'reversed') + WRAPS:
            k = k[1]
        if k[0] == 'comp' and len(k[2]) == 1:
            M = sp.put(k[4], {k[2][0][0]: L})
        else:
            M = ('elem', k, L)
        return M

    def order(M):
        A2 = sp.put(A, {P: M})
        b2, e2 = field(sp, A2, view.b), field(sp, A2, view.e)
        o = Order()
        for g in gA:
            o.say(g)
        o.say(cmp('<', b2, e))
        o.say(cmp('<', b, e2))
        for x, y in ((b, e), (b2, e2)):
            if getattr(sp, 'assume', False):
                o.say(cmp('<', x, y))
                continue
            try:
                if all((bottom(sub(r[1][1], r[1][0])) or 0) >= 1 for r, _ in sp.resolve(('tuple', (x, y)))):
                    o.say(cmp('<', x, y))
            except Vague:
                pass
        o.close()
        return o, A2

    def judge(o, g, M, A2, node):
        g = sp.put(g, {last: A})
        if g in gA or core(sp, g) == core(sp, S) or g == S:
            return
        v = o.holds(g)
        if v is False:
            raise Wrong('overlap', 'a span that overlaps a chosen one is not always removed', node)
        if v is None:
            for x in (g[1] if g[0] == 'and' else (g,)):
                if o.holds(x) is None and x[0] == 'cmp' and all(fielded(y, (P, M, A, A2)) for y in x[2:4]):
                    raise Wrong('overlap', 'a span that overlaps a chosen one is removed only on a further condition', node)
            raise Vague('which spans are removed')

    def fielded(y, recs):
        k, d = lin(y)
        return all(x[0] in ('item', 'attr') and any(z in recs for z in walk(x)) for x in d)

    dels = [x for x in sp.on(S) if x[0].kind == 'del']
    for d in dels:
        eff, _, a, gs = d
        i = a[0]
        L = eff.loops[-1]
        info = sp.r.loops[L]
        down = info.get('reversed') or (info.get('sorted') and info['sorted'][3] == c(True))
        ways = []
        if i[0] == 'elem':
            X = i[1]
            if X[0] == 'slice' and X[2] == NONE and X[3] == NONE and X[4] == c(-1):
                down, X = True, X[1]
            ways = [(w.elt, w.guards) for w in sp.made(X)]
            # the conditions of the deletion itself
            more = [g for g in gs if g not in gA and not any(g in w[1] for w in ways)]
        else:
            ways, more = [(i, gs)], []
        if not down:
            raise Wrong('overlap', 'spans are deleted by number from the front, which shifts the others', eff.node)
        for idx, wg in ways:
            k, dd = lin(idx)
            if len(dd) != 1 or next(iter(dd))[0] != 'rng':
                raise Vague('which spans are removed')
            rg = next(iter(dd))
            if k + (rg[1][1] if rg[1][0] == 'c' else 0) != 0:
                raise Wrong('overlap', 'the numbers of the spans to remove are shifted', eff.node)
            M = member(rg[3])
            o, A2 = order(M)
            for g in wg + tuple(more):
                judge(o, g, M, A2, eff.node)
            ob('overlapping spans are removed')
    if dels:
        return
    if S[0] == 'phi':
        step = sp.r.loops[S[1]]['step'].get(S[2])
        step = sp.norm(step) if step is not None else None
        if step is not None and step[0] in ('sorted',) + WRAPS:
            step = step[1]
        if step is None or step[0] != 'comp' or len(step[2]) != 1 or core(sp, step[2][0][1]) != S or step[4] != ('elem', step[2][0][1], step[2][0][0]):
            raise Vague('which spans are removed')
        M = ('elem', step[2][0][1], step[2][0][0])
        o, A2 = order(M)
        keep = [sp.put(g, {last: A}) for g in step[3]]
        vs = [o.holds(neg(g)) for g in keep]
        if True not in vs:
            if None in vs:
                raise Vague('which spans are kept')
            raise Wrong('overlap', 'a span that overlaps a chosen one may be kept', e0.node)
        ob('overlapping spans are removed')
        return
    if [g for g in gA if core(sp, g) != core(sp, S) and g != W and P in walk(g)] or S[0] not in ('sorted', 'new'):
        raise Vague('how overlapping spans are kept out')
    raise Wrong('overlap', 'overlapping spans are not removed', e0.node)


def ordered(sp, view, R):
    """R is in order of begin"""
    t = R
    while t[0] in WRAPS:
        t = t[1]
    if t[0] == 'p':
        return False            # given in order
    if t[0] == 'sorted':
        rev, lam = t[3], t[2]
        want = field(sp, ('lp', 0), view.b)
        got = lam[1] if lam[0] == 'lam' else None
        if rev != c(False):
            raise Wrong('order', 'the pieces are put in reverse order') if rev == c(True) else Vague('the order of the pieces')
        if got == want or got is not None and got[0] == 'tuple' and got[1] and got[1][0] == want:
            return True
        if got is not None and got[0] in ('item', 'attr', 'lin', 'tuple', 'len'):
            raise Wrong('order', 'the pieces are not put in order of where they begin')
        raise Vague('the order of the pieces')
    for e, _, args, _ in sp.on(t):
        if e.kind == 'sort':
            raise Vague('sorting in place')
    if t[0] == 'new' and any(any(y[0] == 'popped' for y in walk(a)) for e, _, args, _ in sp.on(t) for a in args):
        raise Wrong('order', 'the chosen spans are not put in order of where they begin')
    raise Vague('the order of the spans')


def cases(sp, t, conds=()):
    """t for each outcome of the conditions in it"""
    q = None

    def find(x):
        nonlocal q
        if q is not None or not isinstance(x, tuple):
            return
        if x and x[0] == 'ite':
            q = x[1]
            return
        if x and x[0] in ('tuple', 'list'):
            for y in x[1]:
                find(y)
        elif x and x[0] in ('item', 'slice', 'sorted', 'elem'):
            find(x[1])
    find(t)
    if q is None or len(conds) > 5:
        return [(t, conds)]

    def take(x, v):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == 'ite' and x[1] == q:
            return take(x[2] if v else x[3], v)
        if x and x[0] in ('tuple', 'list'):
            return (x[0], tuple(take(y, v) for y in x[1]))
        if x and x[0] in ('item', 'slice', 'sorted', 'elem', 'ite'):
            return sp.tidy(tuple(take(y, v) if isinstance(y, tuple) else y for y in x))
        return x
    out = []
    for v in (True, False):
        g = q if v else neg(q)
        if neg(g) in conds:
            continue
        out += cases(sp, take(t, v), conds + (g,))
    return out


def plain(sp, T, ob):
    """a literal of strings that together are the eojeol"""
    for t, conds in cases(sp, T):
        if t[0] not in ('tuple', 'list'):
            raise Vague('how an eojeol is divided')
        for r2, g2 in sp.resolve(t):
            p = sp.text(list(r2[1]))
            if p is None:
                raise Vague('a part of the eojeol')
            if p == ():
                if ('len', W) not in walk(('tuple', conds)):
                    raise Wrong('tiles', 'an eojeol is divided into nothing')
                raise Vague('an eojeol divided into nothing')
            o = Order([g for g in conds] + [g for g in g2])
            o.close()
            if p != (c(0), N):
                # W[0:2] of a word that is at most two long
                if p[0] != c(0) and differ(p[0], c(0)) or p[0] == c(0) and (p[1][0] == 'c' or differ(p[1], N)) and \
                        not o.holds(cmp('<=', N, p[1])):
                    raise Wrong('tiles', 'the parts an eojeol is divided into leave some of it out')
                if o.holds(cmp('<=', N, p[1])) and p[0] == c(0):
                    continue
                if known_places(p[0]) and known_places(p[1]) and any(x[0] == 'rng' for x in walk(p)):
                    raise Wrong('tiles', 'the parts an eojeol is divided into leave some of it out')
                raise Vague('the parts of an eojeol')
            sp.checked += 1
        ob('parts that join to the eojeol')


def tile(sp, view, T, conds, ob, base_ok=lambda f: False, assume=None):
    """the spans of T are the eojeol, in order and without gaps"""
    if T[0] == 'ite':
        tile(sp, view, T[2], conds + (T[1],), ob, base_ok, assume)
        tile(sp, view, T[3], conds + (neg(T[1]),), ob, base_ok, assume)
        return
    if T[0] in ('list', 'tuple'):
        at = c(0)
        for rec in T[1]:
            sound(sp, view, rec, conds, None)
            if field(sp, rec, view.b) != at:
                if differ(field(sp, rec, view.b), at):
                    raise Wrong('tiles', 'the parts of an eojeol leave a gap')
                raise Vague('the parts of an eojeol')
            at = field(sp, rec, view.e)
        if at != N:
            if differ(at, N) or at[0] == 'c':
                raise Wrong('tiles', 'the parts of an eojeol do not reach its end')
            raise Vague('the parts of an eojeol')
        ob('an eojeol kept whole')
        return
    if T[0] == 'new' and not sp.on(T) and not sp.made(T):
        if not any(N in walk(g) or W in walk(g) for g in conds):
            raise Wrong('tiles', 'an eojeol is divided into nothing')
        raise Vague('an eojeol divided into nothing')
    if T[0] in ('new', 'comp', 'out') and not [x for x in split_parts(sp, T) if x[0] == 'bin']:
        ways = sp.made(T)
        ps, rest = based(sp, view, ways, base_ok)
        if len(ps) == 1 and not rest:
            if (ps[0].lo, ps[0].hi) != (c(0), N):
                raise Wrong('tiles', 'only a part of the eojeol is divided', ps[0].node)
            o = Order(conds)
            o.say(cmp('<=', c(1), N))
            o.close()
            for g in ps[0].guards:
                if g != W and g not in conds and o.holds(g) is not True:
                    raise Vague('when an eojeol is divided by the other tokenizer')
            ob('an eojeol divided by the other tokenizer')
            return
        raise Vague('an unordered list of parts')
    if T[0] == 'bin' and T[1] == '+':
        ps = split_parts(sp, T)
        for i, X in enumerate(ps[1:]):
            for w in sp.made(X):
                p = sp.text([field(sp, w.elt, a) for a in view.texts])
                ref = {core(sp, Z) for Z in referred(sp, w.elt)}
                if p and (p[0] == c(0) or w.loops and p[1] != N) and any(core(sp, Y) in ref for Y in ps[:i + 1]):
                    raise Wrong('order', 'what lies before or between the spans is put behind them', w.node)
    if T[0] != 'sorted':
        raise Vague('how an eojeol is divided (%s)' % T[0])
    ordered(sp, view, T)
    ps = split_parts(sp, T[1])
    cand = {}
    for X in ps:
        if X[0] == 'p':
            continue
        try:
            ws = sp.made(X)
        except Vague:
            continue
        for w in ws:
            for Z in referred(sp, w.elt):
                if any(core(sp, X2) == core(sp, Z) for X2 in ps):
                    cand[core(sp, Z)] = Z
    if len(cand) != 1:
        raise Vague('which spans the pieces are put between')
    R = list(cand.values())[0]
    rest = [X for X in ps if core(sp, X) != core(sp, R)]
    if len(ps) - len(rest) != 1:
        raise Wrong('tiles', 'the chosen spans are taken twice')
    if ordered(sp, view, R):
        ob('spans in order')
    ways = [w for X in rest for w in sp.made(X)]
    pieces, ways = based(sp, view, ways, base_ok)
    for w in ways:
        sound(sp, view, w.elt, w.guards, w.node, 'piece between the spans')
        p = sp.text([field(sp, w.elt, a) for a in view.texts])
        if not p:
            raise Vague('a piece between the spans')
        pieces.append(Piece(p[0], p[1], w.guards, w.loops, w.node))
    errs = []
    try:
        filling(sp, view, R, pieces, conds, ob)
    except Vague as e:
        errs.append(e)
    if R[0] != 'p':
        try:
            chosen(sp, view, R, ob)
        except Vague as e:
            errs.append(e)
        for w in sp.made(core(sp, R)):
            try:
                sound(sp, view, w.elt, w.guards, w.node, 'span')
                ob('spans are where their text is')
            except Vague as e:
                errs.append(e)
    if errs:
        raise errs[0]


# -- from the eojeol to the tokens ------------------------------------------

def emits(sp, X):
    """[(term, guards, [(loop, iterable)], many, node)] in order"""
    if X[0] == 'comp' and X[1] in ('list', 'gen'):
        return [(X[4], X[3], [(L, it) for L, it in X[2]], False, None)]
    if X[0] == 'new' and X[1] == 'list':
        out = []
        for e, _, a, gs in sp.on(X):
            if e.kind in ('append', 'extend'):
                out.append((a[0], gs, [(L, sp.norm(sp.r.loops[L]['iter']) if sp.r.loops[L]['iter'] else None) for L in e.loops],
                            e.kind == 'extend', e.node))
            elif e.kind != 'print':
                raise Vague('a list changed by %s' % e.kind)
        return out
    return None


def walked(sp, L, it):
    """what loop L goes through, in its order"""
    info = sp.r.loops.get(L) or {}
    if info.get('breaks') or info.get('returns'):
        raise Vague('a walk that may stop early')
    if info.get('sorted') is not None:
        if info.get('reversed'):
            raise Vague('the order of a walk')
        t = sp.norm(info['sorted'])
        return t if core(sp, t) == core(sp, it) else ('sorted', it, t[2], t[3])
    if info.get('reversed'):
        raise Wrong('order', 'the pieces are gone through from the end', info.get('node'))
    return it


def too_long(g, node):
    """whether g holds for every eojeol; Wrong if it leaves out eojeols by their length"""
    if g[0] != 'cmp' or ('len', W) not in g[2:4] or not any(x[0] == 'c' for x in g[2:4]):
        return False
    o = Order()
    o.say(cmp('<=', c(1), ('len', W)))
    o.close()
    if o.holds(g) is True:
        return True
    raise Wrong('dropped', 'an eojeol is left out for its length', node)


def kept(sp, guards, m, texts, node):
    """only empty pieces are dropped"""
    for g in guards:
        if too_long(g, node):
            continue
        if g == W or g in texts or g == m:
            continue
        if g[0] == 'cmp':
            sides = g[2:4]
            if g[1] == '!=' and c('') in sides and any(x in texts for x in sides):
                continue
            if g[1] in ('<', '<=', '!=') and any(('len', t) in walk(g) for t in texts):
                o = Order()
                for t in texts:
                    o.say(cmp('<=', c(1), ('len', t)))
                o.close()
                if o.holds(g) is True:
                    continue
                if o.holds(g) is False:
                    raise Wrong('dropped', 'pieces that are not empty are dropped', node)
            if any(y == m for y in walk(g)) and not any(y[0] in ('call', 'gencall') for y in walk(g)):
                raise Wrong('dropped', 'pieces are dropped on a condition', node)
        if g[0] in ('attr', 'item') and g[1] == m and g not in texts or \
                g[0] == 'not' and g[1][0] in ('attr', 'item') and g[1][1] == m:
            raise Wrong('dropped', 'pieces are dropped on a condition', node)
        h = g[1] if g[0] == 'not' else g
        if h[0] == 'call' and W in walk(h) and h[1][0] == 'attr' and not any(y == m for y in walk(h)):
            raise Wrong('dropped', 'an eojeol is left out on a condition', node)
        raise Vague('the condition under which a piece is kept')


def spelled(F):
    """the text of a token (text, tag)"""
    return F[1][0] if F[0] == 'tuple' and len(F[1]) == 2 else F


def pulled(sp, loops, emitted, record=None):
    """(list, accessors) of what is emitted while going through a list of pieces; accessors None: the pieces themselves"""
    L, it = loops[0]
    if it is None:
        raise Vague('how the pieces are gone through')
    T = walked(sp, L, it)
    m = ('elem', it, L)
    accs, took = [], []
    for F, gs, more, node in emitted:
        if more:
            it2 = more[0][1]
            if len(more) > 1 or it2 is None or it2[0] not in ('list', 'tuple'):
                raise Vague('what is taken of each piece')
            walked(sp, more[0][0], it2)
            inner = ('elem', it2, more[0][0])
            items = [(sp.put(F, {inner: x}), tuple(sp.put(g, {inner: x}) for g in gs)) for x in it2[1]]
        else:
            items = [(F, gs)]
        for F1, g1 in items:
            t = spelled(F1) if F1 != m else F1
            if t == m:
                acc = None
                kept(sp, g1, m, [m] + ([field(sp, m, record)] if record else []), node)
            elif t[0] in ('item', 'attr') and t[1] == m:
                acc = ('item', t[2][1]) if t[0] == 'item' else ('attr', t[2])
                kept(sp, g1, m, [t], node)
            elif t == c(''):
                continue
            else:
                raise Vague('what is taken of each piece')
            if acc in accs:
                if any(neg(g) in g0 for g in g1 for a0, g0 in took if a0 == acc):
                    raise Vague('pieces taken in two ways')
                raise Wrong('dropped', 'a piece is taken twice', node)
            took.append((acc, g1))
            accs.append(acc)
    if not accs or None in accs and len(accs) > 1:
        raise Vague('what is taken of each piece')
    return T, None if accs == [None] else accs


def stream(sp, X, record=None):
    """(T, accessors): the list of pieces of one eojeol and what is taken of each"""
    if X[0] == 'listof':
        X = X[1]
    es = emits(sp, X) if X[0] in ('comp', 'new') else None
    if es and all(e[2] and not e[3] for e in es):
        outer = X[1] == 'list' and X[0] == 'new'
        first = [e[2] for e in es]
        if outer:
            # loops of the method around the list do not count
            common = [p for p in first[0] if p[1] is not None and ('L', p[0][1]) and p[0][1] < X[2]]
            first = [[p for p in ls if p not in common] for ls in first]
        if all(ls for ls in first) and len({ls[0] for ls in first}) == 1 and first[0][0][1] is not None \
                and not any(y[0] in ('popped', 'phi') for e in es for y in walk(e[0])):
            src = first[0][0]
            m = ('elem', src[1], src[0])
            if all(spelled(e[0]) == m or spelled(e[0])[0] in ('item', 'attr', 'elem') and m in walk(spelled(e[0])) for e in es):
                return pulled(sp, [src], [(e[0], e[1], ls[1:], e[4]) for e, ls in zip(es, first)], record)
    return X, None


def sentence(sp, X, split, record=None):
    """(T, accessors) for the tokens of a sentence"""
    es = emits(sp, X)
    if not es or not all(e[2] for e in es) or len({e[2][0] for e in es}) != 1:
        raise Vague('how the tokens are collected')
    L, it = es[0][2][0]
    if it is None:
        raise Vague('how the sentence is gone through')
    if walked(sp, L, it) != split:
        w = walked(sp, L, it)
        if split in walk(w) and w[0] in ('sorted', 'reversed', 'setof', 'slice'):
            raise Wrong('order', 'the eojeols of a sentence are not taken as they stand')
        raise Vague('how the sentence is gone through')
    if all(len(e[2]) == 1 for e in es):
        if len(es) > 1:
            T = ('list', tuple(e[0] for e in es))
            for e in es:
                kept(sp, e[1], T, [e[0]], e[4])
            return T, None
        F, gs = es[0][0], es[0][1]
        for g in gs:
            if g != W and g != F and not too_long(g, es[0][4]):
                h = g[1] if g[0] == 'not' else g
                if len(es) == 1 and h[0] == 'call' and W in walk(h) and h[1][0] == 'attr':
                    raise Wrong('dropped', 'an eojeol is left out on a condition', es[0][4])
                raise Vague('the condition under which an eojeol is kept')
        return stream(sp, F, record)
    if all(len(e[2]) >= 2 for e in es) and len({e[2][1] for e in es}) == 1 and not any(e[3] for e in es):
        T, accs = pulled(sp, [es[0][2][1]], [(e[0], e[1], e[2][2:], e[4]) for e in es], record)
        T2, accs2 = stream(sp, T, None) if accs is None else (T, None)
        return (T2, accs2) if accs is None and accs2 is not None else (T, accs)
    raise Vague('how the tokens are collected')
