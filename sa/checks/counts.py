"""C22: every occurrence is counted once, at the key it belongs to, with its own multiplicity."""
import ast
import re

from ..loader import Program, where, enclosing
from ..report import Report
from ..terms import Reader, COPIES, walk, subst, lin, sub, add, neg, cmp, c, canon
from .spans import Vague, Wrong, SELF, NONE
from .tokens import Obligations

WRAPS = ('listof', 'tupleof', 'iter', 'copy', 'copy2', 'deepcopy')
CHANGES = ('lower', 'upper', 'title', 'strip', 'lstrip', 'rstrip', 'replace', 'capitalize', 'swapcase', 'casefold')


def modern(t):
    """what is evaluated by this version of the language"""
    m = {}
    for x in walk(t):
        if x[0] == 'ite' and 'version_info' in repr(x[1]) and x[1][0] == 'cmp':
            old = x[1][1] == '==' and x[1][3] == c(2) or x[1][1] in ('<', '<=') and x[1][3] in (c(2), c(3))
            m[x] = modern(x[3] if old else x[2])
    return subst(t, m) if m else t


def renumbered(t):
    """the same whichever loop it is made in"""
    m = {}
    for x in walk(t):
        if x[0] == 'L' and len(x) == 2:
            m.setdefault(x, ('L', -1 - len(m)))
    return subst(t, m) if m else t


class Site:
    def __init__(self, root, keys, amount, guards, loops, node):
        self.root, self.keys, self.amount, self.guards, self.loops, self.node = root, keys, amount, guards, loops, node


class Counts:
    def __init__(self, prog, r, corpus, given_one=(), amount_one=None):
        self.prog, self.r, self.corpus = prog, r, corpus
        self.given_one, self.amount_one = given_one, amount_one
        self.sites = []
        self.starts = {}
        self.collect()

    # -- the containers -------------------------------------------------------
    def roots(self, t, seen=()):
        """the new dicts t may be, after any number of rounds and of removals by a limit"""
        t = modern(t)
        if t in seen:
            return set()
        seen += (t,)
        h = t[0]
        if h == 'new':
            out = {t}
            made = self.r.made.get(t)
            if made:
                for a in made[0]:
                    if a[0] in ('attr', 'phi', 'out', 'new', 'comp', 'ite', 'copy'):
                        out |= self.roots(a, seen)
            return out
        if h in COPIES or h in WRAPS:
            return self.roots(t[1], seen)
        if h == 'ite':
            return self.roots(t[2], seen) | self.roots(t[3], seen)
        if h in ('phi', 'out') and t[1] in self.r.loops:
            info = self.r.loops[t[1]]
            out = set()
            for src in (info['init'], info['step']):
                if t[2] in src:
                    out |= self.roots(src[t[2]], seen)
            if t[2] not in info['init'] and isinstance(t[2], tuple) and len(t[2]) == 2:
                out.add(('attr',) + t[2])
            return out
        if h == 'choice':
            return set().union(*[self.roots(x, seen) for x in t[1]])
        if h == 'comp' and t[1] == 'dict' and len(t[2]) == 1:
            it = t[2][0][1]
            if it[0] in ('keys', 'items', 'sorted'):
                m = it[1] if it[0] != 'sorted' else it[1][1] if it[1][0] in ('keys', 'items') else None
                if m is not None:
                    self.same_counts(t, m)
                    return self.roots(m, seen)
        if h in ('attr', 'p', 'counter'):
            return {t}
        if h == 'item':
            return {('item', x, t[2]) for x in self.roots(t[1], seen)}
        return {('?', t)}

    def same_counts(self, t, m):
        L = t[2][0][0]
        e = t[4]
        if e[0] == 'tuple' and len(e[1]) == 2:
            k, v = e[1]
            val = ('item', m, ('key', m, L))
            if v != val:
                d = lin(sub(v, val))
                if not d[1] and d[0] or v[0] == 'c' or set(lin(v)[1]) == {val}:
                    raise Wrong('kept', 'counts are changed when rare entries are removed')
            if k != ('key', m, L) and k[0] == 'slice':
                raise Wrong('kept', 'keys are changed when rare entries are removed')

    # -- the updates ----------------------------------------------------------
    def collect(self):
        r = self.r
        for e in r.effects:
            if e.kind == 'inc':
                self.site(e.target, (e.args[0],), e.args[1], e.guards, e.loops, e.node)
            elif e.kind == 'store' and len(e.args) == 2:
                self.stored(e)
            elif e.kind == 'update' and e.target[0] == 'new' and e.target[1] == 'counter' and len(e.args) == 1:
                self.tokens_of(e.target, e.args[0], e.guards, e.loops, e.node)
        seen = set()
        for t in [x for e in r.effects for a in tuple(e.args) + (e.target,) + tuple(e.guards) if isinstance(a, tuple) for x in walk(a)] + \
                [x for i in r.loops.values() if i.get('iter') for x in walk(i['iter'])] + \
                []:
            if t[0] == 'counter' and renumbered(t) not in seen:
                seen.add(renumbered(t))
                self.tokens_of(t, t[1], (), (), None)

    def tokens_of(self, root, it, guards, loops, node):
        it = modern(it)
        if it[0] == 'comp' and it[1] in ('gen', 'list'):
            self.sites.append(Site({root}, (it[4],), c(1), tuple(guards) + tuple(it[3]), tuple(loops) + tuple(it[2]), node))
        elif it[0] == 'comp' and it[1] == 'set' or it[0] in ('setof', 'set'):
            raise Wrong('once', 'what occurs more than once is counted only once', node)
        else:
            L = ('L*', len(self.sites))
            M = it[1] if it[0] in ('keys', 'items') else it
            if it[0] == 'keys':
                k, a = ('key', M, L), c(1)
            elif M[0] in ('counter', 'dict') or M[0] == 'new' and M[1] in ('dict', 'ddict', 'counter') or M[0] == 'comp' and M[1] == 'dict':
                k, a = ('key', M, L), ('item', M, ('key', M, L))
            else:
                k, a = ('elem', it, L), c(1)
            self.sites.append(Site({root}, (k,), a, tuple(guards), tuple(loops) + ((L, ('keys', M) if k[0] == 'key' else it),), node))

    def site(self, target, keys, amount, guards, loops, node):
        roots = set()
        for x in self.roots(target):
            path = ()
            while x[0] == 'item':
                path = (x[2],) + path
                x = x[1]
            roots.add((x, path))
        paths = {p for _, p in roots}
        if len(paths) != 1:
            return
        path = paths.pop()
        self.sites.append(Site({x for x, _ in roots}, tuple(modern(k) for k in path + keys), modern(amount),
                               tuple(modern(g) for g in guards), tuple(loops), node))

    def stored(self, e):
        """a count that is set, not added to"""
        k, v = modern(e.args[0]), modern(e.args[1])
        t = modern(e.target)
        if v[0] in ('new', 'list', 'dict', 'comp', 'tuple', 'c') and v != c(1):
            if not (v[0] == 'c' and isinstance(v[1], int)):
                return
        old = [x for x in walk(v) if x[0] in ('get', 'item') and x[2] == k and self.roots(x[1]) & self.roots(t)]
        if old:
            x = old[0]
            if x[0] == 'get' and len(x) > 3 and x[3][0] == 'c' and isinstance(x[3][1], int) and x[3][1] != 0:
                self.site(e.target, (e.args[0],), c(1), e.guards, e.loops, e.node)
                self.sites[-1].keys = self.sites[-1].keys
                self.starts[id(self.sites[-1])] = x[3]
            return
        fresh = any(g == cmp('notin', k, t) or g == neg(cmp('in', k, t)) for g in map(modern, e.guards))
        if fresh and v == c(0):
            return                                     # the count is there before it is added to
        s = len(self.sites)
        self.site(e.target, (e.args[0],), e.args[1], e.guards, e.loops, e.node)
        for x in self.sites[s:]:
            x.stored = 'fresh' if fresh else 'set'

    # -- what is counted ------------------------------------------------------
    def occurrence(self, k):
        T, L = k.base if k.base else (k.given[-1][1], k.given[-1][2])
        if k.given and k.given[-1][2] == L:
            return k.given[-1]
        return ('elem', T, L)

    def iters(self, site):
        out = []
        for x in site.loops:
            if len(x) == 2 and isinstance(x[0], tuple):
                out.append((x[0], modern(x[1])))
            else:
                it = self.r.loops[x].get('iter')
                out.append((x, modern(it) if it is not None else None))
        return out


def through(it):
    """what is gone through, whatever the order"""
    while it is not None and it[0] in ('sorted', 'reversed') + WRAPS:
        it = it[1]
    return it


def shifted(X):
    """(T, k): the elements of X are those of T, k further on (round about)"""
    X = through(X)
    if X[0] == 'slice' and len(X) >= 5 and X[4][0] == 'c' and isinstance(X[4][1], int) and abs(X[4][1]) > 1:
        raise Wrong('missed', 'only every %d. occurrence is counted' % abs(X[4][1]))
    if X[0] == 'slice' and len(X) >= 4:
        lo, hi = X[2], X[3]
        if lo[0] == 'c' and isinstance(lo[1], int) and lo[1] >= 0 and (hi == NONE or hi[0] == 'c' and isinstance(hi[1], int) and hi[1] < 0):
            T, k = shifted(X[1])
            return T, k + lo[1]
        return X, 0
    if X[0] == 'bin' and X[1] == '+':
        a, b = through(X[2]), through(X[3])
        if a[0] == 'slice' and a[2] == c(1) and a[3] == NONE and b[0] in ('list', 'tuple') and b[1] == (('item', a[1], c(0)),):
            return a[1], 1
        if a[0] == 'slice' and a[2] == c(1) and a[3] == NONE and b[0] == 'slice' and b[1] == a[1] and b[2] == c(0) and b[3] == c(1):
            return a[1], 1
        if b[0] == 'slice' and b[2] == c(0) and b[3] == c(-1) and a[0] in ('list', 'tuple') and a[1] == (('item', b[1], c(-1)),):
            return b[1], -1
        if b[0] == 'slice' and b[2] == c(0) and b[3] == c(-1) and a[0] == 'slice' and a[1] == b[1] and a[2] == c(-1) and a[3] == NONE:
            return b[1], -1
        for x, y in ((a, b), (b, a)):
            if x[0] == 'slice' and y[0] in ('list', 'tuple') and len(y[1]) == 1 and y[1][0][0] == 'item' and y[1][0][1] == x[1] and \
                    y[1][0][2][0] == 'c' and all(z[0] == 'c' for z in x[2:4]) and (x is a and x[3] == NONE or x is b and x[2] == c(0)):
                raise Wrong('place', 'what stands at the end is given a neighbour from the wrong end')
    return X, 0


def fewer(X):
    """how many items less than what it is a part of a slice has"""
    X = through(X)
    if X[0] == 'slice' and len(X) >= 4 and X[2][0] == 'c' and isinstance(X[2][1], int) and X[2][1] >= 0 and (
            X[3] == NONE or X[3][0] == 'c' and isinstance(X[3][1], int) and X[3][1] < 0):
        return X[2][1] - (X[3][1] or 0) + fewer(X[1])
    return 0


class Kind:
    """what a key is of the occurrence it is made for"""

    def __init__(self, counts, site):
        self.co, self.site = counts, site
        self.iters = counts.iters(site)
        self.ids = [L for L, _ in self.iters]
        self.base = None             # (what is gone through, loop)
        self.cuts = {}               # loop -> (range, how it is used)
        self.given = []              # (counts, key) pairs whose count applies
        self.cut_off = {}            # loop -> (places shifted, items less) of each series it goes through
        self.used = set()
        self.text = '/'.join(self.kind(k) for k in site.keys)

    def at(self, T, L, off):
        T = through(T)
        if self.base is None:
            self.base = (T, L)
        elif self.base != (T, L):
            raise Vague('keys made of more than one occurrence')
        self.used.add(L)
        if off == 0:
            return 'o'
        if isinstance(off, int):
            return 'next' if off == 1 else 'prev' if off == -1 else 'o%+d' % off
        return off

    def occ(self, x):
        """the occurrence x stands for, or None"""
        for o in self.co.given_one:
            if x == o:
                return 'o'
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] in ('strip', 'lstrip', 'rstrip') and x[2] in ((), (NONE,)):
            return self.occ(x[1][1])                   # has no space around it
        if x[0] == 'elem' and x[2] in self.ids:
            T, k = shifted(x[1])
            if isinstance(k, int):
                self.cut_off.setdefault(x[2], set()).add((k, fewer(x[1])))
            if self.site.amount == ('item', x[1], x) or x[1][0] == 'new' and x[1][1] in ('dict', 'ddict', 'counter'):
                self.given.append(x)
            if x[1][0] == 'key':
                self.occ(x[1])
                self.used.add(x[2])
                return 'part'
            return self.at(T, x[2], k)
        if x[0] == 'key' and x[2] in self.ids:
            M = x[1]
            self.used.add(x[2])
            if M[0] == 'item' and M[2][0] == 'key' and M[2][2] in self.ids:
                self.given.append(x)
                self.used.add(M[2][2])
                return 'inner'
            self.given.append(x)
            inner = any(y[0] == 'keys' and y[1][0] == 'item' and y[1][2] == x for _, y in self.iters if y is not None)
            if inner:
                return 'outer'
            return self.at(M, x[2], 0)
        if x[0] == 'item' and x[2][0] == 'bin' and x[2][1] == '%' and x[2][3] == ('len', x[1]) and x[2][2][0] in ('rng', 'lin'):
            x = ('item', x[1], x[2][2])
        if x[0] == 'item' and x[2][0] in ('rng', 'lin'):
            k, d = lin(x[2])
            mine = [y for y in d if y[0] == 'rng' and y[3] in self.ids]
            T = through(x[1])
            pos = [y for y in mine if d[y] == 1 and y[1] == c(0) and any(
                z == ('len', T) for z in walk(y[2]))]
            if len(pos) == 1:
                rest = sub(x[2], pos[0])
                if rest[0] == 'c':
                    return self.at(T, pos[0][3], rest[1])
                kk, dd = lin(rest)
                if len(dd) == 1:
                    (w, n), = dd.items()
                    if w[0] == 'rng' and w[3] in self.ids and abs(n) == 1:
                        self.used.add(w[3])
                        self.cuts[w[3]] = (w, 'window', n, kk)
                        self.at(T, pos[0][3], 0)
                        if w[1] == c(0) and kk == n or w[1] == c(1) and kk == 0:
                            return 'left' if n < 0 else 'right'
                        if w[1][0] == 'c':
                            return 'near(%+d%+d)' % (n * w[1][1] + kk, n)
            return None
        return None

    def cut(self, i, n):
        """i = n * (counter) + const: registers the counter, gives the const"""
        k, d = lin(i)
        if len(d) == 1:
            (w, m), = d.items()
            if w[0] == 'rng' and w[3] in self.ids and m == n:
                self.used.add(w[3])
                return w, k
        return None

    def kind(self, x):
        o = self.occ(x)
        if o:
            return o
        h = x[0]
        if h == 'slice' and len(x) >= 4:
            o = self.occ(x[1])
            if o and (len(x) < 5 or x[4] in (NONE, c(1))):
                lo, hi = x[2], x[3]
                if lo == c(0) or lo == NONE:
                    w = self.cut(hi, 1)
                    if w:
                        self.cuts[w[0][3]] = (w[0], 'prefix', 1, w[1])
                        return o + '[:i]'
                    if hi == c(1):
                        return o + '[0]'
                if hi == NONE:
                    w = self.cut(lo, 1)
                    if w:
                        self.cuts.setdefault(w[0][3], (w[0], 'rest', 1, w[1]))
                        return o + '[i:]'
                    w = self.cut(lo, -1) or self.cut(sub(lo, ('len', x[1])), -1)
                    if w:
                        self.cuts[w[0][3]] = (w[0], 'suffix', -1, w[1])
                        return o + '[-i:]'
                    if lo == c(-1):
                        return o + '[-1]'
                if all(y[0] == 'c' for y in (lo, hi)):
                    return o + '[%s:%s]' % (lo[1], hi[1])
                w = self.cut(lo, 1) or self.cut(lo, -1) or self.cut(hi, 1) or self.cut(hi, -1)
                if w:
                    return o + '[cut]'
            raise Vague('a key')
        if h == 'item':
            o = self.occ(x[1])
            if o and x[2][0] == 'c':
                return o + '[%s]' % x[2][1]
        if h == 'tuple':
            return '(' + ','.join(self.kind(y) for y in x[1]) + ')'
        if h in ('str', 'cat'):
            out = ''
            for y in x[1]:
                out += y[1] if y[0] == 'c' and isinstance(y[1], str) else self.kind(y[1]) if y[0] == 'fmt' and not y[2] else self.kind(y)
            return out
        if h == 'call' and x[1][0] == 'attr' and x[1][2] in CHANGES:
            inner = self.kind(x[1][1])
            return inner if x[1][2] in ('strip', 'lstrip', 'rstrip') and x[2] in ((), (NONE,)) else inner + '.' + x[1][2]
        if h == 'bin' and x[1] == '+' or h == 'lin':
            if h == 'bin':
                return self.kind(x[2]) + '+' + self.kind(x[3])
        if h == 'c':
            return repr(x[1])
        raise Vague('a key')


def grouped(co):
    out = {}
    for s in co.sites:
        root = frozenset(x for x in s.root if not (x[0] == 'new' and co.r.made.get(x) and co.r.born.get(x))) or frozenset(s.root)
        out.setdefault((root, len(s.keys)), []).append(s)
    # the same dict is named with more or fewer of what it may be
    merged = []
    for (root, n), ss in out.items():
        for m in merged:
            if m[1] == n and m[0] & root:
                m[0] |= root
                m[2].extend(ss)
                break
        else:
            merged.append([set(root), n, list(ss)])
    return merged


def mode(co, k):
    """'all': an occurrence adds what it stands for; 'once': it adds 1 whatever it stands for"""
    s = k.site
    a = s.amount
    expect = c(1)
    if k.given:
        x = k.given[-1]
        expect = ('item', x[1], x)
    if co.amount_one is not None and not k.given and k.base is None:
        expect = co.amount_one
    settish = k.base is not None and k.base[0][0] == 'setof'
    for L, it in k.iters:
        if co.r.loops.get(L, {}).get('distinct') and L not in k.cuts and (it is None or it[0] != 'keys'):
            settish = True
    if a == expect and any(w[1] == 'window' for w in k.cuts.values()):
        raise Wrong('amount', 'a neighbour adds 1, whatever its distance', s.node)
    if a == expect:
        return 'once' if settish else 'all'
    if a == c(1) and k.given:
        return 'once'
    if a[0] == 'c':
        raise Wrong('amount', 'an occurrence adds %r' % (a[1],), s.node)
    d = sub(a, expect)
    if d[0] == 'c':
        raise Wrong('amount', 'an occurrence adds %r more than it stands for' % (d[1],), s.node)
    if expect == c(1) and any(w[0][0] == 'rng' and ('item' == a[0] and w[0] in walk(a)) for w in k.cuts.values()):
        w = next(w for w in k.cuts.values() if w[1] == 'window') if any(w[1] == 'window' for w in k.cuts.values()) else None
        if w is not None and a[0] == 'item':
            back = sub(a[2], w[0])
            want = neg_int(w[0][1])
            if back == want:
                return 'all'
            if back[0] == 'c':
                raise Wrong('amount', 'the weight is that of another distance', s.node)
            if lin(a[2])[1].get(w[0], 0) < 0:
                for y in walk(a[1]):
                    if y[0] == 'comp' and y[1] == 'list' and len(y[2]) == 1 and y[4][0] == 'bin' and y[4][1] == '/':
                        n_ = [m for z, m in lin(y[4][2])[1].items() if z[0] == 'rng']
                        if len(n_) == 1 and n_[0] < 0:
                            raise Wrong('amount', 'far neighbours weigh more than near ones', s.node)
    neg_ = lin(a)
    if expect in neg_[1] and neg_[1][expect] != 1 and len(neg_[1]) == 1 and not neg_[0]:
        raise Wrong('amount', 'an occurrence adds %d times what it stands for' % neg_[1][expect], s.node)
    if k.given and a[0] == 'item' and a != expect:
        raise Wrong('amount', 'what is added is the count of something else', s.node)
    raise Vague('what is added')


def neg_int(x):
    return c(-x[1]) if x[0] == 'c' and isinstance(x[1], int) else ('?',)


FROM_ONE = {'prefix': 'the first', 'rest': 'the first', 'suffix': 'the last'}


def cuts_complete(co, k, whole=()):
    """each cut counter starts at one character and goes on to the whole occurrence or a limit"""
    for L, ends in k.cut_off.items():
        far = max(a for a, _ in ends)
        if len(ends) > 1 and min(a for a, _ in ends) == 0 and max(b for _, b in ends) > far:
            raise Wrong('missed', 'the last ones next to each other are not counted', k.site.node)
    for L, (w, how, n, const) in k.cuts.items():
        if how == 'window':
            if w[1] != c(0) and w[1] != c(1):
                if w[1][0] == 'c':
                    raise Wrong('missed', 'what stands next to an occurrence is not counted', k.site.node)
                raise Vague('where a window starts')
            continue
        lo = add(w[1], c(const)) if how != 'suffix' else sub(w[1], c(const))
        hi = add(w[2], c(const)) if how != 'suffix' else sub(w[2], c(const))
        if lo[0] == 'max' and how in ('prefix', 'rest') and c(1) in lo[1] and len(lo[1]) == 2 and const == 0 and any(
                y[0] == 'lin' and any(z[0] == 'len' and n_ == 1 for z, n_ in lin(y)[1].items()) and len(lin(y)[1]) == 2 for y in lo[1]):
            lo = c(1)                                  # a limit on the rest
        if lo != c(1):
            if lo[0] == 'c' and isinstance(lo[1], int):
                raise Wrong('missed', 'pieces of one character are not counted' if lo[1] > 1 else 'a piece without text is counted', k.site.node)
            raise Vague('where cuts start')
        kk, d = lin(hi)
        if len(d) == 1:
            (m, j), = d.items()
            if j == 1 and (m[0] == 'min' or m[0] in ('len', 'p', 'attr')):
                if m[0] == 'min':
                    for x in m[1]:
                        kx, dx = lin(x)
                        if len(dx) == 1 and list(dx.items())[0][1] == 1 and list(dx)[0][0] == 'len' and kx < 0:
                            kk = min(kk, kk + kx)
                if how in ('prefix', 'rest') and kk == 0 and k.text.replace('[:i]', '') in whole:
                    continue
                if how in ('prefix', 'rest') and kk < 1:
                    raise Wrong('missed', 'the longest piece is not counted', k.site.node)
                if how == 'suffix' and kk < 0:
                    raise Wrong('missed', 'the longest pieces are not counted', k.site.node)
                for x in m[1] if m[0] == 'min' and how in ('prefix', 'suffix') else ():
                    kx, dx = lin(x)
                    if len(dx) == 1 and list(dx.values()) == [1] and list(dx)[0][0] in ('p', 'attr') and lin(hi)[0] + kx - 1 < 0:
                        raise Wrong('missed', 'the pieces just as long as the limit are not counted', k.site.node)
                if kk > 1 and m[0] == 'min':
                    raise Wrong('once', 'the longest piece is counted more than once', k.site.node)
                continue
        raise Vague('where cuts end')


def passes(co, k, spec):
    """every loop around goes through all of what is there"""
    s = k.site
    for L, it in k.iters:
        info = co.r.loops.get(L)
        if it is None:
            raise Vague('a loop without end')
        t = through(it)
        if L in k.cuts:
            used = True
        else:
            used = L in k.used or any(y[0] in ('elem', 'key') and y[2] == L or y[0] == 'rng' and y[3] == L
                                      for x in s.keys + tuple(i for _, i in k.iters if i is not None) for y in walk(x)) or \
                any(y[0] == 'new' and L in set(co.r.born.get(y) or ()) for x in s.keys for y in walk(x))
            if not used:
                if t[0] == 'range':
                    raise Wrong('once', 'an occurrence is counted over and over', s.node)
                raise Vague('a loop that has nothing to do with what is counted')
        if info and L not in k.cuts and (info['breaks'] or info.get('returns')):
            raise Wrong('missed', 'counting stops before all is counted', info.get('node') if isinstance(info.get('node'), ast.AST) else s.node)
        if info and L in k.cuts and (info['breaks'] or info.get('returns')):
            stops(co, k, L, info)
        if t[0] == 'slice':
            T, n = shifted(t)
            if T != t:
                raise Wrong('missed', 'not all occurrences are gone through', s.node)
            if all(y[0] == 'c' for y in t[2:4]):
                raise Wrong('missed', 'not all occurrences are gone through', s.node)
            raise Vague('what is gone through')
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'split':
            if t[2] and t[2][0] != NONE or len(t[2]) > 1 or t[3]:
                raise Wrong('missed', 'text is not cut at every space', s.node)
        if t[0] == 'range' and L in k.used and L not in k.cuts:
            if t[1] != c(0):
                if t[1][0] == 'c':
                    raise Wrong('missed', 'not all occurrences are gone through', s.node)
                raise Vague('what is gone through')
            if k.base:
                d = sub(t[2], ('len', k.base[0]))
                room = -1 if any(x in k.text for x in ('next', 'prev')) else 0
                if d[0] != 'c':
                    raise Vague('what is gone through')
                if d[1] < room:
                    raise Wrong('missed', 'not all occurrences are gone through', s.node)
        if t[0] == 'comp' and t[3]:
            for g in t[3]:
                check_guard(co, k, modern(g), spec, {L0 for L0, _ in t[2]})


def stops(co, k, L, info):
    """a loop over cuts is left early"""
    w, how, n, const = k.cuts[L]
    for st in info.get('breakstates') or []:
        for g in st.guards:
            g = modern(g)
            if g[0] == 'cmp' and g[1] in ('<', '<='):
                d = sub(g[3], g[2])             # 0 <= d
                if d[0] == 'lin' or d[0] == 'rng':
                    m = dict(lin(d)[1]).get(w)
                    if m is not None and m < 0 and how != 'window':
                        raise Wrong('missed', 'counting stops at a cut before the last', k.site.node)
    if any(y[0] == 'rng' and y == w for st in info.get('breakstates') or [] for g in st.guards for y in walk(modern(g))):
        for st in info.get('breakstates') or []:
            for g in st.guards:
                for y in walk(modern(g)):
                    if y[0] == 'len' and y[1][0] == 'slice' and y[1][3] == NONE and lin(y[1][2])[1].get(w) == 1 and \
                            g[0] == 'cmp' and g[3] != y and y in walk(g[3]):
                        raise Wrong('missed', 'counting stops at a cut whose rest is too long, though later rests are shorter', k.site.node)
    if how == 'window':
        ends = []
        for st in info.get('breakstates') or []:
            own = [modern(g) for g in st.guards]
            own = [g for g in own if any(y == w for y in walk(g))]
            ends.append(len(own) == 1 and own[0][0] == 'cmp' and own[0][1] in ('<', '<=') and
                        lin(sub(own[0][3], own[0][2]))[1].get(w, 0) > 0)
        if ends and all(ends):
            return                                     # there is nothing beyond
    for st in info.get('breakstates') or []:
        own = [modern(g) for g in st.guards]
        own = [g for g in own if any(y == w for y in walk(g))]
        if len(own) != 1:
            for g in own:
                if g[0] == 'cmp' and g[1] == 'notin' and g[2][0] == 'slice' and g[2][3] == NONE and lin(g[2][2])[1].get(w) == 1:
                    raise Wrong('missed', 'counting stops at a cut whose rest is too rare, though shorter rests are more frequent', k.site.node)
            continue
        for g in (own[0][1] if own[0][0] in ('or', 'and') else own):
            rest = [y for y in walk(g) if y[0] == 'slice' and y[3] == NONE and lin(y[2])[1].get(w) == 1]
            if rest and g[0] == 'cmp' and g[1] == 'notin' and g[2] in rest:
                raise Wrong('missed', 'counting stops at a cut whose rest is too rare, though shorter rests are more frequent', k.site.node)
            if rest and g[0] == 'cmp' and g[1] in ('<', '<='):
                d = lin(sub(g[3], g[2]))[1]
                if any(y[0] == 'len' and y[1] in rest and n > 0 for y, n in d.items()):
                    raise Wrong('missed', 'counting stops at a cut whose rest is too long, though later rests are shorter', k.site.node)
            if how == 'window' and g[0] == 'cmp' and g[1] == 'notin' and any(y == w for y in walk(g[2])):
                raise Wrong('missed', 'counting stops at a neighbour that is not counted, though there are others behind it', k.site.node)
    raise Vague('a loop over cuts that is left early')


def own_guard(co, k, g):
    s = k.site
    return g[0] == 'cmp' and g[1] in ('in', 'notin') and g[2] == s.keys[-1] and (
        len(s.keys) == 1 and co.roots(g[3]) & s.root or
        len(s.keys) == 2 and g[3][0] == 'item' and g[3][2] == s.keys[0] and co.roots(g[3][1]) & s.root)


def at_limit(g, text, node):
    """a limit on the length of a text leaves out the longer ones only"""
    if g[1] not in ('<', '<='):
        return
    k, d = lin(sub(g[3], g[2]))
    if d.pop(('len', text), None) != -1 or len(d) != 1:
        return
    (m, n), = d.items()
    if n != 1 or m[0] not in ('p', 'attr'):
        return
    off = k - (g[1] == '<')
    if off < 0:
        raise Wrong('missed', 'what is just as long as the limit is not counted', node)
    if off > 0:
        raise Wrong('limit', 'what is longer than the limit is counted', node)


def check_guard(co, k, g, spec, also=()):
    s = k.site
    ids = set(k.ids) | set(also)
    bound = [y for y in walk(g) if y[0] in ('elem', 'key') and y[2] in ids or y[0] == 'rng' and y[3] in ids]
    if not bound:
        # what was counted so far
        if any(y[0] in ('phi', 'out') and y[1] in ids for y in walk(g)) and not any(y[0] == 'attr' and y[2] in ('verbose',) for y in walk(g)):
            raise Vague('a condition on what was done before')
        return
    if g[0] == 'and':
        for x in g[1]:
            check_guard(co, k, x, spec, also)
        return
    if any(co.roots(y[1]) & s.root for y in walk(g) if y[0] in ('get', 'item') and y[1][0] in ('new', 'phi', 'attr')) or \
            g[0] == 'cmp' and g[1] in ('in', 'notin') and g[3][0] in ('new', 'phi', 'ite', 'item') and co.roots(g[3]) & {
                ('item', x, s.keys[0]) for x in s.root} | co.roots(g[3]) & s.root:
        if getattr(s, 'stored', None) == 'fresh' or g[0] == 'cmp' and g[1] in ('in', 'notin'):
            return                                     # judged together with the other branch
        raise Vague('a condition on the count itself')
    if g[0] == 'or':
        if any(not any(y in bound for y in walk(x)) for x in g[1]):
            return                                     # an option
        if any(neg(x)[0] == 'slice' and neg(x)[3] == NONE or x[0] == 'cmp' and x[1] == '==' and c('') in x[2:4] and any(
                y[0] == 'slice' and y[3] == NONE for y in x[2:4]) for x in g[1]):
            return                                     # a condition on the rest, if there is one
        for x in g[1]:
            try:
                return check_guard(co, k, x, spec, also)
            except (Vague, Wrong):
                pass
        raise Vague('a condition')
    if k.base is not None or k.given:
        o = co.occurrence(k)
        T = k.base[0] if k.base else None
        if g == o or g == cmp('!=', o, c('')) or g == cmp('<', c(0), ('len', o)) or g == cmp('!=', c(0), ('len', o)):
            return
        if T is not None and g == T:
            return
        if T is not None and any(y == ('len', T) for y in walk(g)) and g[0] == 'cmp' and not any(
                y[0] in ('elem', 'key', 'rng') and y in bound and (y[3] if y[0] == 'rng' else y[2]) == k.base[1] for y in walk(g)):
            pairs = any(x in k.text for x in ('next', 'prev', 'left', 'right'))
            d = sub(g[3], g[2])
            if g[1] in ('<', '<=') and sub(d, ('len', T))[0] == 'c':
                least = -sub(d, ('len', T))[1] + (1 if g[1] == '<' else 0)
                if least <= 1 or pairs and least <= 2:
                    return
                raise Wrong('missed', 'short sentences are not counted', s.node)
            if g[1] == '!=' and not pairs and any(x == c(1) for x in g[2:4]):
                raise Wrong('missed', 'short sentences are not counted', s.node)
            if g[1] == '!=' and any(x in (c(0), c(1)) for x in g[2:4]):
                return
            raise Vague('a condition on the sentence')
        if g[0] == 'cmp' and g[1] in ('<', '<=', '!=') and any(y == ('len', o) for y in walk(g)):
            d = sub(g[3], g[2])
            x = sub(d, ('len', o))
            if x[0] == 'c' and g[1] != '!=':
                least = -x[1] + (1 if g[1] == '<' else 0)
                if least <= spec.get('least', 1):
                    return
                raise Wrong('missed', 'short occurrences are not counted', s.node)
            if g[1] == '!=' and spec.get('least', 1) < 2:
                for y in g[2:4]:
                    if y[0] == 'c' and y[1] >= 1:
                        raise Wrong('missed', 'occurrences of one length are not counted', s.node)
            at_limit(g, o, s.node)
            return                                     # a limit
    if g[0] == 'cmp' and g[1] in ('in', 'notin'):
        what = g[3]
        if g[1] == 'in' and '/' in k.text and g[2][0] == 'slice' and g[2][3] == NONE and any(
                lin(g[2][2])[1].get(y[0]) == 1 for y in k.cuts.values()) and what[0] == 'comp' and what[1] in ('set', 'dict') and \
                not any(c('') in e.args for e in co.r.effects if e.kind in ('add', 'update', 'store')):
            raise Wrong('missed', 'an occurrence that is a word as a whole is not counted', s.node)
        grown = [e for e in co.r.effects if e.kind in ('add', 'append', 'store') and e.target == what and set(e.loops) & ids]
        if grown:
            if co.r.born.get(what) and set(co.r.born[what]) & ids or what[0] == 'new':
                if g[1] == 'notin':
                    raise Wrong('once', 'what occurs again is not counted again', s.node)
        return
    if k.cuts:
        # a limit on the length of a piece, or a piece that must not be empty
        pieces = [y for y in walk(g) if y[0] == 'slice']
        if g in pieces:
            if '/' in k.text and k.text.split('/')[-1].endswith('[i:]') and not spec.get('rest'):
                raise Wrong('missed', 'an occurrence that is a word as a whole is not counted', s.node)
            return
        if g[0] == 'cmp' and g[1] in ('<', '<=') and any(y[0] == 'len' and y[1] in pieces for y in walk(g)):
            y = next(y for y in walk(g) if y[0] == 'len' and y[1] in pieces)
            d = lin(sub(g[3], g[2]))
            if d[1].get(y) == 1 and len(d[1]) == 1 and -d[0] + (1 if g[1] == '<' else 0) >= 1:
                if y[1][3] == NONE and not spec.get('rest') and '/' in k.text:
                    raise Wrong('missed', 'an occurrence that is a word as a whole is not counted', s.node)
            at_limit(g, y[1], s.node)
            return
        w = [v for v in k.cuts.values() if v[1] == 'window']
        if w:
            return                                     # judged by `inside`
    rngs = [y for y in bound if y[0] == 'rng']
    if rngs and not any(y[0] in ('elem', 'key') for y in bound) and all(y[3] in k.ids and y[3] not in k.cuts for y in rngs):
        if not any(x in k.text for x in ('next', 'prev')):
            raise Wrong('missed', 'an occurrence is passed over because of its place', s.node)
    if g[0] == 'cmp' and g[1] == '<=' or g[0] == 'cmp' and g[1] == '<':
        if k.given and any(y == ('item', k.given[-1][1], k.given[-1]) for y in walk(g)):
            return                                     # a limit on the count
    raise Vague('a condition')


def inside(co, k):
    """a neighbour is looked up at a place there is"""
    if 'left' not in k.text and 'right' not in k.text:
        return
    T, L = k.base
    w = next(v for v in k.cuts.values() if v[1] == 'window')
    pos = ('rng', c(0), ('len', T), L)
    if 'right' in k.text:
        j = add(add(pos, w[0]), c(w[3]))
        for g in k.site.guards:
            for x in (g[1] if g[0] == 'and' else (g,)):
                if x[0] == 'cmp' and x[1] in ('<', '<='):
                    d = sub(sub(x[3], x[2]), sub(('len', T), j))      # len - j + d > 0 (or >= 0)
                    if d[0] == 'c' and isinstance(d[1], int) and (d[1] if x[1] == '<' else d[1] + 1) < 0:
                        raise Wrong('missed', 'what stands at the end is not counted as a neighbour', k.site.node)
        return
    j = add(pos, c(w[3])) if False else add(add(pos, ('lin', 0, ((w[0], w[2]),)) if w[2] != 1 else w[0]), c(w[3]))
    for g in k.site.guards:
        for x in (g[1] if g[0] == 'and' else (g,)):
            if x[0] == 'cmp' and x[1] in ('<', '<='):
                d = sub(sub(x[3], x[2]), j)             # j + d >= 0 (or > 0)
                if d[0] == 'c':
                    if (d[1] if x[1] == '<=' else d[1] - 1) <= 0:
                        if (d[1] if x[1] == '<=' else d[1] - 1) < 0:
                            raise Wrong('missed', 'what stands at the begin is not counted as a neighbour', k.site.node)
                        return
                    raise Wrong('place', 'what stands at the end is counted as a neighbour of what stands at the begin', k.site.node)
                    continue
                kd, dd = lin(d)
                if dd and all(y == ('len', T) and m > 0 for y, m in dd.items()):
                    raise Wrong('place', 'what stands at the end is counted as a neighbour of what stands at the begin', k.site.node)
    # a window that never reaches over the begin
    if any(y == pos or y[0] == 'min' for y in walk(w[0][2])):
        raise Vague('how far a window reaches')
    if any(w[0] in walk(g) and pos in walk(g) and not any(y[0] in ('item', 'elem') and w[0] in walk(y) for y in walk(g)) for g in k.site.guards):
        raise Vague('how far a window reaches')
    raise Wrong('place', 'what stands at the end is counted as a neighbour of what stands at the begin', k.site.node)


def fresh_start(co, group):
    """counting starts from nothing (or from what was counted before), once"""
    root, n, ss = group
    for x in root:
        if x[0] != 'new':
            continue
        made = co.r.made.get(x)
        if made:
            node = made[2]
            for _ in range(n - 1):
                a = node.args[0] if isinstance(node, ast.Call) and node.args else None
                node = a.body if isinstance(a, ast.Lambda) else None
            a = node.args[0] if isinstance(node, ast.Call) and node.args else None
            if isinstance(a, ast.Lambda) and isinstance(a.body, ast.Constant) and a.body.value != 0:
                raise Wrong('start', 'a count starts at %r' % (a.body.value,), node)
        born = set(co.r.born.get(x) or ())
        if born and not (made and made[0]):
            for s in ss:
                inner = born & {L for L, _ in co.iters(s)}
                if inner and len(root) >= 1 and any(y[0] == 'setattr' and y[1] == x for y in ()):
                    pass
                if inner:
                    raise Wrong('reset', 'what was counted before is thrown away in between', s.node)
                break
            if len(root) > 1:
                # a new empty dict in place of the old one, in a loop around the counting
                for s in ss:
                    if born & {L for L, _ in co.iters(s)}:
                        raise Wrong('reset', 'what was counted before is thrown away in between', s.node)


OWN = re.compile(r'o(\[:i\]|\[i:\]|\[-i:\])?$|(next|prev|left|right|o[+-]\d+|near|[+-]\d+[+-]\d+)(\[(0|-1)\])?$')


def mode_is(co, k, want):
    try:
        return mode(co, k) == want[k.text]
    except (Wrong, Vague):
        return False


def plain(text):
    return re.sub(r'\[[^\]]*\]', '', text)


def judge(rep, prog, label, r, fr, corpus, groups, spec, ob, given_one=(), amount_one=None):
    """groups: list of dicts kind -> mode"""
    co = Counts(prog, r, corpus, given_one, amount_one)
    found = []
    for root, n, ss in grouped(co):
        ks, why = [], None
        for s in ss:
            try:
                k = Kind(co, s)
                k.mode = None
                ks.append(k)
            except Vague as e:
                why = why or str(e)
        found.append(dict(root=root, n=n, ss=ss, ks=ks, why=why, done=False))
    errs, wrongs = [], []

    def details(f, want):
        fresh_start(co, (f['root'], f['n'], f['ss']))
        seen = {}
        for k in f['ks']:
            s = k.site
            if id(s) in co.starts:
                raise Wrong('start', 'a count starts at %r' % (co.starts[id(s)][1],), s.node)
            if getattr(s, 'stored', None) == 'set' and any(y[0] == 'get' and y[2] == s.keys[-1] for y in walk(s.amount)):
                raise Wrong('amount', 'a count goes on from another count', s.node)
            if getattr(s, 'stored', None) == 'set':
                raise Wrong('set', 'a count is set to what one occurrence adds', s.node)
            m = mode(co, k)
            if m != want[k.text]:
                raise Wrong('amount', 'an occurrence is counted once, whatever its count' if m == 'once' else
                            'what occurs in a document more than once is counted more than once', s.node)
            passes(co, k, spec)
            for g in s.guards:
                check_guard(co, k, g, spec)
            inside(co, k)
            cuts_complete(co, k, want)
            mine = [g for g in s.guards if own_guard(co, k, g)]
            if mine and getattr(s, 'stored', None) != 'fresh' and any(g[1] == 'notin' for g in mine) and not any(
                    x is not k and x.text == k.text and any(neg(g) in x.site.guards for g in mine) for x in f['ks']):
                raise Wrong('once', 'what occurs again is not counted again', s.node)
            for other in seen.get(k.text, []):
                if not any(neg(g) in other.guards for g in s.guards):
                    raise Wrong('once', 'an occurrence is counted twice', s.node)
            seen.setdefault(k.text, []).append(s)

    def attempt(f, want):
        f['done'] = True
        try:
            details(f, want)
            for kind in want:
                ob('%s (%s)' % (kind, want[kind]))
            rep.count('updates_checked', len(f['ks']))
        except Vague as e:
            errs.append(e)
        except Wrong as e:
            wrongs.append(e)

    def texts(f):
        return {k.text for k in f['ks']}
    left = []
    for want in groups:
        maybe = want.get('?')
        want = {x: m for x, m in want.items() if x != '?'}
        exact = [f for f in found if not f['done'] and not f['why'] and texts(f) == set(want)]
        if not exact and want.get('part') and len(want) == 1:
            exact = [f for f in found if not f['done'] and not f['why'] and texts(f) == {'o[0]', 'o[1]'}]
            want = dict.fromkeys(('o[0]', 'o[1]'), want['part']) if exact else want
        if not exact:
            if not maybe:
                left.append(want)
            continue
        # the one that is right, if there is one
        for f in exact:
            e0, w0 = len(errs), len(wrongs)
            attempt(f, want)
            if len(errs) == e0 and len(wrongs) == w0:
                break
            if f is not exact[-1]:
                del errs[e0:], wrongs[w0:]
                f['done'] = False
            elif maybe:
                wrongs[w0:] = [x for x in wrongs[w0:] if x.kind == 'amount']
            elif len(exact) > 1:
                # the best of them speaks
                del errs[e0:], wrongs[w0:]
                f['done'] = False
                best = max(exact, key=lambda f: sum(mode_is(co, k, want) for k in f['ks']))
                attempt(best, want)
    for want in left:
        near = [f for f in found if not f['done'] and texts(f) & set(want)]
        same = [f for f in found if not f['done'] and f['n'] == max(x.count('/') for x in want) + 1 and f['ks']]
        if len(same) > 1:
            same = [f for f in same if {plain(x) for x in texts(f)} & {plain(x) for x in want}]
        pick = near[0] if near else same[0] if len(same) == 1 and len(left) == 1 else None
        if pick is None:
            errs.append(Vague('where %s is counted' % ' and '.join(sorted(want))))
            continue
        pick['done'] = True
        if pick['why']:
            errs.append(Vague(pick['why']))
            continue
        extra, missing = texts(pick) - set(want), set(want) - texts(pick)
        node = next((k.site.node for k in pick['ks'] if k.text in extra), pick['ks'][0].site.node)
        if extra:
            if not all(OWN.match(a) or any(a in w for w in want) or a in ('o[0]', 'o[-1]') and any(a[1:] in w for w in want) for x in extra for a in re.split(r'[/ (),]+', x) if a):
                errs.append(Vague('a key'))
            elif not missing and any('[cut]' in x for x in extra):
                errs.append(Vague('a key'))
            else:
                wrongs.append(Wrong('key', 'counted at %s instead of %s' % (' and '.join(sorted(extra)), ' and '.join(sorted(missing or want))), node))
        else:
            # the whole may be counted as the longest piece
            if any(x == m for m in missing for x in [y.replace('[i:]', '').replace('[:i]', '').replace('[-i:]', '') for y in texts(pick)]):
                errs.append(Vague('how the whole is counted'))
            else:
                wrongs.append(Wrong('missed', '%s is not counted' % ' and '.join(sorted(missing)), node))
    if wrongs:
        raise wrongs[0]
    if errs:
        raise errs[0]
    return co, [f for f in found if f['done']]


def goes_on(rep, prog):
    """WordExtractor.train goes on from the earlier counts when, and only when, it is told to"""
    def run(ob, told):
        r = Reader(prog)
        t, fr = r.read_method('soynlp.word', 'WordExtractor', 'train', args={'cumulate': c(told)})
        ob.node = fr.node
        co = Counts(prog, r, None)
        kept = {}
        for (o, name), v in r.final.heap.items():
            if o == SELF:
                kept[name] = co.roots(v)
        n = 0
        for root, _, ss in grouped(co):
            names = [x for x, v in kept.items() if {y for y in v if y[0] == 'new'} & root]
            before = {x[2] for x in root if x[0] == 'attr' and x[1] == SELF}
            if any(x[0] == '?' for x in root):
                raise Vague('what is counted on')
            if len(names) != 1:
                if len(names) > 1:
                    raise Wrong('mixed', '%s are one and the same count' % ' and '.join(sorted(names)), ss[0].node)
                continue
            n += 1
            if told and names[0] not in before:
                raise Wrong('before', 'train(cumulate=True) forgets what was counted in %s before' % names[0], ss[0].node)
            if told and len(before) > 1:
                raise Wrong('mixed', 'train(cumulate=True) goes on from another count in %s' % names[0], ss[0].node)
            if not told and before:
                raise Wrong('before', 'train without cumulate goes on from what was counted before in %s' % names[0], ss[0].node)
        if not n:
            raise Vague('what is kept')
        ob('%d counts start from %s' % (n, 'the earlier ones' if told else 'nothing'))
    for told in (True, False):
        ob = Obligations(rep, prog, 'WordExtractor.train(cumulate=%s)' % told)
        ob.run(lambda: run(ob, told))


def written(r, node):
    """what is added to what in the key of a store, in the order written"""
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.BinOp) and isinstance(n.slice.op, ast.Add) and \
                isinstance(n.slice.left, ast.Name) and isinstance(n.slice.right, ast.Name):
            out = []
            for x in (n.slice.left.id, n.slice.right.id):
                vs = {i['step'][x] for i in r.loops.values() if x in i['step'] and i['step'][x][0] == 'key'}
                if not vs:
                    return None
                out.append(vs)
            if out[0] & out[1]:
                return None
            return [max(v, key=repr) for v in out]
    return None


def turned_back(rep, prog):
    """LRGraph.to_EojeolCounter: the count of l + r is that of the pair (l, r)"""
    ob = Obligations(rep, prog, 'LRGraph.to_EojeolCounter')

    def run():
        r = Reader(prog)
        t, fr = r.read_method('soynlp.utils', 'LRGraph', 'to_EojeolCounter')
        ob.node = fr.node
        held = [v for (o, n), v in r.final.heap.items() if o == t and n == '_counter']
        if len(held) != 1:
            raise Vague('what is answered')
        held = held[0]
        puts = []
        if held[0] == 'comp' and held[1] == 'dict' and held[4][0] == 'tuple':
            puts = [(held[4][1][0], held[4][1][1], held[3], None)]
        else:
            for e in r.effects:
                if e.target == held and e.kind == 'store':
                    puts.append((e.args[0], e.args[1], e.guards, e.node))
                elif e.target == held and e.kind == 'inc':
                    raise Wrong('once', 'an eojeol of which there are several cuts is counted once for each', e.node)
        if not puts:
            raise Vague('how it is filled')
        for k, v, gs, node in puts:
            d = lin(k)
            parts = [k[2], k[3]] if k[0] == 'bin' and k[1] == '+' else sorted(d[1], key=repr) if k[0] == 'lin' and not d[0] else \
                [x[1] if x[0] == 'fmt' else x for x in k[1]] if k[0] in ('str', 'cat') else None
            if not parts or len(parts) != 2 or any(x[0] != 'key' for x in parts):
                raise Vague('the key')
            want = None
            for l, rr in (parts, parts[::-1]):
                if rr[1] == ('item', l[1], l):
                    want = (l, rr)
            if want is None:
                raise Vague('the key')
            l, rr = want
            m, dv = lin(sub(v, ('item', rr[1], rr)))
            if m or dv:
                if not dv or v[0] == 'c':
                    raise Wrong('amount', 'the count of an eojeol is not that of its cut', node)
                raise Vague('the count')
            if k[0] == 'lin' and node is not None:
                parts = written(r, node) or parts
                if set(parts) != {l, rr}:
                    parts = [l, rr]
            else:
                parts = parts if k[0] != 'lin' else [l, rr]
            if parts != [l, rr]:
                raise Wrong('key', 'an eojeol is made with its right part first', node)
            if gs:
                for g in gs:
                    if any(y in (l, rr) for y in walk(g)):
                        raise Vague('a condition')
            ob('an eojeol has the count of its cuts')
    ob.run(run)


def additions(rep, prog):
    """every `X[k] = X.get(k, 0) + n` of the package goes on from the count of the same key"""
    for m in prog.modules.values():
        same = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name):
                same.setdefault(n.targets[0].id, set()).add(n.value.id)
                same.setdefault(n.value.id, set()).add(n.targets[0].id)
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and
                    isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub))):
                continue
            t = n.targets[0]
            for g in (n.value.left, n.value.right):
                if isinstance(g, ast.Call) and isinstance(g.func, ast.Attribute) and g.func.attr == 'get' and \
                        1 <= len(g.args) <= 2 and ast.dump(g.func.value) == ast.dump(t.value):
                    rep.count('additions_checked', 1)
                    a, b = g.args[0], t.slice
                    if ast.dump(a) != ast.dump(b).replace('Store()', 'Load()'):
                        if isinstance(a, ast.Name) and isinstance(b, ast.Name) and b.id not in same.get(a.id, ()):
                            rep.violation('key', '%s:%s' % (enclosing(n), ast.unparse(t)), where(n, prog),
                                          'the count of %s goes on from that of %s' % (b.id, a.id))
                    if len(g.args) == 2 and isinstance(g.args[1], ast.Constant) and g.args[1].value not in (0, 0.0) and \
                            isinstance(g.args[1].value, (int, float)):
                        rep.violation('start', '%s:%s' % (enclosing(n), ast.unparse(t)), where(n, prog),
                                      'a count starts at %r' % (g.args[1].value,))


PRE, SUF, CUT, SWAP = 'o[:i]', 'o[-i:]', 'o[:i]/o[i:]', 'o[i:]/o[:i]'
OPS = [
    ('EojeolCounter', 'soynlp.utils', 'EojeolCounter', '__init__', {}, [{'o': 'all'}], {}),
    ('LRGraph', 'soynlp.utils', 'LRGraph', '__init__', {}, [{CUT: 'all'}], {}),
    ('EojeolCounter.to_lrgraph', 'soynlp.utils', 'EojeolCounter', 'to_lrgraph', {}, [{CUT: 'all'}], {}),
    ('WordExtractor.train', 'soynlp.word', 'WordExtractor', 'train', {},
     [{PRE: 'all'}, {SUF: 'all'}, {'o next[0]': 'all', 'o[-i:] next[0]': 'all'}, {'prev[-1] o': 'all', 'prev[-1] o[:i]': 'all'}],
     {'least': 2}),
    ('Bigram.train', 'soynlp.word', 'Bigram', 'train', {}, [{'(o,next)': 'all'}, {'part': 'all'}], {}),
    ('BaseVectorizer.fit', 'soynlp.vectorizer', 'BaseVectorizer', 'fit', {}, [{'o': 'once'}, {'o': 'all'}, {'o': 'all', '?': True}], {}),
    ('sent_to_word_contexts_matrix', 'soynlp.vectorizer', None, 'sent_to_word_contexts_matrix', {},
     [{'o': 'all'}, {'o/left': 'all', 'o/right': 'all'}], {}),
    ('LRNounExtractor.train', 'soynlp.noun', 'LRNounExtractor', 'train', {}, [{PRE: 'all'}, {SUF: 'all'}, {CUT: 'all'}], {}),
    ('NewsNounExtractor.train', 'soynlp.noun', 'NewsNounExtractor', 'train', {}, [{'o': 'all'}, {CUT: 'all'}, {SWAP: 'all'}], {}),
    ('EojeolPatternTrainer.train', 'soynlp.tokenizer._tokenizer_builder', 'EojeolPatternTrainer', 'train', {},
     [{PRE: 'all'}, {SUF: 'all'}, {CUT: 'all'}, {SWAP: 'all'}], {}),
    ('LRGraph.add_eojeol', 'soynlp.utils', 'LRGraph', 'add_eojeol', {}, [{CUT: 'all'}, {SWAP: 'all'}],
     {'one': 0, 'amount': 'count'}),
    ('LRGraph.remove_eojeol', 'soynlp.utils', 'LRGraph', 'remove_eojeol', {}, [{CUT: 'all'}, {SWAP: 'all'}],
     {'one': 0, 'amount': 'count', 'sign': -1}),
]


def operation(rep, prog, label, mod, cls, meth, args, groups, spec):
    ob = Obligations(rep, prog, label)

    def go():
        r = Reader(prog)
        if cls:
            t, fr = r.read_method(mod, cls, meth, args=args)
        else:
            t, fr = r.read_function(mod, meth)
        ob.node = fr.node
        one, amount = (), None
        if 'one' in spec:
            a = fr.node.args
            one = (('p', [x.arg for x in a.args if x.arg != 'self'][spec['one']]),)
            amount = ('p', spec['amount'])
            if spec.get('sign') == -1:
                amount = sub(c(0), amount)
        judge(rep, prog, label, r, fr, None, groups, spec, ob, one, amount)
    ob.run(go)


def c22(tier):
    rep = Report('C22', tier, 'each occurrence adds what it stands for, once, at the key it belongs to')
    prog = Program()
    for op in OPS:
        rep.attempt(op[0], operation, rep, prog, *op)
    rep.attempt('WordExtractor.train', goes_on, rep, prog)
    rep.attempt('LRGraph.to_EojeolCounter', turned_back, rep, prog)
    rep.attempt('additions', additions, rep, prog)
    return rep.finish('other', 'Each counting operation is read as terms, helper methods included: every update of a count with the key, the amount, '
                      'the loops around it and the conditions on it. Proved per update: the key is the piece of the occurrence that is counted there '
                      '(the whole, what stands before or behind each cut, the neighbour); the amount is 1, or the count of the very occurrence; all '
                      'loops around go through everything there is, from the first cut to the last; the conditions are limits on the piece or '
                      'membership in the vocabulary; no update is doubled; counts start from nothing and are not thrown away in between. '
                      'In addition every `d[k] = d.get(k, 0) + n` of the package is checked for the same key and the start at 0.')
