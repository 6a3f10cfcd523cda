"""C25: the distances between two texts are what their names say, whichever text comes first."""
import copy

from ..loader import Program
from ..report import Report
from ..terms import Reader, walk, subst, lin, sub, add, neg, c
from .spans import Vague, Wrong, NONE
from .tokens import Obligations

MOD = 'soynlp.hangle'
WRAPS = ('listof', 'tupleof', 'copy', 'copy2', 'iterof')


def bare(t):
    while t[0] in WRAPS:
        t = t[1]
    return t


def ands(g):
    return [x for y in g[1] for x in ands(y)] if g[0] == 'and' else [g]


def cases(t, guards=()):
    """(conditions, result) of every way through"""
    if t[0] == 'ite':
        yes = ands(t[1])
        no = ands(t[1][1]) if t[1][0] == 'not' else [('not', t[1])]
        return cases(t[2], guards + tuple(yes)) + cases(t[3], guards + tuple(no))
    return [(guards, t)]


def subst_all(d, m):
    return {k: subst(v, m) if isinstance(v, tuple) else v for k, v in d.items()}


def const(t):
    return t[0] == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def flat_min(t):
    if t[0] != 'min':
        return [t]
    ts = t[1]
    if len(ts) == 1 and ts[0][0] in ('list', 'tuple'):
        ts = ts[0][1]
    return [y for x in ts for y in flat_min(x)]


class Texts:
    """the two texts a function compares"""

    def __init__(self, fr):
        self.a, self.b = (('p', a.arg) for a in fr.node.args.args[:2])

    def other(self, t):
        return self.b if t == self.a else self.a if t == self.b else None

    def empty(self, g):
        """the text g says is empty"""
        if g[0] == 'not' and g[1] in (self.a, self.b):
            return g[1]
        if g[0] == 'not' and g[1][0] == 'len':
            g = ('cmp', '==', g[1], c(0))
        if g[0] == 'cmp' and g[1] in ('==', '<=', '<') and g[2][0] == 'len' and g[2][1] in (self.a, self.b):
            if g[3] == c(0) and g[1] != '<' or g[3] == c(1) and g[1] == '<':
                return g[2][1]
        if g[0] == 'cmp' and g[1] == '==' and g[2] in (self.a, self.b) and g[3] == c(''):
            return g[2]
        return None

    def same(self, g):
        return g[0] == 'cmp' and g[1] == '==' and {g[2], g[3]} == {self.a, self.b}

    def by_length(self, g):
        """decided by the lengths alone"""
        if g[0] == 'not':
            return self.by_length(g[1])
        return g[0] == 'cmp' and all(x == c(0) or const(x) or x[0] == 'len' or x[0] == 'lin' and all(y[0] == 'len' for y, _ in x[2]) for x in g[2:4])


class Edit:
    def __init__(self, prog, r, t, fr, name):
        self.prog, self.r, self.t, self.fr, self.name = prog, r, t, fr, name
        self.x = Texts(fr)
        self.cost = [('p', a.arg) for a in fr.node.args.args[2:]]
        self.main = None
        self.exchanged = False
        self.loops, self.effects = r.loops, r.effects
        self.in_order()
        self.split()

    def in_order(self):
        """the texts may be put in order by their lengths first: which is which does not matter then"""
        a, b = self.x.a, self.x.b
        m = {}
        todo = [self.t] + [i['iter'] for i in self.r.loops.values() if i['iter'] is not None]
        for x in todo:
            for y in walk(x):
                if y[0] == 'ite' and self.x.by_length(y[1]) and set(y[2:4]) == {a, b}:
                    m[y] = None
        qs = {y[1] for y in m}
        if len(qs) != 1 or len(m) != 2:
            return
        for y in m:
            m[y] = a if y[2] == b else b
        self.exchanged = True
        self.t = subst(self.t, m)
        self.loops = {L: dict(i, iter=subst(i['iter'], m) if i['iter'] is not None else None, init=subst_all(i['init'], m),
                              step=subst_all(i['step'], m)) for L, i in self.r.loops.items()}
        self.effects = []
        for e in self.r.effects:
            e = copy.copy(e)
            e.target, e.args, e.guards = subst(e.target, m), subst(e.args, m), subst(e.guards, m)
            self.effects.append(e)

    def split(self):
        self.rest = []
        mains = []
        for g, v in cases(self.t):
            if v[0] == 'item' and v[1][0] == 'out':
                mains.append((g, v))
            else:
                self.rest.append((g, v))
        if len(mains) == 1:
            self.main = mains[0]

    def others(self, ob):
        """the cases in which nothing is compared"""
        for g, v in self.rest:
            if v[0] == 'item' and bare(v[1])[0] == 'range':
                raise Wrong('rows', 'what is returned is the row that was there before anything was compared', self.fr.node)
            if v[0] == 'call' and v[1] == ('g', 'levenshtein') and self.name != 'levenshtein' and set(v[2][:2]) == {self.x.a, self.x.b}:
                raise Wrong('swapped', 'texts of some lengths are compared by another distance', self.fr.node)
            if v[0] == 'call':
                self.swapped(v)
                ob('exchanging the texts changes nothing')
                continue
            e = [self.x.empty(y) for y in g]
            e = [y for y in e if y is not None]
            if any(self.x.same(y) for y in g) and (v == c(0) or const(v)):
                if v != c(0):
                    raise Wrong('equal', 'equal texts are %r apart' % (v[1],), self.fr.node)
                continue
            if e and (const(v) or v[0] == 'len' or v[0] == 'lin'):
                if v == c(0) and len(set(e)) == 2:
                    continue
                if v != ('len', self.x.other(e[0])) and not (len(set(e)) == 2 and v == ('len', e[0])):
                    raise Wrong('empty', 'the distance to an empty text is not the length of the other', self.fr.node)
                ob('the distance to an empty text is the length of the other')
                continue
            if (const(v) or v[0] == 'len') and g and all(self.x.by_length(y) for y in g):
                raise Wrong('skipped', 'texts of some lengths are not compared', self.fr.node)
            raise Vague('a case that is not compared')

    def swapped(self, v):
        if v[1][0] != 'fn' or len(v[2]) < 2:
            raise Vague('a case handed on')
        if tuple(v[2][:2]) != (self.x.b, self.x.a):
            raise Vague('a case handed on')
        if not self.cost:
            return
        more = list(v[2][2:]) + [y for _, y in v[3]]
        if not any(p in walk(y) for y in more for p in self.cost):
            if any(y[0] in ('fn', 'lam') for y in more):
                raise Vague('the costs handed on')
            raise Wrong('costs', 'the costs given are forgotten when the first text is the shorter one', self.fr.node)
        if any(y in self.cost for y in more):
            raise Wrong('costs', 'the costs given are taken the wrong way around when the first text is the shorter one', self.fr.node)
        for y in more:
            if y[0] == 'comp' and y[1] == 'dict' and y[4][0] == 'tuple' and len(y[2]) == 1 and not y[3]:
                k = y[4][1][0]
                src = ('key', y[2][0][1][1] if y[2][0][1][0] in ('keys', 'items') else y[2][0][1], y[2][0][0])
                if k == ('tuple', (('item', src, c(1)), ('item', src, c(0)))):
                    if y[4][1][1] != ('item', src[1], src):
                        raise Vague('the costs handed on')
                    return
                if k == src or k == ('tuple', (('item', src, c(0)), ('item', src, c(1)))):
                    raise Wrong('costs', 'the costs given are taken the wrong way around when the first text is the shorter one', self.fr.node)
        raise Vague('the costs handed on')

    # -- the table ------------------------------------------------------------
    def table(self, ob):
        if self.main is None:
            raise Vague('where the table is filled')
        g, v = self.main
        L = v[1][1]
        info = self.loops[L]
        A = self.text_of(info['iter'])
        B = self.x.other(A)
        if B is None:
            raise Vague('what the table goes over')
        self.A, self.B, self.L = A, B, L
        if info.get('breaks'):
            raise Wrong('stops', 'the comparison stops before the end of the text', info['node'])
        n = ('len', B)
        at = v[2]
        if at != c(-1) and at != n:
            d = sub(at, n)
            if const(at) or const(d):
                raise Wrong('result', 'what is returned is not the last place of the table', self.fr.node)
            raise Vague('which place is returned')
        name = v[1][2]
        self.phi = ('phi', L, name)
        init = bare(info['init'].get(name) or ('?',))
        if init[0] != 'range':
            raise Vague('the first row')
        if init[1] != c(0) or len(init) > 3 and init[3] not in (c(1), NONE):
            raise Wrong('first_row', 'the first row does not count from 0', self.fr.node)
        d = sub(init[2], add(n, c(1)))
        if d != c(0):
            if const(d):
                raise Wrong('first_row', 'the first row is not as long as the text and one more', self.fr.node)
            raise Vague('how long the first row is')
        row = info['step'].get(name)
        if row is None:
            raise Wrong('rows', 'the row filled is not the one looked at next', info['node'])
        if row[0] == 'ite' and self.phi in row[2:4]:
            raise Wrong('rows', 'some characters are passed over', info['node'])
        if row == self.phi:
            raise Wrong('rows', 'the row filled is not the one looked at next', info['node'])
        if row[0] not in ('list', 'new', 'comp'):
            raise Vague('the rows')
        self.row = row
        self.i = self.index(L, row)
        if row[0] != 'list' or len(row[1]) != 1:
            raise Vague('the rows')
        if self.i is not None:
            d = c(0)
            for _, w in cases(row[1][0]):
                x = sub(w, add(self.i, c(1)))
                if x != c(0):
                    d = x
                    if const(x) and w[0] != 'c':
                        break
            if d != c(0):
                if const(d) or const(row[1][0]):
                    raise Wrong('first_column', 'the first column does not count from 1', info['node'])
                raise Vague('the first column')
        ob('the first row and column count the characters left out')
        apps = [e for e in self.effects if e.target == row]
        if len(apps) != 1 or apps[0].kind != 'append':
            raise Vague('how a row is filled')
        e = apps[0]
        if len(e.loops) != 2 or e.loops[0] != L:
            raise Vague('how a row is filled')
        J = e.loops[1]
        if self.text_of(self.loops[J]['iter']) != B:
            raise Vague('what a row goes over')
        if self.loops[J].get('breaks'):
            raise Wrong('stops', 'a row stops before the end of the text', e.node)
        known = set(g) | {y for z in g for y in ands(z)}
        extra = [q for q in e.guards if q not in known and ('not', q) not in known and not self.implied(q, known)]
        self.J, self.j = J, self.index(J, e.args)
        if any(q[0] == 'cmp' and any(y[0] == 'c' for y in q[2:4]) and any(self.char(y) for y in q[2:4]) for q in extra):
            raise Wrong('rows', 'some characters are passed over', e.node)
        if extra:
            raise Vague('a condition under which a place is filled')
        if self.j is None:
            raise Vague('where in the row')
        self.recurrence(ob, e)

    def implied(self, q, known):
        return any(x[0] == 'not' and neg(x[1]) == q or x[0] == 'not' and q in ands(neg(x[1])) for x in known) or \
            self.x.by_length(q) or q[0] == 'not' and q[1] in known or q in (self.x.a, self.x.b) or self.x.same(neg(q))

    def text_of(self, it):
        it = bare(it) if it else it
        if it is None:
            return None
        if it in (self.x.a, self.x.b):
            return it
        if it[0] == 'enumerate' and it[1] in (self.x.a, self.x.b):
            return it[1]
        if it[0] == 'range' and it[2][0] in ('len', 'lin'):
            for t in (self.x.a, self.x.b):
                if sub(it[2], it[1]) == ('len', t):
                    return t
        return None

    def index(self, L, seen=None):
        """the position, from 0, that the loop is at"""
        for x in walk(seen) if seen is not None else ():
            if x[0] == 'rng' and x[3] == L:
                return sub(x, x[1])     # counted from another number
        it = bare(self.loops[L]['iter'])
        lo = it[1] if it[0] == 'range' else c(0)
        hi = it[2] if it[0] == 'range' else ('len', self.text_of(it))
        return sub(('rng', lo, hi, L), lo)

    def char(self, t):
        """'A' or 'B' when t is the character compared in this place"""
        if t[0] == 'elem':
            t0 = bare(t[1])
            if (t0, t[2]) == (self.A, self.L):
                return 'A'
            if (t0, t[2]) == (self.B, self.J):
                return 'B'
        if t[0] == 'item' and t[1] == self.A and self.i is not None:
            d = sub(t[2], self.i)
            if d == c(0):
                return 'A'
            if const(d):
                raise Wrong('compared', 'a character next to the one of this place is compared', self.fr.node)
        if t[0] == 'item' and t[1] == self.B:
            d = sub(t[2], self.j)
            if d == c(0):
                return 'B'
            if const(d):
                raise Wrong('compared', 'a character next to the one of this place is compared', self.fr.node)
        return None

    def recurrence(self, ob, e):
        v = e.args[0]
        if v[0] in ('max', 'sum'):
            raise Wrong('recurrence', 'the cheapest way is not the one taken', e.node)
        if v[0] != 'min':
            raise Vague('how a place is filled')
        seen = {}
        for t in flat_min(v):
            k, d = lin(t)
            if k == 0 and len(d) == 1 and next(iter(d))[0] == 'ite' and next(iter(d.values())) == 1:
                t = self.shared(next(iter(d)))
                k, d = lin(t)
            places = [x for x, n in d.items() if n == 1 and x[0] == 'item' and x[1] in (self.phi, self.row)]
            if len(places) != 1:
                raise Vague('a way to a place')
            pl = places[0]
            rest = sub(t, pl)
            off = sub(pl[2], self.j)
            if pl[1] == self.row:
                if off != c(0) and pl[2] != c(-1):
                    if const(off) or const(pl[2]):
                        raise Wrong('recurrence', 'a character is left out at another place than before it', e.node)
                    raise Vague('a way to a place')
                self.step('insert', rest, seen, e)
            elif off == c(1):
                self.step('delete', rest, seen, e)
            elif off == c(0):
                seen['replace'] = rest
            elif const(off):
                raise Wrong('recurrence', 'a place is reached from one that is not next to it', e.node)
            else:
                raise Vague('a way to a place')
        for w, tell in (('insert', 'inserting'), ('delete', 'leaving out'), ('replace', 'replacing')):
            if w not in seen:
                raise Wrong('recurrence', '%s a character is not considered' % tell, e.node)
        ob('each place takes the cheapest of the three ways')
        self.replacing(ob, seen['replace'], e)

    def shared(self, t):
        """ite(q, place + x, place + y) as place + ite(q, x, y)"""
        da, db = lin(t[2])[1], lin(t[3])[1]
        both = [x for x in da if x in db and da[x] == db[x] == 1 and x[0] == 'item' and x[1] in (self.phi, self.row)]
        if len(both) != 1:
            return t
        return add(both[0], ('ite', t[1], sub(t[2], both[0]), sub(t[3], both[0])))

    def step(self, what, rest, seen, e):
        if rest != c(1):
            if any(y[0] == 'cmp' and self.eq(y) is not None for y in walk(rest)):
                raise Wrong('recurrence', 'a replaced character is looked for at another place', e.node)
            if const(rest):
                raise Wrong('cost', '%s a character costs %r' % ('inserting' if what == 'insert' else 'leaving out', rest[1]), e.node)
            raise Vague('what it costs to %s' % what)
        seen[what] = rest

    # -- the cost of replacing ------------------------------------------------
    def eq(self, g):
        if g[0] == 'not':
            x = self.eq(g[1])
            return None if x is None else not x
        if g[0] == 'cmp' and g[1] in ('==', '!=') and {self.char(g[2]), self.char(g[3])} == {'A', 'B'}:
            return g[1] == '=='
        return None

    def replacing(self, ob, t, e):
        k, d = lin(t)
        if not d:
            raise Wrong('cost', 'replacing a character by itself costs as much as by any other', e.node) if k else \
                Wrong('cost', 'replacing a character costs nothing', e.node)
        if len(d) != 1:
            raise Vague('what replacing costs')
        (q, n), = d.items()
        if q[0] == 'cmp' and self.eq(q) is not None:
            q = ('ite', q, c(1), c(0))
        if n != 1:
            raise Vague('what replacing costs')
        used = False
        for g, v in cases(q):
            eqs = {self.eq(y) for y in g} - {None}
            if len(eqs) == 2:
                continue                # never both
            v = add(v, c(k)) if k else v
            if eqs == {True}:
                if v != c(0):
                    if const(v):
                        raise Wrong('cost', 'a character costs %r when it is kept' % (v[1],), e.node)
                    raise Vague('what keeping a character costs')
                continue
            if self.name == 'levenshtein':
                used |= self.given(g, v, eqs, e)
            else:
                used |= self.jamo(g, v, eqs, e)
        if not used:
            raise Wrong('cost', 'the costs given are not looked at' if self.name == 'levenshtein' else 'the jamo of two characters are not compared', e.node)
        ob('keeping a character costs nothing, replacing it what it should')

    def given(self, g, v, eqs, e):
        if const(v):
            if v != c(1):
                raise Wrong('cost', 'replacing a character costs %r' % (v[1],), e.node)
            return False
        if v[0] == 'item' and any(p in walk(v[1]) for p in self.cost):
            v = ('get', v[1], v[2], c(1))
        if v[0] == 'get' and len(v) > 3 and any(p in walk(v[1]) for p in self.cost):
            if v[2][0] != 'tuple' or len(v[2][1]) != 2:
                raise Vague('the cost looked up')
            who = tuple(self.char(y) for y in v[2][1])
            want = ('A', 'B') if self.A == self.x.a else ('B', 'A')
            if self.exchanged:
                raise Vague('which text the cost looked up begins with')
            if None in who:
                raise Vague('the cost looked up')
            if who != want:
                raise Wrong('cost', 'the cost looked up is not that of the two characters in their order', e.node)
            if v[3] != c(1):
                if const(v[3]) or v[3] == NONE:
                    raise Wrong('cost', 'replacing a character for which no cost is given costs %r' % (v[3][1],), e.node)
                if v[3][0] in ('get', 'item') and v[3][1] == v[1] and v[3][2] != v[2]:
                    raise Wrong('cost', 'replacing a character for which no cost is given costs what is given for others', e.node)
                raise Vague('the cost looked up')
            if eqs != {False}:
                raise Wrong('cost', 'a character that is kept costs something', e.node)
            return True
        raise Vague('what replacing costs')

    def jamo(self, g, v, eqs, e):
        if const(v):
            if v != c(1):
                raise Wrong('cost', 'replacing a character that is not Korean costs %r' % (v[1],), e.node)
            return False
        if v[0] == 'bin' and v[1] == '/' and v[2][0] == 'call' and v[2][1] == ('g', 'levenshtein') and const(v[3]):
            who = []
            for y in v[2][2][:2]:
                if y[0] == 'call' and y[1] == ('ext', 'builtins.tuple') and len(y[2]) == 1:
                    y = y[2][0]
                if y[0] != 'call' or y[1] != ('g', 'decompose') or not y[2]:
                    if self.shortened(y):
                        raise Wrong('cost', 'the jamo compared in place of a character are not all of its jamo', e.node)
                    raise Vague('what is compared in place of the characters')
                who.append(self.char(y[2][0]))
            if None in who:
                raise Vague('what is compared in place of the characters')
            if set(who) != {'A', 'B'}:
                raise Wrong('cost', 'the jamo of one character are compared with themselves', e.node)
            if v[3][1] != 3:
                raise Wrong('cost', 'the jamo distance is divided by %r, a syllable has three jamo' % (v[3][1],), e.node)
            return True
        if v[0] == 'call' and v[1] == ('g', 'levenshtein'):
            raise Wrong('cost', 'replacing a syllable may cost more than leaving it out and inserting the other', e.node)
        raise Vague('what replacing costs')


    def shortened(self, y):
        """y is the jamo of a character without some of them"""
        if y[0] == 'call' and y[1][0] == 'attr' and y[1][2] in ('strip', 'rstrip', 'lstrip', 'replace'):
            return ('g', 'decompose') in walk(y[1][1])
        if y[0] == 'slice' and y[1][0] == 'call' and y[1][1] == ('g', 'decompose'):
            return y[2] not in (c(0), NONE) or const(y[3]) and y[3][1] < 3
        if y[0] == 'comp' and y[3] and len(y[2]) == 1:
            return ('g', 'decompose') in walk(y[2][0][1])
        return False


# -- bags and sets of units -----------------------------------------------------

class Bags:
    def __init__(self, prog, r, t, fr):
        self.prog, self.r, self.t, self.fr = prog, r, t, fr
        self.x = Texts(fr)

    def unit(self, t):
        """which text t is made from alone"""
        has = [y for y in (self.x.a, self.x.b) if y in walk(t)]
        return has[0] if len(has) == 1 else None

    def parts(self, ob, far):
        main, who = [], set()
        for g, v in cases(self.t):
            if const(v):
                if v[1] == far:
                    y = [x for x in g if x not in (self.x.a, self.x.b) and self.x.empty(neg(x)) is None]
                    if len(y) == 1:
                        who.update(self.which(y[0]))
                if v[1] != far and any(self.x.empty(y) is not None or y[0] == 'or' and all(self.x.empty(z) is not None for z in y[1]) for y in g):
                    raise Wrong('empty', 'a text is %r from an empty one' % (v[1],), self.fr.node)
                continue
            main.append((g, v))
        if len(main) != 1:
            raise Vague('what is computed')
        if not {self.x.a, self.x.b} <= who:
            self.left_over(main[0][0], who)
        k, d = lin(main[0][1])
        if len(d) != 1:
            raise Vague('what is computed')
        (q, n), = d.items()
        if q[0] != 'bin' or q[1] != '/':
            raise Vague('what is computed')
        if (k, n) != (1, -1):
            raise Wrong('similarity', 'the distance is not one minus the similarity', self.fr.node)
        ob('the distance is one minus a ratio')
        return q[2], q[3]

    def which(self, g):
        """the texts whose being empty makes g true"""
        if g[0] == 'or':
            return {x for y in g[1] for x in self.which(y)}
        e = self.x.empty(g)
        return {e} if e is not None else set()

    def left_over(self, g, who):
        """a text which may be empty where the ratio is computed"""
        if not any(self.x.a in walk(y) or self.x.b in walk(y) for y in g):
            raise Vague('what is done with empty texts')
        for t in (self.x.a, self.x.b):
            if t not in who and not any(t in walk(y) and not (y[0] in ('or', 'not') and self.x.a in walk(y) and self.x.b in walk(y)) for y in g):
                raise Wrong('empty', 'an empty text is compared like any other', self.fr.node)
        raise Vague('what is done with empty texts')

    def jaccard(self, ob):
        num, den = self.parts(ob, 1)
        if num[0] == 'len' and den[0] in ('len', 'lin'):
            i = self.setop(num[1])
            if i is None:
                raise Vague('what the sets share')
            if i != 'intersection':
                raise Wrong('similarity', 'what is counted is not what the sets share', self.fr.node)
            if den[0] == 'len':
                u = self.setop(den[1])
                if u == 'union':
                    ob('what is shared over what there is')
                    return
                if u is not None or self.unit(den[1]) is not None:
                    raise Wrong('similarity', 'what is shared is not compared with all there is', self.fr.node)
                raise Vague('what all there is')
            k, d = lin(den)
            own = [self.unit(y[1]) for y, n in d.items() if y[0] == 'len' and n == 1]
            if k == 0 and sorted(map(str, own)) == sorted(map(str, (self.x.a, self.x.b))):
                if d.get(num) == -1 and len(d) == 3:
                    ob('what is shared over what there is')
                    return
                if len(d) == 2:
                    raise Wrong('similarity', 'what is shared is counted twice in all there is', self.fr.node)
        if num[0] == 'len' and self.setop(num[1]) == 'intersection' and den[0] in ('max', 'min'):
            if all(y[0] == 'len' and self.unit(y[1]) is not None for y in den[1]):
                raise Wrong('similarity', 'what is shared is compared with the larger or smaller of the two', self.fr.node)
        raise Vague('the ratio')

    def setop(self, t):
        if t[0] == 'call' and t[1][0] == 'attr' and len(t[2]) == 1:
            x, y, op = t[1][1], t[2][0], t[1][2]
        elif t[0] == 'bin' and t[1] in ('&', '|', '-', '^'):
            x, y, op = t[2], t[3], {'&': 'intersection', '|': 'union', '-': 'difference', '^': 'symmetric_difference'}[t[1]]
        else:
            return None
        if self.unit(x) is None or self.unit(y) is None:
            return None
        if self.unit(x) == self.unit(y):
            raise Wrong('similarity', 'the units of one text are compared with themselves', self.fr.node)
        return op

    def cosine(self, ob):
        num, den = self.parts(ob, 2)
        self.dot(num)
        ob('the product of what both have')
        rooted = den[0] == 'call' and den[1][0] in ('ext', 'g') and den[1][1].endswith('sqrt') or den[0] == 'bin' and den[1] == '**' and den[3] == c(0.5)
        inner = den[2][0] if den[0] == 'call' and den[2] else den[2] if den[0] == 'bin' and den[1] == '**' else None
        if rooted and inner[0] == 'bin' and inner[1] == '*':
            fs = [inner[2], inner[3]]
        elif den[0] == 'bin' and den[1] == '*':
            fs = []
            for f in den[2:4]:
                if f[0] == 'call' and f[1][0] in ('ext', 'g') and f[1][1].endswith('sqrt'):
                    fs.append(f[2][0])
                elif f[0] == 'bin' and f[1] == '**' and f[3] == c(0.5):
                    fs.append(f[2])
                elif f[0] == 'sum':
                    raise Wrong('similarity', 'the lengths are not square roots', self.fr.node)
                else:
                    raise Vague('the lengths')
        else:
            raise Vague('the lengths')
        who = [self.square(f) for f in fs]
        if who[0] == who[1]:
            raise Wrong('similarity', 'the length of one text is used for both', self.fr.node)
        ob('over the product of both lengths')

    def value(self, t, L):
        """the text whose count of the unit the loop is at t is"""
        if t[0] == 'item' and t[2][0] == 'key' and t[2][2] == L and t[2][1] == t[1]:
            return self.unit(t[1])
        if t[0] == 'val' and t[2] == L:
            return self.unit(t[1])
        if t[0] == 'elem' and t[2] == L and t[1][0] == 'values':
            return self.unit(t[1][1])
        return None

    def square(self, f):
        if f[0] == 'sum' and f[1][0] == 'comp' and len(f[1][2]) == 1 and f[1][3]:
            L = f[1][2][0][0]
            if all(y[0] == 'cmp' and self.value(y[2], L) is not None and const(y[3]) and y[3][1] > 0 and not (y[1] in ('>=', '!=', '>') and y[3][1] == 0) for y in f[1][3]):
                raise Wrong('similarity', 'units are left out of a length by how often they occur', self.fr.node)
        if f[0] != 'sum' or f[1][0] != 'comp' or len(f[1][2]) != 1 or f[1][3]:
            if f[0] == 'sum' and f[1][0] == 'comp' and len(f[1][2]) == 1 and len(f[1][3]) == 1:
                self.shared_only(f[1])
            raise Vague('a length')
        L, v = f[1][2][0][0], f[1][4]
        if v[0] == 'bin' and v[1] == '**' and const(v[3]):
            w = self.value(v[2], L)
            if w is not None and v[3] != c(2):
                raise Wrong('similarity', 'what is summed for a length is not a square', self.fr.node)
        elif v[0] == 'bin' and v[1] == '*' and v[2] == v[3]:
            w = self.value(v[2], L)
        else:
            w = self.value(v, L)
            if w is not None:
                raise Wrong('similarity', 'what is summed for a length is not a square', self.fr.node)
        if w is None:
            raise Vague('a length')
        return w

    def shared_only(self, t):
        """a length that goes over the units of the other text as well"""
        (L, it), (g,) = t[2][0], t[3]
        it = it[1] if it[0] in ('keys', 'items') else it
        if g[0] != 'cmp' or g[1] not in ('in', 'notin') or self.unit(it) is None:
            return
        D = g[3][1] if g[3][0] == 'keys' else g[3]
        if g[2][0] in ('key', 'elem') and g[2][2] == L and self.unit(D) not in (None, self.unit(it)):
            raise Wrong('similarity', 'the length of a text is that of what the texts share', self.fr.node)

    def dot(self, num):
        if num[0] == 'out':
            info = self.r.loops[num[1]]
            s, init = info['step'].get(num[2]), info['init'].get(num[2])
            L = num[1]
            if s is None or init is None or info.get('breaks'):
                raise Vague('the product')
            if init != c(0):
                raise Wrong('similarity', 'the product does not start at 0', self.fr.node)
            t = sub(s, ('phi', L, num[2]))
            g = ()
            if t[0] == 'lin' and t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1:
                t = t[2][0][0]
        elif num[0] == 'sum' and num[1][0] == 'comp' and len(num[1][2]) == 1:
            L, t, g = num[1][2][0][0], num[1][4], num[1][3]
        else:
            raise Vague('the product')
        if g and not all(y[0] == 'cmp' and y[1] == 'in' for y in g):
            raise Vague('the product')
        if t[0] != 'bin' or t[1] != '*':
            if self.value(t, L) is not None:
                raise Wrong('similarity', 'what both have is not multiplied', self.fr.node)
            raise Vague('the product')
        who = []
        for y in t[2:4]:
            w = self.value(y, L)
            if w is None and y[0] in ('get', 'item') and y[2][0] == 'key' and y[2][2] == L:
                w = self.unit(y[1])
                if y[0] == 'get' and y[3] != c(0) and const(y[3]):
                    raise Wrong('similarity', 'what only one text has counts as %r of the other' % (y[3][1],), self.fr.node)
            if w is None:
                raise Vague('the product')
            who.append(w)
        if who[0] == who[1]:
            raise Wrong('similarity', 'the units of one text are multiplied with themselves', self.fr.node)


def c25(tier):
    rep = Report('C25', tier, 'each distance is read as a formula and compared with its definition')
    prog = Program()

    def one(name):
        r = Reader(prog)
        r.close(MOD, *[x for x in ('decompose', 'levenshtein') if x != name])
        t, fr = r.read_function(MOD, name)
        ob = Obligations(rep, prog, name)
        ob.node = fr.node
        rep.count('distances', 1)
        if name in ('levenshtein', 'jamo_levenshtein'):
            e = Edit(prog, r, t, fr, name)
            ob.run(e.others, ob)
            ob.run(e.table, ob)
        else:
            b = Bags(prog, r, t, fr)
            ob.run(b.jaccard if name.startswith('jac') else b.cosine, ob)
    for n in ('levenshtein', 'jamo_levenshtein', 'cosine_distance', 'jaccard_distance'):
        rep.attempt(n, one, n)
    return rep.finish('other', 'normal forms of the four distance functions. For the two edit distances: the cases answered without comparing '
                      '(exchange of the texts, an empty text, equal texts), the first row and column, the three ways into each place of the '
                      'table with their costs, the cost of replacing a character, the place returned. For the others: one minus the ratio of '
                      'what both texts have and what there is.')
