"""C20: every (stem, ending) pair offered for a word is known and conjugates to the word."""
from ..loader import Program, where
from ..report import Report
from ..terms import Reader, walk, lin

SELF = ('p', 'self')
WRAPS = ('copy', 'copy2', 'deepcopy', 'keys', 'listof', 'setof', 'tupleof', 'iterof', 'sorted', 'reversed', 'frozenset')
CONJ = ('g', 'conjugate')


def bare(t):
    while t[0] in WRAPS:
        t = t[1]
    return t


def pair_of(e):
    """the stem and the ending of an entry"""
    if e[0] == 'tuple' and len(e[1]) == 2:
        return e[1]
    return ('item', e, ('c', 0)), ('item', e, ('c', 1))


def split_back(t):
    """the word that t is the two halves of: w[:i] + w[i:]"""
    if t[0] == 'bin' and t[1] == '+' and t[2][0] == t[3][0] == 'slice' and t[2][1] == t[3][1]:
        p, q = t[2], t[3]
        if p[4] in (('c', None), ('c', 1)) and q[4] in (('c', None), ('c', 1)) and p[2] in (('c', 0), ('c', None)) and \
                q[3] == ('c', None) and p[3] == q[2]:
            return p[1]
        return t
    if t[0] != 'lin' or t[1] != 0:
        return t
    parts = t[2]
    if len(parts) != 2 or any(c != 1 for _, c in parts) or any(x[0] != 'slice' for x, _ in parts):
        return t
    x, y = parts[0][0], parts[1][0]
    if x[1] != y[1] or x[4] not in (('c', None), ('c', 1)) or y[4] not in (('c', None), ('c', 1)):
        return t
    for p, q in ((x, y), (y, x)):
        if p[2] in (('c', 0), ('c', None)) and q[3] == ('c', None) and p[3] == q[2]:
            return p[1]
    return t


def part_of(x, word):
    return x[0] == 'slice' and x[1] == word and (x[2] not in (('c', 0), ('c', None)) or x[3] != ('c', None))


def loops_in(t):
    return {y[1] for x in walk(t) for y in x[1:] if isinstance(y, tuple) and len(y) == 2 and y[0] == 'L' and isinstance(y[1], int)}


class Facts:
    """what is known of every entry of a collection of pairs"""

    def __init__(self, r, fact, table=None):
        self.r, self.fact, self.table = r, fact, table
        self.assumed = set()
        self.notes = []

    # one guard

    def guard(self, g, a, b, word):
        if g[0] == 'and':
            rs = [self.guard(x, a, b, word) for x in g[1]]
            return 'yes' if 'yes' in rs else '?' if '?' in rs else 'no'
        if g[0] == 'or':
            rs = [self.guard(x, a, b, word) for x in g[1]]
            return 'yes' if all(x == 'yes' for x in rs) else '?' if '?' in rs else 'no'
        if g[0] == 'not' and g[1][0] == 'or':
            return self.guard(('and', tuple(('not', x) for x in g[1][1])), a, b, word)
        return self.conj(g, a, b, word) if self.fact == 'conj' else self.known(g, a if self.fact == 'stem' else b)

    def conj(self, g, a, b, word):
        if g[0] == 'cmp' and g[1] in ('in', 'notin'):
            x, s = split_back(g[2]), bare(g[3])
            if s[0] == 'call' and s[1] == CONJ and len(s[2]) >= 2:
                args = tuple(s[2][:2])
                plain = all(v == ('c', False) for v in s[2][2:3]) and all(k == 'debug' or v == ('c', False) for k, v in s[3])
                if g[1] == 'notin':
                    return 'no'
                if args == (a, b):
                    if x == word:
                        return 'yes' if plain else '?'
                    if x[0] == 'c' or x in (a, b) or x[0] == 'lin' and {t for t, _ in x[2]} == {a, b} or \
                            part_of(x, word) or part_of(word, x):
                        return 'no'     # something other than the word
                    return '?'
                if args == (b, a) or not any(y in (a, b) for z in args for y in walk(z)):
                    return 'no'         # some other pair conjugates to the word
                return '?'
            if x == word and g[1] == 'in':
                return '?'
        if any(y[0] == 'call' and y[1] == CONJ for y in walk(g)):
            return '?'
        return self.hidden(g, lambda t: any(y[0] == 'call' and y[1] == CONJ for y in walk(t)))

    def known(self, g, who):
        if g[0] == 'cmp' and g[1] in ('in', 'notin'):
            if g[2] == who and bare(g[3]) == self.table:
                return 'yes' if g[1] == 'in' else 'no'
            if g[2] == who and g[1] == 'in' and any(y == self.table for y in walk(g[3])):
                return '?'
            if bare(g[3]) == self.table and g[2][0] in ('slice', 'item', 'elem', 'key', 'p', 'tuple', 'lin', 'c'):
                return 'no'         # it says so of something else
            if not any(y == self.table for y in walk(g)):
                return 'no'
        if any(y == self.table for y in walk(g)):
            return '?'
        return self.hidden(g, lambda t: any(y == self.table for y in walk(t)))

    def hidden(self, g, about):
        """may a guard that could not be opened say it?"""
        for x in walk(g):
            if x[0] == 'choice':
                if x not in self.r.choices:
                    return '?'
                for c in self.r.choices[x]:
                    if any(about(y) for y in c if isinstance(y, tuple) and y) or any(
                            about(y) for z in c if isinstance(z, tuple) for y in z if isinstance(y, tuple) and y):
                        return '?'
            if x[0] == 'gencall' or x[0] == 'call' and x[1][0] in ('fn', 'lam', 'p'):
                return '?'
            if x[0] == 'call' and x[1][0] == 'attr' and x[1][1] == SELF:
                return '?'
        return 'no'

    # entries

    def entry(self, e, guards, word, depth):
        a, b = pair_of(e)
        rs = [self.guard(g, a, b, word) for g in guards]
        if 'yes' in rs:
            return 'yes'
        src = None
        if e[0] == 'elem':
            src = e[1]
        else:
            fa = a[1] if a[0] == 'item' and a[1][0] == 'elem' and a[2] == ('c', 0) else None
            fb = b[1] if b[0] == 'item' and b[1][0] == 'elem' and b[2] == ('c', 1) else None
            if self.fact == 'stem' and fa or self.fact == 'ending' and fb or fa and fa == fb:
                src = (fa or fb)[1]
        if src is not None:
            r = self.holds(src, word, depth + 1)
            return r if r == 'yes' else '?' if '?' in rs else r
        return '?' if '?' in rs or e[0] in ('choice', 'call', 'gencall', 'phi', 'out', 'ite') else 'no'

    def all(self, rs):
        return 'no' if 'no' in rs else '?' if '?' in rs else 'yes'

    def holds(self, t, word, depth=0):
        if depth > 40:
            return '?'
        if (t, word) in self.assumed:
            return 'yes'
        k = t[0]
        if k in WRAPS:
            return self.holds(t[1], word, depth + 1)
        if k in ('ite',):
            return self.all([self.holds(t[2], word, depth + 1), self.holds(t[3], word, depth + 1)] + self.changes(t, word, depth))
        if k == 'choice':
            return self.all([self.holds(x, word, depth + 1) for x in t[1]] + self.changes(t, word, depth))
        if k in ('set', 'list', 'tuple'):
            return self.all([self.entry(e, (), word, depth) for e in t[1]] + self.changes(t, word, depth))
        if k == 'comp':
            if t[1] == 'dict':
                return '?'
            return self.all([self.entry(t[4], t[3], word, depth)] + self.changes(t, word, depth))
        if k == 'new':
            if t[1] in ('dict', 'ddict'):
                return '?'
            rs = [self.holds(a, word, depth + 1) for a in t[3:] if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] != 'c']
            return self.all(rs + self.changes(t, word, depth))
        if k in ('out', 'phi'):
            return self.loop(t, word, depth)
        if k == 'attr' and t[2] == 'lemma' and t[1][0] in ('item', 'get') and len(t[1]) >= 3:
            if t[1][2] == word:
                return self.table_holds(t[1][1], depth + 1)
            return '?'
        if k == 'attr' and t[2] == 'lemma' and t[1][0] == 'ite':
            # (k in D) ? D[k] : ...
            return self.all([self.holds(('attr', x, 'lemma'), word, depth + 1) for x in t[1][2:4] if x[0] in ('item', 'get')] or ['?'])
        while t[0] in ('item', 'get'):
            t = t[1]
        return 'no' if t[0] == 'p' and t != SELF else '?'

    def earlier(self, t, word):
        """was t made before the loop that word belongs to, so that it still holds the pairs of other words?"""
        made = t[2] if t[0] == 'new' and isinstance(t[2], int) else min(
            (L[1] for L, _ in t[2]), default=None) if t[0] == 'comp' else None
        if made is None or self.fact != 'conj':
            return False
        return any(n > made and any(e.target == t and ('L', n) in e.loops for e in self.r.effects) for n in loops_in(word))

    def changes(self, t, word, depth):
        if self.earlier(t, word):
            return ['?' if any(e.target == t and e.kind in ('clear', 'pop', 'remove', 'discard', 'del') for e in self.r.effects) else 'no']
        self.assumed.add((t, word))
        out = []
        try:
            for e in self.r.effects:
                if e.target != t or e.kind in ('pop', 'del', 'clear', 'remove', 'discard', 'print', 'next', 'difference_update', 'intersection_update', 'sort'):
                    continue
                if e.kind in ('add', 'append'):
                    r = self.entry(e.args[0], e.guards, word, depth)
                elif e.kind in ('update', 'extend') and e.args:
                    r = self.holds(e.args[0], word, depth + 1)
                else:
                    r = '?'
                if r == 'no':
                    self.notes.append(e)
                out.append(r)
        finally:
            self.assumed.discard((t, word))
        return out

    def loop(self, t, word, depth):
        L = self.r.loops[t[1]]
        ids = [(x, t[1], t[2]) for x in ('phi', 'out')]
        if L['init'].get(t[2]) is None:
            return '?'
        if t[0] == 'phi' and self.fact == 'conj' and t[1][1] in loops_in(word):
            # carried over from the round of another word
            for e in self.r.effects:
                if e.kind in ('add', 'append', 'update', 'extend') and t in walk(e.target):
                    self.notes.append(e)
                    return 'no'
            return '?'
        for i in ids:
            self.assumed.add((i, word))
        try:
            rs = [self.holds(L['init'][t[2]], word, depth + 1)]
            s = L['step'].get(t[2])
            if s is not None:
                rs.append(self.holds(s, word, depth + 1))
            for i in ids:
                rs += self.changes(i, word, depth)
                self.assumed.add((i, word))
            for _, env in L.get('breakstates') or ():
                v = env.get(t[2]) if isinstance(env, dict) else None
                if v is not None:
                    rs.append(self.holds(v, word, depth + 1))
            return self.all(rs)
        finally:
            for i in ids:
                self.assumed.discard((i, word))

    def table_holds(self, d, depth=0):
        """in a dict from word to record, the lemmas of each record conjugate to its word"""
        if depth > 40:
            return '?'
        if (d, 'table') in self.assumed:
            return 'yes'
        if d[0] in ('copy', 'copy2', 'deepcopy', 'dictof'):
            return self.table_holds(d[1], depth + 1)
        if d[0] == 'ite':
            return self.all([self.table_holds(d[2], depth + 1), self.table_holds(d[3], depth + 1)])
        if d[0] == 'comp' and d[1] == 'dict' and d[4][0] == 'tuple':
            return self.record(d[4][1][0], d[4][1][1], depth)
        if d[0] == 'dict' and not d[1]:
            return 'yes'
        if d[0] != 'new':
            return '?'
        self.assumed.add((d, 'table'))
        try:
            rs = []
            for e in self.r.effects:
                if e.target != d or e.kind in ('pop', 'del', 'clear', 'print', 'next'):
                    continue
                if e.kind in ('store', 'setdefault') and len(e.args) >= 2:
                    rs.append(self.record(e.args[0], e.args[1], depth))
                elif e.kind == 'update' and e.args:
                    rs.append(self.table_holds(e.args[0], depth + 1))
                else:
                    rs.append('?')
            return self.all(rs)
        finally:
            self.assumed.discard((d, 'table'))

    def record(self, k, v, depth):
        if v[0] == 'ite':
            return self.all([self.record(k, v[2], depth), self.record(k, v[3], depth)])
        if v[0] in ('item', 'get') and v[2] == k:
            return self.table_holds(v[1], depth + 1)
        if v[0] == 'nt':
            for f, x in v[2]:
                if f == 'lemma':
                    return self.holds(x, k, depth + 1)
        return '?'


def reader(prog):
    r = Reader(prog)
    r.close('soynlp.lemmatizer', 'conjugate')
    r.close('soynlp.hangle', 'compose', 'decompose')
    return r


TELL = {'conj': 'conjugates to the word', 'stem': 'has a known stem', 'ending': 'has a known ending'}


def settle(rep, prog, label, r, fr, rs, f, what):
    rep.count('obligations', 1)
    if rs == 'yes':
        rep.count('obligations_proved', 1)
        rep.sample('%s: every pair %s' % (label, what))
    elif rs == 'no':
        node = f.notes[0].node if f.notes and f.notes[0].node is not None else fr.node
        rep.violation('lemma', '%s|%s' % (label, f.fact), where(node, prog),
                      '%s: nothing ensures that a pair it gives %s' % (label, what))
    else:
        rep.undecide('%s: %s' % (label, f.fact), 'not every way a pair gets into the result could be followed')


def lemmatizer(rep, prog):
    r0 = reader(prog)
    names = ('stems', 'endings')
    r0.read_method('soynlp.lemmatizer', 'Lemmatizer', '__init__')
    heap = {k: v for k, v in r0.final.heap.items() if k[0] == SELF}
    for n in names:
        if not any(bare(v) == ('p', n) for v in heap.values()):
            rep.undecide('Lemmatizer.__init__', 'where it keeps its %s could not be found' % n)
            return
    heap = {k: v if v[0] in ('p', 'c') or bare(v)[0] == 'p' else ('attr', SELF, k[1]) for k, v in heap.items()}
    for meth, args, facts in (('lemmatize', {'check_only_stem': ('c', False)}, ('stem', 'ending', 'conj')),
                              ('lemmatize', {'check_only_stem': ('c', True)}, ('stem', 'conj')),
                              ('candidates', None, ('conj',))):
        r = reader(prog)
        t, fr = r.read_method('soynlp.lemmatizer', 'Lemmatizer', meth, args=args, heap=dict(heap))
        word = ('p', [a.arg for a in fr.node.args.args if a.arg != 'self'][0])
        for fact in facts:
            f = Facts(r, fact, ('p', 'stems') if fact == 'stem' else ('p', 'endings'))
            label = 'Lemmatizer.%s%s' % (meth, ' (%s)' % ', '.join('%s=%s' % (k, v[1]) for k, v in args.items()) if args else '')
            settle(rep, prog, label, r, fr, f.holds(t, word), f, TELL[fact])


def splitter(rep, prog):
    r = reader(prog)
    t, fr = r.read_function('soynlp.lemmatizer', 'lemma_candidate', None)
    a = [x.arg for x in fr.node.args.args][:2]
    from ..terms import add
    f = Facts(r, 'conj')
    settle(rep, prog, 'lemma_candidate', r, fr, f.holds(t, add(('p', a[0]), ('p', a[1]))), f, TELL['conj'])


def predicators(rep, prog):
    for args in ({'candidates': ('c', None)}, None):
        r = reader(prog)
        t, fr = r.read_method('soynlp.predicator', 'PredicatorExtractor', 'extract', args=args)
        for i, what in enumerate(('adjectives', 'verbs')):
            f = Facts(r, 'conj')
            rs = f.table_holds(t[1][i]) if t[0] == 'tuple' and len(t[1]) == 2 else '?'
            settle(rep, prog, 'PredicatorExtractor.extract %s%s' % (what, '' if args else ' of given candidates'), r, fr, rs, f, TELL['conj'])


def c20(tier):
    rep = Report('C20', tier, 'each pair enters a result only behind the membership tests and the conjugation test for its own word')
    prog = Program()
    for what, fn in (('Lemmatizer', lemmatizer), ('lemma_candidate', splitter), ('PredicatorExtractor', predicators)):
        rep.attempt(what, fn, rep, prog)
    return rep.finish('other', 'normal forms of Lemmatizer.lemmatize and candidates, lemma_candidate and PredicatorExtractor.extract with '
                      'conjugate, compose and decompose left as names. Every place where a (stem, ending) pair gets into the result (set '
                      'additions, updates, comprehensions, copies, subset steps, records stored under a word) must stand under '
                      '`word in conjugate(stem, ending)` for that very word and pair, and under membership in the stems and endings '
                      'given to the constructor where the operation promises it, there or in every collection the pair was taken from.')
