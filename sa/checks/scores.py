"""C24: scores are what their definitions say, and stay in the ranges that follow."""
from fractions import Fraction

from ..loader import Program
from ..report import Report
from ..terms import Reader, walk, lin, add, sub, neg, c
from .spans import Vague, Wrong, NONE
from .tokens import Obligations
from .distances import const, bare, ands

WORD = 'soynlp.word'
NOUN = 'soynlp.noun'
SELF = ('p', 'self')


def attr(n):
    return ('attr', SELF, n)


def cases(t, guards=()):
    """(conditions, result) of every way through"""
    if t[0] == 'ite':
        return cases(t[2], guards + tuple(ands(t[1]))) + cases(t[3], guards + tuple(ands(neg(t[1]))))
    return [(guards, t)]


def given(call):
    """the arguments of a call, by position or by name"""
    return tuple(call[2]) + tuple(v for _, v in call[3])


def key_of(z):
    """(table, loop) when z is each key of a table of the extractor"""
    if z[0] in ('key', 'elem') and z[1][0] == 'attr' and z[1][1] == SELF:
        return z[1], z[2]
    if z[0] == 'elem' and z[1][0] == 'keys' and z[1][1][0] == 'attr':
        return z[1][1], z[2]
    return None


# -- rational functions -------------------------------------------------------

def pmul(a, b):
    out = {}
    for m, x in a.items():
        for n, y in b.items():
            d = dict(m)
            for t, e in n:
                d[t] = d.get(t, 0) + e
            k = tuple(sorted(((t, e) for t, e in d.items() if e), key=repr))
            out[k] = out.get(k, 0) + x * y
    return {k: v for k, v in out.items() if v}


def padd(a, b, n=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + n * v
    return {k: v for k, v in out.items() if v}


ONE = {(): Fraction(1)}


def plain(t):
    """numbers are the same numbers as floats"""
    if t[0] == 'call' and t[1] in (('g', 'float'), ('g', 'int')) and len(t[2]) == 1 and t[1][1] == 'float':
        return plain(t[2][0])
    if t[0] == 'item' and t[1][0] == 'map' and t[1][1] == ('g', 'float') and const(t[2]) and t[1][2][0] in ('tuple', 'list'):
        try:
            return plain(t[1][2][1][t[2][1]])
        except IndexError:
            pass
    return t


def rat(t, leaf=plain):
    """t as (numerator, denominator)"""
    t = leaf(t)
    if const(t):
        return {k: v for k, v in {(): Fraction(t[1])}.items() if v}, ONE
    if t[0] == 'lin':
        n, d = rat(c(t[1]))
        for x, k in t[2]:
            a, b = rat(x, leaf)
            n, d = padd(pmul(n, b), pmul(pmul(a, d), {(): Fraction(k)})), pmul(d, b)
        return n, d
    if t[0] == 'bin' and t[1] in ('*', '/'):
        a, b = rat(t[2], leaf)
        x, y = rat(t[3], leaf)
        if t[1] == '/':
            x, y = y, x
        return pmul(a, x), pmul(b, y)
    if t[0] == 'bin' and t[1] == '**' and t[3][0] == 'c' and isinstance(t[3][1], int) and 0 < t[3][1] < 4:
        a, b = rat(t[2], leaf)
        n, d = a, b
        for _ in range(t[3][1] - 1):
            n, d = pmul(n, a), pmul(d, b)
        return n, d
    return {((t, 1),): Fraction(1)}, ONE


def same(a, b):
    return pmul(a[0], b[1]) == pmul(b[0], a[1])


def atoms(r):
    return {t for p in r for m in p for t, _ in m}


def power(t):
    """(base, exponent) of t"""
    if t[0] == 'bin' and t[1] == '**':
        return t[2], t[3]
    if t[0] == 'call' and t[1] in (('ext', 'numpy.power'), ('ext', 'math.pow'), ('g', 'pow')) and len(t[2]) == 2 and not t[3]:
        return t[2]
    return None


def logarithm(t):
    """what t is the natural logarithm of"""
    if t[0] != 'call' or t[1][0] not in ('ext', 'g'):
        return None
    n = t[1][1].rsplit('.', 1)[-1]
    if n == 'log' and len(t[2]) == 1 and not t[3]:
        return t[2][0]
    if n in ('log2', 'log10', 'log1p') or n == 'log' and len(t[2]) > 1:
        raise Wrong('formula', 'another logarithm (%s) than the natural one is taken' % n)
    return None


def component(t, i, known=False):
    """the ways to the i-th part of the pair t: (conditions, part)"""
    out = []
    for g, v in cases(t):
        if v[0] == 'nt':
            v = ('tuple', tuple(x for _, x in v[2]))
        if v[0] == 'item' and known:
            continue                # a pair found before
        if v[0] != 'tuple' or len(v[1]) <= i:
            raise Vague('a result that is no pair')
        out += [(g + h, w) for h, w in cases(v[1][i])]
    return out


def as_comp(r, D):
    """a table filled by one loop as a comprehension"""
    es = [e for e in r.effects if e.target == D] if D[0] == 'new' else []
    if len(es) != 1 or es[0].kind != 'store' or not es[0].loops:
        return D
    L = es[0].loops[-1]
    gs = tuple(g for g in es[0].guards if any(len(y) > 2 and y[2] == L or y[0] == 'rng' and y[-1] == L for y in walk(g)))
    return ('comp', 'dict', ((L, r.loops[L]['iter']),), gs, ('tuple', es[0].args[:2]))


class Words:
    """the scores of words"""

    def __init__(self, prog):
        self.prog = prog

    def read(self, meth, opaque=()):
        self.r = r = Reader(self.prog)
        r.opaque = set(opaque)
        self.t, self.fr = r.read_method(WORD, 'WordExtractor', meth)
        names = [a.arg for a in self.fr.node.args.args if a.arg != 'self']
        self.w = ('p', names[0]) if names else None
        return self.t

    # frequencies, and the count of the first or last character
    def freq(self, t):
        """(table, text) when t is the count of the text in the table"""
        t = plain(t)
        if t[0] in ('get', 'item') and t[1] in (attr('L'), attr('R')) and (t[0] == 'item' or t[3] == c(0)):
            return t[1][2], self.piece(t[2])
        if t[0] == 'ite':
            cs = cases(t)
            if len(cs) == 2 and c(0) in (cs[0][1], cs[1][1]):
                g, v = cs[0] if cs[1][1] == c(0) else cs[1]
                if v[0] == 'item' and v[1] in (attr('L'), attr('R')) and g == (('cmp', 'in', v[2], v[1]),):
                    return v[1][2], self.piece(v[2])
        return None

    def piece(self, x):
        if x[0] == 'slice' and x[1] == self.w:
            if x[2] in (c(0), NONE) and x[3] == c(1):
                return ('item', self.w, c(0))
            if x[2] == c(-1) and x[3] == NONE:
                return ('item', self.w, c(-1))
        if x[0] == 'item' and x[1] == self.w and sub(x[2], ('len', self.w)) == c(-1):
            return ('item', self.w, c(-1))
        return x

    def leaf(self, t):
        f = self.freq(t)
        return ('freq',) + f if f is not None else plain(t)

    def known(self, r):
        """all of it is counts and the length of the word"""
        return all(x[0] == 'freq' or x == ('len', self.w) or x[0] == 'attr' and x[1] == SELF for x in atoms(r))

    def frequency(self, ob):
        t = self.read('frequency')
        for i, side in enumerate('LR'):
            for g, v in component(t, i):
                f = self.freq(v)
                if f is None:
                    if v[0] in ('get', 'item') and v[1] == attr(side) and v[2] == self.w and len(v) > 3 and const(v[3]):
                        raise Wrong('formula', 'a word never seen is counted %r times' % (v[3][1],), self.fr.node)
                    raise Vague('the frequency')
                if f != (side, self.w):
                    raise Wrong('formula', 'the %s frequency is not the count of the word on that side' % ('left', 'right')[i], self.fr.node)
        ob('the frequencies are the counts of the word on either side')

    def short(self, g):
        """the length up to which g says the word is, 0 when g is about other things"""
        if g == ('not', self.w):
            return 0
        if g[0] == 'not' and g[1] == ('len', self.w):
            return 0
        if g[0] == 'cmp' and g[2] == ('len', self.w) and const(g[3]):
            return {'<=': g[3][1], '==': g[3][1], '<': g[3][1] - 1}.get(g[1])
        if g[0] == 'or':
            xs = [self.short(y) for y in g[1]]
            return None if None in xs else max(xs)
        return None

    def never(self, g, side):
        """g says the word was never seen on the side; Wrong when on the other"""
        for y in [g] if g[0] != 'or' else g[1]:
            n = self.short(y)
            if n is not None:
                if n > 1:
                    raise Wrong('formula', 'words of %d characters get no cohesion' % n, self.fr.node)
                continue
            if y[0] == 'not':
                y = ('cmp', '==', y[1], c(0))
            if y[0] != 'cmp' or y[1] not in ('==', '<=') or y[3] != c(0):
                f = self.freq(y[2]) if y[0] == 'cmp' and const(y[3]) else None
                if f is not None and y[1] in ('<=', '<', '==') and y[3][1] > 0 and not (y[1] == '<' and y[3][1] <= 1):
                    raise Wrong('formula', 'a word that was seen gets no cohesion', self.fr.node)
                return False
            f = self.freq(y[2])
            if f is None:
                return False
            if f[0] != side and f[1] == self.w:
                raise Wrong('formula', 'the cohesion of one side is given up when the word was never seen on the other', self.fr.node)
        return True

    def cohesion(self, ob):
        t = self.read('cohesion_score')
        n = ('len', self.w)
        for i, (side, end) in enumerate((('L', 0), ('R', -1))):
            tell = ('forward', 'backward')[i]
            main = 0
            for g, v in component(t, i):
                if const(v):
                    if v[1] != 0:
                        if any(self.short(y) is not None for y in g):
                            raise Wrong('formula', 'a single character has a cohesion of %r' % (v[1],), self.fr.node)
                        raise Vague('a case of the cohesion')
                    if not any(self.never(y, side) for y in g):
                        raise Vague('a case in which the cohesion is 0')
                    continue
                p = power(plain(v))
                if p is None:
                    r = rat(v, self.leaf)
                    if self.known(r):
                        raise Wrong('formula', 'the %s cohesion is no root of a probability' % tell, self.fr.node)
                    raise Vague('the cohesion')
                base, exp = rat(p[0], self.leaf), rat(p[1], self.leaf)
                want = rat(('bin', '/', ('freq', side, self.w), ('freq', side, ('item', self.w, c(end)))))
                wexp = rat(('bin', '/', c(1), sub(n, c(1))))
                for have, w, what in ((base, want, 'the probability of the word given its %s character' % ('first', 'last')[i]),
                                      (exp, wexp, 'one over the characters that follow')):
                    if not same(have, w):
                        if self.known(have):
                            raise Wrong('formula', 'the %s cohesion is not taken from %s' % (tell, what), self.fr.node)
                        raise Vague('the %s cohesion' % tell)
                main += 1
            if not main:
                raise Wrong('formula', 'there is no %s cohesion' % tell, self.fr.node)
            ob('the %s cohesion is the geometric mean of the probabilities' % tell)

    # -- what may stand next to a word ---------------------------------------
    def next_to(self, D):
        """{(table, end cut, characters cut)} of the table of extensions D"""
        out = []
        D = bare(D)
        todo = [] if D[0] == 'new' else [D]
        for e in self.r.effects:
            if e.target == D:
                if e.kind == 'store' and len(e.loops) == 1:
                    L = e.loops[0]
                    todo.append(('comp', 'dict', ((L, self.r.loops[L]['iter']),), tuple(e.guards), ('tuple', e.args[:2])))
                elif e.kind == 'update' and not e.loops and not e.guards:
                    todo.append(bare(e.args[0]))
                else:
                    raise Vague('how the extensions are collected')
        for x in todo:
            if x[0] != 'comp' or len(x[2]) != 1:
                raise Vague('how the extensions are collected')
            L, it = x[2][0]
            it = it[1] if it[0] in ('keys', 'items') else it
            k = ('key', it, L)
            if ('elem', it, L) in walk(x):
                k = ('elem', it, L)
            if it[0] != 'attr' or it[1] != SELF or it[2] not in ('L', 'R', '_aL', '_aR'):
                raise Vague('how the extensions are collected')
            if x[1] == 'dict' and x[4] != ('tuple', (k, ('item', it, k))):
                raise Vague('what is collected for an extension')
            if x[1] != 'dict' and x[4] not in (k, ('item', it, k)):
                raise Vague('what is collected for an extension')
            cut = length = None
            for g in x[3]:
                if g[0] == 'cmp' and g[1] == '==' and self.w in (g[2], g[3]):
                    s = g[3] if g[2] == self.w else g[2]
                    if s[0] == 'slice' and s[1] == k and s[4] == NONE:
                        if s[3] == NONE and const(s[2]) and s[2][1] > 0:
                            cut = ('first', s[2][1])
                            continue
                        if s[2] in (c(0), NONE) and const(s[3]) and s[3][1] < 0:
                            cut = ('last', -s[3][1])
                            continue
                if g[0] == 'cmp' and g[1] == '==' and any(y == ('len', k) or y == ('len', self.w) for y in walk(g)):
                    d = sub(sub(g[2], ('len', k)), sub(g[3], ('len', self.w)))
                    if not const(d):
                        d = sub(sub(g[3], ('len', k)), sub(g[2], ('len', self.w)))
                    if const(d):
                        length = abs(d[1])
                        continue
                if g[0] == 'call' and g[1][0] == 'attr' and g[1][1] == k and g[2] == (self.w,):
                    cut = ({'endswith': 'first', 'startswith': 'last'}.get(g[1][2]), None)
                    if cut[0]:
                        continue
                if g[0] == 'cmp' and const(g[3]) != const(g[2]) and ('item', it, k) in g[2:4]:
                    raise Wrong('formula', 'extensions are left out by how often they occur', self.fr.node)
                if g[0] == 'cmp' and g[1] in ('in', 'notin') and self.elsewhere(g, k, it):
                    raise Wrong('formula', 'extensions are left out by what else was counted', self.fr.node)
                raise Vague('which extensions are collected')
            if cut is None:
                raise Vague('which extensions are collected')
            if cut[1] is None:
                if length is None:
                    raise Wrong('formula', 'texts longer by more than one character count as extensions', self.fr.node)
                cut = (cut[0], length)
            elif length is not None and length != cut[1]:
                raise Wrong('formula', 'no text is both as long and as much alike as asked for', self.fr.node)
            out.append((it[2],) + cut)
        return tuple(sorted(out))

    def elsewhere(self, g, k, it):
        """g asks whether some text was counted, another one than the extension itself"""
        x, D = g[2], bare(g[3])
        D = D[1] if D[0] == 'keys' else D
        if x == k or x[0] == 'slice' and x[1] == k and self.w is None:
            return False
        if not any(y in (k, self.w) for y in walk(x)) or x[0] in ('attr', 'c'):
            return False
        plain_ = D in (attr('L'), attr('R')) or D[0] == 'comp' and D[2][0][1] in (('keys', attr('L')), ('keys', attr('R')), ('items', attr('L')), ('items', attr('R')))
        return plain_ or D[0] == 'new'

    SIDES = ((('R', 'first', 1), ('_aR', 'first', 2)), (('L', 'last', 1), ('_aL', 'last', 2)))

    def right_sources(self, have, i):
        if have != self.SIDES[i]:
            raise Wrong('formula', 'what stands at the %s of a word is not what was counted there: %s' % (
                ('left', 'right')[i], ', '.join('%s without its %s %d' % x for x in have)), self.fr.node)

    def variety(self, ob):
        t = self.read('accessor_variety')
        for i in (0, 1):
            main = 0
            for g, v in component(t, i):
                if v == c(0):
                    continue
                k, d = lin(v)
                if not d or any(x[0] not in ('len', 'sum') for x in d):
                    raise Vague('the accessor variety')
                have = []
                for x, n in d.items():
                    if x[0] == 'sum':
                        inner = x[1][1] if x[1][0] == 'values' else x[1]
                        have += self.next_to(inner)
                        raise Wrong('formula', 'how often the extensions occur is counted, not how many there are', self.fr.node)
                    have += self.next_to(x[1])
                self.right_sources(tuple(sorted(have)), i)
                if k or any(n != 1 for n in d.values()):
                    raise Wrong('formula', 'the accessor variety is not the number of extensions', self.fr.node)
                main += 1
            if not main:
                raise Wrong('formula', 'there is no accessor variety', self.fr.node)
        ob('the accessor variety is the number of characters seen next to the word')

    def entropy_of(self, v, scale=1):
        """the table v is the entropy of"""
        k, d = lin(v)
        if k or len(d) != 1:
            raise Vague('the entropy')
        (q, n), = d.items()
        if q[0] == 'bin':
            at = atoms(rat(v))
            if len([x for x in at if x[0] == 'out']) == 1 and all(x[0] in ('len', 'out') or logarithm(x) is not None and logarithm(x)[0] == 'len' for x in at):
                raise Wrong('formula', 'the entropy is rescaled', self.fr.node)
        if q[0] == 'out':
            info = self.r.loops[q[1]]
            s, init = info['step'].get(q[2]), info['init'].get(q[2])
            if s is None or init is None:
                raise Vague('the entropy')
            if init != c(0) and const(init):
                raise Wrong('formula', 'the entropy starts at %r' % (init[1],), info['node'])
            if init != c(0):
                raise Vague('the entropy')
            if info.get('breaks'):
                raise Wrong('formula', 'the entropy leaves out extensions', info['node'])
            inc, L, it = sub(s, ('phi', q[1], q[2])), q[1], info['iter']
        elif q[0] == 'sum' and q[1][0] == 'comp' and len(q[1][2]) == 1 and not q[1][3]:
            inc, (L, it) = q[1][4], q[1][2][0]
        else:
            raise Vague('the entropy')
        T = it[1] if it[0] in ('keys', 'values', 'items') else None
        if T is None:
            raise Vague('the entropy')
        whole = T
        if T[0] == 'attr':          # gone over in place, under the conditions of a table made of it
            made = {x[1][1] for x in walk(inc) if x[0] == 'sum' and x[1][0] == 'values'}
            if len(made) != 1:
                raise Vague('the entropy')
            (whole,) = made
            if whole[0] != 'comp' or whole[2][0][1] != ('keys', T):
                raise Vague('the entropy')
        here = {('item', T, ('key', T, L)), ('elem', ('values', T), L), ('val', T, L)}

        def leaf(x):
            x = plain(x)
            if x in here:
                return ('f',)
            if x == ('sum', ('values', whole)):
                return ('n',)
            return ('other', x) if x in (('len', whole), ('max', (('values', whole),)), ('min', (('values', whole),))) else x
        if inc[0] != 'ite':
            inc2 = [v for _, v in cases(s)] if q[0] == 'out' else [inc]
            if len(inc2) > 1:
                bare_ = [g for g, v in cases(s) if v == ('phi', q[1], q[2])]
                if any(y[0] == 'cmp' and const(y[3]) and leaf(y[2]) in (('f',), ('n',)) and y[3] != c(0) for g in bare_ for y in g):
                    raise Wrong('formula', 'the entropy leaves out extensions', info['node'])
                incs = [sub(v, ('phi', q[1], q[2])) for _, v in cases(s) if v != ('phi', q[1], q[2])]
                if len(incs) != 1 or not all(y[0] == 'cmp' and y[3] == c(0) or y[0] in (leaf(y),) for g in bare_ for y in g):
                    raise Vague('the entropy')
                (inc,) = incs
        num, den = rat(inc, leaf)
        logs = {x for x in atoms((num, den)) if logarithm(x) is not None}
        if len(logs) != 1:
            if atoms((num, den)) <= {('f',), ('n',)}:
                raise Wrong('formula', 'there is no logarithm in the entropy', self.fr.node)
            raise Vague('the entropy')
        (lg,) = logs
        if any((lg, 1) not in m for m in num) or any(x == lg for m in den for x, _ in m):
            raise Vague('the entropy')
        num = {tuple(y for y in m if y != (lg, 1)): x * n for m, x in num.items()}
        p = rat(('bin', '/', ('f',), ('n',)))
        arg = rat(logarithm(lg), leaf)
        if not all(x in (('f',), ('n',)) or x[0] == 'other' for x in atoms((num, den)) | atoms(arg)):
            raise Vague('the entropy')
        if same(arg, (p[1], p[0])):
            arg, num = p, {m: -x for m, x in num.items()}
        if not same(arg, p):
            raise Wrong('formula', 'the logarithm is not that of the probability', self.fr.node)
        if not same((num, den), ({m: -x for m, x in p[0].items()}, p[1])):
            raise Wrong('formula', 'the entropy is not the expected surprise: -sum p log p', self.fr.node)
        return whole

    def entropy(self, ob):
        t = self.read('branching_entropy')
        for i in (0, 1):
            main = 0
            for g, v in component(t, i):
                if const(v):
                    if v[1] != 0:
                        raise Wrong('formula', 'the entropy is %r where nothing is known' % (v[1],), self.fr.node)
                    continue
                self.right_sources(self.next_to(self.entropy_of(v)), i)
                main += 1
            if not main:
                raise Wrong('formula', 'there is no branching entropy', self.fr.node)
        ob('the branching entropy is that of the characters seen next to the word')

    # -- of all words ---------------------------------------------------------
    def stored(self, D):
        es = [e for e in self.r.effects if e.target == D and e.kind == 'store']
        if len(es) != len([e for e in self.r.effects if e.target == D]):
            raise Vague('how a table is filled')
        return es

    def call_of(self, t, *names):
        return t[0] == 'call' and t[1][0] == 'meth' and t[1][3] in names

    def all_words(self, it):
        it = bare(it)
        if it[0] == 'sorted':
            it = bare(it[1])
        if it[0] == 'enumerate':
            it = bare(it[1])
        return self.call_of(it, 'words') or it[0] == 'sorted' and self.all_words(it[1])

    def cohesions(self, ob):
        t = self.read('all_cohesion_scores', ('words', 'cohesion_score'))
        if t[0] == 'comp' and t[1] == 'dict' and len(t[2]) == 1:
            L, it = t[2][0]
            (k, v), gs, node = t[4][1], t[3], self.fr.node
        else:
            es = self.stored(t)
            if len(es) != 1 or len(es[0].loops) != 1:
                raise Vague('the table of cohesions')
            e = es[0]
            L, (k, v), gs, node = e.loops[0], e.args[:2], e.guards, e.node
            if self.r.loops[L].get('breaks'):
                raise Wrong('table', 'words are left out of the table', self.r.loops[L]['node'])
            it = self.r.loops[L]['iter']
        if not self.all_words(it) or k[0] != 'elem' or k[2] != L:
            raise Vague('the table of cohesions')
        if not self.call_of(v, 'cohesion_score'):
            raise Vague('the table of cohesions')
        if given(v) != (k,):
            raise Wrong('table', 'the cohesion of another word is put in the table', node)
        left, right = [('cmp', '!=', ('item', v, c(i)), c(0)) for i in (0, 1)]
        for g in gs:
            for zero in ((False, True), (True, False), (False, False)):
                x = self.true(g, {left: not zero[0], right: not zero[1], neg(left): zero[0], neg(right): zero[1]})
                if x is None:
                    raise Vague('which words are in the table of cohesions')
                if not x:
                    raise Wrong('table', 'words whose cohesion is 0 on one side only are left out of the table', node)
        ob('the table of cohesions agrees with the cohesion of a word')

    def true(self, g, facts):
        if g in facts:
            return facts[g]
        if g[0] in ('and', 'or'):
            xs = [self.true(y, facts) for y in g[1]]
            if (g[0] == 'or') in xs:
                return g[0] == 'or'
            return None if None in xs else g[0] == 'and'
        if g[0] == 'not':
            x = self.true(g[1], facts)
            return None if x is None else not x
        return None

    def measure(self, f):
        if f[0] == 'lam':
            return f[1]
        if f[0] == 'fn':
            return self.r.apply(f, [('lp', 0)], {}, self.fr.node)
        return None

    def varieties(self, ob):
        t = self.read('all_accessor_variety', ('all_branching_entropy',))
        if not self.call_of(t, 'all_branching_entropy'):
            raise Vague('the table of accessor varieties')
        a = list(t[2]) + [v for _, v in t[3]]
        if a != [('g', 'len')] and [self.measure(x) for x in a] != [('len', ('lp', 0))]:
            if len(a) == 1 and self.measure(a[0]) == ('sum', ('values', ('lp', 0))):
                raise Wrong('table', 'how often the extensions occur is counted, not how many there are', self.fr.node)
            if not a:
                raise Wrong('table', 'the table of accessor varieties is that of the entropies', self.fr.node)
            raise Vague('the table of accessor varieties')
        ob('the accessor varieties are the numbers of extensions')

    FIELDS = {'cohesion_forward': ('all_cohesion_scores', 0), 'cohesion_backward': ('all_cohesion_scores', 1),
              'left_branching_entropy': ('all_branching_entropy', 0), 'right_branching_entropy': ('all_branching_entropy', 1),
              'left_accessor_variety': ('all_accessor_variety', 0), 'right_accessor_variety': ('all_accessor_variety', 1)}

    def table(self, ob):
        t = self.read('word_scores', ('words', 'all_cohesion_scores', 'all_branching_entropy', 'all_accessor_variety', 'frequency'))
        if t[0] == 'comp' and t[1] == 'dict' and len(t[2]) == 1 and not t[3]:
            L, it = t[2][0]
            (k, v), node, gs = t[4][1], self.fr.node, ()
        else:
            es = self.stored(t)
            if len(es) != 1 or len(es[0].loops) != 1:
                raise Vague('the table of scores')
            e = es[0]
            L, (k, v), node, gs = e.loops[0], e.args[:2], e.node, e.guards
            it = self.r.loops[L]['iter']
            if self.r.loops[L].get('breaks'):
                raise Wrong('table', 'words are left out of the table', self.r.loops[L]['node'])
        for g in gs:
            if g[0] == 'cmp' and any(const(y) and y != c(0) for y in g[2:4]) and ('len', k) in g[2:4]:
                raise Wrong('table', 'words of some lengths are left out of the table', node)
        if not self.all_words(it) or k[0] != 'elem' or k[2] != L or v[0] != 'nt' or gs:
            raise Vague('the table of scores')
        for name, x in v[2]:
            if name in self.FIELDS:
                want, i = self.FIELDS[name]
                dflt = c(0)
                if x[0] == 'ite':
                    cs = [w for g, w in cases(x) if w != c(0)]
                    if len(cs) != 1:
                        raise Vague('a score in the table')
                    x = cs[0]
                if x[0] != 'item' or not const(x[2]) or x[1][0] not in ('get', 'item') or not self.call_of(x[1][1], *[w for w, _ in self.FIELDS.values()]):
                    raise Vague('a score in the table')
                if x[1][1][1][3] != want:
                    raise Wrong('table', '%s is taken from %s' % (name, x[1][1][1][3]), node)
                if x[2][1] % 2 != i:
                    raise Wrong('table', '%s is that of the other side' % name, node)
                if x[1][2] != k:
                    raise Wrong('table', '%s is that of another word' % name, node)
                if x[1][0] == 'get' and x[1][3] != ('tuple', (dflt, dflt)):
                    if x[1][3][0] == 'tuple' and all(const(y) for y in x[1][3][1]):
                        raise Wrong('table', 'a word without %s has one in the table' % name, node)
                    raise Vague('a score in the table')
            elif name in ('leftside_frequency', 'rightside_frequency'):
                i = int(name.startswith('right'))
                if x[0] == 'item' and self.call_of(x[1], 'frequency') and const(x[2]):
                    if given(x[1]) != (k,) or x[2][1] % 2 != i:
                        raise Wrong('table', '%s is another count' % name, node)
                    continue
                f = self.freq(x)
                if f is None:
                    raise Vague('a score in the table')
                if f != ('LR'[i], k):
                    raise Wrong('table', '%s is another count' % name, node)
            else:
                raise Vague('a score in the table')
        ob('every score of a word is put in its own field')

    # -- the table of entropies, made from the lengths --------------------------
    def branching(self, ob):
        t = self.read('all_branching_entropy')
        d = self.fr.node.args
        X = {}
        entries = []
        if t[0] == 'comp' and t[1] == 'dict' and len(t[2]) == 1:
            L, it = t[2][0]
            entries.append((t[4][1][0], t[4][1][1], t[3], self.fr.node))
        elif t[0] != 'new':
            raise Vague('the table of entropies')
        for e in self.stored(t):
            entries.append((e.args[0], e.args[1], e.guards, e.node))
        parts = []
        for k, v, gs, node in entries:
            if k[0] != 'key' or v[0] != 'tuple' or len(v[1]) != 2:
                raise Vague('the table of entropies')
            sides = []
            for x in v[1]:
                if x == ('item', k[1], k):
                    sides.append(('own', k[1]))
                elif x[0] == 'get' and x[2] == k and x[3] == c(0):
                    sides.append(('other', x[1]))
                elif x == c(0):
                    sides.append(('none', None))
                elif x[0] == 'get' and x[2] == k and (const(x[3]) or x[3][0] == 'item' and x[3][2] == k):
                    raise Wrong('table', 'a word nothing is known about has an entropy', node)
                else:
                    raise Vague('the table of entropies')
            parts.append((k[1], sides, gs, k, node))
        owners = {}
        for D, sides, gs, k, node in parts:
            for i, (kind, x) in enumerate(sides):
                if x is not None:
                    owners.setdefault(i, set()).add(x)
        if sorted(owners) != [0, 1] or any(len(x) != 1 for x in owners.values()):
            raise Vague('the table of entropies') if sorted(owners) != [0, 1] else \
                Wrong('table', 'the left entropy of some words is the right one of others', self.fr.node)
        side = [next(iter(owners[i])) for i in (0, 1)]
        if side[0] == side[1]:
            raise Wrong('table', 'the entropy of one side is given for both', self.fr.node)
        if {D for D, *_ in parts} != set(side):
            raise Wrong('table', 'words known on one side only are left out of the table', self.fr.node)
        for D, sides, gs, k, node in parts:
            for i, (kind, x) in enumerate(sides):
                if kind == 'none' and not any(g == ('cmp', 'notin', k, side[i]) for g in gs):
                    raise Wrong('table', 'an entropy known is forgotten', node)
            for g in gs:
                if g not in [('cmp', 'notin', k, s) for s in side]:
                    q = g[1] if g[0] == 'not' else g
                    if ('item', D, k) in (q, q[2] if q[0] == 'cmp' else None) and \
                            any(('cmp', 'notin', k2, D) in gs2 for D2, _, gs2, k2, _ in parts if D2 != D):
                        raise Wrong('table', 'words are left out of the table by the entropy of one side', node)
                    raise Vague('which words are in the table of entropies')
        for i in (0, 1):
            self.one_side(ob, side[i], i)

    def at_least(self, t, m):
        k, d = lin(t)
        if len(d) != 1:
            return None
        (x, n), = d.items()
        both = (attr('max_left_length'), attr('max_right_length'))
        if n != 1:
            return None
        if x in both:
            return x == m and k >= 0
        if x[0] == 'ite' and x[1][0] == 'cmp' and x[1][1] in ('<', '<='):
            if (x[1][2], x[1][3]) == (x[3], x[2]):
                x = ('max', x[2:4])
            elif (x[1][2], x[1][3]) == (x[2], x[3]):
                return False        # the smaller
        if x[0] == 'max':
            xs = x[1] if len(x[1]) > 1 or x[1][0][0] not in ('list', 'tuple') else x[1][0][1]
            rs = [self.at_least(add(y, c(k)), m) for y in xs]
            return True if True in rs else None if None in rs else False
        return None

    def one_side(self, ob, D, i):
        tell = ('left', 'right')[i]
        es = self.stored(D)
        if len(es) != 1 or len(es[0].loops) != 2 or es[0].guards:
            raise Vague('the %s entropies' % tell)
        e = es[0]
        k, v = e.args[:2]
        if k[0] != 'key' or v[0] != 'call' or v[1][0] != 'p' or len(v[2]) != 1 or v[3]:
            raise Vague('the %s entropies' % tell)
        E, f = k[1], v[2][0]
        f = as_comp(self.r, f)
        if f[0] != 'comp' or f[1] != 'dict' or len(f[2]) != 1 or f[3] or f[2][0][1] != ('item', E, k):
            raise Vague('the %s entropies' % tell)
        x = ('elem', ('item', E, k), f[2][0][0])
        if f[4][0] != 'tuple' or f[4][1][0] != x:
            raise Vague('the %s entropies' % tell)
        T, A = (('R', '_aR'), ('L', '_aL'))[i]
        spaced = ('cmp', 'in', c(' '), x)
        for g, w in cases(f[4][1][1]):
            if w[0] not in ('get', 'item') or w[2] != x or w[1][0] != 'attr' or w[1][1] != SELF:
                raise Vague('the counts of extensions')
            if g not in ((spaced,), (('cmp', 'notin', c(' '), x),), (('not', spaced),)):
                raise Vague('the counts of extensions')
            want = A if g == (spaced,) else T
            if w[1][2] != want:
                if w[1][2] in ('L', 'R', '_aL', '_aR'):
                    raise Wrong('table', 'the extensions on the %s are counted in another table' % tell, e.node)
                raise Vague('the counts of extensions')
        apps = [a for a in self.r.effects if a.target[0] == 'item' and a.target[1] == E]
        if any(a.kind != 'append' or a.guards or len(a.loops) != 2 or a.loops[0] != e.loops[0] for a in apps):
            raise Vague('how the extensions are grouped')
        rng = self.r.loops[e.loops[0]]['iter']
        if rng[0] != 'range' or len(rng) > 3 and rng[3] not in (c(1), NONE):
            raise Vague('how the extensions are grouped')
        n = ('rng', rng[1], rng[2], e.loops[0])
        got = {}
        for a in apps:
            y = a.args[0]
            if y[0] != 'elem' or y[1][0] not in ('get', 'item') or y[1][1][0] != 'new':
                raise Vague('how the extensions are grouped')
            B = y[1][1]
            ln = sub(y[1][2], n)
            if not const(ln):
                raise Vague('how the extensions are grouped')
            fills = [b for b in self.r.effects if b.target[0] == 'item' and b.target[1] == B]
            if len(fills) != 1 or fills[0].kind != 'append' or fills[0].guards or len(fills[0].loops) != 1:
                raise Vague('how the texts are grouped by length')
            z = fills[0].args[0]
            if key_of(z) is None or fills[0].target[2] != ('len', z):
                raise Vague('how the texts are grouped by length')
            src = key_of(z)[0][2]
            if src not in ('L', 'R', '_aL', '_aR'):
                raise Vague('how the texts are grouped by length')
            root = a.target[2]
            if root[0] != 'slice' or root[4] != NONE:
                raise Vague('the root of an extension')
            cut = ('first', root[2]) if root[3] == NONE else ('last', root[3]) if root[2] in (c(0), NONE) else None
            if cut is None or not const(cut[1]):
                raise Vague('the root of an extension')
            off = abs(cut[1][1])
            r0 = root[1]
            if r0[0] == 'call' and r0[1] == ('attr', y, 'replace') and r0[2] == (c(' '), c('')):
                off += 1
            elif r0 != y:
                raise Vague('the root of an extension')
            got[src] = (cut[0], off, ln[1], a.node)
        if set(got) != {T, A}:
            raise Wrong('table', 'the extensions on the %s are not all there: %s' % (tell, ', '.join(sorted(got))), e.node)
        for s, off in ((T, 1), (A, 2)):
            if got[s][:2] != (('first', 'last')[i], off):
                raise Wrong('table', 'the root of an extension on the %s is not the text without what was added' % tell, got[s][3])
        if got[A][2] - got[T][2] != 1:
            raise Wrong('table', 'extensions within a word and across a space are not put together', got[A][3])
        lo, hi = sub(rng[1], c(1 - got[T][2])), rng[2]
        # roots of every length from 1 to the longest word of the side
        if const(lo) and lo[1] > 1:
            raise Wrong('table', 'words of one character get no %s entropy' % tell, self.r.loops[e.loops[0]]['node'])
        top = sub(hi, c(2 - got[T][2]))         # the longest root
        for m in (attr('max_left_length'), attr('max_right_length')):
            x = self.at_least(top, m)
            if x is None:
                raise Vague('the longest word that gets an entropy')
            if not x:
                raise Wrong('table', 'the longest words get no %s entropy' % tell, self.r.loops[e.loops[0]]['node'])
        ob('the %s entropies are those of the extensions of each word' % tell)


# -- bigrams --------------------------------------------------------------------

def truth(g, name):
    """whether g holds when bigrams are scored by name"""
    if g[0] in ('and', 'or'):
        xs = [truth(y, name) for y in g[1]]
        if (False if g[0] == 'and' else True) in xs:
            return g[0] == 'or'
        return None if None in xs else g[0] == 'and'
    if g[0] == 'not':
        x = truth(g[1], name)
        return None if x is None else not x
    if g[0] == 'cmp' and g[1] in ('==', '!=') and {attr('score')} & {g[2], g[3]}:
        other = g[3] if g[2] == attr('score') else g[2]
        if other[0] == 'c':
            return (other[1] == name) == (g[1] == '==')
    return None


def scored(t, name):
    while t[0] == 'ite' and truth(t[1], name) is not None:
        t = t[2] if truth(t[1], name) else t[3]
    return t


def bigrams(prog, ob):
    r = Reader(prog)
    t, fr = r.read_method(WORD, 'Bigram', 'extract')
    ob.node = fr.node
    seen = set()
    for name in ('frequency', 'pmi', 'mikolov'):
        v = scored(t, name)
        comps = [as_comp(r, x) for x in walk(v) if x[0] == 'new' or x[0] == 'comp' and x[1] == 'dict']
        comps = [x for x in comps if x[0] == 'comp' and x[4][0] == 'tuple' and x[4][1][1][0] == 'nt']
        if len(comps) != 1:
            comps = list(dict.fromkeys(comps))
        if len(comps) != 1:
            raise Vague('the bigrams')
        x = comps[0]
        k, nt = x[4][1]
        f = dict(nt[2])
        L, it = x[2][0]
        freq, score = f.get('frequency'), f.get('score')
        here = ('item', ('elem', it, L), c(1))
        if name == 'frequency':
            if freq == here and score == here or freq == score and freq[0] == 'item' and freq[2] == k:
                seen.add(name)
                continue
            raise Vague('the frequency of a bigram')
        counts = it[1] if it[0] == 'keys' else None
        if freq != ('item', counts, k):
            raise Vague('the frequency of a bigram')
        vals = []
        if score[0] == 'item' and score[1][0] == 'new' and score[2] == k:
            for e in r.effects:
                if e.target == score[1] and e.kind == 'store':
                    if e.args[0][0] != 'key' or e.args[0][1] != counts or len(e.loops) != 1:
                        raise Vague('the score of a bigram')
                    vals += [(w, e.args[0], e.node) for _, w in cases(e.args[1])]
        else:
            vals = [(w, k, fr.node) for _, w in cases(score)]
        vals = [x for x in vals if not const(x[0])]
        if len(vals) != 1:
            raise Vague('the score of a bigram')
        w, key, node = vals[0]
        n = ('item', counts, key)

        def leaf(y, counts=counts, key=key, n=n):
            y = plain(y)
            if y == n:
                return ('n',)
            if y == ('sum', ('values', counts)):
                return ('N',)
            if y == attr('min_frequency'):
                return ('min',)
            if y[0] == 'item' and y[1] in (attr('_unigram'),) and y[2][0] == 'item' and y[2][1] == key and const(y[2][2]):
                return ('u', y[2][2][1] % 2)
            return y
        base = ('bin', '*', ('u', 0), ('u', 1))
        if name == 'pmi':
            try:
                a = logarithm(w)
            except Wrong as x:
                raise Wrong(x.kind, 'the pmi of a bigram: ' + x.message, node)
            if a is None:
                if atoms(rat(w, leaf)) <= {('n',), ('N',), ('min',), ('u', 0), ('u', 1)}:
                    raise Wrong('formula', 'the pmi of a bigram is no logarithm', node)
                raise Vague('the pmi of a bigram')
            want = ('bin', '/', ('bin', '*', ('lin', 0, ((('N',), 2),)), ('n',)), base)
        else:
            a = w
            want = ('bin', '/', sub(('n',), ('min',)), base)
        def bound(y, leaf=leaf):
            y = leaf(y)
            if y[0] in ('max', 'min') and len(y) > 1:
                xs = y[1] if len(y[1]) > 1 or y[1][0][0] not in ('list', 'tuple') else y[1][0][1]
                known = {('n',), ('N',), ('min',), ('u', 0), ('u', 1)}
                if len(xs) == 2 and y[0] == 'max' and any(const(x) and x[1] <= 1 for x in xs):
                    rest = [x for x in xs if not (const(x) and x[1] <= 1)]
                    r = rat(rest[0], leaf) if rest else None
                    if r and r[1] == ONE and len(r[0]) == 1 and atoms(r) <= known - {('min',)}:
                        return rest[0] if rest[0][0] == 'bin' else leaf(rest[0])   # a product of counts is at least 1
                if all(atoms(rat(x, leaf)) <= known for x in xs):
                    raise Wrong('formula', 'the %s score of a bigram is bounded' % name, node)
            return y
        have = rat(a, bound)
        if not same(have, rat(want)):
            if atoms(have) <= {('n',), ('N',), ('min',), ('u', 0), ('u', 1)}:
                raise Wrong('formula', 'the %s score of a bigram is not its definition' % name, node)
            raise Vague('the %s score of a bigram' % name)
        seen.add(name)
        ob('the %s score of a bigram is its definition' % name)
    if seen != {'frequency', 'pmi', 'mikolov'}:
        raise Vague('which scores there are')


# -- the pmi of a matrix ----------------------------------------------------------

class Matrix:
    def __init__(self, prog, name):
        self.r = Reader(prog)
        self.t, self.fr = self.r.read_function(WORD, name)
        self.X = ('p', self.fr.node.args.args[0].arg)

    def fail(self, text):
        raise Wrong('formula', text, self.fr.node)

    def total(self, t):
        return t == ('call', ('attr', self.X, 'sum'), (), ())

    def marginal(self, t):
        """the axis t sums over, as a probability"""
        while t[0] == 'call' and (t[1] == ('ext', 'numpy.asarray') and t[2] or t[1][0] == 'attr' and t[1][2] in ('reshape', 'ravel', 'flatten')):
            t = t[2][0] if t[1][0] == 'ext' else t[1][1]
        if t[0] == 'bin' and t[1] == '/' and self.total(t[3]):
            t = t[2]
        else:
            return None
        if t[0] == 'call' and t[1] == ('attr', self.X, 'sum'):
            a = t[2][0] if t[2] else dict(t[3]).get('axis')
            return a[1] if a is not None and const(a) else None
        return None

    def inverse(self, D, p, alpha):
        """the diagonal of one over p"""
        if D[0] != 'call' or D[1][0] != 'ext' or not D[1][1].endswith('diags'):
            raise Vague('the diagonals')
        x = D[2][0]
        row = ('item', ('call', ('attr', p, 'tolist'), (), ()), c(0))
        if x != row and x != ('item', p, c(0)):
            if self.p_of(x) is not None:
                self.fail('the probabilities of the other side are taken')
            raise Vague('the diagonals')
        data = ('item', ('attr', D, 'data'), c(0))
        st = [e for e in self.r.effects if e.kind == 'store' and e.target == ('attr', D, 'data') and e.args[0] == c(0)]
        if len(st) != 1 or st[0].loops:
            raise Vague('the diagonals')
        v = st[0].args[1]
        while v[0] == 'call' and v[1] in (('ext', 'numpy.asarray'), ('ext', 'numpy.array')) and v[2]:
            v = v[2][0]
        if v[0] != 'comp' or len(v[2]) != 1 or v[3] or v[2][0][1] != data:
            raise Vague('the diagonals')
        e = ('elem', data, v[2][0][0])
        for g, w in cases(v[4]):
            if const(w):
                if w[1] != 0 or not any(y in (('cmp', '==', e, c(0)), ('not', e), ('cmp', '<=', e, c(0))) for y in g):
                    raise Vague('the diagonals')
                continue
            have = rat(w)
            want = rat(('bin', '/', c(1), ('lin', 0, ((e, 1), (alpha, 1))) if alpha is not None else e))
            if not same(have, want):
                if atoms(have) <= {e, ('p', 'alpha')}:
                    self.fail('the matrix is not divided by the probability of the %s' % ('context' if alpha is not None else 'word'))
                raise Vague('the diagonals')

    def p_of(self, x):
        while x[0] in ('item', 'ite') or x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'tolist':
            x = x[1] if x[0] == 'item' else x[1][1] if x[0] == 'call' else x[3]
        return self.marginal(x)

    def check(self, ob):
        t = self.t
        if t[0] != 'tuple' or len(t[1]) != 3:
            raise Vague('what is returned')
        M, px, py = t[1]
        if self.marginal(px) is None:
            raise Vague('the probability of a word')
        if self.marginal(px) not in (1, -1):
            self.fail('the probability of a word is not the sum of its row')
        ob('the probability of a word is the share of its row')
        for g, v in cases(py):
            smooth = any(y == ('cmp', '<', ('p', 'beta'), c(1)) for y in g)
            if v[0] == 'bin' and v[1] == '/' and self.marginal(v) is None:
                b = v[2]
                if v[3] != ('call', ('attr', b, 'sum'), (), ()):
                    y = v[3]
                    if y[0] == 'call' and y[1][0] == 'attr' and y[1][2] == 'sum' and not y[2] and not y[3] and b[0] == 'bin' and \
                            (y[1][1] == b[2] or y[1][1] == px or y[1][1] == self.X or self.marginal(y[1][1]) is not None):
                        self.fail('smoothed probabilities do not add up to one')
                    raise Vague('the smoothed probability of a context')
                if b[0] != 'bin' or b[1] != '**':
                    raise Vague('the smoothed probability of a context')
                if b[3] != ('p', 'beta'):
                    raise Vague('the smoothed probability of a context')
                if not smooth and not any(y[0] == 'cmp' and ('p', 'beta') in y for y in g):
                    raise Vague('when probabilities are smoothed')
                vs = cases(b[2])
            elif v[0] == 'bin' and v[1] == '**':
                self.fail('smoothed probabilities do not add up to one')
            else:
                vs = [((), v)]
                if smooth:
                    self.fail('the probability of a context is not smoothed')
            for h, w in vs:
                if w == ('p', 'py'):
                    continue
                if self.marginal(w) is None:
                    raise Vague('the probability of a context')
                if self.marginal(w) not in (0, -2):
                    self.fail('the probability of a context is not the sum of its column')
        ob('the probability of a context is the share of its column, or as given')
        if M[0] != 'call' or M[1][0] != 'ext' or not M[1][1].split('.')[-1] in ('csr_matrix', 'coo_matrix', 'csc_matrix') or not M[2]:
            raise Vague('the matrix returned')
        a = M[2][0]
        if a[0] != 'tuple' or a[1][1][0] != 'tuple':
            raise Vague('the matrix returned')
        data, (rows, cols) = a[1][0], a[1][1][1]
        try:
            d = logarithm(data)
        except Wrong as x:
            raise Wrong(x.kind, x.message, self.fr.node)
        if d is None:
            if data[0] == 'item' and data[1][0] == 'attr' and data[1][2] == 'data':
                self.fail('the pmi is no logarithm')
            raise Vague('the pmi')
        if d[0] != 'item' or d[1][0] != 'attr' or d[1][2] != 'data':
            raise Vague('the pmi')
        E, idx = d[1][1], d[2]
        want = [('item', ('item', ('call', ('attr', E, 'nonzero'), (), ()), c(i)), idx) for i in (0, 1)]
        if [rows, cols] != want:
            if [cols, rows] == want:
                self.fail('rows and columns are exchanged')
            raise Vague('where the values lie')
        q = idx
        if q[0] == 'item' and q[1][0] == 'call' and q[1][1] == ('ext', 'numpy.where') and q[2] == c(0):
            q = q[1][2][0]
        if q[0] != 'cmp':
            raise Vague('which values are kept')
        v = ('attr', E, 'data')
        if q[3] != v and q[2] == v and q[1] in ('<', '<='):
            self.fail('the values smaller than the least one are those kept')
        if q[3] != v or q[1] not in ('<', '<='):
            raise Vague('which values are kept')
        if q[1] == '<':
            self.fail('a value that is just the least one asked for is not kept')
        for g, w in cases(q[2]):
            zero = ('cmp', '==', ('p', 'min_pmi'), c(0)) in g
            if w == ('call', ('ext', 'numpy.exp'), (('p', 'min_pmi'),), ()):
                continue
            if w == c(1) and zero:
                continue
            if const(w) or w == ('p', 'min_pmi'):
                self.fail('the least value is compared before the logarithm is taken')
            raise Vague('the least value')
        ob('values are kept from the least one asked for')
        if E[0] != 'call' or E[1][0] != 'attr' or E[1][2] != 'dot':
            raise Vague('the product')
        left, C = E[1][1], E[2][0]
        if left[0] != 'call' or left[1][0] != 'attr' or left[1][2] != 'dot':
            raise Vague('the product')
        A, B = left[1][1], left[2][0]
        if not (B[0] == 'bin' and B[1] == '/' and B[2] == self.X and self.total(B[3])):
            if B == self.X:
                self.fail('counts, not probabilities, are compared')
            raise Vague('the product')
        self.inverse(A, px, None)
        self.inverse(C, py, ('p', 'alpha'))
        ob('the pmi is the logarithm of p(x, y) / (p(x) (p(y) + alpha))')


# -- prediction scores of nouns ------------------------------------------------------

class Prediction:
    def __init__(self, prog, cls, at):
        self.r = Reader(prog)
        self.t, self.fr = self.r.read_method(NOUN, cls, 'predict')
        self.at = at
        self.cls = cls

    def leaves(self, t):
        if t[0] == 'choice':
            return [(g, v) for x in t[1] for g, v in self.leaves(x)]
        if t[0] == 'ite':
            return [((t[1],) + g, v) for g, v in self.leaves(t[2])] + [((neg(t[1]),) + g, v) for g, v in self.leaves(t[3])]
        return [((), t)]

    def increments(self, s, phi):
        for g, v in self.leaves(s):
            d = sub(v, phi)
            if d[0] == 'lin' and d[1] == 0 and len(d[2]) == 1 and d[2][0][1] == 1:
                d = d[2][0][0]
            for h, x in self.leaves(d) if d[0] == 'ite' else [((), d)]:
                yield g + h, x

    def counts(self, t):
        """the guards under which the accumulator t counts, when it adds up counts from 0"""
        if t[0] != 'out':
            return None
        info = self.r.loops[t[1]]
        s, init = info['step'].get(t[2]), info['init'].get(t[2])
        if s is None or init is None or not const(init) or init[1] < 0:
            return None
        out = []
        for g, d in self.increments(s, ('phi', t[1], t[2])):
            if d == c(0):
                continue
            if const(d) and d[1] > 0:
                out.append((g, d))
                continue
            if d[0] == 'item' and d[1][0] == 'elem' and d[2] == c(1) or d[0] == 'item' and d[2][0] == 'key':
                out.append((g, d))
                continue
            return None
        return out

    def signed(self, ob):
        """the score is in [-1, 1], whatever the counts"""
        for g, v in component(self.t, self.at, True):
            if const(v):
                if not -1 <= v[1] <= 1:
                    raise Wrong('range', 'a score of %r is given' % (v[1],), self.fr.node)
                continue
            n, d = rat(v)
            bad = [x for x in atoms((n, d)) if self.counts(x) is None]
            if bad:
                raise Vague('what a score is made of')
            lo, hi = padd(d, n), padd(d, n, -1)
            if any(x < 0 for x in list(lo.values()) + list(hi.values())):
                raise Wrong('range', 'a score may be more than 1 or less than -1', self.fr.node)
            if any(x < 0 for x in d.values()):
                raise Vague('what a score is divided by')
        ob('every prediction score is within [-1, 1]')

    def role(self, x):
        """what is counted in x: the features it is under"""
        cs = self.counts(x)
        if not cs:
            raise Vague('what is counted')
        names = set()
        for g, d in cs:
            inn = set()
            for y in g:
                for z in ands(y):
                    if z[0] == 'cmp' and z[1] == 'in' and z[3][0] == 'attr' and z[3][1] == SELF:
                        inn.add(z[3][2])
            names.add(tuple(sorted(inn)))
        if len(names) != 1 or len(next(iter(names))) > 1:
            raise Vague('what is counted')
        return next(iter(names))[0] if next(iter(names)) else None

    def pos_neg(self, ob):
        """the score is (pos - neg) / (pos + neg)"""
        unsure = False
        for g, v in component(self.t, self.at, True):
            if const(v):
                continue
            n, d = rat(v)
            if any(x[0] in ('max', 'min') for x in atoms((n, d))):
                inner = [y for x in atoms((n, d)) if x[0] in ('max', 'min') for y in x[1]]
                if all(y[0] == 'out' and self.role(y) in ('_pos_features', '_neg_features') for y in inner):
                    raise Wrong('formula', 'the score is not that of positive against negative features', self.fr.node)
            who = {x: self.role(x) for x in atoms((n, d))}
            if None in who.values():
                if any(k < 0 and who[x] == '_neg_features' for m, k in n.items() for x, _ in m):
                    raise Wrong('formula', 'the score is not that of positive against negative features', self.fr.node)
                unsure = True       # the share of eojeols, of what is common and the rest
                continue
            pos = [x for x in who if who[x] == '_pos_features']
            neg = [x for x in who if who[x] == '_neg_features']
            if len(who) != 2 or len(pos) != 1 or len(neg) != 1:
                if set(who.values()) <= {'_pos_features', '_neg_features', '_common_features'}:
                    raise Wrong('formula', 'the score is not that of positive against negative features', self.fr.node)
                raise Vague('what a score is made of')
            want = rat(('bin', '/', sub(pos[0], neg[0]), ('lin', 0, ((pos[0], 1), (neg[0], 1)))))
            if any(y[0] == 'cmp' and d in y[2:4] and any(const(z) and z != c(0) for z in y[2:4]) for x in who for g, d in self.counts(x) for w in g for y in ands(w)):
                raise Wrong('formula', 'features are left out by how often they occur', self.fr.node)
            if any(const(d) for x in who for _, d in self.counts(x)):
                raise Wrong('formula', 'features are counted by how many there are on one side', self.fr.node)
            if not same((n, d), want):
                raise Wrong('formula', 'the score is not that of positive against negative features', self.fr.node)
            ob('a prediction score is (positive - negative) / (positive + negative)')
            return
        if unsure:
            raise Vague('what a score is made of')
        raise Wrong('formula', 'no score is computed from the features', self.fr.node)

    def mean(self, ob):
        """the score is a mean weighted by the counts"""
        done = False
        for g, v in component(self.t, self.at, True):
            if const(v) or v[0] == 'item':
                continue
            if v[0] != 'bin' or v[1] != '/' or v[2][0] != 'out' or v[3][0] != 'out':
                r = rat(v)
                if all(x[0] == 'out' for x in atoms(r)):
                    raise Wrong('formula', 'the score is no mean of the scores of what follows', self.fr.node)
                raise Vague('the score')
            s, n = v[2], v[3]
            if s[1] != n[1]:
                raise Vague('the score')
            info = self.r.loops[s[1]]
            steps = []
            for x in (s, n):
                if info['init'].get(x[2]) != c(0):
                    if const(info['init'].get(x[2]) or ('?',)):
                        raise Wrong('formula', 'what is summed up does not start at 0', info['node'])
                    raise Vague('the score')
                st = info['step'].get(x[2])
                if st is None:
                    raise Vague('the score')
                steps.append([(tuple(y for y in g if y[0] != 'choice' and y != ('not', y)), sub(w, ('phi',) + x[1:])) for g, w in self.leaves(st)])
            a = {d for g, d in steps[0] if d != c(0)}
            b = {d for g, d in steps[1] if d != c(0)}
            if len(a) != 1 or len(b) != 1:
                raise Vague('the score')
            (a,), (b,) = a, b
            if a[0] == 'lin' and a[1] == 0 and len(a[2]) == 1 and a[2][0][1] == 1:
                a = a[2][0][0]
            if a[0] != 'bin' or a[1] != '*' or b not in a[2:4]:
                raise Wrong('formula', 'what the sum is divided by is not the sum of the weights', info['node']) \
                    if b == c(1) or a[0] == 'item' else Vague('the score')
            if a[3 if a[2] == b else 2][0] not in ('item', 'get'):
                raise Vague('the score')
            if any(d == c(0) for _, d in steps[0]) != any(d == c(0) for _, d in steps[1]):
                raise Wrong('formula', 'the weights summed up are not those of the scores summed up', info['node'])
            ga = [g for g, d in steps[0] if d != c(0)]
            gb = [g for g, d in steps[1] if d != c(0)]
            if ga != gb:
                if all(set(x) < set(y) for x, y in zip(gb, ga)) or all(set(x) < set(y) for x, y in zip(ga, gb)):
                    raise Wrong('formula', 'the weights summed up are not those of the scores summed up', info['node'])
                raise Vague('the score')
            done = True
        if not done:
            raise Wrong('formula', 'no score is computed from the features', self.fr.node)
        ob('a prediction score is the mean of the scores of what follows, weighted by how often')

    def share(self, ob, at, what):
        for g, v in component(self.t, at, True):
            if const(v) or v[0] == 'item' and v[2] == c(at):
                if const(v) and not 0 <= v[1] <= 1:
                    raise Wrong('range', '%s is given as %r' % (what, v[1]), self.fr.node)
                continue
            n, d = rat(v)
            if any(self.counts(x) is None for x in atoms((n, d))):
                raise Vague(what)
            if any(x < 0 for x in list(padd(d, n, -1).values()) + list(n.values())):
                raise Wrong('range', '%s may be more than 1 or less than 0' % what, self.fr.node)
        ob('%s is within [0, 1]' % what)


def c24(tier):
    rep = Report('C24', tier, 'each score is read as a formula over the counts and compared with its definition')
    prog = Program()

    def words(name):
        w = Words(prog)
        ob = Obligations(rep, prog, 'WordExtractor.' + name)
        fn = {'frequency': w.frequency, 'cohesion_score': w.cohesion, 'accessor_variety': w.variety, 'branching_entropy': w.entropy,
              'all_cohesion_scores': w.cohesions, 'all_accessor_variety': w.varieties, 'all_branching_entropy': w.branching, 'word_scores': w.table}[name]
        rep.count('scores', 1)
        ob.run(fn, ob)
    for n in ('frequency', 'cohesion_score', 'branching_entropy', 'accessor_variety', 'all_cohesion_scores', 'all_branching_entropy',
              'all_accessor_variety', 'word_scores'):
        rep.attempt(n, words, n)

    def pair():
        ob = Obligations(rep, prog, 'Bigram.extract')
        rep.count('scores', 1)
        ob.run(bigrams, prog, ob)
    rep.attempt('Bigram.extract', pair)

    def matrix():
        ob = Obligations(rep, prog, 'pmi')
        m = Matrix(prog, 'pmi')
        ob.node = m.fr.node
        rep.count('scores', 1)
        ob.run(m.check, ob)
    rep.attempt('pmi', matrix)

    def nouns(cls):
        p = Prediction(prog, cls, {'LRNounExtractor_v2': 1}.get(cls, 0))
        ob = Obligations(rep, prog, cls + '.predict')
        ob.node = p.fr.node
        rep.count('scores', 1)
        if cls == 'LRNounExtractor_v2':
            ob.run(p.signed, ob)
            ob.run(p.pos_neg, ob)
        else:
            ob.run(p.mean, ob)
            if cls == 'LRNounExtractor':
                ob.run(p.share, ob, 1, 'the share of known features')
    for cls in ('LRNounExtractor_v2', 'LRNounExtractor', 'NewsNounExtractor'):
        rep.attempt(cls, nouns, cls)
    return rep.finish('other', 'normal forms of the scores as rational functions, roots and logarithms of the counts, compared with their definitions: '
                      'frequency, cohesion, branching entropy and accessor variety of a word and of all words, the fields of the table of scores, '
                      'the scores of bigrams, the pmi of a matrix, the prediction scores of nouns and their ranges.')
