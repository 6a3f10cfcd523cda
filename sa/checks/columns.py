"""C23: terms and columns of the vectorizers correspond one to one."""
import sys

from ..loader import Program, where
from ..report import Report
from ..terms import Reader, canon, walk, subst, lin
from .text import params

SELF = ('p', 'self')
ZERO = ('c', 0)
VOCAB, LIST, SIZE = 'vocabulary_', 'idx2vocab', 'n_vocabs'
MATRIX = ('scipy.sparse.csr_matrix', 'scipy.sparse.coo_matrix', 'scipy.sparse.csc_matrix')
WRAP = ('listof', 'tupleof', 'iterof', 'copy', 'copy2', 'deepcopy')


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


def unwrap(t):
    while t[0] in WRAP:
        t = t[1]
    return t


def ascomp(r, t):
    """t as one comprehension, when it is one or was filled in one loop"""
    t = unwrap(t)
    if t[0] == 'comp':
        return t
    if t[0] == 'new' and t[1] in ('list', 'dict'):
        es = [e for e in r.effects if e.target == t]
        if len(es) == 1 and es[0].kind == ('append' if t[1] == 'list' else 'store') and es[0].loops:
            e = es[0]
            gens = tuple((L, r.loops[L]['iter']) for L in e.loops)
            if any(r.loops[L].get('breaks') or x is None for L, x in gens):
                raise Unknown('the loop can end early')
            own = tuple(g for g in e.guards if any(y in e.loops for x in walk(g) for y in x if isinstance(y, tuple) and y and y[0] == 'L'))
            return ('comp', t[1], gens, own, e.args[0] if t[1] == 'list' else ('tuple', e.args))
    return None


class Numbering:
    """column i belongs to the i-th element of a sequence"""

    def __init__(self, r, V):
        self.r, self.V = r, V
        k = ascomp(r, V)
        if k is None or k[4][0] != 'tuple' or len(k[4][1]) != 2:
            raise Unknown('form of the term-to-column map')
        self.gens, self.guards, (self.key, num) = k[2], k[3], k[4][1]
        L = self.gens[-1][0]
        self.L = L
        if num[0] == 'idx' and num[1] == tuple(g[0] for g in self.gens):
            start = num[2]
            if set(self.guards) - set(num[3]):
                raise Wrong('the columns are numbered before terms are left out, so some columns belong to no term')
        elif num[0] == 'rng' and num[3] == L and len(self.gens) == 1 and not self.guards:
            start = num[1]
        elif num == ('len', V):
            start = ZERO
        elif num[0] in ('rng', 'idx') and self.guards:
            raise Wrong('the columns are numbered before terms are left out, so some columns belong to no term')
        elif num[0] in ('item', 'c', 'key', 'elem', 'lin', 'bin'):
            if num[0] == 'lin' and len(num[2]) == 1 and num[2][0][0][0] in ('idx', 'rng'):
                raise Wrong('the columns are not numbered 0 to n-1')
            raise Wrong('the column of a term is not its position') if num[0] != 'lin' else Unknown('number of a column')
        else:
            raise Unknown('number of a column')
        if start != ZERO:
            raise Wrong('the columns are not numbered from 0')
        self.order = r.loops[L].get('sorted'), bool(r.loops[L].get('reversed'))

    def distinct(self):
        """True when no term can occur twice, None when that depends on what is given"""
        if len(self.gens) == 1 and self.key[0] == 'key' and self.key[2] == self.L:
            return True
        if len(self.gens) == 1 and self.gens[0][1][0] in ('setof', 'keys'):
            return True
        return None

    def same_elements(self, gens, guards, elt):
        return canon((self.gens, self.guards, self.key)) == canon((gens, guards, elt))

    def listed(self, I):
        """I is the list of the terms in the order of their columns"""
        src = unwrap(I)
        if len(self.gens) == 1 and not self.guards and unwrap(self.gens[0][1]) == src and self.key == ('elem', self.gens[0][1], self.L):
            if self.order == (None, False):
                return
            raise Wrong('the columns follow a sorted order, the list keeps the given one')
        I2 = src
        if src[0] == 'sorted':
            raise_order(self, src, src[1])
            return
        if canon(I2) == canon(self.V):
            return      # the keys in the order in which they were numbered
        k = ascomp(self.r, I2)
        if k is None:
            raise Unknown('form of the column-to-term list')
        if k[1] == 'dict':
            k = k[:4] + (k[4][1][0],)
        if not self.same_elements(k[2], k[3], k[4]):
            for x in walk(k[4]):
                if x[0] in ('idx',) or x[0] == 'item' and canon(x[1]) == canon(self.V):
                    raise Wrong('the list holds columns, not terms')
            if canon((self.gens, self.key)) == canon((k[2], k[4])):
                raise Wrong('the map and the list hold different terms')
            raise Unknown('elements of the column-to-term list')
        L = k[2][-1][0]
        o = self.r.loops[L].get('sorted'), bool(self.r.loops[L].get('reversed'))
        if canon((o[0] or (), o[1])) == canon((self.order[0] or (), self.order[1])):
            return
        x, y = sortkey(*o), sortkey(*self.order)
        if x and y and x[:2] == y[:2]:
            if x[2] == y[2]:
                return
            raise Wrong('the list is sorted the other way round than the columns')
        if o[0] is None:
            raise Wrong('the list is not in the order of the columns')
        raise_order(self, o[0], o[0][1], o[1])


def sortkey(s, rev):
    """(what is sorted, by what, in which direction); None when not a plain sort"""
    if s is None or rev or s[2][0] != 'lam' or s[3] not in (('c', False), ('c', True)):
        return None
    k, d = lin(s[2][1])
    way = -1 if s[3] == ('c', True) else 1
    if k == 0 and len(d) == 1 and set(d.values()) <= {1, -1}:
        (x, f), = d.items()
        return canon(s[1]), x, way * f
    return canon(s[1]), s[2][1], way


def raise_order(n, s, base, rev=False):
    """s sorts the entries of the map; it must do so by column"""
    keyf = s[2]
    if s[3] not in (('c', False), ('c', 0)) or rev:
        raise Wrong('the list is in the reversed order of the columns')
    over = base
    kind = 'keys'
    if over[0] in ('items', 'keys'):
        kind, over = over[0], over[1]
    if canon(over) != canon(n.V):
        raise Wrong('the list is not in the order of the columns') if keyf == ('c', None) else Unknown('order of the list')
    was = getattr(n, 'order', None)
    if keyf == ('c', None) and was and (was[0] is None or was[0][2] == keyf):
        raise Unknown('order of the list')
    if keyf == ('c', None):
        raise Wrong('the list is in alphabetical order, not in that of the columns')
    if keyf[0] == 'lam':
        k = keyf[1]
        me = ('lp', 0)
        if kind == 'items' and k == ('item', me, ('c', 1)) or kind == 'keys' and k[0] in ('item', 'get') and canon(k[1]) == canon(n.V) and k[2] == me:
            return
        if was and was[0] and was[0][2][0] == 'lam' and k[0] == 'tuple' and len(k[1]) > 1 and k[1][0] == was[0][2][1] \
                and any(x == me for y in k[1][1:] for x in walk(y)):
            raise Wrong('entries that are equal for the columns are in another order in the list')
        if k == me or k == ('item', me, ZERO):
            raise Wrong('the list is in alphabetical order, not in that of the columns')
        if kind == 'items' and lin(k)[1].keys() == {('item', me, ('c', 1))}:
            raise Wrong('the list is in the reversed order of the columns')
    if keyf[0] == 'attr' and keyf[2] in ('get', '__getitem__') and canon(keyf[1]) == canon(n.V) and kind == 'keys':
        return
    raise Unknown('order of the list')


def numbered(rep, r, who, at, V, I, N):
    rep.count('numberings', 1)
    try:
        n = Numbering(r, V)
        n.listed(I)
        if N is not None:
            size(n, V, I, N)
        rep.count('numberings_proved', 1)
    except Wrong as x:
        rep.violation('numbering', who, at, '%s: %s' % (who, x))
    except Unknown as x:
        rep.undecide(who, str(x))


def size(n, V, I, N):
    if N[0] == 'len' and (canon(N[1]) in (canon(V), canon(I), canon(unwrap(I)))):
        return
    if N[0] == 'len':
        k = ascomp(n.r, N[1]) if N[1][0] in ('comp', 'new') + WRAP else None
        if k is not None:
            el = k[4][1][0] if k[1] == 'dict' else k[4]
            if n.same_elements(k[2], k[3], el):
                return
            raise Wrong('the number of columns is the length of something else')
        if n.gens and N[1] == n.gens[0][1] and len(n.gens) == 1 and not n.guards:
            return
        raise Wrong('the number of columns is the length of something else') if N[1][0] in ('new', 'p') else Unknown('number of columns')
    if N[0] in ('c', 'lin'):
        raise Wrong('the number of columns is not the number of terms')
    raise Unknown('number of columns')


# ---------------------------------------------------------------- uses
def attr(a):
    return ('attr', SELF, a)


def column_of(t):
    """x when t is the column of x"""
    if t[0] in ('item', 'get') and t[1] == attr(VOCAB):
        return t[2]
    return None


def held(g, e, positive=True):
    """g says that e has a column"""
    return g == ('cmp', 'in', e, attr(VOCAB)) or g == ('cmp', 'isnot', ('get', attr(VOCAB), e, ('c', None)), ('c', None))


def tokens(t):
    """doc when t is the tokens of doc"""
    t = unwrap(t)
    if t[0] == 'call' and t[1] == attr('tokenizer') and len(t[2]) == 1:
        return t[2][0]
    return None


def all_columns(g, i):
    """the condition g on a column i: True when every i in 0..n-1 meets it, False when some does not"""
    if g == i:
        return False
    if g[0] != 'cmp' or g[1] not in ('<', '<='):
        raise Unknown('condition on a column')
    n = [attr(SIZE), ('len', attr(LIST)), ('len', attr(VOCAB))]
    k, d = 0, {}
    for sign, side in ((1, g[2]), (-1, g[3])):
        a, m = lin(side)
        k += sign * a
        for x, f in m.items():
            x = 'n' if x in n else 'i' if x == i else x
            d[x] = d.get(x, 0) + sign * f
    if set(d) - {'n', 'i'}:
        raise Unknown('condition on a column')
    a, b = d.get('i', 0), d.get('n', 0)
    if g[1] == '<':
        k += 1
    # a*i + b*n + k <= 0 for every 0 <= i < n
    return (a + b <= 0 and b + k <= 0) if a >= 0 else (b <= 0 and b + k <= 0)


def flat_guards(gs):
    for g in gs:
        if g[0] == 'and':
            yield from flat_guards(g[1])
        else:
            yield g


def guards_of(gs, e, what):
    """only the condition that e has a column may leave it out"""
    has = False
    for g in flat_guards(gs):
        if held(g, e):
            has = True
            continue
        cols = [x for x in walk(g) if column_of(x) == e]
        if cols:
            if g in cols:
                raise Wrong('%s leaves out the term of column 0' % what)
            if len(cols) > 1:
                raise Unknown('condition on a column')
            if not all_columns(g, cols[0]):
                raise Wrong('%s leaves out some terms that have a column' % what)
            has = True
            continue
        if any(x == e for x in walk(g)):
            if g[0] == 'cmp' and g[1] == 'notin' and g[3] == attr(VOCAB):
                raise Wrong('%s keeps the terms without a column' % what)
            if g[0] == 'cmp' and g[1] in ('in', 'notin') and g[3][0] == 'attr':
                raise Unknown('condition on a term')
            raise Wrong('%s leaves out some terms that have a column' % what) if g[0] == 'cmp' else Unknown('condition on a term')
        raise Unknown('condition of %s' % what)
    return has


def encode_list(r, t, ps):
    k = ascomp(r, t)
    if k is None or len(k[2]) != 1:
        raise Unknown('form of the result')
    L, X = k[2][0]
    e = ('elem', X, L)
    if tokens(X) != ('p', ps[0]):
        raise Unknown('what is encoded')
    if column_of(k[4]) != e:
        if k[4][0] == 'lin' and any(column_of(x) == e for x in walk(k[4])) or k[4] == e or k[4][0] in ('rng', 'c', 'item'):
            raise Wrong('a term is not encoded by its column')
        raise Unknown('code of a term')
    if not guards_of(k[3], e, 'encoding') and k[4][0] == 'get':
        raise Wrong('terms without a column are encoded too')


def decode_list(r, t, ps):
    k = ascomp(r, t)
    if k is None or len(k[2]) != 1 or k[2][0][1] != ('p', ps[0]):
        raise Unknown('form of the result')
    L, X = k[2][0]
    decoded(k[4], ('elem', X, L), k[3])


def decoded(t, i, guards):
    if t != ('item', attr(LIST), i):
        if t[0] == 'item' and t[1] == attr(LIST) and any(x == i for x in walk(t[2])) or t == i or t[0] == 'item' and t[1] == attr(VOCAB):
            raise Wrong('a column is not decoded to its term')
        raise Unknown('decoding of a column')
    for g in flat_guards(guards):
        if not all_columns(g, i):
            raise Wrong('decoding leaves out some columns')


def bag(d, ps):
    """d counts the tokens of the document"""
    return d[0] == 'counter' and tokens(d[1]) == ('p', ps[0])


def encode_bow(r, t, ps):
    k = ascomp(r, t)
    if k is None or k[1] != 'dict' or len(k[2]) != 1:
        raise Unknown('form of the result')
    L, X = k[2][0]
    if X[0] != 'keys' or not bag(X[1], ps):
        raise Unknown('what is encoded')
    key = ('key', X[1], L)
    a, b = k[4][1]
    if column_of(a) != key:
        if a == key or a[0] in ('lin', 'item', 'rng'):
            raise Wrong('a term is not encoded by its column')
        raise Unknown('code of a term')
    if b != ('item', X[1], key):
        raise Wrong('a column does not get the count of its term') if b[0] in ('c', 'lin', 'key') or column_of(b) else Unknown('count')
    if not guards_of(k[3], key, 'encoding') and a[0] == 'get':
        raise Wrong('terms without a column are encoded too')


def decode_bow(r, t, ps):
    k = ascomp(r, t)
    if k is None or k[1] != 'dict' or len(k[2]) != 1 or k[2][0][1] != ('keys', ('p', ps[0])):
        raise Unknown('form of the result')
    L, X = k[2][0]
    key = ('key', X[1], L)
    a, b = k[4][1]
    decoded(a, key, k[3])
    if b != ('item', X[1], key):
        raise Wrong('a term does not get the count of its column') if b[0] in ('c', 'lin', 'key') else Unknown('count')


def matrix(t):
    """(data, rows, columns, shape or None) of a sparse matrix built from coordinates"""
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in MATRIX and t[2] and t[2][0][0] == 'tuple' and len(t[2][0][1]) == 2:
        d, rc = t[2][0][1]
        if rc[0] == 'tuple' and len(rc[1]) == 2:
            kw = dict(t[3])
            return d, rc[1][0], rc[1][1], kw.get('shape', t[2][1] if len(t[2]) > 1 else None)
    return None


def one_append(r, t):
    es = [e for e in r.effects if e.target == t and e.kind in ('append', 'add', 'extend', 'store', 'inc', 'pop')]
    if t[0] == 'new' and len(es) == 1 and es[0].kind == 'append':
        return es[0]
    raise Unknown('coordinates of the matrix')


def entry(r, m):
    es = [one_append(r, unwrap(x)) for x in m[:3]]
    if len({e.loops for e in es}) != 1:
        raise Unknown('coordinates of the matrix are filled in different loops')
    if len({e.guards for e in es}) != 1:
        raise Wrong('the coordinate lists of the matrix are filled under different conditions')
    return es


def transform(r, t, ps):
    m = matrix(t)
    if m is None:
        raise Unknown('form of the matrix')
    d, row, col = entry(r, m)
    docs = ('p', ps[0])
    loops = [(L, r.loops[L]['iter']) for L in d.loops]
    if len(loops) != 2 or loops[0][1] != docs or loops[1][1][0] != 'keys':
        raise Unknown('loops that fill the matrix')
    i = ('rng', ZERO, ('len', docs), loops[0][0])
    X = loops[1][1][1]
    key = ('key', X, loops[1][0])
    doc = ('elem', docs, loops[0][0])
    if X[0] != 'counter' or tokens(X[1]) != doc:
        raise Unknown('what is counted')
    at(row.args[0], i, key, 'row')
    if column_of(col.args[0]) != key:
        if any(column_of(x) for x in walk(col.args[0])) or col.args[0] in (i, key):
            raise Wrong('the column of an entry is not the column of its term')
        raise Unknown('column of an entry')
    if d.args[0] != ('item', X, key):
        raise Wrong('an entry does not hold the count of its term') if d.args[0][0] in ('c', 'lin', 'rng') or column_of(d.args[0]) else Unknown('entry')
    if not guards_of(d.guards, key, 'the matrix') and col.args[0][0] == 'get':
        raise Wrong('an entry is made for terms without a column')
    if m[3] is None:
        raise Wrong('the matrix has as many columns as the last column used, not one for every term')
    s = m[3]
    if s[0] != 'tuple' or len(s[1]) != 2:
        raise Unknown('shape')
    cols = s[1][1]
    coords = [unwrap(x) for x in m[:3]]
    if cols not in (attr(SIZE), ('len', attr(VOCAB)), ('len', attr(LIST))):
        k, dd = lin(cols)
        if set(dd) <= {attr(SIZE), ('len', attr(VOCAB)), ('len', attr(LIST))} or any(x in coords for x in walk(cols)):
            raise Wrong('the matrix has not one column for every term')
        raise Unknown('number of columns')
    if s[1][0] != ('len', docs):
        k, dd = lin(s[1][0])
        if set(dd) == {('len', docs)} or any(x in coords for x in walk(s[1][0])):
            raise Wrong('the matrix has not one row for every document')
        raise Unknown('number of rows')


def at(t, want, key, what):
    if t == want:
        return
    k, d = lin(t)
    if set(d) == {want} or t == key or column_of(t):
        raise Wrong('the %s of an entry is wrong' % what)
    raise Unknown(what + ' of an entry')


def vocabs(r, t, ps):
    n = attr(VOCAB)
    t0 = unwrap(t)
    if t0 == attr(LIST):
        return
    s = None
    if t0[0] == 'sorted':
        s = t0
    else:
        k = ascomp(r, t0)
        if k and len(k[2]) == 1:
            L, X = k[2][0]
            s = r.loops[L].get('sorted')
            if k[3]:
                raise Wrong('some terms are left out')
            if X == attr(LIST) and k[4] == ('elem', X, L) and s is None:
                return
            if k[4] not in (('elem', n, L), ('key', n, L)):
                raise Unknown('terms listed')
    if s is None:
        raise Unknown('order of the terms')

    class N:
        V = n
    raise_order(N, s, s[1])


def to_file(r, t, ps):
    ws = [e for e in r.effects if e.kind == 'write']
    recs = [e for e in ws if e.loops]
    if len(recs) != 1 or recs[0].args[0][0] != 'str':
        raise Unknown('records written')
    e = recs[0]
    fs = [x[1] for x in e.args[0][1] if x[0] == 'fmt']
    if len(fs) != 3:
        raise Unknown('fields of a record')
    docs = ('p', ps[0])
    loops = [(L, r.loops[L]['iter']) for L in e.loops]
    if len(loops) != 2 or loops[0][1] != docs or loops[1][1][0] != 'keys':
        raise Unknown('loops that write the records')
    i = ('rng', ZERO, ('len', docs), loops[0][0])
    X = loops[1][1][1]
    key = ('key', X, loops[1][0])
    k, d = lin(fs[0])
    if (k, d) != (1, {i: 1}):
        raise Wrong('the row number of a record is not the number of its document') if set(d) == {i} else Unknown('row number')
    if X[0] != 'counter':
        raise Unknown('what is counted')
    inner = unwrap(X[1])
    doc = ('elem', docs, loops[0][0])
    if tokens(inner) == doc:
        col = column_of_lin(fs[1], key)
        if not guards_of(e.guards, key, 'the file') and any(x[0] == 'get' and x[1] == attr(VOCAB) for x in walk(fs[1])):
            raise Wrong('terms without a column are written too')
    else:
        c = ascomp(r, inner)
        if c is None or len(c[2]) != 1 or tokens(c[2][0][1]) != doc:
            raise Unknown('what is counted')
        L, Y = c[2][0]
        if column_of(c[4]) != ('elem', Y, L):
            raise Unknown('what is counted')
        if not guards_of(c[3], ('elem', Y, L), 'the file') and c[4][0] == 'get':
            raise Wrong('terms without a column are written too')
        k, d = lin(fs[1])
        col = k if d == {key: 1} else None
        if e.guards:
            raise Unknown('condition of a record')
    if col != 1:
        raise Wrong('the column number of a record is not that of its term') if col is not None else Unknown('column number')
    if fs[2] != ('item', X, key):
        raise Wrong('a record does not hold the count of its term') if fs[2][0] in ('c', 'lin', 'key') else Unknown('count of a record')
    # the line with the sizes
    heads = [w for w in ws if not w.loops and w.order < e.order and any(x[0] == 'fmt' for x in w.args[0][1:2] for x in (x if isinstance(x, tuple) else ()) if isinstance(x, tuple))]
    if len(heads) != 1:
        raise Unknown('line with the sizes')
    hs = [x[1] for x in heads[0].args[0][1] if x[0] == 'fmt']
    if len(hs) != 3:
        raise Unknown('line with the sizes')
    for got, want, what in ((hs[0], [('len', docs)], 'documents'), (hs[1], [attr(SIZE), ('len', attr(VOCAB)), ('len', attr(LIST))], 'terms')):
        if got in want:
            continue
        k, d = lin(got)
        if set(d) <= set(want) or got in (attr(SIZE), ('len', docs)):
            raise Wrong('the number of %s in the file is wrong' % what)
        raise Unknown('number of %s' % what)


def column_of_lin(t, key):
    k, d = lin(t)
    if len(d) == 1:
        (x, f), = d.items()
        if f == 1 and column_of(x) == key:
            return k
    return None


USES = (('encode_a_doc_to_list', encode_list), ('decode_from_list', decode_list), ('encode_a_doc_to_bow', encode_bow),
        ('decode_from_bow', decode_bow), ('transform', transform), ('to_file', to_file), ('vocabs', vocabs))


def uses(rep, prog, mod, cname):
    for name, fn in USES:
        r = Reader(prog)
        f, _ = r.method(r.find_class(mod, cname), name)
        if f is None:
            rep.undecide('%s.%s' % (cname, name), 'missing')
            continue
        rep.attempt('%s.%s' % (cname, name), use, rep, prog, r, mod, cname, name, fn, f)


def use(rep, prog, r, mod, cname, name, fn, f):
    t, fr = r.read_method(mod, cname, name)
    who = '%s.%s' % (cname, name)
    rep.count('uses', 1)
    try:
        fn(r, t, params(f)[1:])
        rep.count('uses_proved', 1)
    except Wrong as x:
        rep.violation('use', who, where(f, prog), '%s: %s' % (who, x))
    except Unknown as x:
        rep.undecide(who, str(x))


def setters(rep, prog, mod, cname):
    r0 = Reader(prog)
    k = r0.find_class(mod, cname)
    names = {n.name: n for c in reversed(r0.mro(k)) for n in r0.classnode(c).body if hasattr(n, 'args')}
    for name, f in sorted(names.items()):
        rep.attempt('%s.%s' % (cname, name), setter, rep, prog, mod, cname, name)


def setter(rep, prog, mod, cname, name):
    r = Reader(prog)
    f, _ = r.method(r.find_class(mod, cname), name)
    r.read_method(mod, cname, name)
    heap = {a: v for (o, a), v in r.final.heap.items() if o == SELF}
    have = [a for a in (VOCAB, LIST, SIZE) if a in heap]
    if not have:
        return
    who, at_ = '%s.%s' % (cname, name), where(f, prog)
    if len(have) < 3:
        if name.startswith('_'):
            return      # a part of another operation
        miss = [a for a in (VOCAB, LIST, SIZE) if a not in heap]
        rep.violation('numbering', who + '|partial', at_, '%s sets %s but not %s, so they no longer agree' % (
            who, ' and '.join(have), ' and '.join(miss)))
        return
    V, I, N = heap[VOCAB], heap[LIST], heap[SIZE]
    if N == ZERO and all(v[0] in ('new', 'dict', 'list') and not [e for e in r.effects if e.target == v] for v in (V, I)):
        rep.count('numberings', 1)
        rep.count('numberings_proved', 1)
        return
    numbered(rep, r, who, at_, V, I, N)


def contexts(rep, prog):
    who = 'sent_to_word_contexts_matrix'
    r = Reader(prog)
    t, fr = r.read_function('soynlp.vectorizer', who)
    at_ = where(fr.node, prog)
    rep.count('numberings', 1)
    rep.count('uses', 1)
    try:
        if t[0] != 'tuple' or len(t[1]) != 2:
            raise Unknown('form of the result')
        m, I = matrix(t[1][0]), t[1][1]
        if m is None:
            raise Unknown('form of the matrix')
        d, row, col = entry(r, m)
        vs = []
        for e in (row, col):
            x = e.args[0]
            if x[0] not in ('item', 'get'):
                raise Unknown('coordinates')
            vs.append((x[1], x[2]))
        if canon(vs[0][0]) != canon(vs[1][0]):
            raise Wrong('rows and columns are numbered by different maps')
        V = vs[0][0]
        n = Numbering(r, V)
        n.listed(I)
        # data at (word, context) must be what was counted for word and context
        want = ('item', ('item', None, vs[0][1]), vs[1][1])
        x = d.args[0]
        if not (x[0] == 'item' and x[1][0] == 'item' and x[1][2] == vs[0][1] and x[2] == vs[1][1]):
            if x[0] == 'item' and x[1][0] == 'item' and x[1][2] == vs[1][1] and x[2] == vs[0][1]:
                raise Wrong('rows are contexts and columns are words')
            raise Unknown('what an entry holds')
        s = m[3]
        if s is None:
            raise Wrong('the matrix ends at the last word that has a context, so it can have fewer rows or columns than the list has words')
        if s[0] != 'tuple' or len(s[1]) != 2:
            raise Unknown('shape')
        for x in s[1]:
            try:
                size(n, V, I, x)
            except (Wrong, Unknown):
                if isinstance(sys.exc_info()[1], Unknown) and not any(y in [unwrap(z) for z in m[:3]] for y in walk(x)):
                    raise
                raise Wrong('the matrix has not one row and column for every word')
        rep.count('numberings_proved', 1)
        rep.count('uses_proved', 1)
    except Wrong as x:
        rep.violation('use', who, at_, '%s: %s' % (who, x))
    except Unknown as x:
        rep.undecide(who, str(x))


def c23(tier):
    rep = Report('C23', tier, 'the map to columns numbers one sequence from 0, the list is that sequence, and every use goes through them')
    prog = Program()
    setters(rep, prog, 'soynlp.vectorizer', 'BaseVectorizer')
    uses(rep, prog, 'soynlp.vectorizer', 'BaseVectorizer')
    rep.attempt('sent_to_word_contexts_matrix', contexts, rep, prog)
    rep.sample('fit, load and _set_vocabulary: map, list and size describe one sequence')
    return rep.finish('other', 'every operation that sets the vocabulary is read as terms: the term-to-column map must number a sequence '
                      'from 0 and the list must be the same sequence in the order of the columns (sort keys compared); every encoder, '
                      'decoder, matrix and file writer must use exactly that map or list, leave out only terms without a column, and '
                      'size the matrix by the vocabulary.')
