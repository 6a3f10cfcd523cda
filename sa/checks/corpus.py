"""C21: len() of a corpus is the number of items that iterating it yields."""
from ..loader import Program, where
from ..report import Report
from ..terms import Reader, walk, lin, unlin, sub, cmp, neg, conj, disj, ite, add, scale
from ..interp import Broken

MOD, CLS = 'soynlp.utils.utils', 'DoublespaceLineCorpus'
SELF = ('p', 'self')
FILE, LINE, PIECE = ('FILE',), ('LINE',), ('PIECE',)
ZERO, ONE, TRUE, FALSE = ('c', 0), ('c', 1), ('c', True), ('c', False)
DOCS, SENTS = ('attr', SELF, 'num_doc'), ('attr', SELF, 'num_sent')


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


def rebuild(t, f):
    """t with f applied to every sub-term from the inside out"""
    if not isinstance(t, tuple):
        return t
    t = tuple(rebuild(x, f) for x in t)
    if t and t[0] == 'ite' and len(t) == 4:
        t = ite(t[1], t[2], t[3])
    elif t and t[0] == 'and' and len(t) == 2:
        t = conj(list(t[1]))
    elif t and t[0] == 'or' and len(t) == 2:
        t = disj(list(t[1]))
    elif t and t[0] == 'not' and len(t) == 2:
        t = neg(t[1])
    elif t and t[0] == 'cmp' and len(t) == 4:
        t = cmp(t[1], t[2], t[3])
    elif t and t[0] == 'lin' and len(t) == 3:
        out = ('c', t[1])
        for x, k in t[2]:
            out = add(out, scale(x, k))
        t = out
    return f(t) if t and isinstance(t[0], str) else t


class Text:
    """terms of one reading, with the corpus file and its lines made recognisable"""

    def __init__(self, r, path):
        self.r, self.path = r, path
        self.skip = None

    def norm(self, t):
        def f(x):
            if x[0] == 'new' and len(x) > 4 and x[1] == 'file':
                if x[3] not in self.path:
                    raise Unknown('another file is read')
                if x[4] not in (('c', 'r'), ('c', 'rt')):
                    raise Unknown('how the file is opened')
                return FILE
            if x[0] == 'cmp' and any(y[0] == 'ext' and str(y[1]).startswith('sys.version') for y in walk(x)):
                return FALSE if x[1] == '==' and ('c', '2') in x[2:] else x
            if x[0] == 'exc':
                return FALSE
            if x[0] in ('iterof',) and x[1] == FILE:
                return FILE
            if x[0] == 'call' and x[1] == ('ext', 'itertools.islice') and x[2] and x[2][0] == FILE and len(x[2]) == 3 and x[2][2] == ('c', None):
                self.skip = x[2][1]
                return FILE
            if x[0] == 'elem' and x[1] == FILE:
                return LINE
            if x[0] == 'rng' and x[1] != ZERO:
                return add(('rng', ZERO, sub(x[2], x[1]), x[3]), x[1])
            if x[0] == 'phi' and isinstance(x[2], str) and x[1] in self.r.loops:
                i = self.r.loops[x[1]]
                if i['init'].get(x[2], ('x',))[0] == 'c' and i['iter'] is not None and i.get('ends') and \
                        all(g[1].get(x[2]) == add(x, ONE) for g in i['ends']) and self.norm(i['iter']) == FILE:
                    return add(('rng', ZERO, ('len', FILE), x[1]), i['init'][x[2]])
            return x
        return rebuild(t, f)

    def iter(self, L):
        i = self.r.loops[L]['iter']
        return None if i is None else self.norm(i)

    def header(self):
        """how many lines are skipped first"""
        n = ZERO
        for e in self.r.effects:
            if e.kind == 'yieldfrom':
                raise Unknown('yield from')
            t = self.norm(e.target)
            if e.kind == 'call' and t[0] == 'attr' and t[1] == FILE and t[2] != 'close' or e.kind in ('readline', 'seek', 'read', 'readlines') and t == FILE:
                if (t[2] if t[0] == 'attr' else e.kind) != 'readline':
                    raise Unknown('how the file is read')
            elif e.kind != 'next' or t != FILE:
                continue
            if not e.loops:
                n = add(n, ONE)
                continue
            if len(e.loops) > 1:
                raise Unknown('how header lines are skipped')
            i = self.iter(e.loops[0])
            if i is None or i[0] != 'range':
                raise Unknown('how header lines are skipped')
            n = add(n, sub(i[2], i[1]))
        if self.skip is not None:
            n = add(n, self.skip)
        return n


def split_of(t):
    """separator when t are the pieces of a line"""
    if t[0] in ('listof', 'tupleof', 'iterof'):
        return split_of(t[1])
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'split':
        if untrim(t[1][1]) == LINE and len(t[2]) <= 1 and not t[3]:
            return t[2][0] if t[2] else ('c', None)
    return None


def untrim(t):
    while t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('strip', 'rstrip') and (not t[2] or t[2] == (('c', '\n'),)) and not t[3]:
        t = t[1][1]
    return t


def trimmed(t):
    return t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'strip' and not t[2] and not t[3]


def truth(g):
    """what a guard asks of a line or piece: ('nonblank'|'nonempty', term) or None"""
    t = None
    if g[0] == 'cmp':
        a, b = g[2], g[3]
        if g[1] == '!=' and ('c', '') in (a, b):
            t = a if b == ('c', '') else b
        elif g[1] == '!=' and ZERO in (a, b):
            t = a if b == ZERO else b
            t = t[1] if t[0] == 'len' else None
        elif g[1] == '<' and a == ZERO and b[0] == 'len':
            t = b[1]
        elif g[1] == '<=' and a == ONE and b[0] == 'len':
            t = b[1]
    elif g[0] == 'call' and g[1] == ('g', 'bool') and len(g[2]) == 1:
        return truth(g[2][0])
    elif g[0] == 'len':
        t = g[1]
    elif g[0] not in ('and', 'or', 'not', 'phi', 'out'):
        t = g
    if t is None:
        return None
    if trimmed(t):
        return 'nonblank', t[1][1]
    return 'nonempty', t


def literal(g):
    """g as: expression >= 0"""
    if g[0] != 'cmp' or g[1] not in ('<', '<='):
        return None
    d = sub(g[3], g[2])
    if g[1] == '<':
        d = sub(d, ONE)
    k, m = lin(d)
    return k, frozenset(m.items())


def ge(a, b):
    """a >= b"""
    return literal(cmp('<=', b, a))


def flat(gs):
    out = []
    for g in gs:
        if g[0] == 'and':
            out += flat(g[1])
        elif g != TRUE:
            out.append(g)
    return out


class Walk:
    """one reading of __iter__, with the mode fixed"""

    def __init__(self, t, sent):
        self.t, self.sent, self.r = t, sent, t.r

    def pieces(self, e):
        """the file loop, the loop over pieces (sentence mode) and the guards of the one yield"""
        t, r = self.t, self.r
        loops = list(e.loops)
        files = [L for L in loops if t.iter(L) == FILE]
        if len(files) != 1 or loops[0] != files[0]:
            its = [t.iter(L) for L in loops]
            if any(i is not None and i[0] == 'attr' and i[1] == SELF for i in its):
                raise Unknown('the lines come from an attribute')
            raise Unknown('what is iterated')
        self.L = files[0]
        info = r.loops[self.L]
        if info.get('sorted') or info.get('reversed'):
            raise Unknown('order of the lines')
        rest = loops[1:]
        if not self.sent:
            if rest:
                if any(split_of(t.iter(L) or ('c', 0)) for L in rest):
                    raise Wrong('a document is yielded once for every piece of its line')
                raise Unknown('a loop around a document')
            self.K = None
            return
        if len(rest) != 1:
            raise Wrong('a document is yielded as one sentence') if not rest else Unknown('loops around a sentence')
        self.K = rest[0]
        self.sep = split_of(t.iter(self.K) or ('c', 0))
        if self.sep is None:
            raise Unknown('how a document is split')

    def local(self, g):
        """g over PIECE"""
        t = self.t.norm(g)
        if self.K is None:
            return t
        it = self.t.iter(self.K)
        return rebuild(t, lambda x: PIECE if x == ('elem', it, self.K) else x)

    def idx(self):
        return ('rng', ZERO, ('len', FILE), self.L)

    def counter(self, t, step_guards):
        """True when t counts the sentences yielded before this one"""
        if t[0] != 'phi' or t[1] != self.K or not isinstance(t[2], str):
            return False
        n = t[2]
        k, l = self.r.loops[self.K], self.r.loops[self.L]
        if self.t.norm(k['init'].get(n, ('c', None))) != ('phi', self.L, n):
            if k['init'].get(n, ('c', None))[0] == 'c':
                raise Wrong('the sentences are counted anew for every document')
            raise Unknown('count of sentences')
        if l['init'].get(n) != ZERO:
            raise Wrong('the count of sentences does not start at 0') if l['init'].get(n, ('x',))[0] == 'c' else Unknown('count of sentences')
        if l['step'].get(n) != ('out', self.K, n):
            s = l['step'].get(n)
            if not (s[0] == 'choice' and set(s[1]) <= {('out', self.K, n), ('phi', self.L, n)}):
                raise Unknown('count of sentences')
        step = self.local(k['step'].get(n, ('c', None)))
        want = ite(conj(step_guards), add(t, ONE), t)
        if step == want:
            return True
        if step == add(t, ONE):
            raise Wrong('pieces that are not yielded are counted too') if step_guards else True
        if step == t:
            raise Wrong('the sentences yielded are not counted')
        out = True
        for g, env in k['ends']:
            v = self.local(env.get(n, t))
            gs = flat([self.local(x) for x in g])
            if v == add(t, ONE):
                if not all(p in gs for p in step_guards):
                    raise Unknown('count of sentences')
            elif v == t:
                if not any(neg(p) in gs for p in step_guards):
                    raise Unknown('count of sentences')
            else:
                raise Unknown('count of sentences')
        return out

    # ------------------------------------------------------------ the limits
    def reached(self, gs, preds):
        """True when the guards hold only once a limit is used up"""
        ls = [literal(g) for g in gs]
        out = False
        if ge(DOCS, ONE) in ls:
            if ge(self.idx(), DOCS) in ls or ge(add(self.idx(), ONE), DOCS) in ls:
                out = True
        if self.K is not None and ge(SENTS, ONE) in ls:
            for g in gs:
                for x in walk(g):
                    if x[0] == 'phi' and x[1] == self.K and isinstance(x[2], str) and ge(x, SENTS) in ls and self.counter(x, preds):
                        out = True
        return out

    def flag(self, t, path, preds, depth=0):
        """t becomes true only when a limit is used up"""
        if depth > 6:
            raise Unknown('a flag')
        if t == FALSE or t[0] == 'phi' and isinstance(t[2], str):
            return True
        if t == TRUE:
            return self.reached(path, preds)
        if t[0] == 'ite':
            return self.flag(t[2], path + flat([t[1]]), preds, depth + 1) and self.flag(t[3], path + flat([neg(t[1])]), preds, depth + 1)
        if t[0] == 'and':
            return any(self.flag(x, path + [y for y in flat(t[1]) if y is not x], preds, depth + 1) for x in t[1] if x[0] in ('phi', 'out'))
        if t[0] in ('cmp', 'or', 'and'):
            return self.reached(path + flat([t]), preds) if t[0] != 'or' else all(self.flag(x, path, preds, depth + 1) for x in t[1])
        if t[0] == 'out' and t[1] == self.K:
            info = self.r.loops[self.K]
            n = t[2]
            for st, g in zip(info.get('breakstates', []), info['breaks']):
                v = st.env.get(n)
                if v is None or not self.flag(self.local(v), path + flat([self.local(x) for x in g]), preds, depth + 1):
                    return False
            for g, env in info['ends']:
                v = env.get(n, ('phi', self.K, n))
                if not self.flag(self.local(v), path + flat([self.local(x) for x in g]), preds, depth + 1):
                    return False
            return True
        raise Unknown('a flag')

    def flagname(self, n, preds):
        l = self.r.loops[self.L]
        if l['init'].get(n) != FALSE:
            raise Unknown('a flag')
        for g, env in l['ends']:
            v = env.get(n, ('phi', self.L, n))
            if not self.flag(self.local(v), flat([self.local(x) for x in g]), preds):
                raise Wrong('the iteration can stop before a limit is used up')

    def check(self, limited):
        """the one yield happens once for every line (or counted piece) within the limits"""
        ys = [e for e in self.r.effects if e.kind == 'yield']
        ys = [(e, [self.t.norm(g) for g in e.guards]) for e in ys]
        ys = [(e, g) for e, g in ys if FALSE not in g]
        mode = 'sentence' if self.sent else 'document'
        if any(e.kind == 'yieldfrom' for e in self.r.effects):
            raise Unknown('yield from')
        if not ys:
            raise Wrong('nothing is yielded in %s mode' % mode)
        if len(ys) > 1:
            raise Unknown('several places yield')
        e, gs = ys[0]
        self.pieces(e)
        gs = flat([self.local(g) for g in gs])
        # the condition on the text
        preds, rest, label = [], [], 'any'
        for g in gs:
            w = truth(g)
            if w and w[1] == PIECE:
                preds.append(g)
                label = 'nonblank' if 'nonblank' in (label, w[0]) else w[0]
            elif w and untrim(w[1]) == LINE:
                if not self.sent:
                    if w[0] == 'nonblank' or w[1] != LINE:
                        raise Wrong('blank lines are passed over, but counted')
            else:
                rest.append(g)
        seen = set()
        for g in rest:
            k = self.limit(g, preds)
            if k is None:
                raise Unknown('when an item is yielded')
            seen.add(k)
        for L in [self.L] + ([self.K] if self.K else []):
            info = self.r.loops[L]
            if info.get('returns'):
                rs = [g for g, ls, v, nd in self.t.fr.returns if L in ls]
                if not rs:
                    raise Unknown('the iteration can return early')
                for g in rs:
                    self.stop(flat([self.local(x) for x in g]), preds)
            for q in info['breaks']:
                self.stop(flat([self.local(x) for x in q]), preds)
        if limited:
            if 'doc' not in seen:
                raise Wrong('the limit on documents does not end the iteration in %s mode' % mode)
            if self.sent and 'sent' not in seen:
                raise Wrong('the limit on sentences does not end the iteration')
        elif seen - {'flag'}:
            raise Wrong('something is left out although no limit is set')
        return label

    def stop(self, q, preds):
        q = [g for g in q if g != TRUE]
        if FALSE in q:
            return
        if self.reached(q, preds):
            return
        for g in q:
            if g[0] == 'or':
                for x in g[1]:
                    self.stop([y for y in q if y is not g] + flat([x]), preds)
                return
        for g in q:
            if g[0] == 'phi' and isinstance(g[2], str):
                self.flagname(g[2], preds)
                return
            if g[0] == 'out' and g[1] == self.K:
                if self.flag(g, [], preds):
                    return
        # a break under a condition that is known: too early
        for g in q:
            l = literal(g)
            if l and any(x[0] in (self.idx(), SENTS, DOCS) for x in l[1]):
                raise Wrong('the iteration stops before a limit is used up')
        if not q or any(truth(g) and untrim(truth(g)[1]) in (LINE, PIECE) for g in [neg(x) for x in q] + q):
            raise Wrong('the iteration stops before the end of the file')
        raise Unknown('when the iteration stops')

    def limit(self, g, preds):
        """which limit a guard of the yield is"""
        if g[0] == 'not' and g[1][0] == 'phi' and isinstance(g[1][2], str):
            if g[1][1] != self.L:
                raise Unknown('a flag')
            self.flagname(g[1][2], preds)
            return 'flag'
        parts = [literal(x) for x in g[1]] if g[0] == 'or' else [literal(g)]
        if None in parts:
            return None
        if ge(ZERO, DOCS) in parts or any((self.idx(), -1) in p[1] for p in parts):
            others = [p for p in parts if p != ge(ZERO, DOCS)]
            if ge(ZERO, DOCS) not in parts:
                raise Wrong('without a limit on documents nothing is yielded')
            want = sub(sub(DOCS, self.idx()), ONE)
            for p in others:
                k, m = lin(want)
                if p[1] == frozenset(m.items()):
                    if p[0] != k:
                        raise Wrong('the limit on documents is off by %d' % (p[0] - k))
                    return 'doc'
            return None
        if self.K is not None:
            others = [p for p in parts if p != ge(ZERO, SENTS)]
            if len(others) != 1:
                return None
            cs = [x for x, k in others[0][1] if x != SENTS]
            if len(cs) == 1 and (SENTS, 1) in others[0][1] and (cs[0], -1) in others[0][1]:
                if not self.counter(cs[0], preds):
                    return None
                if ge(ZERO, SENTS) not in parts:
                    raise Wrong('without a limit on sentences nothing is yielded')
                if others[0][0] != -1:
                    raise Wrong('the limit on sentences is off by %d' % (others[0][0] + 1))
                return 'sent'
        return None


def strip_exc(t, r):
    """the alternatives of a value, without those of a failed opening"""
    if t[0] == 'choice' and t in r.choices:
        return [(g, l, v) for g, l, v, _ in r.choices[t]]
    return [((), (), t)]


def sentences(t, n):
    """(separator, predicate, loop) when n is the number of counted pieces of all lines up to the present point"""
    r = t.r
    n = t.norm(n)
    if n[0] not in ('out', 'phi') or not isinstance(n[2], str):
        raise Unknown('number of sentences')
    L, name = n[1], n[2]
    if t.iter(L) != FILE:
        raise Unknown('number of sentences')
    info = r.loops[L]
    if info['init'].get(name) != ZERO:
        raise Wrong('the count of sentences does not start at 0') if info['init'].get(name, ('x',))[0] == 'c' else Unknown('number of sentences')
    ph = ('phi', L, name)
    step = t.norm(info['step'][name])
    return (L,) + added(t, L, name, ph, step)


def added(t, L, name, ph, step):
    r = t.r
    if step[0] == 'out' and step[1] != L:
        K = step[1]
        k = r.loops[K]
        sep = split_of(t.iter(K) or ('c', 0))
        if sep is None or k['breaks'] or k.get('returns') or t.norm(k['init'].get(name, ('c', None))) != ph:
            raise Unknown('number of sentences')
        it = t.iter(K)
        pk = ('phi', K, name)
        s = rebuild(t.norm(k['step'][name]), lambda x: PIECE if x == ('elem', it, K) else x)
        if s == add(pk, ONE):
            return sep, 'any'
        if s[0] == 'ite' and s[2] == add(pk, ONE) and s[3] == pk:
            w = truth(s[1])
            if w and w[1] == PIECE:
                return sep, w[0]
        if s[0] == 'ite' and s[3] == add(pk, ONE) and s[2] == pk:
            w = truth(neg(s[1]))
            if w and w[1] == PIECE:
                return sep, w[0]
        raise Unknown('number of sentences')
    k, d = lin(sub(step, ph))
    if k == 0 and len(d) == 1:
        x, f = next(iter(d.items()))
        if f == 1 and x[0] == 'len':
            y = x[1]
            if split_of(y):
                return split_of(y), 'any'
            if y[0] == 'comp' and len(y[2]) == 1:
                K, it = y[2][0]
                if split_of(it):
                    gs = flat([rebuild(g, lambda z: PIECE if z == ('elem', it, K) else z) for g in y[3]])
                    ws = [truth(g) for g in gs]
                    if all(w and w[1] == PIECE for w in ws):
                        return split_of(it), 'nonblank' if any(w[0] == 'nonblank' for w in ws) else 'nonempty' if ws else 'any'
        if f == 1 and x[0] == 'sum' and x[1][0] == 'comp' and len(x[1][2]) == 1:
            y = x[1]
            K, it = y[2][0]
            if split_of(it):
                gs = list(y[3])
                if y[4] not in (ONE, TRUE):
                    gs.append(y[4])
                gs = flat([rebuild(g, lambda z: PIECE if z == ('elem', it, K) else z) for g in gs])
                ws = [truth(g) for g in gs]
                if all(w and w[1] == PIECE for w in ws):
                    return split_of(it), 'nonblank' if any(w[0] == 'nonblank' for w in ws) else 'nonempty' if ws else 'any'
    if k != 0 and not d:
        raise Wrong('every line counts as %d sentences' % k)
    raise Unknown('number of sentences')


def documents(t, n):
    """n is the number of lines"""
    n = t.norm(n)
    if n == ('len', FILE):
        return
    if n[0] == 'out' and t.iter(n[1]) == FILE and isinstance(n[2], str):
        i = t.r.loops[n[1]]
        s = t.norm(i['step'].get(n[2], ('c', None)))
        ph = ('phi', n[1], n[2])
        if i['init'].get(n[2]) == ZERO and s == add(ph, ONE):
            return
        if i['init'].get(n[2]) == ZERO and s[0] == 'ite' and add(ph, ONE) in s[2:] and ph in s[2:]:
            raise Wrong('some lines are not counted as documents')
    k, d = lin(n)
    if ('len', FILE) in d and len(d) == 1 and d[('len', FILE)] == 1:
        raise Wrong('the number of documents is off by %d' % k)
    if n[0] == 'out' or n[0] == 'lin' and any(x[0] == 'out' for x, _ in n[2]):
        raise Unknown('number of documents')
    raise Unknown('number of documents')


def header_of(t, want, what):
    h = t.header()
    if h != want:
        if h == ZERO:
            raise Wrong('%s does not skip the header lines' % what)
        k, d = lin(sub(h, want))
        if not d:
            raise Wrong('%s skips %+d header lines' % (what, k))
        raise Unknown('header lines')


def start(prog):
    """attributes after construction without limits"""
    r = Reader(prog)
    r.read_method(MOD, CLS, '__init__', {'num_doc': ('c', -1), 'num_sent': ('c', -1)})
    heap = {k[1]: v for k, v in r.final.heap.items() if k[0] == SELF}
    return r, heap


def alternatives(t, d, s):
    """values of the two attributes, alternative by alternative"""
    r = t.r
    if d[0] == 'item' and s[0] == 'item' and d[1] == s[1]:
        base, i, j = d[1], d[2], s[2]
        if (i, j) == (ONE, ZERO):
            raise Wrong('the numbers of documents and sentences are exchanged')
        if (i, j) != (ZERO, ONE):
            raise Unknown('length kept')
        out = []
        for g, l, v in strip_exc(base, r):
            if any(t.norm(x) == FALSE for x in g):
                continue
            if v[0] != 'tuple' or len(v[1]) != 2:
                raise Unknown('length kept')
            out.append((g, l, v[1][0], v[1][1]))
        return out
    return [((), (), d, s)]


def count(t, v, sent, yielded):
    """v is the number of items of the whole file"""
    if not sent:
        try:
            documents(t, v)
        except Unknown:
            try:
                sentences(t, v)
            except (Unknown, Wrong):
                pass
            else:
                raise Wrong('the number of sentences is given for the number of documents')
            raise
        return
    if t.norm(v) == ('len', FILE):
        raise Wrong('the number of documents is given for the number of sentences')
    L, sep, label = sentences(t, v)
    i = t.r.loops[L]
    if t.norm(v)[0] == 'out' and any(FALSE not in [t.norm(x) for x in q] for q in i['breaks']):
        raise Unknown('counting can stop early')
    same(yielded, (sep, label))


def same(a, b):
    if a is None or a == b:
        return
    if a[0] != b[0]:
        raise Wrong('sentences are yielded between %r but counted between %r' % (a[0][1], b[0][1]))
    raise Wrong('%s pieces are yielded but %s pieces counted' % (a[1], b[1]))


def kept(t, ret, mine, other, none):
    """len() of a corpus whose length is known"""
    leaf = t.norm(ret)
    unknown = (cmp('==', DOCS, none), cmp('<=', DOCS, ZERO), neg(DOCS))
    while leaf[0] == 'ite':
        q = leaf[1]
        if q in unknown:
            leaf = leaf[3]
        elif neg(q) in unknown:
            leaf = leaf[2]
        else:
            raise Unknown('when the length is known')
    if leaf == mine:
        return
    if leaf == other:
        raise Wrong('the length of the other mode is given')
    k, d = lin(leaf)
    if list(d) == [mine] and d[mine] == 1:
        raise Wrong('the length is off by %d' % k)
    raise Unknown('length known from a limit')


def first(t, ret, sent, none, yielded, heap):
    """len() of a corpus whose length is not known yet"""
    if t.norm(ret)[0] == 'c':
        raise Wrong('the length is %r whatever the file holds' % (t.norm(ret)[1],))
    count(t, t.norm(ret), sent, yielded)
    header_of(t, ('attr', SELF, 'skip_header'), 'counting')
    d, s = heap.get('num_doc'), heap.get('num_sent')
    if d is None or d == none:
        return
    for g, l, d, s in alternatives(t, d, s):
        count(t, t.norm(d), False, yielded)
        count(t, t.norm(s), True, yielded)


def limits(prog, path, yielded, none):
    """the two numbers kept by a corpus with limits are what is yielded within the limits"""
    r = Reader(prog)
    r.read_method(MOD, CLS, '__init__')
    t = Text(r, path)
    heap = {k[1]: v for k, v in r.final.heap.items() if k[0] == SELF}
    d, s = heap.get('num_doc', ZERO), heap.get('num_sent', ZERO)
    D, S = ('p', 'num_doc'), ('p', 'num_sent')
    if d[0] == 'ite' and s[0] == 'ite' and d[1] == s[1]:
        if d[3] == none:
            d, s = d[2], s[2]
        elif d[2] == none:
            d, s = d[3], s[3]
        else:
            raise Unknown('length without limits')
    n = 0
    for g, loops, d, s in alternatives(t, d, s):
        gs = flat([t.norm(x) for x in g])
        if (d, s) == (ZERO, ZERO):
            continue
        n += 1
        if not loops:
            count(t, d, False, yielded)
            count(t, s, True, yielded)
            continue
        if len(loops) != 1 or t.iter(loops[0]) != FILE:
            raise Unknown('counting stopped by a limit')
        L = loops[0]
        idx = ('rng', ZERO, ('len', FILE), L)
        d, s = t.norm(d), t.norm(s)
        ls = [literal(x) for x in gs if x[0] == 'cmp']
        docs = [l for l in ls if l and (idx, 1) in l[1] and (D, -1) in l[1]]
        if docs:
            if ge(D, ONE) not in ls:
                raise Wrong('counting stops although no limit on documents is set')
            if docs[0][0] > 0:
                raise Wrong('counting stops before the limit on documents is used up')
            if d not in (idx, D) or docs[0][0] < 0 and d != D:
                k, m = lin(sub(d, idx))
                if not m:
                    raise Wrong('the number of documents within the limit is off by %d' % k)
                raise Unknown('number of documents within the limit')
            if s[0] == 'phi' and docs[0][0] == 0:
                l2, sep, label = sentences(t, s)
                same(yielded, (sep, label))
                continue
            if docs[0][0] == 0 and any(x[0] == 'phi' and x[1] == L and isinstance(x[2], str)
                                       and s == t.norm(r.loops[L]['step'].get(x[2], ('c', None))) for x in walk(s)):
                raise Wrong('the sentences of the first document beyond the limit are counted')
            raise Unknown('number of sentences within the limit on documents')
        if ge(S, ONE) in ls:
            # n > S (or n >= S), n the sentences up to and with this line
            for l in ls:
                if l and (S, -1) in l[1] and l != ge(ZERO, S):
                    m = dict(l[1])
                    del m[S]
                    now = unlin(0, m)
                    if l[0] not in (-1, 0):
                        raise Wrong('counting stops before the limit on sentences is used up')
                    ph = [x for x in m if x[0] == 'phi' and x[1] == L]
                    if len(ph) == 1 and isinstance(ph[0][2], str):
                        st = t.norm(r.loops[L]['step'][ph[0][2]])
                        if st != now:
                            raise Unknown('number of sentences within the limit')
                        l2, sep, label = sentences(t, ph[0])
                    elif now[0] == 'out':
                        ph = [('phi', L, now[2])]
                        l2, sep, label = sentences(t, ph[0])
                    else:
                        raise Unknown('number of sentences within the limit')
                    same(yielded, (sep, label))
                    if d != add(idx, ONE):
                        k, m = lin(sub(d, add(idx, ONE)))
                        if not m:
                            raise Wrong('the number of documents kept with a limit on sentences is off by %d' % k)
                        raise Unknown('number of documents with a limit on sentences')
                    if s == S or s[0] == 'min' and set(s[1]) == {S, now} or l[0] == 0 and s in (now,):
                        if s == now and l[0] == 0:
                            raise Wrong('more sentences are counted than the limit lets through')
                        break
                    if s == now:
                        raise Wrong('more sentences are counted than the limit lets through')
                    raise Unknown('number of sentences within the limit')
            else:
                raise Unknown('counting stopped by a limit')
            continue
        raise Unknown('counting stopped by a limit')
    if not n:
        raise Unknown('length with limits')
    header_of(t, heap.get('skip_header', ZERO), 'counting')


def c21(tier):
    rep = Report('C21', tier, 'what is counted is what is yielded, in both modes, with and without limits')
    prog = Program()
    k = Reader(prog).find_class(MOD, CLS)
    at = {m: where(Reader(prog).method(k, m)[0], prog) for m in ('__init__', '__iter__', '__len__')}

    def part(what, meth, f):
        rep.count('obligations', 1)
        try:
            f()
            rep.count('obligations_proved', 1)
        except Wrong as x:
            rep.violation('length', '%s.%s: %s' % (CLS, meth, what), at[meth], '%s.%s, %s: %s' % (CLS, meth, what, x))
        except Unknown as x:
            rep.undecide('%s.%s: %s' % (CLS, meth, what), str(x))
        except Broken:
            raise
        except Exception as x:
            rep.undecide('%s.%s: %s' % (CLS, meth, what), 'internal: %r' % x)

    r0, heap0 = start(prog)
    path = [('attr', SELF, 'corpus_fname'), ('p', 'corpus_fname')]
    plain = {a: heap0.get(a, ('attr', SELF, a)) for a in ('num_doc', 'num_sent')}
    none = plain['num_doc']

    def reading(meth, sent, limited):
        r = Reader(prog)
        heap = {(SELF, 'iter_sent'): ('c', sent)}
        if not limited:
            heap.update({(SELF, a): v for a, v in plain.items()})
        ret, fr = r.read_method(MOD, CLS, meth, heap=heap)
        t = Text(r, path)
        t.fr = fr
        return t, ret, {a[1]: x for a, x in r.final.heap.items() if a[0] == SELF}

    yielded = {}

    def iteration(sent, limited):
        t, _, _ = reading('__iter__', sent, limited)
        for e in t.r.effects:
            if e.kind == 'setattr' and e.target == SELF:
                raise Unknown('iterating sets %s' % (e.args[0][1],))
        w = Walk(t, sent)
        label = w.check(limited)
        header_of(t, ('attr', SELF, 'skip_header'), 'iterating')
        if sent:
            if 'sep' in yielded:
                same(yielded['sep'], (w.sep, label))
            yielded['sep'] = (w.sep, label)

    for sent in (False, True):
        mode = 'sentences' if sent else 'documents'
        mine, other = (SENTS, DOCS) if sent else (DOCS, SENTS)
        part('%s without limits' % mode, '__iter__', lambda: iteration(sent, False))
        part('%s with limits' % mode, '__iter__', lambda: iteration(sent, True))

        def l1():
            t, ret, heap = reading('__len__', sent, False)
            first(t, ret, sent, none, yielded.get('sep'), heap)

        def l2():
            t, ret, heap = reading('__len__', sent, True)
            kept(t, ret, mine, other, none)
        part('%s without limits' % mode, '__len__', l1)
        part('%s with limits' % mode, '__len__', l2)
    part('limits', '__init__', lambda: limits(prog, path, yielded.get('sep'), none))
    if 'sep' in yielded:
        rep.sample('sentences are the %s pieces between %r' % (yielded['sep'][1], yielded['sep'][0][1]))
    return rep.finish('other', 'construction, iteration and len() are read as terms for both modes, without limits and with them: '
                      'iterating must yield once for every line (or every non-blank piece), under no condition but the limits kept, '
                      'which must be compared exactly; counting must go over the same file after the same header lines and count the '
                      'same lines and pieces; with limits, the numbers kept must be those of the lines and pieces within the limits; '
                      'len() must give the number belonging to the mode.')
