"""C14: what save writes is what load reads back."""
from ..loader import Program, Broken, where
from ..report import Report
from ..terms import Reader, walk
from .text import params

SELF = ('p', 'self')
FILE = ('p', '@file')
# public module, class, shape of the content (a role may be empty text when marked ?)
TEXT = (('soynlp.utils', 'LRGraph', ('k1', 'k2?', 'v')), ('soynlp.utils', 'EojeolCounter', ('k1', 'v')),
        ('soynlp.vectorizer', 'BaseVectorizer', ('e',)))
PACKED = (('soynlp.word', 'WordExtractor'), ('soynlp.postagger', 'Dictionary'))
NAMES = {'k1': 'first key', 'k2': 'second key', 'v': 'count', 'e': 'entry'}


class Unknown(Exception):
    pass


class Wrong(Exception):
    """the file cannot be read back"""


class Depends(Unknown):
    """a condition that holds for some records only"""


def read(prog, mod, cname, meth):
    r = Reader(prog)
    k = r.find_class(mod, cname)
    f, owner = r.method(k, meth)
    if f is None:
        return None
    ps = params(f)[1:]
    args = {p: (FILE if i == 0 else ('p', p)) for i, p in enumerate(ps)}
    t, fr = r.read_method(mod, cname, meth, args=args)
    return r, f


def modern(guards):
    """False when the effect happens under Python 2 only"""
    for g in guards:
        if g[0] == 'cmp' and any(x[0] == 'ext' and str(x[1]).startswith('sys.version') for x in walk(g)):
            two = g[3] == ('c', 2) or g[2] == ('c', 2) or ('c', '2') in (g[2], g[3])
            if two and g[1] == '==':
                return False
    return True


def plain(guards):
    return tuple(g for g in guards if not any(x[0] == 'ext' and str(x[1]).startswith('sys.version') for x in walk(g)))


def isfile(t):
    return t[0] == 'new' and t[1] == 'file'


# ---------------------------------------------------------------- text files
def parts_of(t):
    if t[0] == 'c' and isinstance(t[1], str):
        return [t] if t[1] else []
    if t[0] == 'str':
        return [y for x in t[1] for y in parts_of(x)]
    if t[0] == 'fmt':
        return [t]
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join' and t[1][1][0] == 'c' and len(t[2]) == 1 and t[2][0][0] in ('list', 'tuple'):
        out = []
        for i, x in enumerate(t[2][0][1]):
            if i and t[1][1][1]:
                out.append(t[1][1])
            out += parts_of(x)
        return out
    if t[0] == 'call' and t[1] == ('g', 'str') and len(t[2]) == 1:
        return [('fmt', t[2][0], '')]
    return [('fmt', t, '')]


def writer(rep, who, r, f, shape, prog):
    """(file term, header lines, record parts, container terms by role); None when not recognised"""
    es = [e for e in r.effects if e.kind == 'write' and isfile(e.target) and modern(e.guards)]
    if not es:
        rep.undecide(who, 'save writes no text')
        return None
    if len({e.target for e in es}) != 1:
        rep.undecide(who, 'save writes several files')
        return None
    head = [e for e in es if not e.loops]
    recs = [e for e in es if e.loops]
    if not recs or len({e.loops for e in recs}) != 1 or any(e.order > recs[0].order for e in head):
        rep.undecide(who, 'records are not written in one loop')
        return None
    Ls = recs[0].loops
    at = where(f, prog)
    for e in recs:
        extra = [g for g in plain(e.guards) if any(x[0] in ('elem', 'key', 'rng') and x[-1] in Ls for x in walk(g))]
        if extra:
            rep.violation('writer', who + '|skipped', at, '%s.save writes some of the records only under a condition, so they are lost' % who)
            return None
        if plain(e.guards):
            rep.undecide(who, 'records are written under a condition')
            return None
    for L in Ls:
        if r.loops[L].get('breaks') or r.loops[L].get('returns'):
            rep.violation('writer', who + '|break', at, '%s.save can stop before the last record' % who)
            return None
    parts = []
    for e in recs:
        parts += parts_of(e.args[0])
    roles = {}
    its = [r.loops[L]['iter'] for L in Ls]
    for it in its:
        if partial(it):
            rep.violation('writer', who + '|part', at, '%s.save writes only a part of the records' % who)
            return None
    if shape == ('e',):
        if len(Ls) != 1:
            rep.undecide(who, 'loops')
            return None
        M = its[0]
        order = M if M[0] == 'sorted' else r.loops[Ls[0]].get('sorted')
        if order and order[2] not in (None, ('c', None)):
            rep.undecide(who, 'the entries are written in an order computed by a key')
            return None
        if order:
            rep.violation('writer', who + '|order', at, '%s.save writes the entries in another order than they are numbered' % who)
            return None
        roles[('elem', M, Ls[0])] = 'e'
    else:
        M = its[0][1] if its[0][0] == 'keys' else its[0]
        k1 = ('key', M, Ls[0])
        if len(shape) == 3:
            if len(Ls) != 2:
                rep.undecide(who, 'loops')
                return None
            inner = its[1][1] if its[1][0] == 'keys' else its[1]
            if inner != ('item', M, k1):
                rep.undecide(who, 'the inner loop is not over the entries of the key')
                return None
            k2 = ('key', inner, Ls[1])
            roles.update({k1: 'k1', k2: 'k2', ('item', inner, k2): 'v'})
        else:
            if len(Ls) != 1:
                rep.undecide(who, 'loops')
                return None
            roles.update({k1: 'k1', ('item', M, k1): 'v'})
    out = []
    for p in parts:
        if p[0] == 'c':
            out.append(p)
            continue
        role = roles.get(p[1])
        if role is None:
            rep.undecide(who, 'a written field is not an entry of the content')
            if not any(x in roles for x in walk(p[1])):
                return None
            if p[1][0] in ('lin', 'bin', 'slice', 'mul'):
                rep.violation('writer', who + '|field', at, '%s.save writes a changed %s' % (
                    who, NAMES[next(roles[x] for x in walk(p[1]) if x in roles)]))
            return None
        if p[2] not in ('', 's', 'd'):
            rep.violation('writer', who + '|format', at, '%s.save writes the %s as %r, which does not keep it' % (who, NAMES[role], p[2]))
            return None
        out.append(('f', role))
    have = {p[1] for p in out if p[0] == 'f'}
    for s in shape:
        if s.strip('?') not in have:
            rep.violation('writer', '%s|%s' % (who, s), at, '%s.save does not write the %s' % (who, NAMES[s.strip('?')]))
            return None
    lines = 0
    for e in head:
        ps = parts_of(e.args[0])
        lines += sum(p[1].count('\n') for p in ps if p[0] == 'c')
    if not out or out[-1][0] != 'c' or not out[-1][1].endswith('\n') or sum(p[1].count('\n') for p in out if p[0] == 'c') != 1:
        rep.violation('writer', who + '|line', at, '%s.save does not write one line per record' % who)
        return None
    return es[0].target, lines, out, M


def partial(t):
    """a slice or a filtered copy of something"""
    while t[0] in ('listof', 'tupleof', 'iterof', 'sorted', 'keys', 'values', 'items', 'copy', 'copy2', 'reversed', 'enumerate'):
        t = t[1]
    if t[0] == 'slice':
        return any(x not in (('c', None), ('c', 0)) for x in t[2:4])
    if t[0] == 'comp' and len(t[2]) == 1 and t[3]:
        return any(x[0] in ('elem', 'key') and x[-1] == t[2][0][0] for g in t[3] for x in walk(g))
    return False


WS = ' \t\n\r\x0b\x0c'


class Line:
    """terms over one line of the file"""

    def __init__(self, r, L, line, empty, case):
        self.r, self.L, self.line, self.empty, self.case = r, L, line, empty, case

    def text(self):
        return ('t', tuple(p for p in self.line if not (p[0] == 'f' and p[1] in self.empty)))

    def isline(self, t):
        return t[0] == 'elem' and t[2] == self.L

    def ev(self, t):
        h = t[0]
        if self.isline(t):
            return self.text()
        if h == 'c':
            if isinstance(t[1], str):
                return ('t', (t,) if t[1] else ())
            if isinstance(t[1], int) and not isinstance(t[1], bool):
                return ('n', t[1])
            return t
        if h == 'len':
            v = self.ev(t[1])
            if v[0] == 'l':
                return ('n', len(v[1]))
            if v[0] == 't':
                return ('m', sum(len(p[1]) if p[0] == 'c' else 1 for p in v[1]))
            raise Unknown('length')
        if h == 'lin':
            n = t[1]
            for x, k in t[2]:
                v = self.ev(x)
                if v[0] == 'r':
                    raise Wrong('a count is changed')
                if v[0] != 'n':
                    raise Unknown('sum')
                n += k * v[1]
            return ('n', n)
        if h == 'item':
            b = self.ev(t[1])
            i = self.ev(t[2])
            if b[0] == 'l' and i[0] == 'n':
                if not -len(b[1]) <= i[1] < len(b[1]):
                    raise Wrong('a line has %d fields, but field %d is read' % (len(b[1]), i[1]))
                return b[1][i[1]]
            raise Unknown('item')
        if h == 'slice':
            b = self.ev(t[1])
            lo, hi = t[2], t[3]
            if b[0] == 'l':
                num = lambda x: None if x == ('c', None) else self.ev(x)[1]
                return ('l', b[1][num(lo):num(hi)])
            if b[0] == 't' and lo in (('c', 0), ('c', None)) and hi == ('c', -1) and b[1] and b[1][-1][0] == 'c':
                s = b[1][-1][1][:-1]
                return ('t', b[1][:-1] + ((('c', s),) if s else ()))
            raise Unknown('slice')
        if h in ('listof', 'tupleof'):
            v = self.ev(t[1])
            if v[0] == 'l':
                return v
            raise Unknown(h)
        if h in ('list', 'tuple'):
            return ('l', tuple(self.ev(x) for x in t[1]))
        if h == 'comp' and t[1] in ('list', 'gen') and len(t[2]) == 1 and not t[3]:
            raise Unknown('comprehension')
        if h == 'ite':
            return self.ev(t[2] if self.truth(t[1]) else t[3])
        if h == 'call':
            return self.call(t)
        if h == 'str':
            out = ()
            for x in t[1]:
                v = self.ev(x[1] if x[0] == 'fmt' and x[2] == '' else x)
                if v[0] != 't':
                    raise Unknown('text')
                out += v[1]
            return ('t', out)
        raise Unknown(h)

    def strip(self, v, left, right, chars=None):
        ps = list(v[1])
        ws = WS if chars is None else chars
        while left and ps and ps[0][0] == 'c':
            s = ps[0][1].lstrip(ws)
            if s:
                ps[0] = ('c', s)
                break
            ps.pop(0)
        while right and ps and ps[-1][0] == 'c':
            s = ps[-1][1].rstrip(ws)
            if s:
                ps[-1] = ('c', s)
                break
            ps.pop()
        odd = [x for x in ws if x not in WS]
        for on, i in ((left, 0), (right, -1)):
            if on and odd and ps and ps[i][0] == 'f' and (ps[i][1] != 'v' or any(x.isdigit() for x in odd)):
                raise Wrong('characters of the %s are stripped' % NAMES[ps[i][1]])
        return ('t', tuple(ps))

    def call(self, t):
        f, args = t[1], t[2]
        if f[0] == 'g' and f[1] in ('int', 'float') and len(args) == 1:
            v = self.ev(args[0])
            if v[0] == 'n':
                return v
            if v[0] == 't':
                v = self.strip(v, True, True)
                if v[1] == (('f', 'v'),):
                    if f[1] == 'float':
                        raise Wrong('the count is read back as a float')
                    return ('r', 'v')
                if any(p[0] == 'f' and p[1] != 'v' for p in v[1]) or not v[1]:
                    raise Wrong('%s is read as a number' % (self.show(v) or 'empty text'))
            raise Unknown('number')
        if f[0] == 'g' and f[1] == 'str' and len(args) == 1:
            return self.ev(args[0])
        if f[0] != 'attr':
            raise Unknown('call')
        b = self.ev(f[1])
        if b[0] == 't' and f[2] in ('strip', 'rstrip', 'lstrip'):
            if args and (args[0][0] != 'c' or len(args) > 1):
                raise Unknown('strip')
            return self.strip(b, f[2] != 'rstrip', f[2] != 'lstrip', args[0][1] if args else None)
        if b[0] == 't' and f[2] in ('split', 'rsplit'):
            kw = dict(t[3])
            sep = args[0] if args else kw.get('sep', ('c', None))
            if sep[0] != 'c':
                raise Unknown('separator')
            mx = args[1] if len(args) > 1 else kw.get('maxsplit', ('c', -1))
            if mx[0] != 'c':
                raise Unknown('limit')
            return ('l', self.split(b, sep[1], mx[1], f[2] == 'rsplit'))
        if b[0] == 't' and f[2] == 'replace' and len(args) == 2 and args[0] == ('c', '\n') and args[1] == ('c', ''):
            return ('t', tuple(p if p[0] == 'f' else ('c', p[1].replace('\n', '')) for p in b[1] if p[0] == 'f' or p[1].replace('\n', '')))
        if b[0] == 't' and f[2] in ('partition', 'rpartition') and len(args) == 1 and args[0][0] == 'c':
            x = self.split(b, args[0][1], 1, f[2] == 'rpartition')
            if len(x) == 2:
                return ('l', (x[0], ('t', (args[0],)), x[1]))
        raise Unknown('method ' + str(f[2]))

    def split(self, v, sep, limit, right):
        if any(p == ('f', 'e') for p in v[1]) and sep != '\n':
            raise Wrong('an entry is cut at %s, which it may contain' % ('spaces' if sep is None else repr(sep)))
        # pieces: fields contain neither whitespace nor the separator
        if sep is None and not right and limit >= 0:
            raise Unknown('limited split')
        toks, cur, any_ = [], [], False
        for p in v[1]:
            if p[0] == 'f':
                cur.append(p)
                continue
            s, word = p[1], ''
            i = 0
            while i < len(s):
                if sep is None and s[i] in WS:
                    if word:
                        cur.append(('c', word))
                        word = ''
                    if cur:
                        toks.append(('t', tuple(cur)))
                        cur = []
                    i += 1
                elif sep is not None and s.startswith(sep, i):
                    if word:
                        cur.append(('c', word))
                        word = ''
                    toks.append(('t', tuple(cur)))
                    cur = []
                    i += len(sep)
                else:
                    word += s[i]
                    i += 1
            if word:
                cur.append(('c', word))
        if cur or sep is not None:
            toks.append(('t', tuple(cur)))
        if limit >= 0 and len(toks) > limit + 1:
            raise Unknown('limited split')
        return tuple(toks)

    def show(self, v):
        if v[0] == 't':
            return ''.join(p[1] if p[0] == 'c' else '<%s>' % NAMES[p[1]] for p in v[1]).replace('\n', '\\n')
        if v[0] == 'r':
            return NAMES[v[1]]
        return str(v[1:])

    def bound(self, least, n, op, what):
        """truth of x op n for every x >= least"""
        if op in ('<', '<='):
            if least >= n + (op == '<='):
                return False
        elif op in ('>', '>='):
            if least >= n + (op == '>'):
                return True
        elif least > n:
            return op == '!='
        raise Depends('only the lines that fit a condition on %s are used' % what)

    def guard(self, t):
        try:
            return self.truth(t)
        except Depends as x:
            raise Wrong(str(x))

    def truth(self, t):
        h = t[0]
        if t in self.case:
            return self.case[t]
        if h == 'not':
            return not self.truth(t[1])
        if h == 'and':
            return all(self.truth(x) for x in t[1])
        if h == 'or':
            return any(self.truth(x) for x in t[1])
        if h == 'c':
            return bool(t[1])
        if h == 'cmp' and t[1] in ('==', '!=', '<', '<='):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == 'phi' and ('same', a) in self.case and t[1] in ('==', '!='):
                    v = self.ev(b)
                    if v[0] == 't' and len(v[1]) == 1 and v[1][0][0] == 'f':
                        if v[1][0][1] != 'k1':
                            raise Wrong('the lines are grouped by the %s' % NAMES[v[1][0][1]])
                    elif v[0] == 'r':
                        raise Wrong('the lines are grouped by the count')
                    else:
                        raise Unknown('comparison with something else than the key')
                    return self.case[('same', a)] == (t[1] == '==')
            a, b = self.ev(t[2]), self.ev(t[3])
            if a[0] == b[0] == 'n':
                return {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '<=': a[1] <= b[1]}[t[1]]
            if a[0] == b[0] == 't' and t[1] in ('==', '!='):
                if a == b:
                    return t[1] == '=='
                for x, y in ((a, b), (b, a)):
                    if not x[1] and any(p[0] == 'f' for p in y[1]):
                        return t[1] == '!='
                    if len(x[1]) == 1 and x[1][0][0] == 'c' and len(y[1]) > 1:
                        return t[1] == '!='
                raise Unknown('comparison of texts')
            for x, y, op in ((a, b, t[1]), (b, a, {'<': '>', '<=': '>='}.get(t[1], t[1]))):
                if x[0] == 'r' and y[0] == 'n':
                    return self.bound(1, y[1], op, 'their count')
                if x[0] == 'm' and y[0] == 'n':
                    return self.bound(x[1], y[1], op, 'their length')
            raise Unknown('comparison')
        v = self.ev(t)
        if v[0] == 't':
            if not v[1]:
                return False
            return True
        if v[0] == 'l':
            return bool(v[1])
        if v[0] == 'n':
            return bool(v[1])
        raise Unknown('truth')


def role_of(v, empty):
    if v[0] == 'r':
        return v[1]
    if v[0] == 't':
        if len(v[1]) == 1 and v[1][0][0] == 'f':
            if v[1][0][1] == 'v':
                raise Wrong('the count is left as text')
            return v[1][0][1]
        if not v[1] and len(empty) == 1:
            return next(iter(empty))
    return None


def textpair(rep, prog, mod, cname, shape):
    w, l = read(prog, mod, cname, 'save'), read(prog, mod, cname, 'load')
    if w is None or l is None:
        return rep.undecide(cname, 'save or load is missing')
    rep.count('pairs', 1)
    rw, fw = w
    rl, fl = l
    got = writer(rep, cname, rw, fw, shape, prog)
    if got is None:
        return
    wfile, nhead, rec, M = got
    rep.sample('%s: line %s' % (cname, ''.join(p[1] if p[0] == 'c' else '<%s>' % NAMES[p[1]] for p in rec).replace('\n', '\\n')))
    at = where(fl, prog)
    files = {x for e in rl.effects for y in (e.target,) + e.args + tuple(rl.loops[L]['iter'] for L in e.loops) for x in walk(y) if isfile(x)}
    files |= {x for i in rl.loops.values() if i.get('iter') for x in walk(i['iter']) if isfile(x)}
    if not files:
        return rep.undecide(cname, 'load reads no file')
    for x in files:
        if x[3] != wfile[3]:
            if FILE in walk(x[3]):
                rep.violation('path', cname + '|path', at, '%s.load opens another file name than save writes for the same argument' % cname)
                return
            return rep.undecide(cname, 'path of the file read')
    rep.count('obligations', 1)
    heads = len([e for e in rl.effects if e.kind == 'next' and isfile(e.target) and modern(e.guards)])
    if heads != nhead:
        rep.violation('header', cname + '|header', at, '%s.save writes %d header lines, load skips %d' % (cname, nhead, heads))
        return
    attrs = {a for x in walk(M) if x[0] == 'attr' and x[1] == SELF for a in (x[2],)}
    final = {a: v for (o, a), v in rl.final.heap.items() if o == SELF}
    if shape == ('e',):
        return listpair(rep, prog, cname, rl, rec, attrs, final, at)
    roots = {strip_copy(final[a]) for a in attrs if a in final}
    if not roots:
        rep.violation('reader', cname + '|target', at, '%s.load does not set %s, which save writes' % (cname, ' or '.join(sorted(attrs))))
        return
    if len(roots) > 1:
        return rep.undecide(cname, 'several contents are loaded')
    root = roots.pop()
    if root[0] == 'comp':
        return rep.undecide(cname, 'loaded by a comprehension')
    loops = {e.loops[0] for e in rl.effects if e.kind in ('store', 'inc', 'append', 'setdefault') and e.loops and modern(e.guards)
             and any(isfile(x) for x in walk(rl.loops[e.loops[0]]['iter'] or ('c', None)))}
    if len(loops) != 1:
        return rep.undecide(cname, 'lines are not read in one loop')
    L = loops.pop()
    info = rl.loops[L]
    if info.get('breaks') or info.get('returns'):
        return rep.undecide(cname, 'the loop over the lines can end early')
    if not linewise(info['iter']):
        return rep.undecide(cname, 'the loop is not over every line')
    optional = [s.strip('?') for s in shape if s.endswith('?')]
    bad = False
    for empty in ([frozenset()] + [frozenset((o,)) for o in optional]):
        try:
            bad = records(rep, cname, rl, L, info, rec, empty, root, shape, at) or bad
        except Wrong as x:
            rep.violation('reader', cname + '|line', at, '%s.load does not read back %s: %s' % (
                cname, 'a record' if not empty else 'a record with an empty %s' % NAMES[next(iter(empty))], x))
            bad = True
        except Unknown as x:
            return rep.undecide(cname, 'load: %s' % x)
    if not bad:
        rep.count('pairs_proved', 1)
    # what the constructor derives from the content
    sums = final.get('_count_sum')
    if sums is not None:
        rep.count('obligations', 1)
        ok = ('sum', ('values', root))
        if sums[0] in ('len', 'c') or sums != ok and sums[0] != 'out' and not any(x == root for x in walk(sums)):
            rep.violation('derived', cname + '|_count_sum', at, '%s.load does not set the number of occurrences to that of the loaded counts' % cname)


def linewise(it):
    if isfile(it):
        return True
    if it[0] in ('listof', 'iterof'):
        return linewise(it[1])
    if it[0] == 'call' and it[1][0] == 'attr' and it[1][2] == 'readlines':
        return isfile(it[1][1])
    return False


def strip_copy(t):
    while t[0] in ('copy', 'copy2', 'deepcopy'):
        t = t[1]
    return t


def listpair(rep, prog, cname, rl, rec, attrs, final, at):
    for a in attrs:
        if a not in final:
            rep.violation('reader', cname + '|target', at, '%s.load does not set %s, which save writes' % (cname, a))
            return
        t = final[a]
        while t[0] in ('listof',):
            t = t[1]
        if t[0] == 'comp' and t[1] in ('list', 'gen') and len(t[2]) == 1 and linewise(t[2][0][1]):
            L, elt, guards = t[2][0][0], t[4], t[3]
        elif t[0] == 'new' and t[1] == 'list':
            es = [e for e in rl.effects if e.target == t]
            if len(es) != 1 or es[0].kind != 'append' or len(es[0].loops) != 1 or not linewise(rl.loops[es[0].loops[0]]['iter']):
                return rep.undecide(cname, 'the list is not read line by line')
            L, elt, guards = es[0].loops[0], es[0].args[0], plain(es[0].guards)
        else:
            return rep.undecide(cname, 'the list is not read line by line')
        line = Line(rl, L, tuple(rec), frozenset(), {})
        try:
            for g in guards:
                if not line.guard(g):
                    raise Wrong('lines are skipped')
            v = line.ev(elt)
        except Wrong as x:
            rep.violation('reader', cname + '|line', at, '%s.load does not read back a record: %s' % (cname, x))
            return
        except Unknown as x:
            return rep.undecide(cname, 'load: %s' % x)
        if v != ('t', (('f', 'e'),)):
            rep.violation('reader', cname + '|line', at, '%s.load reads %r instead of the %s' % (cname, line.show(v), NAMES['e']))
            return
        rep.count('obligations', 1)
        rep.count('pairs_proved', 1)


def records(rep, who, r, L, info, rec, empty, root, shape, at):
    """one record of the file; True when something was reported"""
    es = [e for e in r.effects if L in e.loops and e.kind in ('store', 'inc', 'append', 'setdefault', 'del', 'pop', 'add', 'clear', 'update') and modern(e.guards)]
    phis = {x for e in es for y in (e.target,) + e.args + e.guards for x in walk(y) if x[0] == 'phi' and x[1] == L}
    names = {x[2] for x in phis}
    what = 'a record' if not empty else 'a record with an empty %s' % NAMES[next(iter(empty))]
    two = len(shape) == 3
    if not phis:
        line = Line(r, L, tuple(rec), empty, {})
        direct(rep, who, r, L, line, es, root, two, what, at, empty)
        return direct.bad
    # grouping of consecutive lines: one name holds the key, one the group
    if not two or len(names) > 2:
        raise Unknown('the lines depend on the ones before')
    groups = [x for x in phis if info['init'].get(x[2], ('?',))[0] == 'new']
    keys = [x for x in phis if info['init'].get(x[2], ('?',))[0] == 'c']
    fixed = False
    if not groups and len(keys) == 1:
        # one dict for all groups, emptied between them
        objs = {e.target for e in es if e.kind == 'store' and e.target != root and e.target[0] == 'new' and e.target[2] < L[1]}
        groups, fixed = list(objs), True
    if len(groups) != 1 or len(keys) != 1:
        raise Unknown('the lines depend on the ones before')
    g, k = groups[0], keys[0]
    if info['init'][k[2]][1] not in ('', None):
        raise Unknown('first key')
    bad = False

    def say(key, msg):
        nonlocal bad
        bad = True
        rep.violation('reader', '%s|%s' % (who, key), at, '%s.load %s' % (who, msg))
    # (same key as the line before, group not empty)
    for same, full, size in ((True, True, 1), (True, True, 9), (False, True, 1), (False, True, 9), (False, False, 0)):
        sizes = {}
        for n in (1, 2):
            sizes.update({('cmp', '<', ('c', n), ('len', g)): size > n, ('cmp', '<=', ('c', n), ('len', g)): size >= n,
                          ('cmp', '==', ('len', g), ('c', n)): size == n, ('cmp', '!=', ('len', g), ('c', n)): size != n})
        line = Line(r, L, tuple(rec), empty, {**sizes, ('same', k): same, g: full, k: full, ('cmp', '<', ('c', 0), ('len', g)): full,
                                              ('cmp', '==', ('len', g), ('c', 0)): not full, ('cmp', '!=', ('len', g), ('c', 0)): full})
        flushed, cleared = None, False
        stored = []
        for e in es:
            if e.loops != (L,):
                raise Unknown('nested loops')
            if not all(line.guard(x) for x in plain(e.guards)):
                continue
            if e.kind == 'clear' and fixed and e.target == g and not stored:
                cleared = True
                continue
            if e.kind != 'store':
                raise Unknown(e.kind)
            tgt = pick(line, e.target)
            if tgt == root:
                key, val = e.args
                val = pick(line, val)
                if key == k and strip_copy(val) == g and not cleared:
                    flushed = 'old'
                    if fixed and val == g:
                        say('alias', 'files the same dict under every key')
                elif val == g or key == k:
                    say('flush', 'files a group of lines under another key')
                else:
                    raise Unknown('store of a group')
            else:
                stored.append((tgt, e.args))
        step = g if fixed else pick(line, info['step'].get(g[2], g))
        nkey = info['step'].get(k[2], k)
        try:
            kv = k if pick(line, nkey) == k else line.ev(pick(line, nkey))
        except Unknown:
            raise
        rep.count('obligations', 1)
        if len(stored) != 1:
            if not stored:
                say('skip', 'skips %s' % what)
                continue
            raise Unknown('several stores for one line')
        tgt, (a, b) = stored[0]
        ra, rb = role_of(line.ev(a), empty), role_of(line.ev(b), empty)
        if ra is None or rb is None:
            raise Unknown('what is stored')
        if (ra, rb) != ('k2', 'v'):
            say('fields', 'reads the %s and the %s of %s as second key and count' % (NAMES[ra], NAMES[rb], what))
        if step != tgt:
            say('group', 'goes on with another group than the one the line was put into')
        if kv == k and not same:
            say('key', 'does not remember the key of a new group')
        elif kv != k and role_of(kv, empty) != 'k1':
            say('key', 'remembers something else than the first key')
        if same:
            if flushed or tgt != g:
                if tgt != g or cleared:
                    say('group', 'puts lines of the same key into different groups')
        elif full:
            if flushed is None:
                say('flush', 'drops the group of lines before a new key')
            if tgt == g and not cleared:
                say('reset', 'goes on filling the group of the key before')
            elif tgt != g and not (tgt[0] == 'new' and tgt[2] > L[1]):
                raise Unknown('the group of a new key')
        else:
            if tgt != g and not (tgt[0] == 'new' and tgt[2] > L[1]):
                raise Unknown('the group of a new key')
    # the last group
    out_g, out_k = g if fixed else ('out', L, g[2]), ('out', L, k[2])
    tail = [e for e in r.effects if e.kind == 'store' and L not in e.loops and e.target == root and modern(e.guards)]
    rep.count('obligations', 1)
    if not any(e.args == (out_k, out_g) and set(plain(e.guards)) <= {out_g} for e in tail):
        if any(out_g in (x for a in e.args for x in walk(a)) for e in tail):
            if not any(x[0] == 'cmp' and x[1] in ('<', '<=') and x[2][0] == 'c' and x[2][1] + (x[1] == '<') > 1 and x[3] == ('len', out_g)
                       for e in tail for x in plain(e.guards)):
                raise Unknown('the last group')
        say('last', 'drops the lines of the last key')
    return bad


def pick(line, t):
    while t[0] == 'ite':
        t = t[2] if line.truth(t[1]) else t[3]
    return t


def direct(rep, who, r, L, line, es, root, two, what, at, empty):
    direct.bad = False

    def say(key, msg):
        direct.bad = True
        rep.violation('reader', '%s|%s' % (who, key), at, '%s.load %s' % (who, msg))
    hits, made = [], False
    for e in es:
        if e.loops != (L,):
            raise Unknown('nested loops')
        ok = True
        for x in plain(e.guards):
            if x[0] == 'cmp' and x[1] in ('in', 'notin') and strip_copy(x[3]) == root:
                if e.kind == 'store' and len(e.args) == 2 and e.args[1][0] in ('new', 'dict'):
                    made = True
                    ok = False
                    break
                raise Unknown('condition on the content')
            if not line.guard(x):
                ok = False
                break
        if not ok:
            continue
        if e.kind == 'setdefault' and e.target == root:
            made = True
            continue
        if e.kind not in ('store', 'inc'):
            raise Unknown(e.kind)
        hits.append(e)
    rep.count('obligations', 1)
    if not hits:
        return say('skip', 'skips %s' % what)
    if len(hits) > 1:
        raise Unknown('several stores for one line')
    e = hits[0]
    want = ('k1', 'k2', 'v') if two else ('k1', 'v')
    tgt = pick(line, e.target)
    path = []
    if two:
        if tgt[0] in ('item', 'get', 'setdefault', 'sditem') and tgt[1] == root:
            path.append(line.ev(tgt[2]))
        else:
            raise Unknown('where a line is stored')
    elif tgt != root:
        raise Unknown('where a line is stored')
    path += [line.ev(x) for x in e.args[:2]]
    roles = tuple(role_of(v, empty) for v in path)
    if None in roles:
        odd = next(v for v in path if role_of(v, empty) is None)
        if odd[0] == 't':
            return say('fields', 'reads %r of %s as the %s' % (line.show(odd), what, NAMES[want[path.index(odd)]]))
        raise Unknown('what is stored')
    if roles != want:
        say('fields', 'reads the %s of %s as %s' % (', '.join(NAMES[x] for x in roles), what, ', '.join(NAMES[x] for x in want)))


# ---------------------------------------------------------------- json and pickle
def paths(r, t, pre=()):
    """flat {path: term} of nested dict displays"""
    if t[0] == 'new' and t[1] == 'dict':
        es = [e for e in r.effects if e.target == t]
        if es and all(e.kind == 'store' and not e.loops and not plain(e.guards) and e.args[0][0] == 'c' for e in es):
            out = {}
            for e in es:
                out.update(paths(r, e.args[1], pre + (e.args[0][1],)))
            return out
        return {pre: t}
    if t[0] == 'dict' and t[1] and all(k[0] == 'c' for k, _ in t[1]):
        out = {}
        for k, v in t[1]:
            out.update(paths(r, v, pre + (k[1],)))
        return out
    return {pre: t}


def packed(rep, prog, mod, cname):
    w, l = read(prog, mod, cname, 'save'), read(prog, mod, cname, 'load')
    if w is None or l is None:
        return rep.undecide(cname, 'save or load is missing')
    rep.count('pairs', 1)
    rw, fw = w
    rl, fl = l
    at = where(fl, prog)
    dumps = [e for e in rw.effects if e.kind in ('json.dump', 'pickle.dump') and modern(e.guards)]
    loads = [e for e in rl.effects if e.kind in ('json.load', 'pickle.load') and modern(e.guards)]
    if len(dumps) != 1 or len(loads) != 1:
        return rep.undecide(cname, 'not one dump and one load')
    d, lo = dumps[0], loads[0]
    if d.kind[:4] != lo.kind[:4]:
        rep.violation('format', cname + '|format', at, '%s.save uses %s, load %s' % (cname, d.kind, lo.kind))
        return
    if plain(d.guards) or plain(lo.guards) or d.loops or lo.loops:
        return rep.undecide(cname, 'written or read under a condition')
    rep.count('obligations', 1)
    if isfile(d.target) and isfile(lo.target) and d.target[3] != lo.target[3]:
        rep.violation('path', cname + '|path', at, '%s.load opens another file name than save writes for the same argument' % cname)
        return
    saved = paths(rw, d.args[0])
    json = d.kind.startswith('json')
    src = None
    got = {}
    for e in rl.effects:
        if e.kind == 'setattr' and e.target == SELF and modern(e.guards):
            got[e.args[0][1]] = (e.args[1], plain(e.guards))
    used = set()
    bad = False

    def say(key, msg):
        nonlocal bad
        bad = True
        rep.violation('packed', '%s|%s' % (cname, key), at, msg)
    back = {}
    for a, (t, gs) in sorted(got.items()):
        if gs:
            rep.undecide(cname, '%s is set under a condition' % a)
            continue
        try:
            p, conv = source(t)
        except Wrong as x:
            say(a, '%s.load keeps %s of %s' % (cname, x, a))
            continue
        except Unknown as x:
            rep.undecide(cname, '%s: %s' % (a, x))
            continue
        if p is None:
            continue
        rep.count('obligations', 1)
        if p not in saved:
            if any(p[:n] in saved for n in range(len(p))):
                rep.undecide(cname, '%s is read from %s, whose form is not followed' % (a, '/'.join(map(str, p))))
                continue
            say(a, '%s.load reads %s, which save does not write' % (cname, '/'.join(map(str, p))))
            continue
        used.add(p)
        try:
            wa, wconv = origin(saved[p])
        except Wrong as x:
            say(a, '%s.save writes %s of %s' % (cname, x, a))
            continue
        except Unknown as x:
            rep.undecide(cname, '%s is saved as %s' % ('/'.join(map(str, p)), x))
            continue
        back[wa] = a
        if wa != a:
            say(a, '%s.load sets %s from what save wrote as %s' % (cname, a, wa))
        elif (wconv, conv) not in ((None, None), ('list', 'set'), ('list1', 'set1'), ('list', 'list'), ('copy', None), (None, 'copy'), ('copy', 'copy')):
            if (wconv, conv) in (('list1', None), ('list1', 'copy'), ('list1', 'list1'), ('list', None)):
                say(a, '%s.load leaves %s with lists where save was given sets' % (cname, a))
            else:
                rep.undecide(cname, '%s: saved as %s, loaded as %s' % (a, wconv, conv))
    for p in sorted(set(saved) - used):
        try:
            a, _ = origin(saved[p])
        except (Unknown, Wrong):
            a = None
        if a is None or a in back and back[a] == a:
            continue
        say('lost|' + '/'.join(map(str, p)), '%s.save writes %s, which load does not restore' % (cname, '/'.join(map(str, p))))
    # options of the constructor that the class uses are part of the model
    k = rw.find_class(mod, cname)
    init = Reader(prog)
    if init.method(k, '__init__')[0] is not None:
        init.read_method(mod, cname, '__init__')
        own = {a for (o, a) in init.final.heap if o == SELF}
        usedattrs = attribute_reads(init, k)
        for a in sorted(own & usedattrs):
            rep.count('obligations', 1)
            if a not in got:
                say('state|' + a, '%s uses %s, but save and load do not keep it' % (cname, a))
    if not bad:
        rep.count('pairs_proved', 1)


def attribute_reads(r, k):
    """attributes read by methods other than the constructor, save and load"""
    import ast
    out = set()
    for c in r.mro(k):
        for n in r.classnode(c).body:
            if isinstance(n, ast.FunctionDef) and n.name not in ('__init__', 'save', 'load') and n.args.args:
                me = n.args.args[0].arg
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                        out.add(x.attr)
    return out


def loaded(t):
    """path of keys inside what was loaded, or None"""
    p = []
    while t[0] in ('item', 'get') and t[2][0] == 'c':
        p.append(t[2][1])
        t = t[1]
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('json.load', 'pickle.load'):
        return tuple(reversed(p))
    return None


def conv_of(t, base):
    """(what base(x) accepts, conversion) of a possibly converted term"""
    if base(t) is not None:
        return base(t), None
    if t[0] in ('listof', 'setof', 'copy', 'copy2', 'deepcopy'):
        p, c = conv_of(t[1], base)
        name = {'listof': 'list', 'setof': 'set'}.get(t[0], 'copy')
        if c is None or c == 'copy':
            return p, name
        if c == 'list' and name == 'set':
            return p, 'set'
        raise Unknown('converted twice')
    if t[0] == 'sorted':
        return conv_of(t[1], base)[0], 'list'
    if partial(t):
        raise Wrong('only a part')
    if t[0] == 'comp' and t[1] == 'dict' and len(t[2]) == 1 and not t[3] and t[4][0] == 'tuple' and len(t[4][1]) == 2:
        L, it = t[2][0]
        it = it[1] if it[0] == 'keys' else it
        p = base(it)
        key = ('key', it, L)
        if p is not None and t[4][1][0] == key:
            v = t[4][1][1]
            inner = ('item', it, key)
            if any(partial(x) for x in walk(v)):
                raise Wrong('only a part')
            if v == inner:
                return p, 'copy'
            if v[0] in ('listof', 'setof') and v[1] == inner:
                return p, {'listof': 'list1', 'setof': 'set1'}[v[0]]
            if v[0] == 'sorted' and v[1] == inner:
                return p, 'list1'
    raise Unknown('another form')


def source(t):
    if not any(x[0] == 'ext' and x[1] in ('json.load', 'pickle.load') for x in walk(t)):
        return None, None
    return conv_of(t, loaded)


def origin(t):
    return conv_of(t, lambda x: x[2] if x[0] == 'attr' and x[1] == SELF else None)


def c14(tier):
    rep = Report('C14', tier, 'load applied to the format of save gives every saved field back to the attribute it came from')
    prog = Program()
    for mod, cname, shape in TEXT:
        rep.attempt(cname, textpair, rep, prog, mod, cname, shape)
    for mod, cname in PACKED:
        rep.attempt(cname, packed, rep, prog, mod, cname)
    if not rep.coverage.get('pairs'):
        raise Broken('no saving class was found')
    return rep.finish('other', 'the record format written by save is substituted for the line read by load (split, strip, index and conversion '
                      'evaluated on the format, by cases on empty fields and on the first line of a group); for pickle and json the saved '
                      'structure is compared path by path with the attributes load sets.')
