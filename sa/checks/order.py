"""C10: no result depends on the hash seed, the clock or random numbers.

Order marks: d[('ord', oid)] holds the sites whose set-iteration order decided
the order of a sequence; value tags ('ord', site) mark single values picked by
such an order, ('el', token) marks the current element of a set that is being
iterated."""
import ast

from .. import api
from ..run import analyse
from ..report import Report
from ..interp import BOT, tags, core, union, State
from ..loader import where
from .common import note_engine

SEQ = {'list', 'deque', 'gen', 'view', 'dict', 'defaultdict', 'Counter'}
PASS = {'list', 'tuple', 'reversed', 'enumerate', 'zip', 'map', 'filter', 'iter', 'dict'}
EXT_PASS = ('collections.deque', 'collections.OrderedDict', 'collections.defaultdict', 'itertools.', 'numpy.array',
            'numpy.asarray', 'heapq.')
RANDOM = ('random.', 'secrets.', 'uuid.', 'os.urandom', 'numpy.random.', 'time.time', 'time.perf', 'time.monotonic',
          'time.clock', 'time.process', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow',
          'datetime.date.today', 'os.listdir', 'glob.', 'os.scandir')
# memory figures are the point of these; a random state is given by the caller
EXEMPT = {'get_available_memory', 'get_process_memory', 'svd'}
NUMERIC = {'int', 'float', 'bool'}


def numeric(v):
    c = core(v)
    return bool(c) and all(a[0] in 'ck' and a[1] in NUMERIC or a[0] == 'c' and a[2] is None for a in c)


def fixed(v):
    """True, False, None and other constants do not tell which element it was"""
    c = core(v)
    return bool(c) and all(a[0] == 'c' or a == ('k', 'bool') for a in c)


class Order:
    def __init__(self, d):
        self.an = an = d.an
        self.active = []        # [token, kind]
        self.born = {}
        self.fors = []
        self.sources = {}
        self.writes = {}
        self.gens = {}
        self.loops_seen, self.sorts_seen = set(), set()
        for n in ('s_For', 'comp', 'alloc', 's_Return', 's_AugAssign', 'e_BinOp'):
            setattr(self, 'o_' + n, getattr(an, n))
            setattr(an, n, getattr(self, 'w_' + n))
        an.hooks.update(iterate=self.iterate, subscript=self.subscript, result=self.result, append=self.append,
                        store_item=self.store, sorted=self.sorted, list_sort=self.list_sort,
                        file_method=self.file_method, ext=self.ext, builtin=self.builtin, returned=self.returned)
        setattr(an, 'e_Yield', self.w_yield(an.e_Yield))

    # ------------------------------------------------------------ marks
    def where(self, node):
        return where(node, self.an.prog)

    def marks(self, v):
        """sites that decide the order in which v iterates"""
        out = BOT
        an = self.an
        if an.st is None:
            return out
        for a in v:
            if a[0] == 'o':
                o = an.objs[a[1]]
                if o.kind == 'set':
                    e = core(an.st.get(('e', a[1])))
                    if e and not all(x[0] in 'ck' and x[1] in NUMERIC for x in e):
                        out |= frozenset([('#', ('ord', self.where(o.node) if getattr(o.node, '_mod', '') else 'a set given by the caller'))])
                elif o.kind == 'view' and isinstance(o.extra, tuple):
                    out |= an.st.get(('ord', a[1])) | an.st.get(('ord', o.extra[1]))
                elif o.kind in SEQ:
                    out |= an.st.get(('ord', a[1]))
            elif a[0] in 'tT':
                out |= frozenset(t for t in tags(v) if isinstance(t[1], tuple) and t[1][0] == 'ord')
        return out

    def mark(self, a, ms):
        if ms and a[0] == 'o' and self.an.objs[a[1]].kind in SEQ:
            k = ('ord', a[1])
            d = self.an.st.d
            old = d.get(k, BOT)
            if not ms <= old:
                d[k] = old | ms

    def outer(self, a):
        """active set loops that started before the object was made"""
        b = self.born.get(a[1], ())
        return [t for t in self.active if t not in b]

    def by_loop(self, a):
        ts = self.outer(a)
        if ts:
            self.mark(a, frozenset(('#', ('ord', t[0])) for t in ts))

    def strip(self, v, what=('el',), all_=False):
        """element tags of loops that are over say nothing any more"""
        live = set() if all_ else set(self.active)
        f = lambda a: a[0] == '#' and isinstance(a[1], tuple) and a[1][0] in what and a[1][1] not in live
        if not any(f(a) or a[0] == 't' for a in v):
            return v
        out = []
        for a in v:
            if f(a):
                continue
            if a[0] == 't':
                a = ('t', tuple(self.strip(i, what, all_) for i in a[1])) + a[2:]
            out.append(a)
        return frozenset(out)

    def tagged(self, v, kind='ord'):
        return frozenset(t for t in tags(v) if isinstance(t[1], tuple) and t[1][0] == kind)

    # ------------------------------------------------------------ wrappers
    def w_alloc(self, kind, node, cls=None, extra=None, e=None, k=None):
        a = self.o_alloc(kind, node, cls, extra, e, k)
        self.born.setdefault(a[1], set()).update(self.active)
        if a[1] not in self.an.weak:
            self.an.st.d.pop(('ord', a[1]), None)
        return a

    def w_s_For(self, s):
        n = len(self.active)
        self.fors.append(([s], BOT))
        self.o_s_For(s)
        self.fors.pop()
        del self.active[n:]

    def w_comp(self, e, fn):
        n = len(self.active)
        self.fors.append(([g.iter for g in e.generators], []))
        r = self.o_comp(e, fn)
        ms = self.fors.pop()[1]
        del self.active[n:]
        an = self.an
        if ms and an.st is not None:
            ms = frozenset(('#', ('ord', t[0])) for t in ms)
            if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                self.pending = (e._nid, ms)
                k = {'ListComp': 'list', 'GeneratorExp': 'gen', 'DictComp': 'dict'}[type(e).__name__]
                old = an.alloc
                # the object is made right after this returns
                def once(kind, node, *a, **kw):
                    an.alloc = old
                    o = old(kind, node, *a, **kw)
                    if node is e and kind == k:
                        self.mark(o, ms)
                    return o
                an.alloc = once
        return r

    def w_s_Return(self, s):
        an = self.an
        if s.value is None or not self.active:
            return self.o_s_Return(s)
        fid = an.stack[-1].fid
        mine = {t for t in self.active if t[2] == fid}
        if not mine:
            return self.o_s_Return(s)
        fr = an.stack[-1]
        old = fr.ret
        fr.ret = BOT
        self.o_s_Return(s)
        v = fr.ret
        fr.ret = union(old, self.picked(v, mine))

    def picked(self, v, loops):
        """v leaves the loop while it still runs"""
        out = v
        if not fixed(v):
            ts = [t[1][1] for t in tags(v) if isinstance(t[1], tuple) and t[1][0] == 'el' and t[1][1] in loops]
            out |= frozenset(('#', ('ord', t[0])) for t in ts)
        res = []
        for a in out:
            if a[0] == 't':
                a = ('t', tuple(self.picked(i, loops) for i in a[1])) + a[2:]
            res.append(a)
        return frozenset(res)

    def w_s_AugAssign(self, s):
        an = self.an
        self.o_s_AugAssign(s)
        if an.st is None or not isinstance(s.op, ast.Add):
            return
        if isinstance(s.target, (ast.Name, ast.Attribute)):
            from ..interp import _as_load
            v = an.eval(_as_load(s.target))
            if any(a[0] == 'o' and an.objs[a[1]].kind == 'list' for a in v):
                r = an.eval(s.value)
                if an.st is None:
                    return
                ms = self.marks(r)
                for a in v:
                    if a[0] == 'o':
                        self.mark(a, ms)
                        self.by_loop(a)

    def w_e_BinOp(self, e):
        an = self.an
        r = self.o_e_BinOp(e)
        if an.st is not None and isinstance(e.op, ast.Add) and any(a[0] == 'o' for a in r):
            for sub in (e.left, e.right):
                if isinstance(sub, (ast.Name, ast.Attribute)):
                    ms = self.marks(an.eval(sub))
                    for a in r:
                        self.mark(a, ms)
        return r

    def w_yield(self, orig):
        def f(e):
            r = orig(e)
            an = self.an
            if an.st is not None and an.stack:
                fr = an.stack[-1]
                mine = frozenset(('#', ('ord', t[0])) for t in self.active if t[2] == fr.fid)
                if mine:
                    self.gens[fr.f.fid] = self.gens.get(fr.f.fid, BOT) | mine
            return r
        return f

    # ------------------------------------------------------------ hooks
    def iterate(self, an, a, out, node):
        ms = self.marks(frozenset([a]))
        if not ms and not self.active:
            return self.strip(out)
        out = self.strip(out)
        if ms and self.fors:
            nodes, found = self.fors[-1]
            inner = (isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and a[0] == 'o'
                     and node.func.id in ('sorted', 'set', 'frozenset') and an.objs[a[1]].node is not node)
            if any(node is n for n in nodes) and not inner:
                self.loops_seen.add(getattr(node, '_nid', 0))
                toks = []
                for m in sorted(ms, key=str):
                    toks.append((m[1][1], getattr(node, '_nid', 0), an.stack[-1].fid))
                for t in toks:
                    if t not in self.active:
                        self.active.append(t)
                    out |= frozenset([('#', ('el', t))])
                    if isinstance(found, list):
                        found.append(t)
                # tuples carry the tag in every component
                out = frozenset(('t', tuple(i | frozenset(('#', ('el', t)) for t in toks) for i in x[1])) + x[2:]
                                if x[0] == 't' else x for x in out)
        return out

    def subscript(self, an, e, b, i, r):
        r = self.strip(r)
        ms = self.marks(b)
        if ms and any(a[0] == 'o' and an.objs[a[1]].kind in ('list', 'deque') or a[0] in 'tT' for a in b):
            if isinstance(e.slice, ast.Slice):
                for a in r:
                    self.mark(a, ms)
                if any(a[0] in 'tT' for a in r):
                    r = r | ms
            else:
                r = r | ms
        el = self.tagged(i, 'el') & frozenset(('#', ('el', t)) for t in self.active)
        return r | el | self.tagged(i)

    def returned(self, an, node, f, bound, out):
        if an.st is None:
            return
        if f.isgen and f.fid in self.gens:
            for a in out:
                self.mark(a, self.gens[f.fid])

    def result(self, an, e, fv, args, r):
        ms = BOT
        for v in args:
            ms |= self.marks(v)
        for a in core(fv):
            if a[0] == 'B':
                n = a[1]
                if n in ('set', 'frozenset', 'len', 'sum', 'any', 'all', 'isinstance', 'bool', 'type'):
                    continue
                if n == 'sorted':
                    if ms:
                        key = next((k.value for k in e.keywords if k.arg == 'key'), None)
                        if not self.total(key, r):
                            for x in r:
                                self.mark(x, ms)
                    continue
                if not ms:
                    continue
                if n in PASS:
                    for x in r:
                        self.mark(x, ms)
                        if n == 'enumerate' and x[0] == 'o':
                            k = ('e', x[1])
                            an.st.d[k] = frozenset(('t', (y[1][0] | ms,) + y[1][1:]) + y[2:] if y[0] == 't' and y[1]
                                                   else y for y in an.st.get(k))
                    if any(x[0] in 'tT' for x in r):
                        r = r | ms
                elif n == 'next' or n in ('max', 'min') and any(k.arg == 'key' for k in e.keywords):
                    if n == 'next' or not self.total(next(k.value for k in e.keywords if k.arg == 'key'), None, args):
                        if not numeric(r):
                            r = r | ms
                elif n in ('str', 'repr', 'format'):
                    r = r | ms
            elif a[0] == 'b':
                recv, n = a[1], a[2]
                rm = self.marks(frozenset([recv]))
                if n == 'join':
                    r = r | ms
                elif n in ('extend', 'extendleft', 'update') and recv[0] == 'o':
                    self.mark(recv, ms)
                    self.by_loop(recv)
                elif n in ('insert', 'appendleft', 'setdefault') and recv[0] == 'o':
                    self.by_loop(recv)
                elif recv[0] == 'o' and rm and an.objs[recv[1]].kind == 'set':
                    if n == 'pop':
                        r = r | rm
                    elif n == '__iter__':
                        for x in r:
                            self.mark(x, rm)
                elif rm and n in ('copy', 'items', 'keys', 'values', 'most_common', '__iter__', 'elements'):
                    for x in r:
                        self.mark(x, rm)
                elif rm and n in ('index', 'pop', 'popleft', '__getitem__', 'popitem') and an.objs[recv[1]].kind != 'dict':
                    r = r | rm
            elif a[0] == 'E' and ms and a[1].startswith(EXT_PASS):
                for x in r:
                    self.mark(x, ms)
                r = r | ms
        return r

    def append(self, an, node, a, v):
        self.by_loop(a)

    def store(self, an, node, a, i, v):
        if a[0] == 'o' and an.objs[a[1]].kind in ('dict', 'defaultdict', 'Counter'):
            self.by_loop(a)

    def total(self, key, r, args=None):
        """does the sort key tell apart any two different elements?"""
        an = self.an
        if key is None or isinstance(key, ast.Constant):
            return True
        el = BOT
        if r is not None:
            for x in r:
                if x[0] == 'o':
                    el = union(el, an.st.get(('e', x[1])))
        st = an.st
        kv = an.eval(key)
        an.st = st
        for a in core(kv):
            if a[0] == 'B' and a[1] in ('len', 'bool', 'abs', 'hash', 'id', 'type', 'sum', 'max', 'min', 'ord'):
                return a[1] == 'ord'
            if a[0] == 'b' and a[2] in ('get', '__getitem__', 'count', 'index'):
                return False
            if a[0] in ('f', 'm'):
                f = an.funcs[a[1] if a[0] == 'f' else a[1][1]]
                ps = [x.arg for x in f.node.args.args]
                if a[0] == 'm':
                    ps = ps[1:]
                if not ps:
                    continue
                rets = [f.node.body] if isinstance(f.node, ast.Lambda) else [
                    n.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and n.value is not None]
                if rets and not all(self.total_expr(x, ps[0], el) for x in rets):
                    return False
        return True

    def total_expr(self, x, p, el):
        if isinstance(x, ast.Name):
            return x.id == p
        if isinstance(x, ast.UnaryOp):
            return self.total_expr(x.operand, p, el)
        if isinstance(x, (ast.Tuple, ast.List)):
            return any(self.total_expr(i, p, el) for i in x.elts)
        if isinstance(x, ast.Call):
            return isinstance(x.func, ast.Name) and x.func.id in ('str', 'repr', 'tuple', 'list') and len(x.args) == 1 \
                and self.total_expr(x.args[0], p, el)
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == p:
            if isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int):
                i = x.slice.value
                comps = [a[1][i] for a in el if a[0] == 't' and -len(a[1]) <= i < len(a[1])]
                if not comps:
                    return i == 0
                return any(a[0] in 'ck' and a[1] == 'str' for c in comps for a in c)
            return isinstance(x.slice, ast.Slice) and x.slice.lower is None and x.slice.upper is None
        return False

    def sorted(self, an, node, arg, el, kw, tg):
        self.sorts_seen.add(getattr(node, '_nid', 0))
        if self.marks(arg):
            key = None
            if isinstance(node, ast.Call):
                key = next((k.value for k in node.keywords if k.arg == 'key'), None)
            tmp = an.alloc('gen', node, extra='key', e=el)
            if self.total(key, frozenset([tmp])):
                el = self.strip(el, ('el', 'ord'))
        else:
            el = self.strip(el)
        return el, self.strip(tg, ('el', 'ord'), True)

    def list_sort(self, an, node, r, kw):
        self.sorts_seen.add(getattr(node, '_nid', 0))
        key = next((k.value for k in node.keywords if k.arg == 'key'), None)
        if self.total(key, frozenset([r])):
            an.st.d.pop(('ord', r[1]), None)
            k = ('e', r[1])
            an.st.d[k] = self.strip(an.st.get(k), ('el', 'ord'))

    def file_method(self, an, node, r, name, args):
        if name in ('write', 'writelines'):
            ts = self.outer(r)
            ms = {m[1][1] for v in args for m in self.tagged(v) | (self.marks(v) if name == 'writelines' else BOT)}
            for s in {t[0] for t in ts} | ms:
                self.writes[(an.current_op, self.where(node))] = s

    def ext(self, an, node, d, args, kwargs):
        if d.startswith(RANDOM) and an.label != 'global':
            self.sources[(an.current_op, self.where(node))] = d

    def builtin(self, an, node, n, args, kwargs):
        if n in ('hash', 'id') and an.label != 'global':
            self.sources[(an.current_op, self.where(node))] = n

    # ------------------------------------------------------------ sink
    def sink(self, v, st, path, out, seen, top=True):
        an = self.an
        for a in v:
            if a[0] == '#' and isinstance(a[1], tuple):
                if a[1][0] == 'ord' and core(v) and not fixed(v):
                    out.setdefault(a[1][1], path + ' (a value picked by it)')
                elif a[1][0] == 'el' and top and core(v) and not fixed(v) and not numeric(v) \
                        and all(x[0] in 'ckt' for x in core(v)):
                    out.setdefault(a[1][1][0], path + ' (the element left over from the loop)')
            elif a[0] == 't':
                for i, x in enumerate(a[1]):
                    self.sink(x, st, path + '[%d]' % i, out, seen, top)
            elif a[0] == 'T':
                self.sink(a[1], st, path + '[]', out, seen, False)
            elif a[0] == 'o' and a[1] not in seen:
                seen.add(a[1])
                o = an.objs[a[1]]
                if o.kind in ('list', 'deque', 'gen') or o.kind == 'view' and isinstance(o.extra, tuple):
                    for m in st.get(('ord', a[1])):
                        out.setdefault(m[1][1], path + ' (the order of the items)')
                if o.kind in ('list', 'deque', 'gen', 'dict', 'defaultdict', 'Counter', 'view'):
                    self.sink(st.get(('e', a[1])), st, path + '[]', out, seen, False)


def setup(d):
    d.order = Order(d)


def collect(d):
    o = d.order
    found = {}
    for op in d.ops:
        if op.ret is None or op.state is None or op.name == '__init__':
            continue
        out = {}
        d.an.st = op.state
        o.sink(op.ret, op.state, 'the result', out, set())
        for site, what in out.items():
            found[(op.qual, site)] = what
    return found, o.writes, o.sources, len(o.loops_seen), len(o.sorts_seen), len(d.ops)


def identities(rep, prog):
    """`x is 'Verb'` is true or false by how the interpreter happens to share strings"""
    for name, m in sorted(prog.modules.items()):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Compare):
                continue
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                if isinstance(op, (ast.Is, ast.IsNot)):
                    rep.count('identity_comparisons', 1)
                    for x in (left, right):
                        if isinstance(x, ast.Constant) and isinstance(x.value, (str, int, float, bytes)) and not isinstance(x.value, bool) \
                                or isinstance(x, (ast.Tuple, ast.JoinedStr)):
                            at = '%s:%d' % (m.rel, n.lineno)
                            rep.violation('identity', '%s|%s' % (m.rel, ast.unparse(n)), at,
                                          'the outcome of `%s` depends on which equal objects the interpreter shares' % ast.unparse(n))
                            break
                left = right


def c10(tier):
    rep = Report('C10', tier, 'no set-iteration order, clock, random number, hash or identity reaches a result')
    r = analyse(setup=setup, collect=collect)
    note_engine(rep, r)
    for found, writes, sources, nl, ns, nops in r.extra:
        rep.count('results_checked', nops)
        rep.count('set_loops_followed', nl)
        rep.count('sorts_judged', ns)
        for (op, site), what in sorted(found.items()):
            if op in EXEMPT:
                continue
            rep.violation('set-order', '%s|%s' % (op, site.rsplit(':', 1)[0]), site,
                          '%s of %s depends on the iteration order of the set made at %s' % (what, op, site))
        for (op, at), site in sorted(writes.items()):
            rep.violation('set-order', '%s|write %s' % (op, at.rsplit(':', 1)[0]), at,
                          'the order of what %s writes at %s depends on the iteration order of the set made at %s' % (op, at, site))
        for (op, at), d in sorted(sources.items()):
            if op in EXEMPT:
                continue
            rep.violation('nondeterminism', '%s|%s' % (op, d), at, '%s reaches a call of %s at %s' % (op, d, at))
    identities(rep, r.prog)
    for op in sorted(r.ops)[:8]:
        rep.sample('%s: result, items and order independent of any set order' % op)
    return rep.finish('other', 'order-taint analysis in the abstract interpreter: iterating a set (or a sequence whose order was '
                      'decided by one) marks every list, generator, dict and file filled in that order and every value picked by '
                      'it; sorting with a key that tells all elements apart, sets, sums and counts remove the mark; obligation: '
                      'no marked value or sequence in the result of a public operation or in what it writes, and no call of a '
                      'random, clock, hash or identity source.')
