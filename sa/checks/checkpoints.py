"""C26: a checkpoint of the counting leaves out what is rare so far, and does nothing else."""
from ..loader import Program
from ..report import Report
from ..terms import Reader, walk, sub, neg, c
from .spans import Vague, Wrong
from .tokens import Obligations
from .distances import const, bare, ands

SELF = ('p', 'self')


def ways(t, guards=()):
    if t[0] == 'ite':
        return ways(t[2], guards + tuple(ands(t[1]))) + ways(t[3], guards + tuple(ands(neg(t[1]))))
    if t[0] == 'choice':
        return [y for x in t[1] for y in ways(x, guards + (('choice',),))]
    return [(guards, t)]


def asks(t):
    """the questions that the condition t is put together from"""
    yield t
    if t[0] in ('and', 'or'):
        for x in t[1]:
            yield from asks(x)
    elif t[0] == 'not':
        yield from asks(t[1])


class Point:
    def __init__(self, prog, mod, cls, meth, interval, least):
        self.r = r = Reader(prog)
        self.t, self.fr = r.read_method(mod, cls, meth)
        self.cls, self.meth = cls, meth
        r0 = r
        if meth != '__init__':
            r0 = Reader(prog)
            r0.read_method(mod, cls, '__init__')
        held = {n: v for (o, n), v in r0.final.heap.items() if o == SELF}
        own = {('p', a.arg) for a in self.fr.node.args.args + self.fr.node.args.kwonlyargs}

        def names(p):
            p = ('p', p)
            return ({p} if p in own else set()) | {('attr', SELF, n) for n, v in held.items() if v == p}
        self.interval, self.least = names(interval), names(least)
        self.found = 0

    def run(self, ob):
        for e in self.r.effects:
            if e.kind == 'inc' and any(self.modulo(q) is not None or self.modulo(neg(q)) is not None for g in e.guards for q in asks(g)):
                raise Wrong('skipped', 'sentences are not counted where a checkpoint is taken', e.node)
        for L, info in self.r.loops.items():
            for k, t in info['step'].items():
                if t is None:
                    continue
                phi = ('phi', L, k)
                for g, v in ways(t):
                    v = bare(v)
                    if v == phi or v[0] not in ('new', 'comp'):
                        continue
                    self.state(ob, L, info, phi, g, v)
        if not self.found:
            raise Vague('where the checkpoint is taken')
        ob('every sentence is counted, whether or not a checkpoint is taken')

    def origin(self, t):
        """the state of a loop that the table t is, or is made from"""
        t = bare(t)
        if t[0] == 'phi':
            return t
        if t[0] == 'new' and t in self.r.made:
            for a in self.r.made[t][0]:
                a = bare(a)
                if a[0] == 'comp' and len(a[2]) == 1:
                    it = a[2][0][1]
                    return self.origin(it[1] if it[0] in ('keys', 'items') else it)
        if t[0] == 'ite':
            o = {self.origin(x) for x in t[2:4]}
            return o.pop() if len(o) == 1 else None
        return None

    def asked(self, g):
        return [q for q in g if any(y in self.interval for y in walk(q))]

    def state(self, ob, L, info, phi, g, v):
        x = v
        if v[0] == 'new':
            made = self.r.made.get(v)
            inner = [bare(a) for a in made[0]] if made else []
            inner = [a for a in inner if a[0] == 'comp']
            sts = [e for e in self.r.effects if e.target == v and e.kind in ('store', 'update')]
            if len(inner) == 1:
                x = inner[0]
            elif len(sts) == 1 and sts[0].kind == 'update' and bare(sts[0].args[0])[0] == 'comp':
                x = bare(sts[0].args[0])
            elif len(sts) == 1 and sts[0].kind == 'store' and sts[0].loops:
                M = sts[0].loops[-1]
                gs = tuple(q for q in sts[0].guards if any(len(y) > 2 and y[2] == M for y in walk(q)))
                x = ('comp', 'dict', ((M, self.r.loops[M]['iter']),), gs, ('tuple', sts[0].args[:2]))
            elif not sts and not inner and not (made and made[0] and any(y == phi for a in made[0] for y in walk(a))):
                if self.asked(g) and not [e for e in self.r.effects if e.target == v]:
                    raise Wrong('forgotten', 'what was counted before a checkpoint is forgotten', info['node'])
                return
            else:
                return
        if x[1] != 'dict' or len(x[2]) != 1:
            return
        M, it = x[2][0]
        it = it[1] if it[0] in ('keys', 'items') else it
        it = self.origin(it)
        if it is None or it[1] != phi[1]:
            return
        if it != phi:
            if self.asked(g) and any(e.kind == 'inc' and phi in walk(e.target) for e in self.r.effects):
                raise Wrong('mixed', 'a count is replaced by another one at a checkpoint', info['node'])
            return
        self.found += 1
        self.when(L, info, g, any(e.kind == 'inc' and bare(e.target) == phi and L in e.loops for e in self.r.effects))
        self.what(info, phi, x, M)
        ob('a checkpoint leaves out what is below the minimum, at multiples of the interval')

    def modulo(self, q):
        """(dividend, divisor, rest) when q asks whether a checkpoint is due"""
        if q[0] == 'not' and q[1][0] == 'bin' and q[1][1] == '%' and q[1][3] in self.interval:
            return q[1][2], q[1][3], c(0)
        if q[0] == 'cmp' and q[1] == '==':
            for a, b in (q[2:4], q[3:1:-1]):
                if a[0] == 'bin' and a[1] == '%' and a[3] in self.interval:
                    return a[2], a[3], b
        return None

    def positive(self, q):
        if q in self.interval:
            return True
        if q[0] == 'cmp' and len(q) == 4:
            for i in self.interval:
                if q in (('cmp', '<', c(0), i), ('cmp', '!=', i, c(0)), ('cmp', '!=', c(0), i), ('cmp', '<=', c(1), i)):
                    return True
        return False

    def past_first(self, q, *ns):
        return any(q == n or q in (('cmp', '<', c(0), n), ('cmp', '<=', c(1), n), ('cmp', '!=', n, c(0)), ('cmp', '!=', c(0), n)) for n in ns)

    def when(self, L, info, g, after):
        mods = [self.modulo(q) for q in g]
        mods = [m for m in mods if m is not None and m[1] in self.interval]
        if not mods:
            other = [y for q in g for y in walk(q) if y[0] == 'bin' and y[1] == '%']
            if any(const(y[3]) for y in other):
                raise Wrong('interval', 'the interval between checkpoints is not the one asked for', info['node'])
            for q in self.asked(g):
                if q[0] == 'cmp' and q[1] in ('<', '<=') and q[2] in self.interval and any(y[0] == 'rng' and y[3] == L for y in walk(q[3])):
                    raise Wrong('interval', 'after one interval every sentence is a checkpoint', info['node'])
            if other or any(not self.positive(q) for q in self.asked(g)):
                raise Vague('when a checkpoint is taken')
            if ('choice',) in g and not self.asked(g):
                raise Vague('when a checkpoint is taken')
            if self.asked(g) or not g:
                raise Wrong('interval', 'every sentence is a checkpoint' if g else 'there are checkpoints that nobody asked for', info['node'])
            raise Vague('when a checkpoint is taken')
        for i, d, rest in mods:
            if rest != c(0):
                if const(rest):
                    raise Wrong('interval', 'checkpoints are not taken at the multiples of the interval', info['node'])
                raise Vague('when a checkpoint is taken')
            rngs = [y for y in walk(i) if y[0] == 'rng']
            if len(rngs) != 1 or rngs[0][3] != L:
                raise Vague('when a checkpoint is taken')
            off = sub(i, rngs[0])
            if not const(off) or not const(rngs[0][1]) or off[1] + rngs[0][1][1] not in (0, 1):
                raise Vague('when a checkpoint is taken')
            # the table is empty at the first sentence, unless that has been counted already
            if after and off[1] + rngs[0][1][1] == 0 and not any(self.past_first(q, i, rngs[0]) for q in g):
                if any(q != ('choice',) and i in walk(q) and self.modulo(q) is None for q in g):
                    raise Vague('when the first checkpoint is taken')
                raise Wrong('first', 'a checkpoint is taken at the first sentence, whatever the interval', info['node'])
        if not any(self.positive(q) for q in g):
            raise Wrong('none', 'an interval of 0 does not mean that there is no checkpoint', info['node'])

    def what(self, info, phi, x, M):
        node = info['node']
        e = x[4]
        over = x[2][0][1][1] if x[2][0][1][0] in ('keys', 'items') else x[2][0][1]
        keys = {('key', over, M), ('elem', over, M)}
        if e[0] != 'tuple' or len(e[1]) != 2:
            raise Vague('what is kept at a checkpoint')
        k, v = e[1]
        if k not in keys:
            raise Vague('what is kept at a checkpoint')
        n = ('item', over, k)
        if v != n:
            if const(v) or any(y == n for y in walk(v)):
                raise Wrong('kept', 'counts are changed at a checkpoint', node)
            raise Vague('what is kept at a checkpoint')
        for q in (y for z in x[3] for y in ands(z)):
            if q[0] != 'cmp' or n not in q[2:4]:
                if n not in walk(q) and any(y in keys for y in walk(q)):
                    raise Wrong('kept', 'entries are left out at a checkpoint for another reason than being rare', node)
                raise Vague('what is kept at a checkpoint')
            other = q[3] if q[2] == n else q[2]
            op = q[1] if q[3] == n else {'<': '>', '<=': '>='}.get(q[1], q[1])    # other OP n
            if other in self.least:
                if op == '<=':
                    continue
                raise Wrong('kept', {'<': 'an entry that is just at the minimum is left out at a checkpoint',
                                     }.get(op, 'the rare entries are the ones kept at a checkpoint'), node)
            if const(other):
                if op == '<=' and other[1] <= 1 or op == '<' and other[1] <= 0:
                    continue
                raise Wrong('kept', 'the minimum at a checkpoint is not the one asked for', node)
            d = [sub(other, y) for y in self.least]
            if any(const(y) for y in d):
                # min - 1 < n is min <= n
                off = [y[1] for y in d if const(y)][0]
                if off + (op == '<') <= 0 and op in ('<', '<='):
                    if off + (op == '<') == 0:
                        continue
                raise Wrong('kept', 'the minimum at a checkpoint is not the one asked for', node)
            if other[0] in ('attr', 'p'):
                raise Wrong('kept', 'the minimum at a checkpoint is not the one asked for', node)
            raise Vague('what is kept at a checkpoint')


PLACES = (('EojeolCounter', 'soynlp.utils', 'EojeolCounter', '__init__', 'filtering_checkpoint', 'min_count'),
          ('Bigram', 'soynlp.word', 'Bigram', 'train', 'filtering_checkpoint', 'min_frequency'),
          ('WordExtractor.train', 'soynlp.word', 'WordExtractor', 'train', 'num_for_pruning', 'min_frequency'))


def c26(tier):
    rep = Report('C26', tier, 'each table replaced while a corpus is counted is compared with what a checkpoint may do')
    prog = Program()

    def one(label, *a):
        p = Point(prog, *a)
        ob = Obligations(rep, prog, label)
        ob.node = p.fr.node
        rep.count('counting_components', 1)
        ob.run(p.run, ob)
        rep.count('checkpoints', p.found)
    for label, *a in PLACES:
        rep.attempt(label, one, label, *a)
    return rep.finish('other', 'for every component that counts a corpus with checkpoints: the tables that one round of the loop over the sentences '
                      'replaces, the condition under which it does, the filter and what it keeps, and that no update hangs on it.')
