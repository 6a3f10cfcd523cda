"""C12, C13: what an LR graph remembers, and that its two directions are changed together."""
import ast

from ..loader import Program, Broken, where
from ..report import Report
from ..terms import Reader, COPIES, walk, subst, cmp, add, sub, scale, neg, c

MOD, CLS = 'soynlp.utils', 'LRGraph'
SELF = ('p', 'self')
NONE = ('c', None)
MUTATE = ('update', 'pop', 'popitem', 'clear', 'setdefault', '__setitem__', '__delitem__')


def attr(n, b=SELF):
    return ('attr', b, n)


def deep(t):
    """what is held, whatever was copied on the way"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in COPIES:
        return deep(t[1])
    if t[0] == 'ite':
        a, b = deep(t[2]), deep(t[3])
        return a if a == b else ('ite', t[1], a, b)
    if t[0] == 'call' and t[1] in (('g', 'dict'),) and len(t[2]) == 1:
        return deep(t[2][0])
    return t


def leaves(t):
    if t[0] == 'ite':
        yield from leaves(t[2])
        yield from leaves(t[3])
    else:
        yield t


def outer(t):
    """identities of the dict itself; a copy is a new one each time it is evaluated"""
    for x in leaves(t):
        yield ('id', id(x)) if x[0] in COPIES + ('comp',) else x


def inner(t):
    """identities of the dicts inside"""
    for x in leaves(t):
        if x[0] in ('copy2', 'deepcopy', 'comp'):
            yield ('id', id(x))
        elif x[0] == 'copy':
            yield from inner(x[1])
        else:
            yield x


def truthy_of(g, t):
    """g says that the string / number t is not empty / not zero"""
    return g in (t, cmp('!=', t, c('')), cmp('<', c(0), ('len', t)), cmp('<=', c(1), ('len', t)), cmp('!=', ('len', t), c(0)),
                 ('call', ('g', 'bool'), (t,), ())) or g == neg(('not', t))


class Graph:
    """the attributes of the graph class by the role their readers give them"""

    def __init__(self, prog):
        self.prog = prog
        r = self.reader()
        self.k = r.find_class(MOD, CLS)
        self.node = r.classnode(self.k)
        self.lr, self.rl = self.base('get_r'), self.base('get_l')
        self.origin = None
        r = self.reader()
        if r.method(self.k, 'freeze')[0] is not None:
            r.read_method(MOD, CLS, 'freeze')
            xs = [e.args[0][1] for e in r.effects if e.kind == 'setattr' and e.target == SELF and e.args[1] == NONE]
            if len(xs) == 1:
                self.origin = xs[0]

    def reader(self):
        return Reader(self.prog)

    def base(self, meth):
        r = self.reader()
        f, _ = r.method(self.k, meth)
        if f is None:
            return None
        t, _ = r.read_method(MOD, CLS, meth)
        key = ('p', f.args.args[1].arg)
        found = {x[1][2] for x in walk(t) if x[0] in ('get', 'item') and x[2] == key and x[1][0] == 'attr' and x[1][1] == SELF}
        return found.pop() if len(found) == 1 else None

    def methods(self):
        return [n for n in self.node.body if isinstance(n, ast.FunctionDef)]

    def read(self, name, args=None):
        r = self.reader()
        t, fr = r.read_method(MOD, CLS, name, args)
        return r, t

    def has(self, name):
        return any(f.name == name for f in self.methods())

    def fn(self, name):
        return next(f for f in self.methods() if f.name == name)

    def sets(self, r, a, of=SELF):
        return [e for e in r.effects if e.kind == 'setattr' and e.target == of and e.args[0] == c(a)]


def numeric(r, new):
    """effects that put counts into the dict of dicts `new`, creation of empty inner dicts left out"""
    out = []
    for e in r.effects:
        if e.kind in ('setattr', 'yield', 'print', 'call', 'write'):
            continue
        t = e.target
        if t == new:
            if e.kind == 'setdefault' or e.kind == 'store' and e.args[1][0] == 'new' and not numeric(r, e.args[1]):
                continue
            out.append(e)
        elif t[0] in ('item', 'get') and t[1] == new:
            out.append(e)
    return out


def inverse(r, t, given=()):
    """(base, problems) when t is filled as the inversion of base; None when it is filled some other way"""
    t = deep(t)
    if t[0] != 'new':
        return None
    es = numeric(r, t)
    if len(es) == 2 and {e.kind for e in es} == {'inc', 'store'}:      # add when there, else start
        a, b = sorted(es, key=lambda e: e.kind)
        if a.target == b.target and a.args == b.args and len(set(a.guards) ^ set(b.guards)) == 2:
            x, y = set(a.guards) - set(b.guards), set(b.guards) - set(a.guards)
            if x and y and neg(min(x)) == min(y):
                es = [a]
                given = tuple(given) + tuple(x)
    if len(es) != 1 or es[0].kind not in ('inc', 'store'):
        return None
    e = es[0]
    its = [(L, r.loops[L]['iter']) for L in e.loops]
    if len(its) != 2 or any(r.loops[L].get('breaks') for L, _ in its):
        return None
    (L1, i1), (L2, i2) = its
    if i1[0] != 'keys' or i2[0] != 'keys':
        return None
    B = i1[1]
    K = ('key', B, L1)
    rd = ('item', B, K)
    if i2[1] != rd:
        return None
    R = ('key', rd, L2)
    V = ('item', rd, R)
    if e.target[0] != 'item' or e.target[1] != t:
        return None
    got = (e.target[2], e.args[0], e.args[1])
    if any(x[0] in ('unk', 'choice', 'out', 'phi', 'call') for y in got for x in walk(y)):
        return None
    bad = []
    if got[0] != R or got[1] != K:
        bad.append('counts are filed under other words than [r][l]')
    if got[2] != V:
        bad.append('another number than the count of (l, r) is added')
    for g in e.guards:
        if g in given or truthy_of(g, R) or g == cmp('notin', K, ('item', t, R)) or g == cmp('in', R, t):
            continue
        if any(x == V for x in walk(g)) or not any(x in (K, R) for x in walk(g)):
            return None
        bad.append('pairs are skipped by a condition')
    return B, bad


def pairs(g, r, of=SELF):
    """(lr effect, rl effect) assigned together; None when they cannot be paired"""
    a, b = g.sets(r, g.lr, of), g.sets(r, g.rl, of)
    if len(a) != len(b):
        return None
    out = []
    for x in a:
        ys = [y for y in b if y.guards == x.guards and y.loops == x.loops]
        if len(ys) != 1:
            # the constructor of a copy sets both before the copy is filled
            if len(a) == len(b):
                ys = [b[a.index(x)]]
            else:
                return None
        out.append((x, ys[0]))
    return out


def names(g, t):
    t = deep(t)
    if t == attr(g.lr):
        return 'the working graph'
    if t == attr(g.origin):
        return 'the remembered graph'
    if t == attr(g.rl):
        return 'the right-to-left graph'
    if t[0] == 'new' and t[1] in ('dict', 'ddict'):
        return 'a new dict'
    if t[0] == 'p':
        return 'argument %s' % t[1]
    if any(y == attr(g.origin) for y in walk(t)):
        return 'the working graph when the remembered one is empty'
    return 'something else'


def known(g, t):
    return t in (attr(g.lr), attr(g.origin), attr(g.rl))


def original(g, t):
    """t is the remembered graph (the working one when there is none)"""
    t = deep(t)
    if t == attr(g.origin):
        return True
    if t[0] == 'orv' and attr(g.origin) in t[1][:-1]:
        return False                                   # a remembered graph without pairs is one too
    if t[0] == 'ite' and {deep(t[2]), deep(t[3])} == {attr(g.origin), attr(g.lr)}:
        q = t[1]
        yes, no = deep(t[2]), deep(t[3])
        none = (cmp('is', attr(g.origin), NONE), cmp('==', attr(g.origin), NONE))
        some = (cmp('isnot', attr(g.origin), NONE), cmp('!=', attr(g.origin), NONE))
        if q in (attr(g.origin), ('not', attr(g.origin))) or q[0] == 'and' and attr(g.origin) in q[1]:
            return False                               # a remembered graph without pairs is one too
        if q in none:
            return no == attr(g.origin)
        if q in some:
            return yes == attr(g.origin)
        if q[0] == 'and' and any(x in some for x in q[1]) and all(x in some or x[0] in ('p', 'c') for x in q[1]):
            return yes == attr(g.origin)
        return None
    if known(g, t):
        return False
    return None


def decide(rep, g, what, key, at, ok, wrong, unknown):
    rep.count('obligations', 1)
    if ok is None:
        rep.undecide(what, unknown)
    elif not ok:
        rep.violation(*key, at, wrong)
    else:
        rep.count('obligations_proved', 1)
        rep.sample('%s: proved' % what)


def c12(tier):
    rep = Report('C12', tier, 'the working dicts come from a two-level copy of the remembered one; nobody else touches that one')
    prog = Program()
    g = Graph(prog)
    if g.lr is None or g.origin is None:
        rep.undecide('LRGraph', 'the dict behind get_r or the one freed by freeze was not recognised')
        return rep.finish('other', 'attribute roles not recognised')
    O, W = attr(g.origin), attr(g.lr)
    rep.count('attributes_by_role', 3)
    # ---- reset
    if g.has('reset_lrgraph'):
        r, _ = g.read('reset_lrgraph')
        at = where(g.fn('reset_lrgraph'), prog)
        es = g.sets(r, g.lr)
        if r.imprecise or len(es) > 1:
            rep.undecide('LRGraph.reset_lrgraph', 'not followed: %s' % (r.imprecise[:1] or 'several assignments',))
        elif not es:
            touched = any(x == W for e in r.effects for x in walk(e.target)) or any(e.kind == 'call' for e in r.effects)
            decide(rep, g, 'LRGraph.reset_lrgraph', ('reset', 'rebuild'), at, None if touched else False,
                   'reset_lrgraph never rebuilds the working graph', 'working graph is changed in place')
        else:
            e = es[0]
            v = e.args[1]
            src = deep(v)
            decide(rep, g, 'LRGraph.reset_lrgraph source', ('reset', 'source'), at,
                   True if src == O else False if known(g, src) or src[0] == 'new' and not numeric(r, src) else None,
                   'reset_lrgraph rebuilds the working graph from %s, not from the remembered one' % names(g, src),
                   'source of the rebuilt graph not recognised')
            if src == O:
                shared = O in set(outer(v)) or O in set(inner(v))
                decide(rep, g, 'LRGraph.reset_lrgraph copy', ('reset', 'alias'), at, not shared,
                       'after reset_lrgraph the working graph shares dicts with the remembered one, so later changes reach it', '')
            extra = [q for q in e.guards if q not in (cmp('isnot', O, NONE), cmp('!=', O, NONE))]
            verdict = True
            for q in extra:
                if q in (cmp('!=', O, W), cmp('!=', W, O)):
                    continue
                ats = {x[2] for x in walk(q) if x[0] == 'attr' and x[1] == SELF}
                verdict = False if verdict is not None and ats and ats <= {g.lr, g.rl, g.origin} else None
            decide(rep, g, 'LRGraph.reset_lrgraph always', ('reset', 'skipped'), at, verdict,
                   'reset_lrgraph rebuilds the graph only under a further condition', 'condition of the rebuilding not recognised')
            back(rep, g, r, 'LRGraph.reset_lrgraph', 'reset', at, e)
            if any(e2.order > e.order for e2 in r.effects if rooted(e2.target, SELF, (g.lr, g.rl)) and e2.kind != 'setattr'):
                rep.undecide('LRGraph.reset_lrgraph', 'the rebuilt graph is changed further')
    # ---- where the remembered graph is made
    for name in [f.name for f in g.methods()]:
        r, ret = g.read(name)
        at = where(g.fn(name), prog)
        os_ = g.sets(r, g.origin)
        who = 'LRGraph.%s' % name
        rep.count('methods_analysed', 1)
        if name in ('__init__', 'load') or os_ and g.sets(r, g.lr):
            o = r.final.heap.get((SELF, g.origin))
            w = r.final.heap.get((SELF, g.lr))
            if o is None or w is None or r.imprecise:
                rep.undecide(who, 'values of the two graphs not followed')
            else:
                same = deep(o) == deep(w)
                ok = True if same else None
                if not same:
                    for x in leaves(deep(o)):
                        ys = list(leaves(deep(w)))
                        if x in ys:
                            continue
                        if x == NONE or known(g, x) or x[0] == 'new' and not numeric(r, x) and any(
                                y[0] == 'p' or y[0] == 'new' and numeric(r, y) for y in ys) and len(list(leaves(deep(o)))) == 1:
                            ok = False
                    for x in leaves(deep(w)):
                        if x == O or x[0] == 'new' and not numeric(r, x) and len(list(leaves(deep(w)))) == 1 and any(
                                y[0] == 'new' and numeric(r, y) for y in leaves(deep(o))):
                            ok = False
                decide(rep, g, who + ' remembers what it builds', ('content', name), at, ok,
                       '%s remembers %s while the working graph is %s' % (who, names(g, o), names(g, w)),
                       'contents of the two graphs not comparable')
                if same or ok is None:
                    shared = set(outer(o)) & set(outer(w)) or set(inner(o)) & set(inner(w)) - {
                        x for x in inner(o) if x[0] == 'new' and not numeric(r, x)}
                    shared = {x for x in shared if x[0] in ('id', 'new', 'p', 'attr')}
                    decide(rep, g, who + ' copies', ('alias', name), at, not shared,
                           'after %s the remembered graph shares dicts with the working graph, so changes reach it' % who, '')
                ws = g.sets(r, g.lr)
                if ws:
                    back(rep, g, r, who, name, at, ws[-1] if len(ws) == 1 else None)
        elif os_ and any(e.args[1] != NONE for e in os_):
            if not frees(g, name):
                rep.violation('remembered', name, at, '%s replaces the remembered graph' % who)
        elif os_ and not frees(g, name) and not callers_of_freeze(g, name):
            rep.violation('remembered', name, at, '%s forgets the remembered graph' % who)
        if name not in ('__init__', 'load'):
            for e in r.effects:
                if e.kind not in ('setattr', 'print', 'yield', 'write', 'call') and rooted(e.target, SELF, (g.origin,)):
                    rep.violation('remembered', name, where(e.node, prog), '%s changes the remembered graph' % who)
                if e.kind == 'setattr' and not frees(g, name) and e.args[0] != c(g.origin) and e.target == SELF and (
                        O in set(outer(e.args[1])) | set(inner(e.args[1]))):
                    rep.violation('alias', name, where(e.node, prog),
                                  '%s lets the working state share dicts with the remembered graph' % who)
    # ---- what describes the remembered graph
    if g.has('copy_compatified_lrgraph_origin'):
        r, ret = g.read('copy_compatified_lrgraph_origin')
        at = where(g.fn('copy_compatified_lrgraph_origin'), prog)
        who = 'LRGraph.copy_compatified_lrgraph_origin'
        es = g.sets(r, g.lr, ret) if ret[0] == 'new' else []
        if r.imprecise or not es:
            rep.undecide(who, 'not followed')
        else:
            v = r.final.heap.get((ret, g.lr), es[-1].args[1])
            src = deep(v)
            decide(rep, g, who + ' source', ('copy', 'source'), at, original(g, src) if src[0] != 'new' or numeric(r, src) else False,
                   'the copy of the original graph is made from %s' % names(g, src), 'source not recognised')
            shared = {O, W} & (set(outer(v)) | set(inner(v)))
            decide(rep, g, who + ' copy', ('copy', 'alias'), at, not shared, 'the copy of the original graph shares dicts with this graph', '')
            o = r.final.heap.get((ret, g.origin))
            if o is not None and o != NONE:
                own = set(outer(o)) & set(outer(v)) or {O, W} & (set(outer(o)) | set(inner(o)))
                decide(rep, g, who + ' remembered', ('copy', 'remembered'), at, True if deep(o) == src and not own else False if own else None,
                       'the copy remembers a graph that is not its own', 'remembered graph of the copy not recognised')
            back(rep, g, r, who, 'copy', at, es[-1], ret)
    if g.has('to_EojeolCounter'):
        f = g.fn('to_EojeolCounter')
        at = where(f, prog)
        opt = next((a.arg for a in f.args.args[1:]), None)
        for val in (True, False):
            who = 'LRGraph.to_EojeolCounter(%s=%s)' % (opt, val)
            r, ret = g.read('to_EojeolCounter', {opt: c(val)})
            its = [r.loops[L]['iter'] for e in r.effects if e.kind in ('store', 'inc') and len(e.loops) == 2 for L in e.loops[:1]]
            if r.imprecise or len(its) != 1 or its[0][0] != 'keys':
                rep.undecide(who, 'not followed')
                continue
            src = deep(its[0][1])
            ok = original(g, src) if val else True if src == W else False if known(g, src) else None
            decide(rep, g, who, ('counter', str(val)), at, ok, '%s counts %s' % (who, names(g, src)), 'source not recognised')
    if g.has('save'):
        r, ret = g.read('save')
        at = where(g.fn('save'), prog)
        its = {r.loops[L]['iter'] for e in r.effects if e.kind == 'write' and e.loops for L in e.loops[:1]}
        if r.imprecise or len(its) != 1 or min(its)[0] != 'keys':
            rep.undecide('LRGraph.save', 'not followed')
        else:
            src = deep(min(its)[1])
            decide(rep, g, 'LRGraph.save', ('save', 'source'), at, original(g, src), 'save writes %s' % names(g, src), 'source not recognised')
    outside(rep, prog, g, (g.origin,), 'the remembered graph')
    return rep.finish('other', 'every LRGraph method is read into terms; attribute roles come from get_r, get_l and freeze. '
                      'Content equality, copy depth and sharing of the remembered and the working dicts are decided on the terms.')


def frees(g, name, seen=()):
    """freeze, or a private step of it that nobody else takes"""
    if name == 'freeze':
        return True
    if not name.startswith('_') or name.startswith('__') or name in seen:
        return False
    callers = {f.name for f in g.methods() if f.name != name and any(
        isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(f))}
    return bool(callers) and all(frees(g, x, seen + (name,)) for x in callers)


def callers_of_freeze(g, name):
    f = g.fn(name)
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'freeze' for n in ast.walk(f))


def rooted(t, base, attrs):
    """t is self.<attr> or something inside it"""
    while isinstance(t, tuple) and t:
        if t[0] == 'attr' and t[1] == base:
            return t[2] in attrs
        if t[0] in ('item', 'get', 'elem', 'values'):
            t = t[1]
        elif t[0] == 'ite':
            return rooted(t[2], base, attrs) or rooted(t[3], base, attrs)
        else:
            return False
    return False


def back(rep, g, r, who, key, at, e, of=SELF):
    """the right-to-left graph made together with the left-to-right one is its inversion"""
    if g.rl is None:
        return rep.undecide(who, 'right-to-left dict not recognised')
    ps = pairs(g, r, of)
    if ps is None or not ps:
        if g.sets(r, g.lr, of) and not g.sets(r, g.rl, of) and not any(
                rooted(x.target, of, (g.rl,)) for x in r.effects) and not r.imprecise:
            return rep.violation('inverse', key, at, '%s sets the left-to-right graph and leaves the right-to-left one as it was' % who)
        return rep.undecide(who, 'assignments of the two directions not paired')
    if of != SELF:
        ps = ps[-1:]
    for a, b in ps:
        A, B = deep(a.args[1]), deep(b.args[1])
        if A[0] == 'new' and B[0] == 'new' and not numeric(r, A) and not numeric(r, B):
            rep.count('obligations', 1)
            rep.count('obligations_proved', 1)
            continue
        if B[0] == 'new' and not numeric(r, B) and not any(x == B for e2 in r.effects for x in walk(e2.target)):
            rep.violation('inverse', key, at, '%s leaves the right-to-left graph empty' % who)
            continue
        iv = inverse(r, B, a.guards)
        ok, why = None, ''
        if iv is not None:
            base, bad = iv
            if bad:
                ok, why = False, bad[0]
            elif deep(base) == A:
                ok = True
            elif known(g, deep(base)):
                ok, why = False, 'it is made from %s' % names(g, base)
        decide(rep, g, who + ' inverse', ('inverse', key), at, ok,
               '%s makes a right-to-left graph that is not the inversion of the left-to-right one: %s' % (who, why),
               'right-to-left graph not recognised as an inversion')


def outside(rep, prog, g, attrs, what):
    """no code outside the class stores into the attribute"""
    inside = {id(n) for n in ast.walk(g.node)}
    n_sites = 0
    for mname, m in sorted(prog.modules.items()):
        for n in ast.walk(m.tree):
            if id(n) in inside or not isinstance(n, (ast.Attribute,)) or n.attr not in attrs:
                continue
            n_sites += 1
            p = n
            up = prog_parents(m)
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                owner = enclosing_class(m, n)
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and owner != CLS:
                    continue
                rep.violation('outside', '%s|%s' % (mname, n.attr), where(n, prog), 'code outside LRGraph replaces %s' % what)
                continue
            q = up.get(id(p))
            while isinstance(q, ast.Subscript) and q.value is p:
                if isinstance(q.ctx, (ast.Store, ast.Del)):
                    rep.violation('outside', '%s|%s' % (mname, n.attr), where(n, prog), 'code outside LRGraph changes %s' % what)
                p, q = q, up.get(id(q))
            if isinstance(q, ast.Attribute) and q.attr in MUTATE and isinstance(up.get(id(q)), ast.Call) and up[id(q)].func is q:
                rep.violation('outside', '%s|%s' % (mname, n.attr), where(n, prog), 'code outside LRGraph changes %s' % what)
    rep.count('outside_accesses', n_sites)


def prog_parents(m):
    if not hasattr(m, '_up'):
        m._up = {id(k): n for n in ast.walk(m.tree) for k in ast.iter_child_nodes(n)}
    return m._up


def enclosing_class(m, n):
    up = prog_parents(m)
    while n is not None:
        if isinstance(n, ast.ClassDef):
            return n.name
        n = up.get(id(n))
    return None


# ------------------------------------------------------------------ C13
KINDS = ('inc', 'store', 'pop', 'del', 'setdefault')


def side(r, g, mine, other):
    """[(kind, outer key, inner key, amount, guards, loops)] of one direction; None when something is not understood"""
    T = attr(mine)
    out = []
    for e in r.effects:
        if not rooted(e.target, SELF, (mine,)):
            continue
        t = e.target
        if e.kind not in KINDS:
            return None
        if t == T:
            if e.kind == 'setdefault':
                continue
            if e.kind == 'store':
                v = deep(e.args[1])
                if v[0] == 'new' and not numeric(r, v):
                    continue
                if v[0] == 'dict' and len(v[1]) == 1 and v[1][0][1] is not None:
                    k, n = v[1][0]
                    out.append(('store', e.args[0], k, n, e.guards, e.loops, e))
                    continue
                return None
            if e.kind in ('pop', 'del'):
                out.append(('drop', e.args[0], None, None, e.guards, e.loops, e))
                continue
            return None
        if t[0] in ('item', 'get') and t[1] == T:
            if e.kind == 'setdefault':
                if e.args[1] == c(0):
                    continue
                return None
            if e.kind in ('pop', 'del'):
                out.append(('pop', t[2], e.args[0], None, e.guards, e.loops, e))
            else:
                out.append((e.kind, t[2], e.args[0], e.args[1], e.guards, e.loops, e))
            continue
        return None
    return out


def plain(r, g, T, xs, after, lr):
    """summary comparable between the directions: CELL = T[a][b]; the other side is turned around by the caller"""
    res = []
    cells = {}
    for kind, a, b, n, gs, loops, e in xs:
        row = ('item', T, a)
        flat = {('get', T, a, d): row for q in gs + ((n,) if n else ()) for y in walk(q) if y[0] == 'get' and y[1:3] == (T, a) for d in y[3:]}
        gs = tuple(subst(q, flat) for q in gs)
        n = subst(n, flat) if n else n
        if kind == 'drop':
            empty = any(q in (('not', row), cmp('<=', ('len', row), c(0)), cmp('==', ('len', row), c(0)), cmp('<', ('len', row), c(1)),
                              cmp('==', row, ('dict', ()))) for q in gs)
            if not empty:
                res.append(('drop', a, None, None, frozenset(), loops))
            continue
        cell = ('item', row, b)
        keep = set()
        there = set()
        for q in gs:
            if q == cmp('in', b, row) or q in (cmp('isnot', ('get', row, b, NONE), NONE),):
                there.add('cell')
                continue
            if q in (cmp('in', a, T), cmp('isnot', row, NONE), row):
                there.add('row')
                continue
            if q in (cmp('notin', a, T), cmp('notin', b, row), cmp('is', row, NONE), ('not', row)):
                keep.add(('absent',))
                continue
            if truthy_of(q, b if lr else a):
                continue
            if after and kind == 'pop' and (a, b, loops) in cells and cells[(a, b, loops)][1] <= set(gs):
                q = subst(q, {cell: add(('CELL',), cells[(a, b, loops)][0])})
            else:
                q = subst(q, {cell: ('CELL',)})
            keep.add(q)
        if kind != 'pop' and there:
            keep.add(('present',) if 'cell' in there else ('row', a))
        if kind == 'inc' and ('absent',) not in keep:
            cells[(a, b, loops)] = n, set(gs)
        res.append((kind, a, b, n, frozenset(keep), loops))
    # store when absent + inc when there = inc
    out = []
    for x in res:
        if x[0] in ('store', 'inc') and ('absent',) in x[4]:
            rest = x[4] - {('absent',)}
            if any(y[0] == 'inc' and y[1:4] == x[1:4] and y[5] == x[5] and y[4] - {('present',), ('row', x[1])} == rest
                   - {('present',), ('row', x[1])} for y in res if y is not x):
                continue
        out.append(x)
    made = {(x[1], x[2], x[3], x[5]) for x in res if x[0] in ('store', 'inc') and ('absent',) in x[4]}
    out = [x[:4] + (x[4] - {('present',), ('row', x[1])},) + x[5:] if x[0] == 'inc' and (x[1], x[2], x[3], x[5]) in made else x
           for x in out]
    # an addition that is overridden by a removal happens only when the removal does not
    pops = [x for x in out if x[0] == 'pop']
    fin = []
    for x in out:
        if x[0] == 'inc':
            drop = {neg(q) for p in pops if p[1:3] == x[1:3] and p[5] == x[5] for q in p[4]}
            x = x[:4] + (frozenset(q for q in x[4] if q not in drop),) + x[5:]
        fin.append(x)
    return fin


def turned(x, lr):
    """with keys in the order (l, r)"""
    kind, a, b, n, gs, loops = x
    return (kind, a, b, n, gs, loops) if lr else (kind, b, a, n, gs, loops)


def c13(tier):
    rep = Report('C13', tier, 'every change of one direction has the same change of the other')
    prog = Program()
    g = Graph(prog)
    if g.lr is None or g.rl is None:
        rep.undecide('LRGraph', 'the dicts behind get_r and get_l were not recognised')
        return rep.finish('other', 'attribute roles not recognised')
    if g.lr == g.rl:
        raise Broken('get_l and get_r read the same dict')
    for f in g.methods():
        name = f.name
        r, ret = g.read(name)
        at = where(f, prog)
        who = 'LRGraph.%s' % name
        rep.count('methods_analysed', 1)
        objs = {e.target for e in r.effects if e.kind == 'setattr' and e.args[0] in (c(g.lr), c(g.rl))}
        for o in objs:
            if r.imprecise:
                rep.undecide(who, 'not followed: %s' % (r.imprecise[0],))
            elif o == SELF or o[0] == 'new':
                if g.sets(r, g.rl, o) and not g.sets(r, g.lr, o):
                    iv = [inverse(r, e.args[1], e.guards) for e in g.sets(r, g.rl, o)]
                    if not all(x is not None and not x[1] and deep(x[0]) == attr(g.lr, o) for x in iv):
                        if all(x is not None for x in iv):
                            rep.violation('inverse', name, at, '%s sets only the right-to-left graph' % who)
                        else:
                            rep.undecide(who, 'sets only the right-to-left graph')
                else:
                    back(rep, g, r, who, name, at, None, o)
        a, b = side(r, g, g.lr, g.rl), side(r, g, g.rl, g.lr)
        if objs and SELF in objs:
            if a or b:
                rep.undecide(who, 'changes the graphs it has just made')
            continue
        if a == [] and b == []:
            continue
        rep.count('updating_methods', 1)
        if a is None or b is None or r.imprecise:
            rep.undecide(who, 'updates not followed %s' % (r.imprecise[:1],))
            continue
        fits = False
        for va in (True, False):
            for vb in (True, False):
                x = {turned(y, True) for y in plain(r, g, attr(g.lr), a, va, True)}
                y = {turned(y, False) for y in plain(r, g, attr(g.rl), b, vb, False)}
                if x == y:
                    fits = True
                diff = x ^ y
        rep.count('obligations', 1)
        if fits:
            rep.count('obligations_proved', 1)
            rep.sample('%s: %d updates on each side agree' % (who, len(a)))
            continue
        x = {turned(y, True) for y in plain(r, g, attr(g.lr), a, True, True)}
        y = {turned(y, False) for y in plain(r, g, attr(g.rl), b, True, False)}
        if any(z[0] in ('unk', 'choice', 'out', 'phi') for w in x ^ y for part in w[1:4] if part for z in walk(part)):
            rep.undecide(who, 'keys or amounts not followed')
            continue
        rep.violation('update', name, at, '%s: %s' % (who, difference(x, y)))
    outside(rep, prog, g, (g.lr, g.rl), 'one direction of the graph')
    return rep.finish('other', 'the effects of every LRGraph method on the two dicts are summarised (amount, key pair, conditions, '
                      'loops; empty inner dicts, membership tests and "r is not empty" left out) and compared with l and r swapped; '
                      'whole-graph assignments must set the other direction to the inversion.')


def difference(x, y):
    def show(z):
        return {(w[0], w[1], w[2]) for w in z}
    if not y:
        return 'only the left-to-right graph is changed'
    if not x:
        return 'only the right-to-left graph is changed'
    if show(x) != show(y):
        return 'the two directions are changed at different pairs or in different ways'
    if {w[:4] for w in x} != {w[:4] for w in y}:
        return 'the two directions are changed by different amounts'
    if {w[5] for w in x} != {w[5] for w in y}:
        return 'the two directions are changed a different number of times'
    return 'the two directions are changed under different conditions'
