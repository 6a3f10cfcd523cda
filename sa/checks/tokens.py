"""C17: tokens are the eojeol cut into pieces; C18: so are tagged words."""
from .. import regexes
from ..loader import Program, where
from ..report import Report
from ..terms import Reader, walk, lin, sub, add, neg, cmp, c
from .spans import (Spans, View, Vague, Wrong, Order, W, N, NONE, SELF, field, sound, tile, plain, sentence, stream, cases, chosen,
                    ordered, core, differ, about)


class Plain(Reader):
    """lists stay what is appended to them, in order"""
    collect = False


TOK = 'soynlp.tokenizer._tokenizer'
NOUN = 'soynlp.tokenizer._noun_tokenizer'


def split_of(r, t, name):
    """the call that cuts the sentence into eojeols"""
    everywhere = [x for y in [t] + [info['iter'] for info in r.loops.values() if info.get('iter')] for x in walk(y)]
    out = {x for x in everywhere if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'split' and
           any(y == ('p', name) for y in walk(x[1][1]))}
    if len(out) != 1:
        raise Vague('how the sentence is cut')
    s = out.pop()
    b = s[1][1]
    while b[0] == 'call' and b[1][0] == 'attr' and b[1][2] in ('strip', 'lstrip', 'rstrip') and not b[2]:
        b = b[1][1]
    if s[2] not in ((), (NONE,)) or s[3]:
        raise Wrong('cut', 'the sentence is not cut at every whitespace')
    if b != ('p', name):
        raise Vague('what is cut into eojeols')
    return s


class Obligations:
    def __init__(self, rep, prog, label):
        self.rep, self.prog, self.label = rep, prog, label
        self.node = None

    def __call__(self, what):
        self.rep.count('obligations_proved', 1)
        self.rep.sample('%s: %s' % (self.label, what), cap=40)

    def run(self, fn, *args):
        self.rep.count('obligations', 1)
        try:
            fn(*args)
        except Wrong as e:
            node = e.node if e.node is not None else self.node
            self.rep.violation(e.kind, self.label, where(node, self.prog) if node is not None else '?', '%s: %s' % (self.label, e.message))
        except Vague as e:
            self.rep.undecide(self.label, str(e))


def first_param(fr):
    return [a.arg for a in fr.node.args.args if a.arg != 'self'][0]


def read(prog, mod, cls, meth, args):
    r = Plain(prog)
    t, fr = r.read_method(mod, cls, meth, args=args)
    return r, t, fr


def given(prog, mod, cls, meth, args):
    """args cut to the parameters the method has"""
    r = Plain(prog)
    k = r.find_class(mod, cls)
    f = r.method(k, meth)
    f = f[0] if isinstance(f, tuple) else f
    have = {a.arg for a in f.args.args}
    return {k: v for k, v in args.items() if k in have}


def by_span(rep, prog, mod, cls, args, view, label, base_ok=lambda f: False, meth='tokenize', texts=None):
    args = given(prog, mod, cls, meth, args)
    r, t, fr = read(prog, mod, cls, meth, args)
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        split = split_of(r, t, first_param(fr))
        sp = Spans(r, lambda x: x[0] == 'elem' and x[1] == split)
        X = sp.norm(t)
        T, accs = sentence(sp, X, split)
        v = view
        if accs is not None:
            if texts is not None and accs != texts and sorted(map(str, accs)) == sorted(map(str, texts)):
                raise Wrong('order', 'the parts of a piece are given out of order', fr.node)
            v = View(accs, view.b, view.e, view.n)
        if v.b is None:
            v = placed(sp, T, v)
        tile(sp, v, T, (), ob, base_ok)
        rep.count('records_checked', sp.checked)
    ob.run(go)


def placed(sp, T, v):
    """where records tell begin and end: the key they are sorted by, and the place their last text ends"""
    ts = [T]
    keys = set()
    while ts:
        x = ts.pop()
        if x[0] == 'ite':
            ts += [x[2], x[3]]
        elif x[0] == 'sorted':
            lam = x[2]
            k = lam[1] if lam[0] == 'lam' else None
            if k is not None and k[0] in ('item', 'attr') and k[1] == ('lp', 0):
                keys.add((k[0], k[2][1] if k[0] == 'item' else k[2]))
            if x[1][0] == 'bin':
                ts += [y for y in x[1][2:4]]
            elif x[1][0] in ('new', 'comp'):
                ts.append(x[1])
    if len(keys) != 1:
        raise Vague('where a piece tells its begin')
    b = keys.pop()
    bad = None
    for x in walk(T):
        if x[0] != 'new' or x[1] != 'list':
            continue
        for w in sp.made(x):
            try:
                rs = sp.resolve(w.elt)
            except Vague:
                continue
            for rec, _ in rs:
                if rec[0] not in ('list', 'tuple') or b[0] != 'item':
                    continue
                try:
                    p = sp.text([field(sp, rec, a) for a in v.texts])
                except Wrong as e:
                    bad = Wrong('text', 'the parts of a piece do not adjoin in the order they are given', e.node or w.node)
                    continue
                except Vague:
                    continue
                if not p:
                    continue
                es = [i for i, y in enumerate(rec[1]) if y == p[1] and ('item', i) != b]
                if es:
                    return View(v.texts, b, ('item', es[0]), None)
    raise bad or Vague('where a piece tells its end')


def by_parts(rep, prog, mod, cls, args, label, meth='tokenize'):
    args = given(prog, mod, cls, meth, args)
    r, t, fr = read(prog, mod, cls, meth, args)
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        split = split_of(r, t, first_param(fr))
        sp = Spans(r, lambda x: x[0] == 'elem' and x[1] == split)
        T, accs = sentence(sp, sp.norm(t), split)
        if accs is not None:
            raise Vague('what is taken of the parts')
        plain(sp, T, ob)
        rep.count('records_checked', sp.checked)
    ob.run(go)


# -- text rebuilt with spaces between the pieces ------------------------------

def blank(t):
    return t[0] == 'c' and isinstance(t[1], str) and t[1].isspace()


def uncut(t, heap):
    """the text of which t is the words"""
    if t[0] != 'call' or t[1][0] != 'attr' or t[1][2] != 'split':
        raise Vague('what the pieces are cut from')
    if t[2] not in ((), (NONE,)) or t[3]:
        raise Vague('at what the pieces are cut')
    t = t[1][1]
    while True:
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('strip', 'lstrip', 'rstrip') and not t[3]:
            if t[2] and not blank(t[2][0]) and t[2][0] != NONE:
                raise Wrong('dropped', 'characters other than spaces are stripped off')
            t = t[1][1]
            continue
        f = t
        if f[0] == 'call' and f[1][0] == 'attr' and f[1][1][0] == 'attr' and f[1][1][1] == SELF:
            v = heap.get((SELF, f[1][1][2]))
            if v is not None:
                f = ('call', ('attr', v, f[1][2]), f[2], f[3])
        x = regexes.sub_call(f)
        if x is not None:
            cls = regexes.charclass(x[0])
            if cls is None:
                raise Vague('what is replaced in the text')
            if regexes.minus(cls[0], regexes.category(regexes.K.CATEGORY_SPACE)):
                raise Wrong('dropped', 'characters other than spaces are replaced')
            if not blank(x[1]):
                if x[1] == c(''):
                    raise Wrong('cut', 'the spaces between the pieces are removed')
                raise Vague('what spaces are replaced with')
            t = x[2]
            continue
        return t


def unstr(t):
    while t[0] == 'str' and len(t[1]) == 1 or t[0] == 'fmt' and t[2] == '':
        t = t[1][0] if t[0] == 'str' else t[1]
    return t


def longer(t, r, depth=0):
    """t, a number, is at least 1 because it is the length of something a pattern found"""
    if t[0] == 'len' and any(x[0] == 'attr' and x[2] in ('findall', 'finditer') for x in walk(t)):
        return True
    if t[0] == 'len' and t[1][0] == 'phi':
        return longer_text(t[1], r)
    if t[0] == 'phi' and depth < 3:
        info = r.loops[t[1]]
        vs = [info['init'].get(t[2])] + [env.get(t[2]) for _, env in info['ends']]
        return None not in vs and all(v == t or longer(v, r, depth + 1) for v in vs)
    return False


def longer_text(t, r):
    info = r.loops[t[1]]
    vs = [info['init'].get(t[2])] + [env.get(t[2]) for _, env in info['ends']]
    return None not in vs and all(v == t or any(x[0] == 'attr' and x[2] in ('findall', 'finditer') for x in walk(v)) for v in vs)


def by_pieces(rep, prog, mod, cls, args, label, meth='tokenize'):
    args = given(prog, mod, cls, meth, args)
    init = Plain(prog)
    init.read_method(mod, cls, '__init__')
    heap = init.final.heap
    r = Plain(prog)
    r.texts = True
    t, fr = r.read_method(mod, cls, meth, args=args)
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def patterns():
        n = 0
        for x in walk(('tuple', tuple(heap.values()))):
            if x[0] == 'regex':
                p = x[1][1] if x[1][0] == 'c' else None
                q = p is not None and regexes.parse(p)
                if q and q.getwidth()[0] > 0:
                    n += 1
                elif q:
                    return None
        return n

    def go():
        split = split_of(r, t, first_param(fr))
        sp = Spans(r, lambda x: x[0] == 'elem' and x[1] == split)
        T, accs = sentence(sp, sp.norm(t), split)
        if accs is not None:
            raise Vague('what is taken of the pieces')
        x = unstr(uncut(T, heap))
        ob('pieces cut at the spaces put between them')
        rebuilt(x, 0)

    def rebuilt(x, depth):
        """x is the eojeol with spaces put in"""
        x = unstr(x)
        if x == W or x[0] == 'elem' and x[1] == split_of(r, t, first_param(fr)):
            return
        if depth > 3 or x[0] != 'out':
            raise Vague('how the text of the pieces is made')
        L, name = x[1], x[2]
        info = r.loops[L]
        if name not in info['init']:
            raise Vague('how the text of the pieces is made')
        rebuilt(info['init'][name], depth + 1)
        for gs, env in info['ends'] + [(b.guards, b.env) for b in info.get('breakstates') or []]:
            v = unstr(env[name])
            if v == ('phi', L, name):
                continue
            if v[0] != 'out':
                raise Vague('how a round changes the text')
            spaced(v, ('phi', L, name))
            ob('one pass over the text keeps every character')

    def spaced(v, S):
        """the loop copies S into v, with spaces put in"""
        L, name = v[1], v[2]
        info = r.loops[L]
        node = info.get('node')
        sp = Spans(r, lambda x: x == S or x == ('str', (S,)))
        it = sp.norm(info['iter'])
        rng = ('rng', c(0), N, L)
        if not (it == W or it[0] == 'enumerate' and it[1] == W or it == ('range', c(0), N)):
            raise Vague('how the text is gone through')
        if info['init'].get(name) != c(''):
            raise Vague('what the copy begins with')
        me = ('phi', L, name)
        # the place up to which the text has been copied already
        skips = []
        for n, s0 in info['init'].items():
            x = ('phi', L, n)
            if s0 is not None and s0[0] == 'c' and isinstance(s0[1], int) and not isinstance(s0[1], bool) and \
                    any(g[0] == 'cmp' and x in walk(g) and rng in walk(g) for gs, _ in info['ends'] for g in map(sp.norm, gs)):
                skips.append(x)
                if s0[1] > 0:
                    raise Wrong('dropped', 'the copy does not begin at the start of the text', node)

        def grown(env, gs):
            g2 = [sp.norm(g) for g in gs]
            same = {}
            for g in g2:
                if g[0] == 'cmp' and g[1] == '==':
                    for a, b in ((g[2], g[3]), (g[3], g[2])):
                        if a[0] == 'slice' and a[1] == W:
                            same[b] = a
            ps = sp.norm(env[name])
            ps = list(ps[1]) if ps[0] == 'str' else [ps]
            if not ps or ps[0] != me:
                if me in ps[1:] and ps.count(me) == 1:
                    raise Wrong('order', 'characters are put in front of what has been copied', node)
                raise Vague('how the copy grows')
            out = []
            for q in ps[1:]:
                q = unstr(q)
                q = same.get(q, q)
                if q[0] == 'call' and q[1][0] == 'attr' and q[1][1][0] in ('elem', 'slice') and q[1][1][1] == W and \
                        q[1][2] in ('lower', 'upper', 'strip', 'title', 'replace', 'capitalize', 'swapcase', 'casefold'):
                    raise Wrong('text', 'characters are changed when they are copied', node)
                if q == ('elem', W, L):
                    q = ('slice', W, rng, add(rng, c(1)), NONE)
                if q[0] == 'c':
                    if q[1] and not q[1].isspace():
                        raise Wrong('added', 'characters that are not in the text are put in', node)
                    continue
                out.append(q)
            return out, g2

        def reach(pieces, what):
            p = sp.text(pieces)
            if p is None:
                raise Vague('what is copied')
            if p == () or p[0] != rng:
                if p and not differ(p[0], rng):
                    raise Vague('where copying begins')
                raise Wrong('dropped', what, node)
            return p[1]
        for b in info.get('breakstates') or []:
            ps, gs = grown(b.env, b.guards)
            if not ps or reach(ps, 'what stands at the place is not copied') != N:
                raise Wrong('dropped', 'the rest of the text is left out when the loop is left', node)
        ends = []
        todo = list(info['ends'])
        while todo:
            gs, env = todo.pop()
            v = env[name]
            if v[0] == 'ite':
                todo += [(tuple(gs) + (v[1],), dict(env, **{name: v[2]})), (tuple(gs) + (neg(v[1]),), dict(env, **{name: v[3]}))]
            else:
                ends.append((gs, env))
        for gs, env in ends:
            ps, g2 = grown(env, gs)
            o = Order(g2)
            o.close()
            moved = {x: sp.norm(env[x[2]]) for x in skips if sp.norm(env[x[2]]) != x}
            held = [x for x in skips if o.holds(cmp('<', rng, x)) is True]
            if not ps:
                if held and not any(x in moved for x in held):
                    continue
                if any(x[0] == 'phi' and x[1] == L and x not in skips for g in g2 for x in walk(g)):
                    raise Vague('when a character is not copied')
                raise Wrong('dropped', 'a character is left out', node)
            # b <= i for every place that lets characters be skipped
            hi = reach(ps, 'what stands at the place is not copied')
            users = skips
            for x in users:
                if o.holds(cmp('<=', x, rng)) is not True:
                    raise Wrong('added', 'a character that has been copied may be copied again', node)
            to = [moved.get(x, x) for x in users]
            if hi == add(rng, c(1)) and not moved:
                continue
            if len(to) != 1:
                if hi != add(rng, c(1)):
                    raise Wrong('added', 'what has been copied is not skipped', node)
                raise Vague('what is skipped')
            if to[0] == hi:
                k, d = lin(sub(hi, rng))
                if len(d) == 1 and k == 0 and longer(list(d)[0], r):
                    if patterns():
                        continue
                    if patterns() is None:
                        raise Wrong('dropped', 'a pattern that finds empty text makes a character be left out', node)
                if k > 0 and not d:
                    continue
                raise Vague('whether anything is skipped')
            if differ(to[0], hi) or to[0] == users[0]:
                raise Wrong('dropped', 'what is skipped is not what has been copied', node)
            raise Vague('what is skipped')
        rep.count('copy_paths', len(info['ends']) + len(info.get('breakstates') or []))
    ob.run(go)


def by_runs(rep, prog, mod, cls, args, label, meth='tokenize'):
    """spans that adjoin are merged, and none is dropped"""
    args = given(prog, mod, cls, meth, args)
    r, t, fr = read(prog, mod, cls, meth, args)
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        split = split_of(r, t, first_param(fr))
        sp = Spans(r, lambda x: x[0] == 'elem' and x[1] == split)
        X, accs = sentence(sp, sp.norm(t), split)
        if accs is not None or X[0] != 'new':
            raise Vague('how the spans are merged')
        for e, _, a, gs in sp.on(X):
            if e.kind != 'append' or a[0][0] not in ('tuple', 'list') or len(a[0][1]) != 5:
                raise Vague('how the spans are merged')
        apps = [(e, a[0], gs) for e, _, a, gs in sp.on(X)]
        within = [x for x in apps if x[1][1][1][0] == 'phi' and x[1][1][2][0] == 'phi']
        after = [x for x in apps if x[1][1][1][0] == 'out' and x[1][1][2][0] == 'out']
        if len(within) != 1 or len(after) > 1 or len(apps) != len(within) + len(after):
            raise Vague('how the spans are merged')
        B, E = within[0][1][1][1:3]
        L = B[1]
        if E[1] != L:
            raise Vague('how the spans are merged')
        info = r.loops[L]
        m = ('elem', sp.norm(info['iter']), L)
        cb, ce = ('item', m, c(1)), ('item', m, c(2))
        held = cmp('<', B, E)
        put = {B: ('out', L, B[2]), E: ('out', L, E[2])}
        known = {B, E, cb, ce} | set(put.values())
        for e, rec, gs in apps:
            a, b, z = field(sp, rec, ('item', 0)), rec[1][1], rec[1][2]
            want = (('slice', W, b, z, NONE), sub(z, b))
            for x, y in zip((a, rec[1][4]), want):
                atoms = [u for v in (x[2:4] if x[0] == 'slice' and x[1] == W else (x,)) for u in lin(v)[1]]
                if x != y:
                    raise Wrong('record', 'the text or the length of a merged span is not that of its begin and end', e.node) \
                        if all(u in known for u in atoms) else Vague('a merged span')
        todo, ends = list(info['ends']), []
        while todo:
            gs, env = todo.pop()
            v = next((env[n] for n in (B[2], E[2]) if env[n][0] == 'ite'), None)
            if v is None:
                ends.append(([sp.norm(g) for g in gs], sp.norm(env[B[2]]), sp.norm(env[E[2]])))
                continue
            for q, k in ((v[1], 2), (neg(v[1]), 3)):
                todo.append((tuple(gs) + (q,), dict(env, **{n: (env[n][k] if env[n][0] == 'ite' and env[n][1] == v[1] else env[n])
                                                            for n in (B[2], E[2])})))
        out = within[0][2]
        inner = [g for g in out if any(y[0] in ('phi', 'elem') and y[-1 if y[0] == 'elem' else 1] == L for y in walk(g))]
        for gs, b2, e2 in ends:
            o = Order(gs)
            o.close()
            if e2 != ce:
                if e2 == E or differ(e2, ce):
                    raise Wrong('runs', 'a run of spans does not end where its last span ends', info.get('node'))
                raise Vague('where a run ends')
            if b2 == B:
                v = o.holds(cmp('==', cb, E))
                if v is not True:
                    raise Wrong('runs', 'spans that do not adjoin are merged', info.get('node'))
            elif b2 == cb:
                for g in inner:
                    if g != held and o.holds(g) is not True:
                        raise Wrong('runs', 'a run of spans is dropped when the next one begins', within[0][0].node)
            elif o.holds(cmp('==', b2, cb)) is not True:
                raise Wrong('runs', 'a run of spans does not begin where its first span begins', info.get('node')) \
                    if all(u in known for u in lin(b2)[1]) else Vague('where a run begins')
        if not after:
            raise Wrong('runs', 'the last run of spans is dropped', within[0][0].node)
        have = {g for g in after[0][2] if about(g, put[B]) or about(g, put[E])}
        if have - {sp.put(held, put)}:
            raise Vague('when the last run is kept')
        ob('runs of adjoining spans are merged, none dropped')
    ob.run(go)


def const(**kw):
    return {k: c(v) for k, v in kw.items()}


def base_is(prog, cls):
    """attributes of cls that hold a max-score tokenizer"""
    r = Plain(prog)
    r.read_method(TOK, cls, '__init__')
    names = set()
    for (o, a), v in r.final.heap.items():
        if o == SELF and any(x[0] == 'cls' and x[-1] == 'MaxScoreTokenizer' or x == ('c', 'MaxScoreTokenizer') for x in walk(v)) or \
                o == SELF and 'MaxScoreTokenizer' in repr(v)[:4000]:
            names.add(a)
    return lambda f: f[0] == 'attr' and f[2] == 'tokenize' and f[1][0] == 'attr' and f[1][1] == SELF and f[1][2] in names or \
        f[0] == 'attr' and f[1] == SELF and f[2] in names


REC = View([('item', 0)], ('item', 1), ('item', 2), ('item', 4))


def c17(tier):
    rep = Report('C17', tier, 'the pieces a tokenizer gives tile the eojeol, and each is the text at the place it tells')
    prog = Program()
    for flat in (False, True):
        rep.attempt('MaxScoreTokenizer', by_span, rep, prog, TOK, 'MaxScoreTokenizer', const(flatten=flat), REC,
                    'MaxScoreTokenizer.tokenize (flatten=%s)' % flat)
        rep.attempt('MaxLRScoreTokenizer', by_span, rep, prog, TOK, 'MaxLRScoreTokenizer', const(flatten=flat, debug=False), View([]),
                    'MaxLRScoreTokenizer.tokenize (flatten=%s)' % flat, base_is(prog, 'MaxLRScoreTokenizer'))
        rep.attempt('LTokenizer', by_parts, rep, prog, TOK, 'LTokenizer', const(flatten=flat, remove_r=False),
                    'LTokenizer.tokenize (flatten=%s)' % flat)
        rep.attempt('RegexTokenizer', by_pieces, rep, prog, TOK, 'RegexTokenizer', const(flatten=flat, debug=False),
                    'RegexTokenizer.tokenize (flatten=%s)' % flat)
    rep.attempt('NounMatchTokenizer', by_runs, rep, prog, NOUN, 'NounMatchTokenizer', const(flatten=False, compose_compound=True),
                'NounMatchTokenizer.tokenize')
    return rep.finish('other', 'Each tokenizer is read as terms over one eojeol, helper methods included. Proved: what is left of the chosen '
                      'spans, between them and right of them is added, in order of begin, so that the texts join to the eojeol; chosen spans '
                      'do not overlap; a record tells the place its text is at; only empty pieces are dropped; the regular-expression '
                      'tokenizer only puts spaces into the text, on every path of its copying loop.')
