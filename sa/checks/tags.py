"""C18: the words of a tagged sentence are its eojeols, in order."""
from ..loader import Program
from ..report import Report
from ..terms import walk, lin, sub, add, neg, cmp, c
from .spans import (Spans, View, Vague, Wrong, Order, W, N, NONE, SELF, WRAPS, field, sound, tile, sentence, cases, chosen, ordered, core,
                    differ, at_most_len, split_parts)
from .tokens import Obligations, read, given, split_of, first_param, const

TAG = 'soynlp.postagger._tagger'
TEM = 'soynlp.postagger._template'
EVA = 'soynlp.postagger._evaluator'

L_, R_ = ('attr', 'l'), ('attr', 'r')
LR = View([L_, R_], ('attr', 'b'), ('attr', 'e'))
LEFT = View([L_], ('attr', 'b'), ('attr', 'm'))
RIGHT = View([R_], ('attr', 'm'), ('attr', 'e'))


def word_is(name):
    p = ('p', name)
    return lambda x: x == p or x[0] == 'ite' and x[3] == p and 'version_info' in repr(x[1])


def records(sp, T):
    """every record that gets into the lists T is made of"""
    out = []
    for t, _ in cases(sp, T):
        for X in (split_parts(sp, t[1]) if t[0] in ('sorted', 'reversed') + WRAPS else split_parts(sp, t)):
            if X[0] == 'p':
                continue
            out += sp.made(X)
    return out


def middles(sp, ways):
    """the left and the right part of a record are where it tells"""
    for w in ways:
        if w.elt[0] != 'nt':
            raise Vague('a record')
        sound(sp, LEFT, w.elt, w.guards, w.node, 'left part')
        if field(sp, w.elt, R_) == c(''):
            m, e = field(sp, w.elt, ('attr', 'm')), field(sp, w.elt, ('attr', 'e'))
            if m != e and differ(m, e):
                raise Wrong('record', 'a record without a right part tells a place for it', w.node)
            if m != e:
                raise Vague('the place of a right part')
        else:
            sound(sp, RIGHT, w.elt, w.guards, w.node, 'right part')


def post(rep, prog, cls, meth, label):
    r, t, fr = read(prog, TAG, cls, meth, {})
    ob = Obligations(rep, prog, label)
    ob.node = fr.node
    names = [a.arg for a in fr.node.args.args if a.arg != 'self']

    def go():
        sp = Spans(r, word_is(names[0]))
        T = sp.norm(t)
        tile(sp, LR, T, (), ob)
        rep.count('records_checked', sp.checked)

    def parts():
        sp = Spans(r, word_is(names[0]))
        middles(sp, records(sp, sp.norm(t)))
        ob('parts of a word')

    def whole():
        # without words the token is one word
        sp = Spans(r, word_is(names[0]))
        T = sp.norm(t)
        ws = ('p', names[1])
        for x, conds in cases(sp, T):
            if neg(ws) in conds:
                return ob('a token without words')
        if not any(ws in conds or neg(ws) in conds for x, conds in cases(sp, T)):
            first = ('item', ws, c(0))
            if any(y == first for y in walk(T)) or any(y == first for e, _, a, gs in sp.effects if ws not in gs
                                                       for y in walk(('tuple', tuple(a) + tuple(gs)))):
                raise Wrong('empty', 'a token without known words is not provided for')
        raise Vague('a token without known words')
    ob.run(go)
    ob.run(parts)
    ob.run(whole)


def tagger(rep, prog, flat, debug, label):
    args = given(prog, TAG, 'SimpleTagger', 'tag', const(flatten=flat, debug=debug))
    r, t, fr = read(prog, TAG, 'SimpleTagger', 'tag', args)
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        split = split_of(r, t, first_param(fr))
        sp = Spans(r, lambda x: x[0] == 'elem' and x[1] == split)
        X = sp.norm(t)
        if debug:
            if X[0] != 'tuple' or not X[1]:
                raise Vague('what is given for debugging')
            X = X[1][0]
        T, accs = sentence(sp, X, split)
        if accs is None:
            raise Vague('what is taken of a word')
        if accs != [L_, R_]:
            if accs == [R_, L_]:
                raise Wrong('order', 'the right part of a word is given before the left part')
            if accs in ([L_], [R_]):
                raise Wrong('dropped', 'a part of each word is left out')
            raise Vague('what is taken of a word')
        ob('both parts of each word, in order')
        for e, _, a, gs in sp.effects:
            for x in walk(('tuple', tuple(y for y in a if isinstance(y, tuple)))):
                if x[0] == 'tuple' and len(x[1]) == 2 and x[1][0][0] == 'attr' and x[1][0][2] in ('l', 'r') and x[1][1][0] == 'attr':
                    if x[1][1][1] == x[1][0][1] and x[1][1][2] != x[1][0][2] + '_tag':
                        raise Wrong('tag', 'a part of a word is given the tag of another', e.node)
        for x, conds in cases(sp, T):
            w = x
            if w[0] == 'call' and w[1][0] == 'attr' and w[1][2] == 'postprocess':
                if len(w[2]) != 2 or w[3]:
                    raise Vague('what is given to the postprocessor')
                if w[2][0] != W:
                    raise Wrong('given', 'the postprocessor is not given the eojeol') if w[2][1] == W else Vague('what the postprocessor gets')
                w = w[2][1]
            else:
                pp = ('attr', SELF, 'postprocessor')
                on = [g for g in conds if pp in walk(g)]
                if pp in conds or any(g[0] in ('not', 'or') and any(y[0] == 'call' for y in walk(g)) for g in on) and neg(pp) not in conds:
                    raise Wrong('given', 'the postprocessor is not used')
                if not on and not any(y[0] == 'call' and y[1][0] == 'attr' and y[1][2] == 'postprocess' for y in walk(T)):
                    raise Wrong('given', 'the postprocessor is not used')
            if not (w[0] == 'call' and w[1][0] == 'attr' and w[1][2] == 'select_best' and len(w[2]) == 1 and not w[3]):
                raise Vague('how the words are chosen')
            g = w[2][0]
            if not (g[0] == 'call' and g[1][0] == 'attr' and g[1][2] == 'generate' and g[2] == (W,) and not g[3]):
                raise Vague('how the candidates are made')
            ob('words of the eojeol are chosen among its candidates')
    ob.run(go)


def select(rep, prog, cls, label):
    r, t, fr = read(prog, EVA, cls, 'select_best', {})
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        sp = Spans(r, lambda x: False)
        sp.assume = True
        R = sp.norm(t)
        while R[0] in WRAPS:
            R = R[1]
        if ordered(sp, LR, R):
            ob('chosen words are in order')
        chosen(sp, LR, R, ob)
        cand = ('p', first_param(fr))
        for w in sp.made(core(sp, R)):
            for x, _ in sp.resolve(w.elt):
                if not (x[0] in ('elem', 'item', 'popped') and core(sp, x[1]) == cand):
                    raise Vague('what is chosen')
        ob('only candidates are chosen')
    ob.run(go)


def best(rep, prog, cls, label):
    r, t, fr = read(prog, EVA, cls, 'select_best', {})
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        sp = Spans(r, lambda x: False)
        cand = ('p', first_param(fr))
        for x, conds in cases(sp, sp.norm(t)):
            if x == NONE:
                if neg(cand) not in conds:
                    o = Order(conds)
                    o.say(cmp('<=', c(0), ('len', cand)))
                    o.close()
                    z = o.holds(cmp('<=', ('len', cand), c(0)))
                    if z is None and not any(cand in walk(g) for g in conds):
                        z = False
                    if z is not True:
                        raise Wrong('chosen', 'nothing may be chosen though there are candidates') if z is False else \
                            Vague('when nothing is chosen')
                continue
            for y, _ in sp.resolve(x):
                if not (y[0] in ('elem', 'item', 'popped') and core(sp, y[1]) == cand):
                    if y[0] in ('elem', 'item', 'slice') and y[1][0] in ('elem', 'item') and core(sp, y[1][1]) == cand:
                        raise Wrong('chosen', 'only a part of a candidate is chosen')
                    raise Vague('what is chosen')
        ob('one of the candidates is chosen, as it is')
    ob.run(go)


def running(sp, X, ob):
    """records that follow one another from the begin to the end of the eojeol"""
    apps = [x for x in sp.on(X) if x[0].kind == 'append']
    if X[0] != 'new' or len(apps) != len(sp.on(X)) or len(apps) != 1:
        raise Vague('how a compound is made')
    eff, _, a, gs = apps[0]
    rec = a[0]
    if rec[0] != 'nt':
        raise Vague('a word of a compound')
    p = sp.text([field(sp, rec, L_), field(sp, rec, R_)])
    if not p:
        raise Vague('a word of a compound')
    lo, hi = p
    b, m, e = (field(sp, rec, ('attr', x)) for x in 'bme')
    for x, y, what in ((b, lo, 'begin'), (e, hi, 'end')):
        if x != y:
            atoms = set(lin(x)[1]) | set(lin(y)[1])
            if all(z[0] in ('phi', 'rng') or z == N for z in atoms):
                raise Wrong('record', 'the %s of a word is not where its text %ss' % (what, what), eff.node)
            raise Vague('the place of a word')
    pl = sp.text([field(sp, rec, L_)])
    if pl and m != pl[1]:
        raise Wrong('record', 'the left part of a word does not end where the word tells', eff.node) \
            if m in (lo, hi, N) else Vague('the middle of a word')
    if lo[0] != 'phi':
        raise Vague('where the next word begins')
    L, v = lo[1], lo[2]
    info = sp.r.loops[L]
    if at_most_len(hi, gs) is False:
        raise Wrong('record', 'a word may end behind the end of its eojeol', eff.node)
    for st, env, brk in [(tuple(x.guards), x.env, True) for x in info.get('breakstates') or []] + [(g, x, False) for g, x in info['ends']]:
        st = tuple(sp.norm(g) for g in st)
        here = [g for g in gs if g in st]
        mine = [g for g in gs if about_loop(g, L)]
        is_in = all(g in st for g in mine) and mine
        out = any(neg(g) in st for g in mine)
        val = sp.norm(env.get(v, lo))
        if is_in:
            if val != hi:
                if val == lo or differ(val, hi) or all(z[0] in ('phi', 'rng') or z == N for z in lin(val)[1]):
                    raise Wrong('runs', 'the next word does not begin where the last one ends', eff.node)
                raise Vague('where the next word begins')
        elif out or not mine:
            if val != lo:
                raise Wrong('runs', 'text is passed over without a word for it', info.get('node')) \
                    if all(z[0] in ('phi', 'rng') or z == N for z in lin(val)[1]) else Vague('where the next word begins')
        elif val != lo and val != hi:
            raise Vague('where the next word begins')
        elif val == hi:
            raise Vague('when a word is taken')
        del here, brk
    # the loops around
    at = sp.norm(info['init'].get(v, NONE))
    outer = info
    if at[0] == 'phi':
        outer = sp.r.loops[at[1]]
        for g, env in outer['ends']:
            x = sp.norm(env[at[2]])
            if x != ('out', L, v) and x != at:
                for y, _ in cases(sp, x):
                    d = sub(y, ('out', L, v))
                    if d[0] == 'c' and d[1]:
                        raise Wrong('runs', 'text is passed over without a word for it', outer.get('node'))
                raise Vague('how a compound goes on')
        me = at
        at = sp.norm(outer['init'].get(me[2], NONE))
    else:
        me = lo
    if at != c(0):
        if at[0] == 'c':
            raise Wrong('runs', 'the first word of a compound does not begin with the eojeol', eff.node)
        raise Vague('where a compound begins')
    if outer.get('iter') is not None or not outer.get('test') or outer.get('breaks'):
        raise Vague('when a compound is complete')
    o = Order([neg(sp.norm(outer['test']))])
    o.close()
    z = o.holds(cmp('<=', N, me))
    if z is not True:
        raise Wrong('runs', 'a compound may stop before the end of the eojeol', outer.get('node')) if z is False else \
            Vague('when a compound is complete')
    sp.checked += 1
    ob('words of a compound follow one another')


def about_loop(g, L):
    return any(y[0] in ('phi', 'rng', 'elem', 'call') and (y[0] == 'call' or (y[3] if y[0] == 'rng' else y[2] if y[0] == 'elem' else y[1]) == L)
               for y in walk(g))


def filled(it):
    """is there always something to go through?"""
    h = it[0]
    if h in ('list', 'tuple'):
        return bool(it[1]) if all(x[0] != 'star' for x in it[1]) else None
    if h == 'orv':
        return filled(it[1][-1]) if isinstance(it[1][0], tuple) else None
    if h == 'ite':
        a, b = filled(it[2]), filled(it[3])
        return a if a is b else None
    if h in ('sorted', 'reversed') + WRAPS:
        return filled(it[1])
    if h in ('call', 'attr', 'range', 'slice', 'p'):
        return False
    if h == 'comp' and len(it[2]) == 1:
        return filled(it[2][0][1]) if not it[3] else False if filled(it[2][0][1]) is not None else None
    return None


def templates(rep, prog, label):
    r, t, fr = read(prog, TEM, 'EojeolTemplateMatcher', 'generate', {})
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        sp = Spans(r, word_is(first_param(fr)))
        X = sp.norm(t)
        ways = sp.made(X)
        always = False
        errs = []
        for w in ways:
            T = w.elt
            try:
                if T[0] in ('list', 'tuple'):
                    if not T[1]:
                        raise Wrong('tiles', 'a candidate without words', w.node)
                    try:
                        tile(sp, LR, T, w.guards, ob)
                    except Wrong as e:
                        e.node = e.node or w.node
                        raise
                    for rec in T[1]:
                        middles(sp, [type(w)(rec, w.guards, w.loops, w.node)])
                    continue
                alts = T[1] if T[0] == 'choice' else (T,)
                if len(set(alts)) == 1 and alts[0][0] == 'new' and any(
                        r.loops[L].get('returns') for e, _, _, _ in sp.on(alts[0]) for L in e.loops):
                    raise Wrong('runs', 'a compound may be given though it stops before the end of the eojeol', w.node)
                for Y in alts:
                    if Y[0] == 'new' and not sp.on(Y) or Y in (('list', ()), ('tuple', ())):
                        if T not in w.guards:
                            raise Wrong('tiles', 'a candidate without words', w.node)
                        continue
                    running(sp, Y, ob)
            except Vague as e:
                errs.append(e)
        told = []
        for w in ways:
            loose = [g for g in w.guards if g != neg(X) and g[0] != 'not']
            if not loose and all(filled(sp.norm(r.loops[L].get('iter') or NONE)) for L in w.loops):
                always = True
            told += [] if w.loops else loose
        if not always and not errs:
            if any(X in walk(g) for g in told) or any(
                    filled(sp.norm(r.loops[L]['iter'])) is None for w in ways for L in w.loops if r.loops[L].get('iter')):
                raise Vague('when there is no other candidate')
            raise Wrong('empty', 'an eojeol that is not in the dictionary may have no candidate')
        if errs:
            raise errs[0]
        ob('there is always a candidate')
        rep.count('records_checked', sp.checked)
    ob.run(go)


def matches(rep, prog, label):
    r, t, fr = read(prog, TEM, 'LRTemplateMatcher', 'generate', {})
    ob = Obligations(rep, prog, label)
    ob.node = fr.node

    def go():
        sp = Spans(r, word_is(first_param(fr)))
        T = sp.norm(t)
        ways = records(sp, T)
        if not ways:
            raise Vague('the candidates')
        for w in ways:
            sound(sp, LR, w.elt, w.guards, w.node, 'candidate')
        middles(sp, ways)
        rep.count('records_checked', sp.checked)
        ob('candidates are where their text is')
    ob.run(go)


def c18(tier):
    rep = Report('C18', tier, 'the words given for a sentence are its eojeols, cut into pieces, in order')
    prog = Program()
    for flat in (True, False):
        for debug in (False, True):
            rep.attempt('SimpleTagger', tagger, rep, prog, flat, debug, 'SimpleTagger.tag (flatten=%s, debug=%s)' % (flat, debug))
    rep.attempt('UnknowLRPostprocessor', post, rep, prog, 'UnknowLRPostprocessor', 'postprocess', 'UnknowLRPostprocessor.postprocess')
    rep.attempt('LREvaluator', select, rep, prog, 'LREvaluator', 'LREvaluator.select_best')
    for k in ('BaseEvaluator', 'SimpleEojeolEvaluator'):
        rep.attempt(k, best, rep, prog, k, k + '.select_best')
    rep.attempt('EojeolTemplateMatcher', templates, rep, prog, 'EojeolTemplateMatcher.generate')
    rep.attempt('LRTemplateMatcher', matches, rep, prog, 'LRTemplateMatcher.generate')
    return rep.finish('other', 'Each step of tagging is read as terms, helper methods included. Proved: candidates are slices of the eojeol at '
                      'the places they tell; chosen words do not overlap and are in order; the post-processor fills exactly what lies before, '
                      'between and after them; the tagger goes through all eojeols in order and gives both parts of every word with their tags; '
                      'eojeol candidates cover the eojeol, and there always is one.')
