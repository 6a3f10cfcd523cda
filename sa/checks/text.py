"""C15: Hangul composition, decomposition, character classes and the jamo position encoding."""
from ..loader import Program, Broken, where
from ..report import Report
from ..terms import Reader
from ..chars import Eval, Unknown, Split, boxes, sym, plus, times, K

MOD = 'soynlp.hangle'
CHO = tuple('ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ')
JUNG = tuple('ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ')
JONG = tuple(' ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ')
SYL, SYLEND = 44032, 55203
JAUM, MOUM = (12593, 12622), (12623, 12643)
TOP = 0x10FFFF
RADIX = {'a': (0, 18), 'b': (0, 20), 'c': (0, 27)}
CODE = plus(plus(times(sym('a'), 588), times(sym('b'), 28)), plus(sym('c'), K(SYL)))
KINDS = {
    'character_is_korean': ((SYL, SYLEND), JAUM, MOUM),
    'character_is_complete_korean': ((SYL, SYLEND),),
    'character_is_jaum': (JAUM,),
    'character_is_moum': (MOUM,),
    'character_is_number': ((48, 57),),
    'character_is_english': ((65, 90), (97, 122)),
    'character_is_punctuation': tuple((x, x) for x in (33, 34, 39, 44, 46, 63, 96)),
}


def at(table, s):
    return ('at', tuple(('s', x) for x in table), sym(s))


def settle(v, bounds):
    """an entry of a table at a fixed place is that entry; a code is a character"""
    if v[0] == 'at':
        e = Eval(bounds, {})
        n = e.const(v[2])
        if n is not None and -len(v[1]) <= n < len(v[1]):
            return v[1][n]
    if v[0] == 'char':
        n = Eval(bounds, {}).const(v[1])
        if n is not None:
            return ('s', chr(n))
    if v[0] == 'tuple':
        return ('tuple', tuple(settle(x, bounds) for x in v[1]))
    return v


def agree(v, want, bounds):
    """True / False / None: the same value for every character of the box"""
    e = Eval(bounds, {})
    v, want = settle(v, bounds), settle(want, bounds)
    if v == want:
        return True
    if v[0] == 'tuple' and want[0] == 'tuple':
        if len(v[1]) != len(want[1]):
            return False
        rs = [agree(x, y, bounds) for x, y in zip(v[1], want[1])]
        return False if False in rs else None if None in rs else True
    if v[0] == want[0] and v[0] in ('b', 's', 'none') or 'none' in (v[0], want[0]) or {v[0], want[0]} == {'tuple', 's'}:
        return False
    try:
        if v[0] == 'at' and want[0] == 'at':
            # different tables or places: compare entry by entry over the box
            syms = {s for s, _ in v[2][2]} | {s for s, _ in want[2][2]}
            if len(syms) == 1:
                s = syms.pop()
                lo, hi = bounds[s]
                for n in range(lo, hi + 1):
                    b = dict(bounds, **{s: (n, n)})
                    if settle(v, b) != settle(want, b):
                        return False
                return True
            return False if v[1] == want[1] and v[2] != want[2] else None
        if v[0] in ('char', 'at', 's') and want[0] in ('char', 'at', 's'):
            try:
                return e.equal(v, want)
            except Split:
                return False             # the same only for some characters of the box
            except Unknown:
                pass
            syms = {s for x in (v, want) for s, _ in (x[1] if x[0] == 'char' else x[2] if x[0] == 'at' else K(0))[2]}
            if len(syms) == 1:
                s = syms.pop()
                lo, hi = bounds[s]
                for n in range(lo, hi + 1):
                    b = dict(bounds, **{s: (n, n)})
                    if settle(v, b) != settle(want, b):
                        return False
                return True
        if v[0] == 'lin' and want[0] == 'lin':
            try:
                return e.same(v, want)
            except Split:
                return False
    except Unknown:
        return None
    return None


def show(v):
    if v[0] == 's':
        return repr(v[1])
    if v[0] == 'char':
        return 'chr(%s)' % lin(v[1])
    if v[0] == 'at':
        return 'entry %s of a table of %d' % (lin(v[2]), len(v[1]))
    if v[0] == 'tuple':
        return '(%s)' % ', '.join(show(x) for x in v[1])
    if v[0] == 'lin':
        return lin(v)
    if v[0] == 'b':
        return str(v[1])
    return v[0]


def lin(a):
    return ' + '.join([str(a[1])] + ['%d*%s' % (k, s) for s, k in a[2]])


def box(b):
    return ', '.join('%s in %d..%d' % (k, lo, hi) for k, (lo, hi) in sorted(b.items()))


def reads(prog, name):
    r = Reader(prog)
    t, fr = r.read_function(MOD, name)
    f = fr.node
    return r, t, f


def params(f):
    return [a.arg for a in f.args.posonlyargs + f.args.args]


def must(rep, rule, who, at_, bounds, run, want, what):
    """every character of the box gives the wanted value"""
    rep.count('boxes_given', 1)
    for b, v in boxes(bounds, run):
        rep.count('boxes_analysed', 1)
        if isinstance(v, Unknown):
            if str(v) in ('index outside the table', 'missing key', 'not in the table', 'an error is raised'):
                rep.violation(rule, '%s|%s' % (who, what), at_, '%s fails with an error for %s: %s' % (who, what, v))
            else:
                rep.undecide(who, '%s (%s): %s' % (what, box(b), v))
            continue
        w = want(b) if callable(want) else want
        ok = agree(v, w, b)
        if ok is None:
            rep.undecide(who, '%s (%s): %s not comparable with %s' % (what, box(b), show(v), show(w)))
        elif not ok:
            rep.violation(rule, '%s|%s' % (who, what), at_, '%s gives %s instead of %s for %s (%s)' % (
                who, show(settle(v, b)), show(settle(w, b)), what, box(b)))
        else:
            rep.count('boxes_proved', 1)


def c15(tier):
    rep = Report('C15', tier, 'each function, read as a term over the character code, has the value the Hangul arithmetic prescribes on every box of codes')
    prog = Program()
    # ---- the two inverse functions, each against the syllable arithmetic
    r, t, f = reads(prog, 'compose')
    ps = params(f)
    if len(ps) != 3:
        rep.undecide('compose', 'takes %d parameters' % len(ps))
    else:
        def run(b, t=t):
            return Eval(b, dict(zip(ps, (at(CHO, 'a'), at(JUNG, 'b'), at(JONG, 'c'))))).ev(t)
        must(rep, 'compose', 'compose', where(f, prog), RADIX, run, ('char', CODE), 'initial a, vowel b, final c')
    r, t, f = reads(prog, 'decompose')
    p = params(f)[0]
    fat = where(f, prog)

    def over(code, t=t):
        return lambda b: Eval(b, {p: ('char', code)}).ev(t)
    must(rep, 'decompose', 'decompose', fat, RADIX, over(CODE), ('tuple', (at(CHO, 'a'), at(JUNG, 'b'), at(JONG, 'c'))),
         'syllable of initial a, vowel b, final c')
    one = ('char', sym('x'))
    blank = ('s', ' ')
    must(rep, 'decompose', 'decompose', fat, {'x': JAUM}, over(sym('x')), ('tuple', (one, blank, blank)), 'single consonant')
    must(rep, 'decompose', 'decompose', fat, {'x': MOUM}, over(sym('x')), ('tuple', (blank, one, blank)), 'single vowel')
    for lo, hi in ((0, JAUM[0] - 1), (MOUM[1] + 1, SYL - 1), (SYLEND + 1, TOP)):
        must(rep, 'decompose', 'decompose', fat, {'x': (lo, hi)}, over(sym('x')), ('none',), 'character that is not Hangul')
    # ---- classes
    for name, ranges in sorted(KINDS.items()):
        mod = MOD
        rr = Reader(prog)
        g = rr.global_(MOD, name)
        if not g or g[0] != 'fn':
            g = rr.global_(MOD + '._hangle', name) if MOD + '._hangle' in prog.modules else None
            mod = MOD + '._hangle'
            if not g or g[0] != 'fn':
                rep.undecide(name, 'not found')
                continue
        t, fr = rr.read_function(mod, name)
        f = fr.node
        p1 = params(f)[0]
        rep.count('classification_functions', 1)

        def run(b, t=t, p1=p1):
            e = Eval(b, {p1: ('char', sym('x'))})
            return ('b', e.truth(e.ev(t)))

        def want(b):
            return ('b', any(lo <= b['x'][0] and b['x'][1] <= hi for lo, hi in ranges))
        edges = sorted({0, TOP + 1} | {e for lo, hi in ranges for e in (lo, hi + 1)})
        for lo, hi in zip(edges, edges[1:]):
            must(rep, 'class', name, where(f, prog), {'x': (lo, hi - 1)}, run, want, 'codes %d..%d' % (lo, hi - 1))
    encoder(rep, prog)
    if not rep.coverage.get('boxes_proved'):
        raise Broken('nothing was decided about Hangul')
    return rep.finish('other', 'terms of compose, decompose and the classification functions evaluated over boxes of character codes '
                      '(mixed radix linear forms with interval bounds, constant tables, exact splitting at every comparison); '
                      'the two sentence functions of the jamo encoder composed box by box.')


def encoder(rep, prog):
    """position -> character after character -> position"""
    cname = 'ConvolutionHangleEncoder'
    r = Reader(prog)
    try:
        k = r.find_class(MOD, cname)
    except Broken:
        return rep.undecide(cname, 'missing')
    r.read_method(MOD, cname, '__init__')
    attrs = {a: v for (o, a), v in r.final.heap.items() if o == ('p', 'self')}
    enc, dec = Reader(prog), Reader(prog)
    if enc.method(k, 'sent_to_onehot')[0] is None or enc.method(k, 'onehot_to_sent')[0] is None:
        return rep.undecide(cname, 'the sentence functions are missing')
    et, ef = enc.read_method(MOD, cname, 'sent_to_onehot')
    dt, df = dec.read_method(MOD, cname, 'onehot_to_sent')
    if enc.imprecise or dec.imprecise:
        return rep.undecide(cname, 'not followed: %s' % ((enc.imprecise or dec.imprecise)[0],))
    eo, do = produced(enc, et), produced(dec, joined(dt))
    if eo is None or do is None:
        return rep.undecide(cname, 'results are not collected one per character')
    jamo = [(x, x) for x in range(JAUM[0], MOUM[1] + 1)]
    cases = [('space', {'x': (32, 32)}, sym('x')), ('digit', {'x': (48, 57)}, sym('x')), ('syllable', RADIX, CODE)]
    cases += [('jamo', {'x': j}, sym('x')) for j in jamo]
    epar, dpar = params(ef.node)[1:], params(df.node)[1:]
    where_ = where(df.node, prog)
    for what, bounds, code in cases:
        def run(b):
            v = one(enc, eo, b, attrs, ('char', code))
            fails(enc, eo, b, attrs, ('char', code))
            fails(dec, do, b, attrs, v)
            return one(dec, do, b, attrs, v)
        must(rep, 'encoder', cname, where_, bounds, run, ('char', code), what)
    # the encoder cleans the sentence first: nothing but the characters handled above may pass
    src = enc.loops[eo[1]]['iter']
    from ..regexes import kept
    ks = kept(src)
    allowed = [(32, 32), (48, 57), JAUM, MOUM, (SYL, SYLEND)]
    if ks is None:
        rep.undecide(cname, 'the set of characters that reach the encoder was not followed')
    else:
        from ..regexes import minus
        extra = minus(ks, allowed)
        if extra:
            rep.violation('encoder', cname + '|input', where(ef.node, prog), 'characters %s reach the encoder, which has no position for them' % (
                extra[:4],))
        lost = minus(allowed, ks)
        if lost:
            rep.violation('encoder', cname + '|lost', where(ef.node, prog), 'characters %s are replaced before the encoder sees them' % (lost[:4],))
        rep.count('boxes_proved', 0 if extra or lost else 1)


def joined(t):
    """''.join(x) -> x"""
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'join' and t[1][1] == ('c', '') and len(t[2]) == 1:
        return t[2][0]
    return t


def produced(r, t):
    """(list of (guards, term), loop) when t is a list with exactly the values appended in one loop"""
    while t[0] in ('listof', 'tupleof', 'iterof'):
        t = t[1]
    if t[0] == 'comp' and t[1] in ('list', 'gen') and len(t[2]) == 1:
        L = t[2][0][0]
        return [(t[3], t[4])], L
    if t[0] != 'new' or t[1] != 'list' or len(t) > 3 and t[3]:
        return None
    es = [e for e in r.effects if e.target == t]
    if not es or any(e.kind != 'append' or len(e.loops) != 1 or e.loops != es[0].loops for e in es):
        return None
    L = es[0].loops[0]
    if r.loops[L].get('breaks') or r.loops[L].get('sorted') or r.loops[L].get('reversed'):
        return None
    return [(e.guards, e.args[0]) for e in es], L


def fails(r, out, b, attrs, v):
    """raises Unknown when an error raised in the loop is reached for the element v"""
    rows, L = out
    for gs, loops, node in r.raises:
        e = Eval(b, {}, attrs, {L: v})
        if all(e.truth(e.ev(g)) for g in gs):
            raise Unknown('an error is raised')


def one(r, out, b, attrs, v):
    """the single value produced for the element v"""
    rows, L = out
    e = Eval(b, {}, attrs, {L: v})
    hits = []
    for gs, t in rows:
        if all(e.truth(e.ev(g)) for g in gs):
            hits.append(t)
    if len(hits) != 1:
        raise Unknown('%d results for one element' % len(hits))
    return e.ev(hits[0])
