"""C16: what the normalizers leave of a text."""
import itertools
from ..loader import Program, Broken, where
from ..report import Report
from ..terms import Reader
from ..regexes import union, minus, inter, charclass, category, K as RK
from ..textops import shape, spaces, Shape, ALL
from ..chars import Eval, Unknown, boxes, sym, K
from .text import CHO, JUNG, JONG, JAUM, MOUM, SYL, SYLEND, CODE, RADIX, at, settle, lin, params

MOD = 'soynlp.normalizer'


def chars(s):
    return union(*[[(ord(x), ord(x))] for x in s])


HANGLE = [JAUM, MOUM, (SYL, SYLEND)]
DIGITS = [(48, 57)]
LATIN = [(65, 90), (97, 122)]
PUNCT = chars(',.?!')
BRACKETS = chars('()[]{}')
QUOTES = chars('"\'')
BIG = 10 ** 6


def listing(r):
    return ', '.join(repr(chr(lo)) if lo == hi else '%r..%r' % (chr(lo), chr(hi)) for lo, hi in r[:5])


def word():
    return category(RK.CATEGORY_WORD)


def judge(rep, name, at_, v, keep, cut, when):
    """v: Shape; keep: characters that must stay (None: all but whitespace); cut: None, or (class, shortest run, parameter)"""
    rep.count('cases', 1)
    ws = spaces()
    if v is None:
        return rep.undecide(name, 'the chain of text operations was not followed%s' % when)
    want = ALL if keep is None else keep
    extra = minus(minus(v.keep, want), ws)
    lost = minus(minus(want, v.keep), ws)
    bad = False

    def say(key, msg):
        nonlocal bad
        bad = True
        rep.violation('filter', '%s|%s' % (name, key), at_, '%s %s%s' % (name, msg, when))
    if extra:
        say('extra', 'keeps %s, which it promises to replace' % listing(extra))
    if lost:
        say('lost', 'loses %s, which it promises to keep' % listing(lost))
    if v.gone:
        say('gone', 'deletes %s instead of leaving a space' % listing(v.gone))
    if minus(inter(v.keep, ws), [(32, 32)]) and keep is not None:
        say('space', 'keeps other whitespace than plain spaces: %s' % listing(minus(inter(v.keep, ws), [(32, 32)])))
    if not v.collapsed:
        say('collapse', 'can return two spaces in a row')
    if v.stripped is False and cut != 'no-strip':
        say('strip', 'can return spaces at the ends')
    if cut != 'no-strip':
        if cut is None and v.cuts:
            say('cut', 'cuts repetitions although it was not asked to')
        if cut is not None:
            if not v.cuts:
                say('cut', 'does not cut repetitions')
            elif len(v.cuts) > 1:
                return rep.undecide(name, 'repetitions cut twice')
            else:
                k, run, n = v.cuts[0]
                if n != ('p', cut[2]):
                    if n[0] in ('p', 'c', 'lin'):
                        say('length', 'cuts repetitions to %s instead of the number asked for' % (
                            n[1] if n[0] in ('p', 'c') else 'another number'))
                    else:
                        return rep.undecide(name, 'length of a cut repetition')
                if minus(cut[0], k):
                    say('word', 'does not cut repetitions of %s' % listing(minus(cut[0], k)))
                other = minus(inter(k, v.keep), cut[0])
                if minus(other, spaces()):
                    say('word', 'cuts repetitions of %s, which are no word characters' % listing(other))
                elif other and not v.collapsed:
                    return rep.undecide(name, 'runs of spaces cut')
                if run > cut[1]:
                    say('run', 'leaves runs of %d of a character' % (run - 1))
    if not bad:
        rep.count('cases_proved', 1)


def c16(tier):
    rep = Report('C16', tier, 'the chain of text operations of every normalizer keeps exactly the promised characters')
    prog = Program()

    def look(name):
        r = Reader(prog)
        g = r.global_(MOD, name)
        if not g or g[0] != 'fn':
            rep.undecide(name, 'missing')
            return None
        t, fr = r.read_function(MOD, name)
        f = fr.node
        rep.count('functions', 1)
        if r.imprecise and name != 'emoticon_normalize':
            rep.undecide(name, 'not followed: %s' % (r.imprecise[0],))
            return None
        return r, t, f, where(f, prog), params(f)

    def run(name, r, t, at_, text, opts, bounds, keep, cut, when=''):
        def go(b):
            return shape(r, t, Eval(b, dict(opts)), lambda x: x == ('p', text))
        for b, v in boxes(bounds, go):
            if isinstance(v, Unknown):
                rep.count('cases', 1)
                rep.undecide(name, '%s%s' % (v, when))
            else:
                judge(rep, name, at_, v, keep, cut, when)

    for name, keep in (('only_hangle', HANGLE), ('only_hangle_number', HANGLE + DIGITS),
                       ('only_text', HANGLE + DIGITS + LATIN + PUNCT + BRACKETS + QUOTES)):
        got = look(name)
        if got:
            r, t, f, at_, ps = got
            run(name, r, t, at_, ps[0], {}, {}, union(keep), None)
    got = look('remove_doublespace')
    if got:
        r, t, f, at_, ps = got
        run('remove_doublespace', r, t, at_, ps[0], {}, {}, None, 'no-strip')
    got = look('repeat_normalize')
    if got and len(got[4]) == 2:
        r, t, f, at_, ps = got
        for lo, hi, cut in ((1, BIG, (word(), 3, ps[1])), (-BIG, 0, None)):
            run('repeat_normalize', r, t, at_, ps[0], {ps[1]: sym('m')}, {'m': (lo, hi)}, None, cut,
                ' when %s is %s' % (ps[1], 'positive' if cut else 'not positive'))
    got = look('normalize')
    if got:
        r, t, f, at_, ps = got
        names = ('alphabet', 'number', 'punctuation', 'symbol', 'remove_repeat')
        if tuple(ps[1:]) != names:
            rep.undecide('normalize', 'other options than expected')
        else:
            for bits in itertools.product((False, True), repeat=4):
                keep = union(HANGLE, QUOTES, *[s for s, on in zip((LATIN, DIGITS, PUNCT, BRACKETS), bits) if on])
                for lo, hi, cut in ((1, BIG, (word(), 3, 'remove_repeat')), (-BIG, 0, None)):
                    opts = {n: ('b', x) for n, x in zip(names, bits)}
                    opts['remove_repeat'] = sym('m')
                    run('normalize', r, t, at_, ps[0], opts, {'m': (lo, hi)}, keep, cut, ' with %s' % (
                        ', '.join([n for n, x in zip(names, bits) if x] + (['remove_repeat'] if cut else [])) or 'no option'))
    lrgraph_text(rep, look)
    emoticon(rep, look, prog)
    if not rep.coverage.get('cases_proved'):
        raise Broken('nothing was decided about the normalizers')
    return rep.finish('other', 'every normalizer read as a chain of text operations; regular expressions taken apart into character sets '
                      '(sre syntax tree over the whole of Unicode); the emoticon rule evaluated over boxes of three neighbouring characters.')


def last_hangle(r, t, text):
    """the term is the text up to the last match of a class of characters; returns the class"""
    empty = ('c', '')
    if t[0] != 'ite':
        return None
    if t[3] == empty:
        full = t[2]
    elif t[2] == empty:
        full = t[3]
    else:
        return None
    while full[0] == 'call' and full[1][0] == 'attr' and full[1][2] in ('strip', 'rstrip') and not full[2]:
        full = full[1][1]
    if full[0] != 'slice' or full[1] != text or full[2] not in (('c', 0), ('c', None)) or full[4] != ('c', None):
        return None
    end = full[3]
    start, off = False, 0
    if end[0] == 'lin' and len(end[2]) == 1 and end[2][0][1] == 1:
        off, end = end[1], end[2][0][0]
    if end[0] == 'call' and end[1][0] == 'attr' and end[1][2] == 'start' and not end[2]:
        m, start = end[1][1], True
    elif end[0] == 'item' and end[2] in (('c', 1), ('c', -1), ('c', 0)) and end[1][0] == 'call' and end[1][1][0] == 'attr' and end[1][1][2] == 'span':
        m, start = end[1][1][1], end[2] == ('c', 0)
    elif end[0] == 'call' and end[1][0] == 'attr' and end[1][2] == 'end' and not end[2]:
        m = end[1][1]
    else:
        return None
    if m[0] != 'item' or m[2] not in (('c', -1), ('c', 0)):
        return None
    first = m[2] == ('c', 0)
    s = m[1]
    while s[0] in ('listof', 'tupleof'):
        s = s[1]
    if s[0] != 'call' or s[2] != (text,) and s[2][-1:] != (text,):
        return None
    fn = s[1]
    if fn[0] == 'attr' and fn[2] == 'finditer' and fn[1][0] == 'regex':
        k = charclass(fn[1][1][1])
    elif fn == ('ext', 're.finditer') and s[2][0][0] == 'c':
        k = charclass(s[2][0][1])
    else:
        return None
    if k is None:
        return None
    many = k[1]
    if off and many is not False:
        return None                                    # a match is longer than a character
    off -= start
    return k[0], 'the first of' if first else 'the beginning of' if off == -1 else 'a place %d from' % off if off else None


def lrgraph_text(rep, look):
    """normalize_sent_for_lrgraph: every eojeol ends with its last Hangul character"""
    name = 'normalize_sent_for_lrgraph'
    got = look(name)
    if not got:
        return
    r, t, f, at_, ps = got
    rep.count('cases', 1)
    join = None
    for x in (t[2:4] if t[0] == 'ite' else (t,)):
        if x[0] == 'call' and x[1] == ('attr', ('c', ' '), 'join') and len(x[2]) == 1:
            join = x[2][0]
        elif x != ('c', ''):
            return rep.undecide(name, 'result is not joined eojeols')
    if join is None or join[0] != 'comp' or len(join[2]) != 1:
        return rep.undecide(name, 'result is not joined eojeols')
    L, src = join[2][0]
    elt, guards = join[4], join[3]
    if elt[0] == 'elem' and elt[1][0] == 'comp':
        return rep.undecide(name, 'nested')
    k = last_hangle(r, elt, ('elem', src, L))
    if k is None or src[0] != 'call' or src[1][0] != 'attr' or src[1][2] != 'split':
        return rep.undecide(name, 'the cut after the last Hangul character was not recognised')
    v = shape(r, src[1][1], Eval({}, {}), lambda x: x == ('p', ps[0]))
    if v is None:
        return rep.undecide(name, 'the chain of text operations was not followed')
    ok = True
    if minus(k[0], union(HANGLE)) or minus(union(HANGLE), k[0]):
        ok = False
        rep.violation('filter', name + '|last', at_, '%s cuts eojeols after the last of %s instead of the last Hangul character' % (
            name, listing(k[0])))
    if k[1]:
        ok = False
        rep.violation('filter', name + '|place', at_, '%s cuts eojeols at %s the Hangul characters instead of after the last one' % (name, k[1]))
    v = v.but(keep=minus(v.keep, spaces()), collapsed=True, stripped=True, blanks=True)
    judge(rep, name, at_, v, union(HANGLE, DIGITS, LATIN, PUNCT, QUOTES), None, '')
    if set(guards) - {elt} or len(guards) > 1:
        rep.undecide(name, 'eojeols dropped under a condition')
    elif ok:
        rep.count('cases_proved', 1)


class Around:
    """three neighbouring characters at a place of the text"""

    def __init__(self, text, i, n, prev, here, nxt):
        self.text, self.i, self.n = text, i, n
        self.at = {-1: prev, 0: here, 1: nxt}


def emoticon(rep, look, prog):
    name = 'emoticon_normalize'
    got = look(name)
    if not got:
        return
    r, t, f, at_, ps = got
    text = ('p', ps[0])
    # the characters collected one place after the other
    target = None
    lists = {e.target for e in r.effects if e.kind in ('append', 'extend') and e.target[0] == 'new'}
    if len(lists) != 1:
        return rep.undecide(name, 'the output is not collected in one list')
    target = lists.pop()
    es = [e for e in r.effects if e.target == target]
    if any(len(e.loops) != 1 or e.loops != es[0].loops or e.kind not in ('append', 'extend') for e in es):
        return rep.undecide(name, 'the output is not collected in one loop')
    L = es[0].loops[0]
    info = r.loops[L]
    if info.get('breaks') or info.get('returns') or info.get('sorted'):
        return rep.undecide(name, 'the loop can end early')
    joined = ('call', ('attr', ('c', ''), 'join'), (target,), ())
    # what happens to the collected text
    for lo, hi, cut in ((1, BIG, (word(), 3, ps[1])), (-BIG, 0, None)):
        def go(b):
            def origin(x):
                return x == joined
            e = Eval(b, {ps[1]: sym('m'), ps[0]: ('s', 'x')})
            return shape(r, t, e, origin)
        for b, v in boxes({'m': (lo, hi)}, go):
            if isinstance(v, Unknown):
                rep.undecide(name, str(v))
            else:
                judge(rep, name, at_, v, None, cut, ' when %s is %s' % (ps[1], 'positive' if cut else 'not positive'))
    # what is collected at one place
    length = lambda x: x == ('len', text) or x[0] == 'len' and over(x[1])

    def over(x):
        """the term has one element per character of the text"""
        if x == text:
            return True
        if x[0] in ('listof', 'tupleof', 'enumerate'):
            return over(x[1])
        if x[0] == 'zip':
            return bool(x[1]) and all(over(y) for y in x[1])
        return x[0] == 'comp' and x[1] == 'list' and len(x[2]) == 1 and not x[3] and over(x[2][0][1])

    def eval_at(b, around):
        def hook(e, t):
            if length(t):
                return around.n
            if t[0] == 'rng' and t[-1] == L:
                return around.i
            if t == text:
                return ('b', True)
            if t[0] == 'elem' and t[1] == text and t[2] == L:
                return pick(0)
            if t[0] == 'item' and over(t[1]):
                i = e.ev(t[2])
                if i[0] != 'lin':
                    raise Unknown('index')
                d = plus_(i, around.i)
                if d not in (-1, 0, 1):
                    raise Unknown('a character further away')
                return elem(e, t[1], pick(d))
            if t[0] == 'elem' and t[2] == L and over(t[1]):
                return elem(e, t[1], pick(0))
            return None

        def pick(d):
            v = around.at[d]
            if v is None:
                raise Unknown('a character outside the text')
            return v

        def elem(e, x, ch):
            if x == text:
                return ch
            if x[0] in ('listof', 'tupleof'):
                return elem(e, x[1], ch)
            if x[0] == 'zip':
                return ('tuple', tuple(elem(e, y, ch) for y in x[1]))
            if x[0] == 'comp':
                LL, src = x[2][0]
                old = e.loops.get(LL)
                e.loops[LL] = elem(e, src, ch)
                try:
                    return e.ev(x[4])
                finally:
                    if old is None:
                        e.loops.pop(LL)
                    else:
                        e.loops[LL] = old
            raise Unknown('element')
        e = Eval(b, {ps[1]: sym('m')}, {}, {}, hook)
        e.bounds = dict(b, m=(1, 1))
        out = []
        for ef in es:
            if all(e.truth(e.ev(g)) for g in ef.guards):
                v = e.ev(ef.args[0])
                if ef.kind == 'extend':
                    if v[0] not in ('list', 'tuple'):
                        raise Unknown('extended by ' + v[0])
                    out += list(v[1])
                else:
                    out.append(v)
        return tuple(out)

    def plus_(a, b):
        from ..chars import plus
        d = plus(a, b, -1)
        return d[1] if not d[2] else None
    others = [(0, JAUM[0] - 1), (MOUM[1] + 1, SYL - 1), (SYLEND + 1, 0x10FFFF)]
    P = [('absent', None, {}), ('other', ('char', sym('p')), {'p': (33, JAUM[0] - 1)}), ('syllable', ('char', sym('p')), {'p': (SYL, SYLEND)}),
         ('vowel', ('char', sym('p')), {'p': MOUM})] + [('consonant', ('s', chr(x)), {}) for x in range(JAUM[0], JAUM[1] + 1)]
    N = [('absent', None, {}), ('other', ('char', sym('q')), {'q': (33, JAUM[0] - 1)}), ('syllable', ('char', sym('q')), {'q': (SYL, SYLEND)})] + \
        [('jamo', ('s', chr(x)), {}) for x in range(JAUM[0], MOUM[1] + 1)]
    syl = ('char', CODE)
    done = set()

    def case(prev, nxt, here, hb, whole):
        bounds = dict(hb, **prev[2], **nxt[2])
        i = K(0) if prev[1] is None else sym('i')
        n = plus2(i, K(1)) if nxt[1] is None else plus2(plus2(i, K(1)), sym('k'))
        if prev[1] is not None:
            bounds['i'] = (1, BIG)
        if nxt[1] is not None:
            bounds['k'] = (1, BIG)
        ar = Around(text, i, n, prev[1], here, nxt[1])
        for b, v in boxes(bounds, lambda b: split_at(b, ar, prev, nxt, whole)):
            rep.count('boxes_analysed', 1)
            if isinstance(v, Unknown):
                rep.undecide(name, '%s between %s and %s: %s' % ('syllable' if not whole else 'other character', prev[0], nxt[0], v))
                return True
            why = pieces(v, b, prev, nxt, here, whole)
            if why == 'ok' and len(v) == 1 and not whole and prev[1] is not None and nxt[1] is not None and b['c'] == (0, 0) and \
                    text_agree(at(CHO, 'a'), prev[1], b) and text_agree(at(JUNG, 'b'), nxt[1], b):
                why = 'a syllable between its own initial and its own vowel is not taken apart'
            if why == 'ok':
                rep.count('boxes_proved', 1)
            elif why is None:
                rep.undecide(name, 'pieces not compared')
            else:
                rep.violation('emoticon', '%s|%s' % (name, why), at_, '%s: %s (between %s and %s: %s)' % (
                    name, why, prev[0], nxt[0], ', '.join(show_(x, b) for x in v) or 'nothing'))
        return True

    def split_at(b, ar, prev, nxt, whole):
        v = eval_at(b, ar)
        if not whole and len(v) == 1 and prev[0] == 'consonant' and nxt[0] == 'jamo' and nxt[1][1] >= chr(MOUM[0]):
            e = Eval(b, {})              # distinguish the syllables that stand between their own parts
            if e.same(sym('c'), K(0)) and e.equal(at(CHO, 'a'), prev[1]):
                e.equal(at(JUNG, 'b'), nxt[1])
        return v

    def text_agree(x, y, b):
        from .text import agree
        return agree(x, y, b) is True

    def plus2(a, b):
        from ..chars import plus
        return plus(a, b)

    def show_(v, b):
        from .text import show
        return show(settle(v, b))

    def pieces(v, b, prev, nxt, here, whole):
        if v == (here,) or len(v) == 1 and settle(v[0], b) == settle(here, b):
            return 'ok'
        if whole:
            return 'a character that is no complete syllable is not kept as it is'
        from .text import agree
        cho, jung, jong = at(CHO, 'a'), at(JUNG, 'b'), at(JONG, 'c')
        nojong = b['c'] == (0, 0)
        e = Eval(b, {})

        def same(x, y):
            return agree(x, y, b) is True
        bare = ('char', plus2(CODE, ('lin', 0, (('c', -1),))))
        if len(v) == 2 and nojong and same(v[0], cho) and same(v[1], jung):
            first, last = cho, jung
        elif len(v) == 3 and not nojong and b['c'][0] > 0 and same(v[0], cho) and same(v[1], jung) and same(v[2], jong):
            first, last = cho, jong
        elif len(v) == 2 and b['c'][0] > 0 and same(v[0], bare) and same(v[1], jong):
            first, last = None, jong
        else:
            return 'a syllable is not replaced by exactly its own parts'
        near = first is not None and prev[1] is not None and same(first, prev[1])
        near = near or nxt[1] is not None and same(last, nxt[1])
        return 'ok' if near else 'a syllable that continues no repetition is taken apart'
    for nm, lo_hi in (('other', others[0]), ('other', others[1]), ('other', others[2]), ('jamo', JAUM), ('jamo', MOUM)):
        for prev in P[:5]:
            for nxt in N[:4]:
                if not case(prev, nxt, ('char', sym('x')), {'x': lo_hi}, True):
                    return
    for prev in P:
        for nxt in N:
            if not case(prev, nxt, syl, dict(RADIX), False):
                return
