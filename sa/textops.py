"""What a chain of text operations does to every character of its input, and to runs of spaces and repetitions.

A Shape says which characters come out as themselves (`keep`), which are deleted (`gone`); every other character
becomes one space.  `collapsed`: no two whitespace characters in a row; `stripped`: none at either end;
`cuts`: (class, shortest run cut, term of the length kept)."""
from . import regexes as R
from .regexes import K, sre, charclass, sub_call, union, inter, minus, compl, category
from .chars import Eval, Unknown, sym, boxes
from .terms import State, Fr

TOP = R.TOP
ALL = [(0, TOP)]
BLANK = [(32, 32)]


class Shape:
    def __init__(self, keep=ALL, gone=(), collapsed=False, stripped=False, cuts=(), blanks=False):
        self.keep, self.gone, self.collapsed, self.stripped, self.cuts = keep, list(gone), collapsed, stripped, tuple(cuts)
        self.blanks = blanks            # something has become a space

    def but(self, **kw):
        d = dict(keep=self.keep, gone=self.gone, collapsed=self.collapsed, stripped=self.stripped, cuts=self.cuts, blanks=self.blanks)
        d.update(kw)
        return Shape(**d)

    def out(self):
        return union(self.keep, BLANK) if self.blanks else self.keep


def spaces():
    return category(K.CATEGORY_SPACE)


def truth(q, env, origin):
    """env is an evaluator that knows the parameters; the input text itself is not empty"""
    def hook(e, t):
        return ('b', True) if origin(t) else None
    env.hook = hook
    return env.truth(env.ev(q))


def repeats(pattern):
    """(class of the repeated character, shortest run) of a pattern such as (x)\\1{2,}"""
    p = R.parse(pattern)
    if p is None or len(p) != 2 or p[0][0] is not K.SUBPATTERN or p[1][0] is not K.MAX_REPEAT:
        return None
    s = R.single(*p[0][1][3][0]) if len(p[0][1][3]) == 1 else None
    lo, hi, sub = p[1][1]
    if s is None or hi is not K.MAXREPEAT or len(sub) != 1 or sub[0][0] is not K.GROUPREF or sub[0][1] != p[0][1][0]:
        return None
    return s, lo + 1


def apply_fn(r, fn):
    """the term of a one-argument function of the match"""
    keep = r.st, r.frames
    r.st = State({}, {}, ())
    node = r.fns[fn[1]][0]
    inner = node.body[0] if isinstance(node.body, list) else node.body
    r.frames = [Fr(inner, r.fns[fn[1]][1], None, {}, 0, ())]
    r.quiet += 1
    try:
        return r.apply(fn, [('lp', 0)], {}, node)
    finally:
        r.quiet -= 1
        r.st, r.frames = keep


def kept_length(r, rep):
    """how much of a run the replacement keeps: a term, or None"""
    if rep[0] == 'fn' and rep[1] in r.fns:
        rep = apply_fn(r, rep)
    if rep[0] == 'slice' and rep[2] in (('c', 0), ('c', None)) and rep[4] == ('c', None):
        g = rep[1]
        if g[0] == 'call' and g[1] == ('attr', ('lp', 0), 'group') and g[2] in ((), (('c', 0),)):
            return rep[3]
        if g == ('item', ('lp', 0), ('c', 0)):
            return rep[3]
    if rep[0] == 'bin' and rep[1] == '*' or rep[0] == 'mul':
        ab = rep[2:4] if rep[0] == 'bin' else rep[1:3]
        for a, b in (ab, ab[::-1]):
            if a in (('c', '\\1'), ('c', '\\g<1>')) or a == ('call', ('attr', ('lp', 0), 'group'), (('c', 1),), ()) or \
                    a == ('item', ('lp', 0), ('c', 1)):
                return b
    return None


def shape(r, t, env, origin):
    """Shape of the text term t; origin(t) true for the input; None when it is not followed"""
    if origin(t):
        return Shape()
    h = t[0]
    if h == 'ite':
        return shape(r, t[2] if truth(t[1], env, origin) else t[3], env, origin)
    if h != 'call' or t[3]:
        return None
    s = sub_call(t)
    if s is not None:
        pat, rep, text = s
        v = shape(r, text, env, origin)
        if v is None:
            return None
        k = charclass(pat)
        if k is None:
            k = repeats(pat)
            n = kept_length(r, rep) if k else None
            if n is None:
                return None
            return v.but(cuts=v.cuts + ((k[0], k[1], n),))
        S, many = k
        out = v.out()
        white = inter(out, spaces())
        if many not in (False, True):
            if rep != ('c', ' ') or minus(inter(out, S), spaces()):
                return None
            return v.but(blanks=v.blanks or bool(inter(out, S)), collapsed=v.collapsed or not minus(white, S))
        if rep == ('c', ' '):
            new = minus(v.keep, S)
            hit = inter(out, S)
            if not hit:
                return v
            plain = not minus(hit, spaces())
            if many and not minus(white, S):
                col = True
            elif plain:
                col = v.collapsed
            else:
                col = False
            return v.but(keep=new, blanks=True, collapsed=col, stripped=v.stripped and plain)
        if rep == ('c', ''):
            hit = inter(out, S)
            left = minus(white, S)
            return v.but(keep=minus(v.keep, S), gone=union(v.gone, minus(inter(v.keep, S), spaces())),
                         blanks=v.blanks and not inter(S, BLANK),
                         collapsed=not left or v.collapsed and not hit, stripped=not left or v.stripped and not hit)
        return None
    f = t[1]
    if f[0] != 'attr':
        return None
    if f[2] == 'strip' and t[2] in ((), (('c', None),)):
        v = shape(r, f[1], env, origin)
        return v and v.but(stripped=True)
    if f[2] == 'strip' and t[2] == (('c', ' '),):
        v = shape(r, f[1], env, origin)
        return v and (v.but(stripped=True) if not minus(inter(v.out(), spaces()), BLANK) else None)
    if f[2] == 'join' and len(t[2]) == 1:
        x = t[2][0]
        if f[1] == ('c', ' ') and x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'split' and x[2] in ((), (('c', None),)):
            v = shape(r, x[1][1], env, origin)
            return v and v.but(keep=minus(v.keep, spaces()), blanks=True, collapsed=True, stripped=True)
        if f[1] == ('c', ''):
            return per_character(r, x, env, origin)
    return None


def per_character(r, x, env, origin):
    """''.join of one result per character: the character itself or a space"""
    from .checks.text import produced, one
    o = produced(r, x)
    if o is None:
        return None
    rows, L = o
    src = r.loops[L]['iter'] if L in r.loops else x[2][0][1]
    v = shape(r, src, env, origin)
    if v is None:
        return None
    keep, blank = [], []
    for lo, hi in v.out():
        for b, res in boxes({'x': (lo, hi)}, lambda b: each(rows, L, dict(env.bounds, **b), env.params)):
            if isinstance(res, Unknown):
                return None
            code = ('char', sym('x'))
            if res == code or res == ('s', chr(b['x'][0])) and b['x'][0] == b['x'][1]:
                keep.append(b['x'])
            elif res == ('s', ' '):
                blank.append(b['x'])
            else:
                return None
    keep, blank = union(keep), union(blank)
    plain = not minus(inter(blank, v.out()), spaces())
    return v.but(keep=inter(v.keep, keep), blanks=v.blanks or bool(blank), collapsed=v.collapsed and plain,
                 stripped=v.stripped and plain)


def each(rows, L, b, params):
    e = Eval(b, params, {}, {L: ('char', sym('x'))})
    hits = []
    for gs, t in rows:
        if all(e.truth(e.ev(g)) for g in gs):
            hits.append(t)
    if len(hits) != 1:
        raise Unknown('%d results for one character' % len(hits))
    return e.ev(hits[0])
