"""Regular expressions as sets of characters (sre parse trees, never matched against anything)."""
import re._parser as sre
import re._constants as K

TOP = 0x10FFFF
SPACES = None


def union(*rs):
    out = []
    for lo, hi in sorted(x for r in rs for x in r):
        if out and lo <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return [tuple(x) for x in out]


def compl(r):
    out, p = [], 0
    for lo, hi in union(r):
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= TOP:
        out.append((p, TOP))
    return out


def inter(a, b):
    return compl(union(compl(a), compl(b)))


def minus(a, b):
    return inter(a, compl(b))


def runs(pred):
    out, start = [], None
    for i in range(TOP + 2):
        ok = i <= TOP and pred(chr(i))
        if ok and start is None:
            start = i
        elif not ok and start is not None:
            out.append((start, i - 1))
            start = None
    return out


_cat = {}


def category(c):
    """the Unicode tables Python's re uses"""
    if c not in _cat:
        base = {K.CATEGORY_SPACE: str.isspace, K.CATEGORY_DIGIT: str.isdecimal,
                K.CATEGORY_WORD: lambda x: x.isalnum() or x == '_'}
        neg = {K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE, K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT,
               K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}
        if c in base:
            _cat[c] = runs(base[c])
        elif c in neg:
            _cat[c] = compl(category(neg[c]))
        else:
            _cat[c] = None
    return _cat[c]


def single(op, av):
    """set of one-character matches of a node, or None"""
    if op is K.LITERAL:
        return [(av, av)]
    if op is K.NOT_LITERAL:
        return compl([(av, av)])
    if op is K.ANY:
        return compl([(10, 10)])
    if op is K.IN:
        neg = False
        sets = []
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                sets.append([(a, a)])
            elif o is K.RANGE:
                sets.append([a])
            elif o is K.CATEGORY:
                s = category(a)
                if s is None:
                    return None
                sets.append(s)
            else:
                return None
        s = union(*sets)
        return compl(s) if neg else s
    if op is K.BRANCH:
        ss = []
        for alt in av[1]:
            if len(alt) != 1:
                return None
            s = single(*alt[0])
            if s is None:
                return None
            ss.append(s)
        return union(*ss)
    if op is K.SUBPATTERN and len(av[3]) == 1 and not av[1] and not av[2]:
        return single(*av[3][0])
    return None


def parse(pattern):
    try:
        p = sre.parse(pattern)
    except Exception:
        return None
    if p.state.flags & ~32:              # anything but plain Unicode matching
        return None
    return p


def charclass(pattern):
    """(set, many): the pattern matches one character of the set (many False), or a run of one or more (True),
    or a run of at least `many` of them (a number above 1)"""
    p = parse(pattern)
    if p is None or not len(p):
        return None
    least, endless, s = 0, False, None
    for op, av in p:
        lo, hi, node = 1, 1, (op, av)
        if op in (K.MAX_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if len(sub) != 1 or hi is not K.MAXREPEAT and hi != lo:
                return None
            node = sub[0]
        k = single(*node)
        if k is None or s is not None and k != s:
            return None
        s = k
        least += lo
        endless = endless or hi is K.MAXREPEAT
    if not endless and least > 1 or least < 1:
        return None
    return s, (False if not endless else True if least == 1 else least)


def pattern_of(t):
    """regular expression text of a compiled-pattern term"""
    if t[0] == 'regex' and t[1][0] == 'c' and isinstance(t[1][1], str) and len(t) == 2:
        return t[1][1]
    return None


def sub_call(t):
    """(pattern, replacement term, text term) of re.sub / pattern.sub"""
    if t[0] != 'call' or t[3]:
        return None
    f = t[1]
    if f[0] == 'attr' and f[2] == 'sub' and len(t[2]) == 2:
        p = pattern_of(f[1])
        return None if p is None else (p, t[2][0], t[2][1])
    if f[0] == 'ext' and f[1] == 're.sub' and len(t[2]) == 3:
        p = t[2][0]
        p = p[1] if p[0] == 'c' else pattern_of(p)
        return None if p is None else (p, t[2][1], t[2][2])
    return None


def kept(t):
    """superset of the characters a text term can contain, None when it is not followed"""
    h = t[0]
    if h == 'p':
        return [(0, TOP)]
    if h == 'c' and isinstance(t[1], str):
        return union(*[[(ord(x), ord(x))] for x in t[1]]) if t[1] else []
    if h in ('listof', 'iterof', 'tupleof'):
        return kept(t[1])
    if h == 'zip' and t[1]:
        return kept(t[1][0])
    if h == 'enumerate':
        return kept(t[1])
    if h == 'ite':
        a, b = kept(t[2]), kept(t[3])
        return None if a is None or b is None else union(a, b)
    if h == 'slice':
        return kept(t[1])
    if h == 'call':
        f = t[1]
        if f[0] == 'attr' and f[2] in ('strip', 'lstrip', 'rstrip') and not t[3]:
            return kept(f[1])
        s = sub_call(t)
        if s is not None:
            a = charclass(s[0])
            k = kept(s[2])
            if k is None:
                return None
            if s[1][0] != 'c':
                return None
            new = kept(s[1])
            if a is not None:
                return union(minus(k, a[0]), new) if inter(k, a[0]) else k
            return None
    return None
