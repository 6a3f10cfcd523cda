"""C19: minimum counts and scores are inclusive and enforced."""
import re

from ..loader import Program, where
from ..report import Report
from ..terms import Reader, walk, subst, lin
from .common import note_engine
from .roles import gather, role

SELF = ('p', 'self')
NONE = ('c', None)
MIN = re.compile(r'(^|_)min_')
NOT_A_LIMIT = re.compile(r'num_of|length|num_for|droprate')


def inclusive(name):
    return bool(MIN.search(name)) and not NOT_A_LIMIT.search(name) and role(name) is not None or \
        name in ('min_df', 'min_count')


# how `value OP limit` / `limit OP value` may be written for an inclusive minimum
GOOD = {'L': ('GtE', 'Lt'), 'R': ('LtE', 'Gt')}


def strictness(rep):
    r, (compares, _, _, _) = gather()
    note_engine(rep, r)
    for at, op, side, opts, byname, other, k, ko, full in sorted(compares, key=str):
        names = {n for n in opts if inclusive(n)} | {t.rsplit(':', 1)[1] for t in full if t.endswith('Bigram.extract:threshold')}
        if not names:
            continue
        if k == 'const' or other or at[2]:
            rep.count('comparisons_of_a_limit_with_a_constant', 1)
            continue
        if op in ('Eq', 'NotEq'):
            continue
        rep.count('comparisons_with_a_minimum', 1)
        rep.sample('%s: %s' % (at[1], at[3]))
        if op not in GOOD[side]:
            rep.violation('inclusive', '%s|%s' % (at[1], sorted(names)[0]), at[0],
                          '%s: a value exactly at %s is not treated as meeting it (%s)' % (at[1], '/'.join(sorted(names)), at[3]))


# -- every returned entry has passed the limit -------------------------------

class Enters:
    """does every entry of a collection pass the limit before it gets in?"""

    def __init__(self, r, opt, cond=None):
        self.r, self.opt, self.cond = r, opt, cond
        self.assumed = set()
        self.out = []           # tables the entries looked at are known not to be in
        self.shift = []
        self.notes = []

    # a guard that lets only values at or above the limit pass
    def passes(self, g, loops):
        """'yes' / 'no' / '?' for one guard"""
        if g[0] == 'and':
            rs = [self.passes(x, loops) for x in g[1]]
            return 'yes' if 'yes' in rs else '?' if '?' in rs else 'no'
        if g[0] == 'or':
            rs = [self.passes(x, loops) for x in g[1]]
            if all(x == 'yes' for x in rs):
                return 'yes'
            if 'yes' in rs and self.cond and all(x == 'yes' or self.cond(y) for x, y in zip(rs, g[1])):
                return 'yes'
            if 'yes' in rs and any(x == 'no' and self.other_limit(y) for x, y in zip(rs, g[1])):
                return 'no'         # meeting another limit is enough to get past
            return '?' if 'yes' in rs or '?' in rs else 'no'
        if g[0] == 'not' and g[1][0] == 'or':
            return self.passes(('and', tuple(('not', x) for x in g[1][1])), loops)
        if g[0] == 'cmp' and g[1] in ('<', '<='):
            a, b = lin(g[2]), lin(g[3])
            if self.opt in a[1] and self.opt in b[1]:
                return '?'
            if self.opt in a[1]:
                # limit (+ k) <= value (+ m)
                rest = [x for x in a[1] if x != self.opt]
                if rest or a[1][self.opt] != 1:
                    return '?'
                if not self.mentions(g[3], loops):
                    return 'no'
                d = a[0] - b[0]
                if d and g[3][0] != 'c':
                    self.shift.append((g, d))
                    return '?' if g[1] == '<' and d == -1 else 'shift'
                return 'yes'
            if any(self.opt in list(walk(x)) for x in (g[2], g[3])) and self.opt not in b[1]:
                return '?'
            return 'no'
        if self.opt in list(walk(g)):
            return '?'
        if g[0] in ('choice', 'call', 'ite', 'exc', 'gencall') or g[0] == 'not' and g[1][0] in ('choice', 'call', 'ite', 'gencall'):
            return self.deep(g)
        return 'no'

    def other_limit(self, g):
        if g[0] == 'and':
            return all(self.other_limit(x) for x in g[1])
        return g[0] == 'cmp' and g[1] in ('<', '<=') and any(
            x != self.opt and x[0] in ('p', 'attr') and isinstance(x[-1], str) and inclusive(x[-1]) for x in lin(g[2])[1])

    def deep(self, g):
        """a guard this reader could not open: it may hide the limit"""
        for x in walk(g):
            if x[0] == 'choice':
                for c in self.r.choices.get(x, ()):
                    if any(self.opt in list(walk(y)) for y in c[0]) or self.opt in list(walk(c[2])):
                        return '?'
                if x not in self.r.choices:
                    return '?'
            if x[0] == 'call' and x[1][0] in ('fn', 'lam', 'attr', 'p'):
                return '?'
        return 'no'

    def mentions(self, m, loops):
        return any(y in loops for x in walk(m) for y in x if isinstance(y, tuple) and len(y) == 2 and y[0] == 'L') or \
            any(x[0] in ('phi', 'new', 'out', 'choice', 'call', 'get', 'item') for x in walk(m))

    def any_guard(self, guards, loops):
        rs = [self.passes(g, loops) for g in guards]
        for x in ('yes', 'shift', '?'):
            if x in rs:
                return x
        return 'no'

    def member(self, guards):
        """tables the entry is known to be in"""
        for g in guards:
            if g[0] == 'cmp' and g[1] == 'in':
                yield g[2], g[3]

    def check(self, t, depth=0):
        """'yes', 'no' or '?'"""
        if depth > 60:
            return '?'
        t0 = t[0]
        if t in self.assumed:
            return 'yes'
        if t0 in ('copy', 'copy2', 'deepcopy', 'keys', 'items', 'values', 'listof', 'setof', 'tupleof', 'dictof', 'iterof', 'counter',
                  'enumerate', 'ddictof'):
            return self.check(t[1], depth + 1)
        if t0 in ('sorted', 'slice', 'reversed'):
            return self.check(t[1], depth + 1)
        if t0 == 'filter':
            return self.filtered(t, depth)
        if t0 == 'ite':
            return self.both([self.check(t[2], depth + 1), self.check(t[3], depth + 1)])
        if t0 == 'choice':
            return self.both([self.check(x, depth + 1) for x in t[1]])
        if t0 == 'comp':
            if t in self.assumed:
                return 'yes'
            return self.both([self.comp(t, depth)] + [self.effect(e, depth) for e in self.r.effects if e.target == t])
        if t0 in ('dict', 'list', 'tuple', 'set'):
            return 'yes' if not t[1] else '?'
        if t0 == 'new':
            return self.new(t, depth)
        if t0 in ('out', 'phi'):
            return self.loop(t, depth)
        if t == NONE:
            return 'yes'
        return self.source(t)

    def source(self, t):
        """something given from outside: nothing is known of it"""
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][1] != SELF and self.stored(t[1][1]):
            # asked of another object, which was not told the limit
            return '?' if any(self.opt in list(walk(x)) for x in (t[2], t[3])) or any(
                x[0] in ('fn', 'lam', 'p', 'new') or x == SELF for y in t[2] for x in walk(y) if x != SELF or y == SELF) else 'no'
        return 'no' if t[0] in ('p', 'attr') else '?'

    def stored(self, t):
        while t[0] == 'attr':
            t = t[1]
        return t[0] == 'p'

    def both(self, rs):
        return 'no' if 'no' in rs else 'shift' if 'shift' in rs else '?' if '?' in rs else 'yes'

    def filtered(self, t, depth):
        try:
            g = self.r.apply(t[1], [('elem', t[2], ('L', -1))], {}, None)
        except Exception as x:
            return '?'
        x = self.any_guard((g,), {('L', -1)})
        return x if x in ('yes', 'shift') else self.worse(x, self.check(t[2], depth + 1))

    def worse(self, guard, src):
        """the guard did not settle it, the source says src"""
        if src in ('yes', 'shift'):
            return src
        return '?' if guard == '?' else src

    def comp(self, t, depth):
        loops = {L for L, _ in t[2]}
        x = self.any_guard(t[3], loops)
        if x in ('yes', 'shift'):
            return x
        elt = t[4][1][0] if t[1] == 'dict' and t[4][0] == 'tuple' else t[4]
        for who, tab in self.member(t[3]):
            if who == elt and self.check(tab, depth + 1) == 'yes':
                return 'yes'
        if len(t[2]) != 1:
            return '?'
        L, S = t[2][0]
        if not self.own(elt, S, L):
            return '?'
        if any(self.within(S, z) for z in self.out):
            return 'yes'        # all of these are left out later
        n = len(self.out)
        self.out += [g[3] for g in t[3] if g[0] == 'cmp' and g[1] == 'notin' and g[2] == elt]
        try:
            return self.worse(x, self.check(S, depth + 1))
        finally:
            del self.out[n:]

    def within(self, S, z):
        while S[0] in ('keys', 'listof', 'setof', 'iterof', 'tupleof'):
            S = S[1]
        return S == z

    def own(self, elt, S, L):
        """elt is the entry of S that the loop is at (not something derived from it)"""
        if elt[0] == 'tuple' and elt[1]:
            elt = elt[1][0]
        if elt[0] in ('key', 'elem') and elt[2] == L:
            return True
        return elt[0] == 'item' and elt[1][0] == 'elem' and elt[1][2] == L and elt[2] == ('c', 0)

    def new(self, t, depth):
        if t in self.assumed:
            return 'yes'
        self.assumed.add(t)
        try:
            rs = ['yes']
            for a in t[3:]:
                if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] not in ('c',):
                    rs.append(self.check(a, depth + 1))
            for e in self.r.effects:
                if not self.same(e.target, t):
                    continue
                rs.append(self.effect(e, depth))
            return self.both(rs)
        finally:
            self.assumed.discard(t)

    def same(self, target, t):
        if target == t:
            return True
        if target[0] == 'ite':
            return self.same(target[2], t) or self.same(target[3], t)
        if target[0] == 'choice':
            return any(self.same(x, t) for x in target[1])
        return target[0] in ('phi', 'out') and t in (self.r.loops[target[1]]['init'].get(target[2]),)

    def effect(self, e, depth):
        if e.kind in ('pop', 'del', 'clear', 'remove', 'discard', 'setattr', 'next', 'print'):
            return 'yes'
        loops = set(e.loops)
        x = self.any_guard(e.guards, loops)
        if x in ('yes', 'shift'):
            return x
        if e.kind == 'update' and e.args:
            return self.worse(x, self.check(e.args[0], depth + 1))
        if e.kind in ('store', 'setdefault', 'inc', 'append', 'add'):
            k = e.args[0]
            for who, tab in self.member(e.guards):
                if who == k or e.kind == 'append' and k[0] == 'tuple' and who == k[1][0]:
                    if tab == e.target or self.check(tab, depth + 1) == 'yes':
                        return 'yes'
            for L in reversed(e.loops):
                S = self.r.loops[L]['iter']
                if S is not None and self.own(k, S, L):
                    if any(self.within(S, z) for z in self.out):
                        return 'yes'        # all of these are left out later
                    return self.worse(x, self.check(S, depth + 1))
            # a new entry gets in without the limit
            if any(y[0] in ('choice', 'gencall') for g in e.guards for y in walk(g)):
                return '?'
            self.notes.append(e)
            return x if x == '?' else 'no'
        return '?'

    def taken_out(self):
        """is something removed from a collection because of the limit?"""
        for e in self.r.effects:
            if e.kind in ('pop', 'del', 'remove', 'discard', 'clear', 'difference_update', 'intersection_update'):
                if any(self.falls_short(g) for g in e.guards):
                    return True
                for t in list(e.args) + [self.r.loops[L]['iter'] for L in e.loops]:
                    for x in walk(t) if isinstance(t, tuple) else ():
                        if x == self.opt:
                            return True
                        if x[0] == 'new' and any(self.falls_short(g) for f in self.r.effects if self.same(f.target, x) for g in f.guards):
                            return True
        return False

    def falls_short(self, g):
        """may this guard be true for a value because it is below the limit?"""
        if g[0] == 'cmp' and g[1] in ('<', '<='):
            return lin(g[3])[1].get(self.opt, 0) > 0 or lin(g[2])[1].get(self.opt, 0) < 0
        if g[0] in ('and', 'or'):
            return any(self.falls_short(x) for x in g[1])
        return self.opt in list(walk(g))

    def loop(self, t, depth):
        L = self.r.loops[t[1]]
        self.assumed.add(t)
        other = ('phi' if t[0] == 'out' else 'out', t[1], t[2])
        self.assumed.add(other)
        try:
            rs = []
            if L['init'].get(t[2]) is None:
                return '?'
            rs.append(self.check(L['init'][t[2]], depth + 1))
            s = L['step'].get(t[2])
            if s is not None:
                rs.append(self.check(s, depth + 1))
            for e in self.r.effects:
                if e.target in (t, other):
                    rs.append(self.effect(e, depth))
            for _, env in L.get('breakstates') or ():
                v = env.get(t[2]) if isinstance(env, dict) else None
                if v is not None:
                    rs.append(self.check(v, depth + 1))
            return self.both(rs)
        finally:
            self.assumed.discard(t)
            self.assumed.discard(other)


def short_word(g):
    """the word has one syllable only: it has no cohesion"""
    ws = list(walk(g))
    return g[0] == 'cmp' and any(x[0] == 'len' for x in ws) and not any(x[0] == 'attr' and x[1] != SELF for x in ws)


def attr(name):
    return ('attr', SELF, name)


def p(name):
    return ('p', name)


def ret(r, t):
    return t


def heap(name):
    return lambda r, t: r.final.heap.get((SELF, name))


CE = ['min_left_branching_entropy', 'min_right_branching_entropy', 'min_left_accessor_variety', 'min_right_accessor_variety', 'min_frequency']
# (module, class, method, preset arguments, preset attributes, what is returned, limit, exemption)
OBLIGATIONS = [
    ('soynlp.noun', 'LRNounExtractor', 'extract', {}, {}, ret, p('min_noun_frequency'), None),
    ('soynlp.noun', 'LRNounExtractor', 'extract', {}, {}, ret, p('min_noun_score'), None),
    ('soynlp.noun', 'LRNounExtractor_v2', 'extract', {}, {'extract_compound': ('c', False)}, ret, p('min_noun_frequency'), None),
    ('soynlp.noun', 'LRNounExtractor_v2', 'extract', {}, {'extract_compound': ('c', False)}, ret, p('min_noun_score'), None),
    ('soynlp.predicator', 'EomiExtractor', 'extract', {}, {}, ret, p('min_eomi_frequency'), None),
    ('soynlp.predicator', 'EomiExtractor', 'extract', {}, {}, ret, p('min_eomi_score'), None),
    ('soynlp.predicator', 'StemExtractor', 'extract', {}, {}, heap('stem_surfaces'), p('min_stem_score'), None),
    ('soynlp.predicator', 'StemExtractor', 'extract', {}, {}, heap('stem_surfaces'), p('min_stem_frequency'), None),
    ('soynlp.predicator', 'PredicatorExtractor', 'extract', {'candidates': NONE}, {}, lambda r, t: t[1][0] if t[0] == 'tuple' else None, p('min_predicator_frequency'), None),
    ('soynlp.predicator', 'PredicatorExtractor', 'extract', {'candidates': NONE}, {}, lambda r, t: t[1][1] if t[0] == 'tuple' else None, p('min_predicator_frequency'), None),
    ('soynlp.word', 'Bigram', 'train', {}, {}, heap('_counter'), attr('min_frequency'), None),
    ('soynlp.word', 'Bigram', 'extract', {}, {}, ret, p('threshold'), None),
    ('soynlp.noun', 'LRNounExtractor', 'train', {}, {}, heap('words'), p('min_noun_frequency'), None),
    ('soynlp.utils', 'EojeolCounter', '__init__', {}, {}, heap('_counter'), p('min_count'), None),
    ('soynlp.utils', 'EojeolCounter', 'get_uncovered_eojeols', {}, {}, ret, p('min_count'), None),
    ('soynlp.word', 'WordExtractor', 'train', {}, {}, heap('L'), attr('min_frequency'), None),
    ('soynlp.word', 'WordExtractor', 'train', {}, {}, heap('R'), attr('min_frequency'), None),
] + [('soynlp.word', 'WordExtractor', 'extract', {}, {}, ret, attr(x), None) for x in CE] + [
    ('soynlp.word', 'WordExtractor', 'extract', {}, {}, ret, attr(x), short_word) for x in ('min_cohesion_forward', 'min_cohesion_backward')
] + [('soynlp.vectorizer', 'BaseVectorizer', 'fit', {}, {}, heap('vocabulary_'), attr(x), None) for x in ('min_tf', 'min_df')] + [
    ('soynlp.vectorizer', None, 'sent_to_word_contexts_matrix', {}, {}, lambda r, t: t[1][1] if t[0] == 'tuple' else None, p('min_tf'), None),
] + [('soynlp.noun._josa', None, 'extract_domain_pos_features', {}, {}, ret, p(x), None) for x in ('min_pos_score', 'min_pos_feature_frequency', 'min_noun_entropy')]


def oblige(rep, prog, mod, cname, meth, args, attrs, pick, opt, cond, cache):
    key = (mod, cname, meth, str(args), str(attrs))
    who = (cname + '.' if cname else '') + meth
    if key not in cache:
        r = Reader(prog)
        if cname:
            hp = {(SELF, a): v for a, v in attrs.items()}
            cache[key] = (r,) + r.read_method(mod, cname, meth, args=dict(args) or None, heap=hp or None)
        else:
            cache[key] = (r,) + r.read_function(mod, meth, dict(args) or None)
    r, t, fr = cache[key]
    t = pick(r, t)
    label = '%s: %s' % (who, opt[-1])
    rep.count('limits_to_enforce', 1)
    if t is None:
        rep.undecide(label, 'the collection it fills could not be followed')
        return
    e = Enters(r, opt, cond)
    res = e.check(t)
    if res == 'yes':
        rep.count('limits_enforced', 1)
        rep.sample('%s: every entry has been compared with it' % label)
    elif res == 'shift':
        g, d = e.shift[0]
        rep.violation('limit_moved', '%s|%s' % (who, opt[-1]), who, '%s: what is compared is the limit moved by %s' % (label, d))
    elif res == 'no' and e.taken_out():
        rep.undecide(label, 'entries are taken out again by a comparison with it')
    elif res == 'no':
        at = where(e.notes[0].node, prog) if e.notes and e.notes[0].node is not None else where(fr.node, prog)
        rep.violation('enforced', '%s|%s' % (who, opt[-1]), at, '%s: an entry gets into the result without being compared with %s' % (who, opt[-1]))
    else:
        rep.undecide(label, 'the path of an entry into the result could not be followed completely')


def c19(tier):
    rep = Report('C19', tier, 'every comparison with a minimum keeps a value that equals it, and no entry reaches a result without that comparison')
    strictness(rep)
    prog = Program()
    cache = {}
    for o in OBLIGATIONS:
        rep.attempt('%s.%s: %s' % (o[1] or o[0], o[2], o[6][-1]), oblige, rep, prog, *o, cache)
    return rep.finish('other', 'two analyses. (1) Abstract interpretation of every public operation with every option labelled: each '
                      'comparison in which a minimum frequency or score option (or what it was stored in or passed on as) meets a '
                      'computed value must let a value equal to the limit through (value >= limit, or value < limit to drop). '
                      '(2) Normal forms of the operations that return filtered collections: each place where an entry can get into '
                      'the result is followed back (comprehensions, loops, filters, copies, subset steps) and must stand under the '
                      'comparison with the limit. Comparisons of a limit with a constant and rules that scale a limit are not judged.')
