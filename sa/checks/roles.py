"""C09 and C19: what a number is (a frequency or a score) and how the limits
on it are compared.

A frequency is made by counting and stays an int, a score comes out of a
division, a power or a logarithm and is a float: the abstract values of the
interpreter keep the two apart through every tuple, dict and call."""
import ast
import re

from ..run import analyse
from ..report import Report
from ..interp import tags, core
from ..loader import where, enclosing
from .common import note_engine

SCORE = re.compile(r'score|entropy|cohesion|proportion|droprate|ratio|pmi|coefficient|weight|probab', re.I)
FREQ = re.compile(r'frequency|freq|count|(^|_)tf($|_)|accessor|num_of|n_positive', re.I)
LIMIT = re.compile(r'(^|_)(min|max)(_|$)|^threshold$')


def role(name):
    if SCORE.search(name):
        return 'score'
    if FREQ.search(name):
        return 'frequency'
    return None


def kind(v):
    """'int' / 'float' when the known part of the value can only be one; constants go with either"""
    out, unknown = set(), False
    for a in core(v):
        if a[0] == 'k' and a[1] in ('int', 'float'):
            out.add(a[1])
        elif a[0] == 'c' and a[1] in ('int', 'float'):
            if a[1] == 'float' and a[2] != int(a[2]):
                out.add('float')
        elif a[0] == 'u':
            unknown = True
        else:
            out.add('?')
    return out.pop() if len(out) == 1 else ('const' if not out and not unknown else '?')


def ident(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return ''


# positions of what the public operations return; F a frequency, S a score, . neither
WORD = ('S', 'S', 'S', 'S', 'F', 'F', 'F', 'F')
NEWS = ('S', 'F', 'S', 'S', 'F', 'S')
RETURNS = {
    'LRNounExtractor.predict': ('S', 'S'), 'LRNounExtractor.extract': {'': ('F', 'S', 'S')},
    'LRNounExtractor.train_extract': {'': ('F', 'S', 'S')},
    'LRNounExtractor_v2.predict': ('F', 'S'), 'LRNounExtractor_v2.extract': {'': ('F', 'S')},
    'LRNounExtractor_v2.train_extract': {'': ('F', 'S')}, 'LRNounExtractor_v2.extract_compounds': {'': ('F', 'S')},
    'NewsNounExtractor.predict': NEWS, 'NewsNounExtractor.extract': {'': NEWS}, 'NewsNounExtractor.train_extract': {'': NEWS},
    'NewsNounExtractor.l_frequency': 'F',
    'EomiExtractor.predict': ('F', 'S'), 'EomiExtractor.extract': {'': ('F', 'S')},
    'StemExtractor.predict': ('S', 'F'), 'StemExtractor.extract': {'': ('F', 'S')},
    'PredicatorExtractor.extract': ({'': ('F', '.')}, {'': ('F', '.')}),
    'PredicatorExtractor.train_extract': ({'': ('F', '.')}, {'': ('F', '.')}),
    'POSExtractor.extract': ({'': ('F', 'S')}, ({'': ('F', '.')}, {'': ('F', '.')})),
    'NewsPOSExtractor.extract': {'': {'': 'F'}}, 'NewsPOSExtractor.train_extract': {'': {'': 'F'}},
    'ChatPOSExtractor.extract': {'': {'': 'F'}}, 'ChatPOSExtractor.train_extract': {'': {'': 'F'}},
    'WordExtractor.frequency': ('F', 'F'), 'WordExtractor.accessor_variety': ('F', 'F'),
    'WordExtractor.cohesion_score': ('S', 'S'), 'WordExtractor.branching_entropy': ('S', 'S'),
    'WordExtractor.all_cohesion_scores': {'': ('S', 'S')}, 'WordExtractor.all_branching_entropy': {'': ('S', 'S')},
    'WordExtractor.all_accessor_variety': {'': ('F', 'F')},
    'WordExtractor.extract': {'': WORD}, 'WordExtractor.word_scores': {'': WORD},
    'Bigram.extract': {'': ('F', '.')}, 'extract_domain_pos_features': {'': ('S', 'F')},
    'EojeolCounter.__getitem__': 'F', 'EojeolCounter.get_eojeol_count': 'F', 'EojeolCounter.__len__': 'F',
    'EojeolCounter.coverage': 'S', 'EojeolCounter.num_of_unique_uncovered_eojeols': 'F',
    'EojeolCounter.num_of_uncovered_eojeols': 'F', 'EojeolCounter.get_uncovered_eojeols': {'': 'F'},
    'EojeolCounter.items': [('.', 'F')], 'LRGraph.get_r': [('.', 'F')], 'LRGraph.get_l': [('.', 'F')],
}


class Roles:
    def __init__(self, d):
        self.d, self.an = d, d.an
        self.compares, self.builds, self.binds = set(), set(), set()
        self.an.hooks.update(compare=self.compare, nt_new=self.nt_new, call=self.call, binop=self.binop)

    def options(self, v):
        return {t[1] for t in tags(v) if isinstance(t[1], str) and ':' in t[1]}

    def binop(self, an, op, a, b, e, tg):
        """a limit that has been computed with is a limit no longer"""
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)):
            return frozenset(t for t in tg if not (isinstance(t[1], str) and LIMIT.search(t[1].rsplit(':', 1)[-1])))
        return tg

    def place(self, node):
        f = node
        while f is not None and not isinstance(f, ast.FunctionDef):
            f = getattr(f, '_parent', None)
        return where(node, self.an.prog), enclosing(node), self.uses_coefficients(f), self.line(node)

    def line(self, node):
        m = self.an.prog.modules.get(getattr(node, '_mod', ''))
        try:
            return m.src.splitlines()[node.lineno - 1].strip()
        except Exception:
            return ''

    def uses_coefficients(self, f):
        if f is None:
            return False
        if not hasattr(f, '_coef'):
            f._coef = any('coefficient' in ident(n) for n in ast.walk(f))
        return f._coef

    def compare(self, an, op, left, right, e):
        if not isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            return
        at = self.place(e)
        operands = [e.left] + list(e.comparators)
        # the hook is called once per link of a chain, in order
        names = [ident(x) for x in operands]
        for i, o in enumerate(e.ops):
            if o is op:
                ln, rn = names[i], names[i + 1]
                break
        else:
            ln = rn = ''
        for x, y, xn, yn, side in ((left, right, ln, rn, 'R'), (right, left, rn, ln, 'L')):
            # x is the limit; side is where the value stands relative to it
            ox = {t for t in self.options(x) if LIMIT.search(t.rsplit(':', 1)[1])}
            oy = {t.rsplit(':', 1)[1] for t in self.options(y) if LIMIT.search(t.rsplit(':', 1)[1])}
            names_ = {t.rsplit(':', 1)[1] for t in ox}
            if LIMIT.search(xn) and not LIMIT.search(yn):
                byname = xn
            else:
                byname = ''
            if names_ or byname:
                self.compares.add((at, type(op).__name__, side, tuple(sorted(names_)), byname, tuple(sorted(oy)),
                                   kind(y), kind(x), tuple(sorted(ox))[:3]))

    def nt_new(self, an, node, a, vals):
        self.builds.add((self.place(node), a[1].rsplit('.', 1)[-1], tuple(zip(a[2], map(kind, vals)))))

    def call(self, an, node, f, bound, fr):
        if an.stack:
            for p, v in bound.items():
                if isinstance(v, tuple):
                    continue
                r = role(p)
                if r is None:
                    continue
                o = {role(t.rsplit(':', 1)[1]) for t in self.options(v) if LIMIT.search(t.rsplit(':', 1)[1])} - {None}
                self.binds.add((self.place(node), getattr(f.node, 'name', 'lambda'), p, r, kind(v), tuple(sorted(o)) if LIMIT.search(p) else ()))

    def returns(self):
        """(op, path, role, kind) for every decided position of every public result"""
        out = set()
        for o in self.d.ops:
            if o.qual in RETURNS and o.ret is not None:
                self.walk(o, o.ret, RETURNS[o.qual], '', out, 0)
        return out

    def walk(self, o, v, spec, path, out, depth):
        an = self.an
        if isinstance(spec, str):
            if spec != '.':
                out.add((o.qual, path or 'the result', spec, kind(v), where(o.node, an.prog) if o.node is not None else ''))
            return
        for a in core(v):
            if isinstance(spec, (dict, list)):
                if a[0] != 'o' or o.state is None:
                    continue
                e = o.state.get(('e', a[1]))
                if e:
                    self.walk(o, e, spec[''] if isinstance(spec, dict) else spec[0], path + '[*]', out, depth + 1)
            elif isinstance(spec, tuple) and a[0] == 't' and len(a[1]) == len(spec):
                for i, (x, s) in enumerate(zip(a[1], spec)):
                    self.walk(o, x, s, '%s[%d]' % (path, i), out, depth + 1)


def setup(d):
    d.roles = Roles(d)


def collect(d):
    r = d.roles
    return r.compares, r.builds, r.binds, r.returns()


def gather():
    r = analyse(setup=setup, collect=collect, tag=True)
    out = [set(), set(), set(), set()]
    for x in r.extra:
        for a, b in zip(out, x):
            a |= b
    return r, out


def wrong(r, k):
    return r == 'frequency' and k == 'float' or r == 'score' and k == 'int'


# a bigram ranked by frequency has its frequency for a score, by contract
OWN_FREQUENCY = {'NgramScore'}
SAY = {'frequency': 'frequency', 'score': 'score', 'F': 'frequency', 'S': 'score'}


def c09(tier):
    rep = Report('C09', tier, 'no threshold, field, parameter or returned position for a frequency holds a score, or the reverse')
    r, (compares, builds, binds, returns) = gather()
    note_engine(rep, r)
    for at, op, side, opts, byname, other, k, ko, full in sorted(compares, key=str):
        rep.count('comparisons_with_a_limit', 1)
        for n in set(opts) | ({byname} if byname else set()):
            ro = role(n)
            if ro and k == '?':
                rep.count('comparisons_of_unknown_kind', 1)
            if ro and wrong(ro, k):
                rep.violation('limit_role', '%s|%s' % (at[1], n), at[0],
                              '%s: the limit %s is for a %s and is compared with a %s (%s)' % (
                                  at[1], n, ro, 'score' if k == 'float' else 'frequency', at[3]))
    for at, cls, fields in sorted(builds, key=str):
        for f, k in fields:
            ro = role(f)
            if ro is None:
                continue
            rep.count('named_fields_filled', 1)
            if ro == 'score' and cls in OWN_FREQUENCY:
                continue
            if wrong(ro, k):
                rep.violation('field_role', '%s|%s.%s' % (at[1], cls, f), at[0],
                              '%s: the field %s of %s gets a %s (%s)' % (
                                  at[1], f, cls, 'score' if k == 'float' else 'frequency', at[3]))
    for at, fn, p, ro, k, ofs in sorted(binds, key=str):
        rep.count('arguments_with_a_role', 1)
        bad = wrong(ro, k) and not LIMIT.search(p)
        if bad or ofs and ro not in ofs:
            rep.violation('argument_role', '%s|%s.%s' % (at[1], fn, p), at[0],
                          '%s: the parameter %s of %s is given a %s (%s)' % (
                              at[1], p, fn, 'score' if ro == 'frequency' else 'frequency', at[3]))
    decided = {}
    for op, path, s, k, at in returns:
        decided.setdefault((op, path, s), set()).add(k)
    for (op, path, s), ks in sorted(decided.items()):
        rep.count('returned_positions', 1)
        if any(wrong(SAY[s], k) for k in ks):
            rep.violation('result_role', '%s|%s' % (op, path), op,
                          '%s returns a %s at %s, where a %s belongs' % (
                              op, 'score' if s == 'F' else 'frequency', path, SAY[s]))
        elif ks <= {'?'}:
            rep.undecide('%s %s' % (op, path), 'the kind of this number is not known')
        else:
            rep.count('returned_positions_decided', 1)
    for op in RETURNS:
        if not any(k[0] == op for k in decided):
            rep.undecide(op, 'nothing of its result could be followed')
        else:
            rep.sample('%s: every position holds the kind of number its place stands for' % op)
    return rep.finish('other', 'abstract interpretation of every public operation. Counting gives an int and every score of this '
                      'library is the result of a division, power or logarithm, hence a float; the interpreter follows both through '
                      'tuples, dicts, namedtuples, attributes and calls. Reported: a comparison of a frequency limit with a value that '
                      'can only be a score or the reverse, a namedtuple field or parameter named for one that can only be given the '
                      'other, and a returned position of a public operation that can only hold the other. Values that may be either '
                      '(or are unknown) are never reported.')
