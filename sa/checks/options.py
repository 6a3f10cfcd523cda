"""C08: every option reaches the computation it is named for."""
import ast

from .. import api
from ..run import analyse
from ..report import Report
from ..interp import BOT, tags
from ..loader import where
from .common import note_engine

# which operations a constructor option must influence ('*' = any one of them).
# Public names only: how the value gets there is left to the code.
REQUIRED = {
    'BaseVectorizer': {'tokenizer': 'fit fit_transform fit_to_file transform to_file encode_a_doc_to_bow encode_a_doc_to_list',
                       'min_tf': 'fit fit_transform fit_to_file', 'max_tf': 'fit fit_transform fit_to_file',
                       'min_df': 'fit fit_transform fit_to_file', 'max_df': 'fit fit_transform fit_to_file',
                       'stopwords': 'fit fit_transform fit_to_file', 'verbose': 'fit fit_transform fit_to_file transform to_file'},
    'Bigram': {'tokenizer': 'train', 'min_frequency': 'train extract', 'filtering_checkpoint': 'train', 'score': 'extract',
               'verbose': 'train'},
    'ChatPOSExtractor': {'ensure_normalized': 'train train_extract', 'extract_eomi': 'train train_extract',
                         'verbose': 'train train_extract'},
    'NewsPOSExtractor': {'ensure_normalized': 'train train_extract', 'extract_eomi': 'train train_extract',
                         'verbose': 'train train_extract'},
    'Dictionary': {'pos_dict': 'get_pos word_is_tag'},
    'DoublespaceLineCorpus': {'corpus_fname': '__iter__ __len__', 'iter_sent': '__iter__ __len__',
                              'skip_header': '__iter__ __len__', 'num_sent': '__iter__'},
    'EojeolTemplateMatcher': {'dictionary': 'generate', 'lr_templates': 'generate', 'single_tags': 'generate'},
    'LRTemplateMatcher': {'dictionary': 'generate', 'ltags': 'generate', 'templates': 'generate'},
    'EomiExtractor': {'nouns': 'extract', 'stems': 'extract', 'min_num_of_features': 'extract', 'logpath': 'extract',
                      'verbose': 'extract'},
    'StemExtractor': {'eomis': 'extract', 'stems': 'extract', 'min_num_of_unique_R_char': 'extract predict',
                      'min_entropy_of_R_char': 'extract predict', 'verbose': 'extract'},
    'LREvaluator': {'preference': 'evaluate select_best', 'weights': 'evaluate select_best'},
    'SimpleEojeolEvaluator': {'weights': 'evaluate select_best'},
    'LRGraph': {'l_max_length': '__init__', 'r_max_length': '__init__'},
    'LRNounExtractor': {'ensure_normalized': 'train train_extract', 'max_left_length': 'train train_extract',
                        'max_right_length': 'train train_extract', 'min_num_of_features': 'extract is_noun predict train_extract',
                        'verbose': 'train train_extract extract'},
    'LRNounExtractor_v2': {'ensure_normalized': 'train train_extract', 'eojeol_counter_filtering_checkpoint': 'train train_extract',
                           'extract_compound': 'extract train_extract', 'extract_pos_feature': 'extract train_extract',
                           'logpath': 'extract train_extract', 'max_frequency_when_noun_is_eojeol': 'extract predict train_extract',
                           'max_left_length': 'train train_extract', 'max_right_length': 'train train_extract',
                           'min_num_of_features': 'extract predict train_extract', 'postprocessing': 'extract train_extract',
                           'verbose': 'train train_extract extract'},
    'NewsNounExtractor': {'max_left_length': 'train train_extract', 'max_right_length': 'train train_extract',
                          'base_noun_dictionary': 'extract train_extract', 'verbose': 'train train_extract extract'},
    'PredicatorExtractor': {'adjectives': 'extract train_extract', 'verbs': 'extract train_extract',
                            'eomis': 'train extract train_extract', 'josas': 'extract train_extract',
                            'ensure_normalized': 'train train_extract', 'extract_eomi': 'train train_extract',
                            'extract_stem': 'train train_extract', 'verbose': 'train train_extract extract'},
    'LTokenizer': {'scores': '__call__ tokenize', 'default_score': '__call__ tokenize'},
    'MaxScoreTokenizer': {'scores': '__call__ tokenize', 'default_score': '__call__ tokenize', 'max_length': '__call__ tokenize'},
    'MaxLRScoreTokenizer': {'Dl': '__call__ tokenize', 'Dr': '__call__ tokenize', 'preference_l': '__call__ tokenize',
                            'preference_r': '__call__ tokenize', 'ensurable_score_l': '__call__ tokenize',
                            'ensurable_score_lr_diff': '__call__ tokenize', 'max_lscore_difference': '__call__ tokenize',
                            'max_lscore_diffratio': '__call__ tokenize'},
    'NounLMatchTokenizer': {'nouns': '__call__ tokenize'},
    'NounMatchTokenizer': {'noun_scores': '__call__ tokenize'},
    'Lemmatizer': {'stems': 'lemmatize', 'endings': 'lemmatize', 'predefined': 'lemmatize candidates'},
    'POSExtractor': {'l_max_length': 'extract', 'r_max_length': 'extract', 'logpath': 'extract', 'verbose': 'extract'},
    'SimpleTagger': {'evaluator': 'tag', 'generator': 'tag', 'postprocessor': 'tag'},
    'WordExtractor': {'max_left_length': 'train extract', 'max_right_length': 'train extract', 'min_frequency': 'train extract',
                      'max_droprate_leftside_frequency': 'extract', 'min_cohesion_backward': 'extract',
                      'min_cohesion_forward': 'extract', 'min_left_accessor_variety': 'extract',
                      'min_right_accessor_variety': 'extract', 'min_left_branching_entropy': 'extract',
                      'min_right_branching_entropy': 'extract', 'remove_subwords': 'extract', 'verbose_points': 'train extract'},
}
# (option, callee): the callee has an option of the same name that means something else there
NOT_FORWARDED = {
    ('LRNounExtractor.is_noun:min_noun_score', 'predict'),
    ('LRNounExtractor_v2.extract:min_noun_score', 'extract_domain_pos_features'),
    ('LRNounExtractor_v2.extract:min_noun_frequency', 'extract_domain_pos_features'),
    ('LRNounExtractor_v2.train_extract:min_noun_score', 'extract_domain_pos_features'),
    ('LRNounExtractor_v2.train_extract:min_noun_frequency', 'extract_domain_pos_features'),
    ('NewsNounExtractor.extract:min_noun_score', '*'),
    ('NewsNounExtractor.train_extract:min_noun_score', '*'),
    ('NounMatchTokenizer.tokenize:flatten', '*'),
    ('NounMatchTokenizer.__call__:flatten', '*'),
    ('POSExtractor.__init__:l_max_length', '*'),
    ('POSExtractor.__init__:r_max_length', '*'),
}
DATA = {'sents', 'sentences', 'docs', 'doc', 'lrgraph', 'pos_dict', 'inputs', 'nouns', 'cost', 's1', 's2', 'l', 'r', 'word'}
VALIDATORS = {'check_corpus:corpus', 'BaseEvaluator.evaluate:candidate'}   # only look, by contract
STUBS = {'is_date', 'is_day', 'is_number', 'is_monetary', 'is_period', 'is_time'}   # raise NotImplementedError
ABSTRACT = {c for c, s in api.CLASSES.items() if s.get('abstract')}
WEAK = {'print', 'format', 'isinstance', 'type', 'ValueError', 'TypeError', 'KeyError', 'hasattr', 'warnings.warn'}


def only_raises(s):
    return isinstance(s[-1], ast.Raise)


def validates(node):
    """is this expression only looked at to reject bad values?"""
    n, p = node, getattr(node, '_parent', None)
    while p is not None and isinstance(p, ast.expr):
        n, p = p, getattr(p, '_parent', None)
    if isinstance(p, ast.Assert):
        return True
    return isinstance(p, ast.If) and n is p.test and not p.orelse and only_raises(p.body)


def is_none_test(node):
    return isinstance(node, ast.Compare) and len(node.ops) == 1 and (
        isinstance(node.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq))
        and any(isinstance(x, ast.Constant) and x.value is None for x in (node.left, node.comparators[0])))


def setup(d):
    an = d.an
    an.opt_uses, an.opt_found = {}, {}
    vcache = {}

    def strong(node, how):
        if how in WEAK:
            return False
        k = id(node)
        if k not in vcache:
            vcache[k] = (node, validates(node) or is_none_test(node))
        return not vcache[k][1]

    def use(av, node, how=''):
        for a in av:
            if a[0] == '#':
                if isinstance(a[1], str) and ':' in a[1] and (a[1] in d.booleans or strong(node, how)):
                    an.opt_uses.setdefault((a[1], an.current_op), set()).add('test' if how == 'test' else 'use')
            elif a[0] == 't':
                for i in a[1]:
                    use(i, node, how)

    def opts(v):
        return {t[1] for t in tags(v) if isinstance(t[1], str) and ':' in t[1]} if isinstance(v, frozenset) else set()

    def call(an, node, f, bound, fr):
        if not an.stack:
            return
        fr0 = an.stack[-1]
        f0 = fr0.f
        if not isinstance(getattr(f0, 'node', None), (ast.FunctionDef, ast.Lambda)) or f0 is f:
            return
        a0 = f0.node.args
        ps = [a.arg for a in a0.posonlyargs + a0.args + a0.kwonlyargs]
        for p, v in bound.items():
            if p in DATA or p == 'self' or p in api.FLAGS or isinstance(v, tuple):
                continue
            if f.defaults.get(p, f.kwdefaults.get(p)) is None:
                continue
            o = opts(v)
            want = set()
            if p in ps:
                want |= {x for x in opts(an.st.get(('l', fr0.fid, p))) if x.endswith(':' + p)}
            if ps and f0.cls is not None and f.cls != f0.cls:
                for a in an.st.get(('l', fr0.fid, ps[0])):
                    if a[0] == 'o':
                        for at in (p, '_' + p):
                            want |= {x for x in opts(an.st.get(('a', a[1], at))) if x.endswith('.__init__:' + p)}
            if want:
                k = (f0.fid, f.fid, p)
                e = an.opt_found.setdefault(k, {'ok': False, 'want': set(), 'where': where(node, an.prog), 'op': an.current_op,
                                                'callee': (f.cls or '').split('.')[-1].split(':')[-1] if getattr(f.node, 'name', '') == '__init__'
                                                else getattr(f.node, 'name', '<lambda>'), 'p': p})
                if o & want:
                    e['ok'] = True
                e['want'] |= want

    def setattr_(an, node, a, name, v):
        if not an.stack:
            return
        fr0 = an.stack[-1]
        if getattr(fr0.f.node, 'name', '') != '__init__':
            return
        n2 = name.lstrip('_')
        cls = (an.current_op or '').split('.')[0]
        mine = {x.rsplit(':', 1)[1] for x in opts(v) if x.startswith(cls + '.__init__:')}
        has = {x.rsplit(':', 1)[1] for x in d.tagged if x.startswith(cls + '.__init__:')}
        if mine and n2 in has and n2 not in mine:
            an.opt_attr[(cls, n2)] = (sorted(mine), where(node, an.prog))

    def nt_new(an, node, a, vals):
        fields = a[2] if len(a) > 2 else ()
        for i, f in enumerate(fields):
            if i < len(vals):
                vals[i] = vals[i] | {('#', ('fld', f))}

    def compare(an, op, left, right, e):
        for x, y in ((left, right), (right, left)):
            os_ = {t.rsplit(':', 1)[1] for t in opts(x) if '.__init__:' in t}
            fl = {t[1][1] for t in tags(y) if isinstance(t[1], tuple) and t[1][0] == 'fld'}
            if len(os_) != 1 or not fl:
                continue
            o = next(iter(os_))
            if o[:4] in ('min_', 'max_') and any(o[4:] in f for f in an.opt_fields) and o[4:] not in fl:
                an.opt_cmp[(an.current_op, o)] = (sorted(fl), where(e, an.prog))
    an.opt_attr, an.opt_cmp, an.opt_fields = {}, {}, {('cohesion_forward', 'cohesion_backward', 'left_branching_entropy',
                                                      'right_branching_entropy', 'left_accessor_variety',
                                                      'right_accessor_variety')}
    an.use = use
    an.hooks['call'] = call
    an.hooks['setattr'] = setattr_
    an.hooks['nt_new'] = nt_new
    an.hooks['compare'] = compare


def collect(d):
    kinds = {}
    for t, p in d.tagged.items():
        kinds[t] = where(p, d.prog)
    return d.an.opt_uses, d.an.opt_found, d.an.opt_attr, d.an.opt_cmp, kinds, d.booleans


def c08(tier):
    rep = Report('C08', tier, 'every option has a computing use, in every operation it is named for, and is forwarded')
    r = analyse(setup=setup, collect=collect, tag=True)
    note_engine(rep, r)
    uses, found, attrs, cmps, where_, bools = {}, {}, {}, {}, {}, set()
    for u, f, a, c, w, b in r.extra:
        for k, v in u.items():
            uses.setdefault(k, set()).update(v)
        for k, v in f.items():
            e = found.setdefault(k, dict(v, want=set(), ok=False))
            e['ok'] |= v['ok']
            e['want'] |= v['want']
        attrs.update(a)
        cmps.update(c)
        where_.update(w)
        bools |= b
    failed = {e['op'] for e in r.events if e['kind'] == 'never_returns'}
    skip = {u[0] for u in r.undecided}

    def used(t, op):
        us = uses.get((t, op), ())
        return 'use' in us or t in bools and 'test' in us
    ops = {}
    for (t, op), _ in uses.items():
        ops.setdefault(t, set()).add(op)
    n = 0
    for t in sorted(where_):
        op, p = t.rsplit(':', 1)
        cls = op.split('.')[0] if '.' in op else ''
        if t in VALIDATORS or cls in ABSTRACT or op in STUBS or cls in skip or op in skip:
            continue
        n += 1
        if not any(used(t, o) for o in ops.get(t, ())):
            rep.violation('option-unused', t, where_[t],
                          'the parameter %s of %s is never used in a computation: setting it changes nothing' % (p, op))
            continue
        if op.endswith('.__init__'):
            for m in REQUIRED.get(cls, {}).get(p, '').split():
                rep.count('required_uses', 1)
                if not used(t, cls + '.' + m):
                    rep.violation('option-not-reaching', '%s->%s' % (t, m), where_[t],
                                  'the option %s of %s has no influence on %s.%s' % (p, cls, cls, m))
        elif not used(t, op) and not any(used(t, o) for o in ops.get(t, ()) if o.startswith(cls)):
            rep.violation('option-unused', t, where_[t], 'the parameter %s has no influence on %s' % (p, op))
        rep.sample('%s: used by %s' % (t, ', '.join(sorted(o for o in ops[t] if used(t, o))[:4])))
    rep.count('options_followed', n)
    for c, opts in REQUIRED.items():
        for p in opts:
            t = '%s.__init__:%s' % (c, p)
            if t not in where_ and c not in skip:
                rep.undecide(t, 'the constructor has no such parameter')
    for (f0, f, p), e in sorted(found.items(), key=str):
        rep.count('forwarding_obligations', 1)
        if e['ok']:
            continue
        want = {w for w in e['want'] if (w, e['callee']) not in NOT_FORWARDED and (w, '*') not in NOT_FORWARDED}
        if want and want == e['want']:
            rep.violation('option-not-forwarded', '%s->%s' % (sorted(want)[0], e['callee']), e['where'],
                          'the option %s is not handed on to the parameter of the same name of %s (in %s)' % (
                              sorted(want)[0], e['callee'], e['op']))
    for (cls, name), (got, w) in sorted(attrs.items()):
        if not any(name in attrs.get((cls, g), ((), ''))[0] for g in got):
            continue
        rep.violation('option-swapped', '%s.%s' % (cls, name), w,
                      'the attribute for option %s of %s is set from option %s' % (name, cls, ', '.join(got)))
    for (op, o), (fl, w) in sorted(cmps.items(), key=str):
        rep.violation('option-swapped', '%s|%s' % (op, o), w, 'option %s is compared with %s in %s' % (o, ', '.join(fl), op))
    return rep.finish('other', 'taint analysis on the whole-program abstract interpretation: every parameter of every public '
                      'operation carries its own tag through attributes, containers, calls and arithmetic; obligations: the tag '
                      'reaches a computing use (an operator, a comparison that is more than validation or a None test, an index, '
                      'a library call, a written value; a branch for boolean options); each constructor option does so in every '
                      'operation listed for it; a callee parameter of the same name receives it; it is stored under its own name '
                      'and compared with the field it is named for.')
