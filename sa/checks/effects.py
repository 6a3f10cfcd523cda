"""C01, C02, C03: effect analysis on every public operation."""
import warnings

from ..run import analyse
from ..report import Report
from .common import note_engine, chain

MUT_HELP = ('whole-program abstract interpretation (flow- and context-sensitive points-to with object owners) '
            'of every public operation of the package from source; every in-place change of an object is an '
            'obligation: the owner of the changed object must be the operation itself. ')


def in_len_cache(e):
    """a corpus may remember its own length"""
    return e['how'] == 'attribute' and any(s.startswith('DoublespaceLineCorpus.') for s in e['stack']) \
        and 'DoublespaceLineCorpus.__len__' in e['stack']


def muts(r):
    for e in r.events:
        if e['kind'] == 'mutate' and not in_len_cache(e):
            yield e


def c01(tier):
    rep = Report('C01', tier, 'no query operation changes an object owned by the receiver or by the package')
    r = analyse()
    note_engine(rep, r)
    rep.count('changes_seen', sum(1 for _ in muts(r)))
    rep.count('query_operations', len(r.queries))
    for e in muts(r):
        if (e['label'] == 'model' or e.get('held')) and e['phase'] == 'fresh' or e['label'] == 'global' and e['phase'] != 'global':
            rep.violation('query-mutates', '%s|%s %s' % (e['op'], e['how'], e['what']), e['where'],
                          '%s changes %s (%s %s) in %s: %s; path %s' % (
                              e['op'], 'package-level state' if e['label'] == 'global' else 'the object it is called on',
                              e['how'], e['what'], e['fn'], e['src'], chain(e)), event=e)
    for op in sorted(r.queries)[:8]:
        rep.sample('query %s: no change of receiver-owned or package-owned objects reachable' % op)
    return rep.finish('other', MUT_HELP + 'C01 obligation: during a query no object reachable from the receiver or from '
                      'module globals, as built by constructor, training and mutators, is changed.')


def c02(tier):
    rep = Report('C02', tier, 'no operation changes an object owned by an argument')
    r = analyse()
    note_engine(rep, r)
    rep.count('changes_seen', sum(1 for _ in muts(r)))
    rep.count('argument_owners', len(r.labels))
    for e in muts(r):
        if e['label'].startswith('arg:'):
            rep.violation('argument-mutated', '%s|%s|%s %s' % (e['op'], e['label'][4:], e['how'], e['what']), e['where'],
                          '%s changes the object passed as %s (%s %s) in %s: %s; path %s' % (
                              e['op'], e['label'][4:], e['how'], e['what'], e['fn'], e['src'], chain(e)), event=e)
    for op in sorted(r.ops)[:8]:
        rep.sample('%s: no argument-owned object changed' % op)
    return rep.finish('other', MUT_HELP + 'C02 obligation: no object reachable from an argument is changed, in that call '
                      'or in any later operation of the object built from it (a kept alias that is edited later is '
                      'reported at the later edit).')


def imports(rep, prog):
    """compiling a module prints its warnings on stderr"""
    for name, m in sorted(prog.modules.items()):
        rep.count('modules_compiled', 1)
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            try:
                compile(m.src, m.rel, 'exec', dont_inherit=True)
            except SyntaxError:
                continue
        for w in seen:
            if issubclass(w.category, SyntaxWarning):
                rep.violation('import-warning', '%s|%s' % (m.rel, w.message), '%s:%d' % (m.rel, w.lineno),
                              'importing %s prints a %s: %s' % (name, w.category.__name__, w.message))


def c03(tier):
    rep = Report('C03', tier, 'no print/write to stdout or stderr reachable with verbose and debug off')
    r = analyse(quiet=True)
    note_engine(rep, r)
    for e in r.events:
        if e['kind'] != 'print':
            continue
        if e['handler'] or e.get('created') or e.get('api') == 'warnings.warn':
            continue
        rep.violation('prints-when-quiet', '%s|%s' % (e['op'], e['fn']), e['where'],
                      '%s prints with every verbose/debug option off, in %s: %s; path %s' % (
                          e['op'], e['fn'], e['src'], chain(e)), event=e)
    imports(rep, r.prog)
    rep.count('print_sites_in_package', r.print_sites)
    rep.count('print_sites_reachable_quiet', len({e['where'] for e in r.events if e['kind'] == 'print'}))
    for op in sorted(r.ops)[:8]:
        rep.sample('%s with verbose=False/debug=False: no reachable print outside error handlers' % op)
    return rep.finish('other', 'abstract interpretation of every public operation with all verbose and debug options fixed to '
                      'False (other options arbitrary); branches on those options are resolved by constant propagation '
                      'through attributes and calls; obligation: no print / sys.stdout / sys.stderr write is reachable '
                      'except in an exception handler or right after creating a directory, and no module prints a SyntaxWarning when '
                      'it is compiled.')
