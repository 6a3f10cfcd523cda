"""C07: errors of the code itself."""
from ..run import analyse
from ..report import Report
from .common import note_engine, chain

KINDS = {
    'unresolved_name': 'a name that is not defined', 'unresolved_attr': 'an attribute that does not exist',
    'unresolved_import': 'a module or member that does not exist', 'unbound': 'a variable no path has assigned',
    'bad_call': 'a call whose arguments do not fit the parameters', 'bad_unpack': 'an unpacking of the wrong length',
    'type_mismatch': 'an operation the operand types never support', 'not_callable': 'a call of something not callable',
    'not_iterable': 'an iteration over something not iterable', 'not_subscriptable': 'an index into something without items',
    'tuple_index': 'a tuple index out of range', 'format_args': 'a format string that does not fit its arguments',
    'raise_non_exception': 'raising something that is not an exception', 'module_fails': 'a module that cannot be imported',
    'set_readonly_property': 'setting a property that has no setter', 'missing_export': 'an exported name that does not exist',
}


def c07(tier):
    rep = Report('C07', tier, 'no reachable name, attribute, import, call, unpacking or operand error')
    r = analyse()
    note_engine(rep, r)
    for e in r.events:
        if e['kind'] not in KINDS:
            continue
        d = e.get('name') or e.get('what') or ''
        rep.violation(e['kind'], '%s|%s' % (e['fn'], d), e['where'],
                      '%s (%s) in %s, reached from %s: %s; path %s' % (KINDS[e['kind']], d, e['fn'], e['op'], e['src'], chain(e)),
                      event=e)
    for m, names in sorted(r.exports.items()):
        for n, ok in names:
            rep.count('exported_names', 1)
            if not ok:
                rep.violation('missing_export', '%s|%s' % (m, n), r.prog.modules[m].rel + ':1',
                              '%s.__all__ lists %s, which does not exist' % (m, n))
    rep.sample('calls resolved and arity-checked: %d' % len(r.calls))
    for op in sorted(r.ops)[:8]:
        rep.sample('%s: every name, attribute, call and unpacking on its paths resolves' % op)
    return rep.finish('other', 'abstract interpretation of every public operation with arguments of the documented kinds; at each '
                      'name, attribute, import, call, unpacking, subscript, operator and % / format site reached, the abstract '
                      'operands are checked; an error is reported only when it is certain for at least one abstract operand '
                      'that the analysis derived from the source (never for an unknown value).')
