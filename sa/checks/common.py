from ..loader import Broken
from ..report import Report

FLOORS = {'ops': 190, 'functions': 330}


def note_engine(rep, r, floors=True):
    """what the interpreter covered, and the floor below which it is broken"""
    rep.count('public_operations', len(r.ops))
    rep.count('functions_reached', len(r.funcs))
    rep.count('functions_total', r.total_functions)
    rep.count('call_sites_resolved', len(r.calls))
    rep.count('nodes_interpreted', len(r.visited))
    rep.count('abstract_steps', r.steps)
    for u in r.undecided:
        rep.undecide(*u)
    if floors and not r.undecided and (len(r.ops) < FLOORS['ops'] or len(r.funcs) < FLOORS['functions'] * 0.8):
        raise Broken('only %d public operations / %d functions analysed' % (len(r.ops), len(r.funcs)))


def chain(e):
    return ' -> '.join(e.get('stack') or ()) or e.get('fn', '')
