"""Runs scenarios over the public operations on all cores and merges what
the workers report."""
import ast
import gc
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import api
from .loader import Broken, Program, where, enclosing

# heaviest first, so that the pool stays busy
HEAVY = ['NewsPOSExtractor', 'ChatPOSExtractor', 'PredicatorExtractor', 'LRNounExtractor_v2',
         'NewsNounExtractor', 'LRNounExtractor', 'EomiExtractor', 'StemExtractor', 'WordExtractor']


def tasks():
    rest = [c for c in api.CLASSES if c not in HEAVY]
    fns = sorted({n for ns in api.FUNCTIONS.values() for n in ns})
    out = [[h] for h in HEAVY]
    for i in range(0, len(rest), 6):
        out.append(rest[i:i + 6])
    out.append(fns)
    return out


def describe(e, prog):
    """an event as plain data"""
    n = e['node']
    d = {k: v for k, v in e.items() if k not in ('node', 'oid')}
    d['where'] = where(n, prog)
    d['nid'] = getattr(n, '_nid', None)
    src = None
    m = prog.modules.get(getattr(n, '_mod', ''))
    if m is not None and getattr(n, 'lineno', None):
        lines = m.src.splitlines()
        if n.lineno <= len(lines):
            src = lines[n.lineno - 1].strip()
    d['src'] = src
    return d


def held(e, d):
    """does the event concern an object that was handed over in an earlier call?"""
    lab = e.get('label') or ''
    if e.get('phase') == 'fresh' and lab.startswith('arg:') and '.' in (e.get('op') or ''):
        e['held'] = lab[4:] not in d.opparams.get(e['op'], ())
    return e


_PROG = None


def _malloc():
    """keep freed memory: large dicts come and go all the time"""
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        libc.mallopt(-3, 1 << 30)
        libc.mallopt(-1, 1 << 30)
    except Exception:
        pass


def _work(job):
    from .drive import Driver
    names, kw, setup, collect = job
    t = time.time()
    gc.disable()
    _malloc()
    d = Driver(_PROG, only=set(names), **kw)
    if setup:
        setup(d)
    d.run()
    an = d.an
    return {
        'names': names,
        'events': [held(describe(e, _PROG), d) for e in an.events.values()],
        'visited': an.visited, 'funcs': an.reached_funcs, 'calls': an.calls_resolved,
        'ops': sorted({o.qual for o in d.ops}), 'steps': an.steps, 'objs': len(an.objs),
        'queries': sorted({o.qual for o in d.ops if o.phase == 'query'}),
        'labels': sorted({o.label for o in an.objs if o.label.startswith('arg:')}),
        'exports': exports(d.base),
        'extra': collect(d) if collect else None, 'wall': time.time() - t,
    }


def exports(base):
    """names listed in __all__, and whether they exist"""
    out = {}
    for m in _PROG.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
                try:
                    names = [x for x in ast.literal_eval(n.value) if isinstance(x, str)]
                except ValueError:
                    continue
                out[m.name] = [(x, base.get(('g', m.name, x)) != frozenset() or m.name + '.' + x in _PROG.modules)
                               for x in names]
    return out


def _guard(job):
    names = job[0]
    try:
        return [_work(job)]
    except Broken as e:
        return [{'broken': str(e)}]
    except Exception as e:
        if len(names) > 1:
            out = []
            for n in names:
                out.extend(_guard(([n],) + tuple(job[1:])))
            return out
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return [{'undecided': (names[0], 'the interpreter failed: %s: %s (%s:%d)' % (
            type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno))}]


class Result:
    pass


def analyse(prog=None, setup=None, collect=None, only=None, **kw):
    global _PROG
    _PROG = prog or Program()
    jobs = [(t, kw, setup, collect) for t in tasks()]
    if only:
        jobs = [([n for n in t if n in only], kw, setup, collect) for t, _, _, _ in jobs]
        jobs = [j for j in jobs if j[0]]
    sys.setrecursionlimit(20000)
    r = Result()
    r.prog = _PROG
    r.events, r.visited, r.funcs, r.calls, r.ops, r.extra = [], set(), set(), set(), set(), []
    r.queries, r.labels, r.exports, r.undecided = set(), set(), {}, []
    r.steps = 0
    r.total_functions = sum(1 for _ in _PROG.functions())
    r.print_sites = sum(1 for m in _PROG.modules.values() for n in ast.walk(m.tree)
                        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'print'
                                                        or isinstance(n.func, ast.Attribute) and n.func.attr == 'write'
                                                        and ast.dump(n.func.value).find("'sys'") >= 0))
    n = min(8, len(jobs), (os.cpu_count() or 2))
    ctx = mp.get_context('fork')
    if n <= 1:
        outs = [_guard(j) for j in jobs]
    else:
        with ctx.Pool(n, maxtasksperchild=4) as pool:
            outs = list(pool.imap_unordered(_guard, jobs, chunksize=1))
    seen = set()
    for o in [x for y in outs for x in y]:
        if 'broken' in o:
            raise Broken(o['broken'])
        if 'undecided' in o:
            r.undecided.append(o['undecided'])
            continue
        for e in o['events']:
            k = repr(sorted((a, repr(b)) for a, b in e.items() if a not in ('stack', 'oid')))
            if k not in seen:
                seen.add(k)
                r.events.append(e)
        r.visited |= o['visited']
        r.funcs |= o['funcs']
        r.calls |= o['calls']
        r.ops |= set(o['ops'])
        r.queries |= set(o['queries'])
        r.labels |= set(o['labels'])
        r.exports.update(o['exports'])
        r.steps += o['steps']
        if o['extra'] is not None:
            r.extra.append(o['extra'])
    r.events.sort(key=lambda e: (e['where'].split(':')[0], int(e['where'].split(':')[1])
                                 if e['where'].split(':')[1].isdigit() else 0, e['kind']))
    return r
