"""C11, C28: operations that stand for one or two others hand everything on unchanged."""
import ast

from ..loader import Program, Broken, where
from ..report import Report
from ..terms import Reader, canon, walk, c, ite

MAIN = ('tokenize', 'tag', 'lemmatize', 'encode', 'normalize', 'transform')
TWO = {'train_extract': (('train',), ('extract',)), 'fit_transform': (('fit',), ('transform',)),
       'fit_to_file': (('fit',), ('to_file',)), 'fit_extract': (('fit', 'train'), ('extract',))}
SAME = ('listof', 'tupleof', 'iterof')


def public_classes(prog, r):
    for mname, m in sorted(prog.modules.items()):
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef):
                yield mname, n.name


def params(f):
    return [a.arg for a in f.args.posonlyargs + f.args.args][1:], [a.arg for a in f.args.kwonlyargs]


def defaults(r, f, mod):
    a = f.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    out = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    from ..terms import State
    r.st = getattr(r, 'st', None) or State({}, {}, ())
    return {k: r.default(v, mod, {}) for k, v in out.items()}


def bind(r, f, mod, args, kw):
    """parameter -> term, defaults filled in; None when the call does not fit"""
    ps, ko = params(f)
    env = dict(zip(ps, args))
    if len(args) > len(ps):
        return None
    for k, v in kw:
        if k in env or k not in ps + ko:
            return None
        env[k] = v
    for k, v in defaults(r, f, mod).items():
        env.setdefault(k, v)
    return env


def leaves(t):
    if t[0] == 'ite':
        yield from leaves(t[2])
        yield from leaves(t[3])
    else:
        yield t


def reader(prog, opaque=()):
    r = Reader(prog)
    r.opaque = set(opaque)
    return r


def is_op(t, names):
    return t[0] == 'call' and t[1][0] == 'meth' and t[1][1] == ('p', 'self') and t[1][3] in names


def op_calls(t, names):
    return [x for x in walk(t) if is_op(x, names)]


def forwarded(rep, prog, r, caller, cf, cmod, call, cname, rule, scalars=True):
    """every parameter of the callee that the caller has too arrives unchanged; the rest are the callee's defaults"""
    key = ('m', call[1][2])
    f, mod, owner, _ = r.fns[key]
    cps = params(cf)[0]
    if cf.args.vararg is not None or cf.args.kwarg is not None:
        # all handed through, in order
        want = tuple(('p', p) for p in cps) + ((('star', ('p', '*')),) if cf.args.vararg is not None else ())
        kw = dict(call[3])
        if call[2] == want and kw == ({'**': ('p', '**')} if cf.args.kwarg is not None else {}) and cps == params(f)[0][:len(cps)]:
            return []
        return None
    env = bind(r, f, mod, call[2], call[3])
    if env is None:
        return None                  # star arguments; a wrong signature is C07's business
    ps, ko = params(cf)
    mine = set(ps + ko)
    ds = defaults(r, f, mod)
    out = []
    for p, v in env.items():
        if not looks_at(f, p):
            continue                 # the step never looks at it
        if p in mine:
            if v != ('p', p):
                out.append((p, 'gets %s instead of the %s given to %s' % (show(v), p, caller)))
        elif p in ds:
            if v != ds[p] and not any(x[0] == 'p' for x in walk(v) if x[0] != 'attr'):
                out.append((p, 'is fixed to %s, its default is %s' % (show(v), show(ds[p]))))
    return out


def show(t):
    if t[0] == 'c':
        return repr(t[1])
    if t[0] == 'p':
        return t[1]
    return t[0] + ' expression'


def c11(tier):
    rep = Report('C11', tier, '__call__ hands every argument to the named operation and returns its result unchanged')
    prog = Program()
    r0 = reader(prog)
    for mod, cname in public_classes(prog, r0):
        k = ('cls', mod, cname)
        cf, cown = r0.method(k, '__call__')
        if cf is None:
            continue
        main = next((m for m in MAIN if r0.method(k, m)[0] is not None), None)
        if main is None:
            continue
        rep.count('callable_classes', 1)
        mf, mown = r0.method(k, main)
        who = '%s.__call__' % cname
        at = where(cf, prog)
        # same options in the same order with the same defaults
        ps, pk = params(cf)
        qs, qk = params(mf)
        va = cf.args.vararg is not None, cf.args.kwarg is not None
        if not any(va):
            rep.count('parameters_compared', len(qs) + len(qk))
            ds, dt = defaults(r0, cf, cown[1]), defaults(r0, mf, mown[1])
            for i, p in enumerate(qs):
                if p in ps and ps.index(p) != i:
                    rep.violation('parameter-order', '%s|%s' % (who, p), at,
                                  'parameter %s is number %d of %s but number %d of %s.%s' % (
                                      p, ps.index(p) + 1, who, i + 1, cname, main))
            for p in qs + qk:
                if p in ds and p in dt and canon(ds[p]) != canon(dt[p]):
                    rep.violation('default', '%s|%s' % (who, p), at, 'default of %s is %s in %s and %s in %s.%s' % (
                        p, show(ds[p]), who, show(dt[p]), cname, main))
                elif (p in ds) != (p in dt) and p in ps + pk:
                    rep.violation('default', '%s|%s' % (who, p), at, '%s is optional in only one of %s and %s.%s' % (
                        p, who, cname, main))
                elif p not in ps + pk:
                    rep.violation('missing-option', '%s|%s' % (who, p), at,
                                  'option %s of %s.%s cannot be given to %s' % (p, cname, main, who))
        verdict = compare(rep, prog, mod, cname, '__call__', main, cf, cown, who, at)
        if verdict is None and not any(va):
            # the named operation may be written in terms of the call
            verdict = compare(rep, prog, mod, cname, main, '__call__', mf, mown, '%s.%s' % (cname, main), where(mf, prog))
        if verdict is None and not any(va):
            r1, r2 = reader(prog), reader(prog)
            t1, _ = r1.read_method(mod, cname, '__call__')
            t2, _ = r2.read_method(mod, cname, main)
            if not r1.imprecise and not r2.imprecise and canon(t1) == canon(t2):
                verdict = True
        if verdict is None:
            rep.undecide(who, 'not written in terms of %s and not provably the same text' % main)
        elif verdict:
            rep.sample('%s returns %s(%s) unchanged' % (who, main, ', '.join(ps)))
        rep.count('delegations_decided', 1 if verdict is not None else 0)
    if not rep.coverage.get('callable_classes'):
        raise Broken('no callable class found')
    return rep.finish('other', 'value numbering of __call__ with the named operation kept opaque: the returned term must be that '
                      'call with each parameter in its own place on every path; parameter lists and default terms are '
                      'compared position by position.')


def compare(rep, prog, mod, cname, meth, op, cf, cown, who, at):
    r = reader(prog, {op})
    t, fr = r.read_method(mod, cname, meth)
    calls = op_calls(t, {op})
    if not calls:
        return None
    bad = False
    for x in calls:
        fs = forwarded(rep, prog, r, who, cf, cown[1], x, cname, 'argument')
        if fs is None:
            return None
        for p, why in fs:
            bad = True
            rep.violation('argument', '%s|%s' % (who, p), at, '%s: %s of %s %s' % (who, p, op, why))
    for x in leaves(t):
        while x[0] in SAME:
            x = x[1]
        if is_op(x, {op}):
            continue
        if op_calls(x, {op}):
            if x[0] in ('unk', 'call', 'out', 'phi', 'item', 'choice'):
                return None if not bad else False
            bad = True
            rep.violation('result', '%s|%s' % (who, x[0]), at, '%s changes the result of %s before returning it' % (who, op))
        else:
            # a shortcut: fine when the operation returns the same there
            r2 = reader(prog)
            t2, _ = r2.read_method(mod, cname, op)
            if x[0] == 'c' and not any(y[0] in ('unk', 'choice', 'p', 'attr', 'out') or y == x for y in leaves(t2)):
                bad = True
                rep.violation('result', '%s|shortcut' % who, at, '%s returns %s on a path where %s returns tokens' % (
                    who, show(x), op))
            else:
                return None if not bad else False
    for e in r.effects:
        if e.kind in ('setattr', 'append', 'store', 'inc') and e.target == ('p', 'self'):
            return None if not bad else False
    return not bad


def c28(tier):
    rep = Report('C28', tier, 'a one-step operation is its two steps with the same options')
    prog = Program()
    r0 = reader(prog)
    for mod, cname in public_classes(prog, r0):
        k = ('cls', mod, cname)
        for name, (first, second) in TWO.items():
            f, own = r0.method(k, name)
            a = next((m for m in first if r0.method(k, m)[0] is not None), None)
            b = next((m for m in second if r0.method(k, m)[0] is not None), None)
            if f is None or a is None or b is None or own[1:] != (mod, cname) and own != k:
                continue
            rep.count('one_step_operations', 1)
            who, at = '%s.%s' % (cname, name), where(f, prog)
            r = reader(prog, {a, b})
            r.logopaque = []
            t, fr = r.read_method(mod, cname, name)
            log = r.logopaque
            if r.imprecise:
                rep.undecide(who, 'not followed: %s' % (r.imprecise[0],))
                continue
            names = [x[0][1][3] for x in log]
            if a not in names and b not in names:
                rep.undecide(who, 'does not call %s and %s' % (a, b))
                continue
            firsts = [x for x in log if x[0][1][3] == a]
            seconds = [x for x in log if x[0][1][3] == b]
            rep.count('steps_checked', len(log))
            for part, xs in ((a, firsts), (b, seconds)):
                if not xs:
                    rep.violation('step', '%s|%s' % (who, part), at, '%s never calls %s' % (who, part))
                elif len(xs) > 1 and any(not x[1] for x in xs):
                    rep.violation('step', '%s|%s' % (who, part), at, '%s calls %s more than once' % (who, part))
                elif len(xs) == 1 and xs[0][1]:
                    rep.violation('step', '%s|%s' % (who, part), at, '%s calls %s only under a condition' % (who, part))
            if firsts and seconds and names.index(a) > names.index(b):
                rep.violation('order', who, at, '%s calls %s before %s' % (who, b, a))
            for x, g in log:
                for p, why in forwarded(rep, prog, r, who, f, own[1], x, cname, 'argument') or ():
                    rep.violation('argument', '%s|%s' % (who, p), at, '%s: %s of %s %s' % (who, p, x[1][3], why))
            dd = defaults(r, f, own[1])
            for part in (a, b):
                pf, po = r.method(k, part)
                for p, v in defaults(r, pf, po[1]).items():
                    if p in dd and canon(dd[p]) != canon(v) and takes(pf, p):
                        rep.violation('default', '%s|%s|%s' % (who, part, p), at, 'default of %s is %s in %s and %s in %s.%s' % (
                            p, show(dd[p]), who, show(v), cname, part))
            # every option is used by one of the steps under its own name, or at least by one of them
            ps, ko = params(f)
            used = {y[1] for x, _ in log for v in list(x[2]) + [v for _, v in x[3]] for y in walk(v) if y[0] == 'p'}
            for p in ps + ko:
                if p not in used and any(takes(r.fns[('m', x[1][2])][0], p) for x, _ in log):
                    rep.violation('argument', '%s|%s' % (who, p), at, '%s does not hand on %s' % (who, p))
            if b != 'to_file':
                bad = [x for x in leaves(t) if not is_op(strip(x), {b})]
                if bad and seconds:
                    x = bad[0]
                    if op_calls(x, {b}) and x[0] not in ('unk', 'call', 'out', 'choice', 'item') or x[0] == 'c':
                        rep.violation('result', who, at, '%s does not return the result of %s unchanged' % (who, b))
                    else:
                        rep.undecide(who, 'returns something else than the result of %s' % b)
            rep.sample('%s = %s; %s with all options handed on' % (who, a, b))
    if not rep.coverage.get('one_step_operations'):
        raise Broken('no one-step operation found')
    return rep.finish('other', 'value numbering of the one-step operation with both steps kept opaque: exactly one unconditional call of '
                      'each, in order, every same-named option unchanged, the rest at the defaults, the second result returned.')


def takes(f, p):
    return any(a.arg == p for a in ast.walk(f.args) if isinstance(a, ast.arg)) and looks_at(f, p)


def looks_at(f, p, seen=()):
    """f does more with its parameter p than hand it to a private step that does not look at it"""
    seen += ((f, p),)
    top = f
    while getattr(top, '_parent', None) is not None:
        top = top._parent
    passed = set()
    for n in ast.walk(f):
        if not isinstance(n, ast.Call):
            continue
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        gs = [g for g in ast.walk(top) if isinstance(g, ast.FunctionDef) and g.name == name] if name.startswith('_') else []
        if not gs:
            continue
        for g in gs:
            ps = [a.arg for a in g.args.args]
            if ps[:1] == ['self']:
                ps = ps[1:]
            args = list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]
            for q, a in args:
                if isinstance(a, ast.Name) and a.id == p and ((g, q) in seen or not looks_at(g, q, seen)):
                    passed.add((a, g))
    rest = [n for n in ast.walk(f) if isinstance(n, ast.Name) and n.id == p and not any(a is n for a, _ in passed)]
    return bool(rest)


def strip(t):
    while t[0] in SAME:
        t = t[1]
    return t
