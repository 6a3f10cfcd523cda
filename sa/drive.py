"""Runs the abstract interpreter over every public operation."""
import ast
import sys

from . import interp as I
from .interp import BOT, ANY, NONE, INT, FLOAT, STR, BOOL, FALSE, TRUE, K, const, core, union, join
from .analyzer import Analyzer
from .loader import Broken, Program
from . import api

sys.setrecursionlimit(20000)


class Op:
    """one public operation as analysed"""
    __slots__ = ('cls', 'name', 'fn', 'phase', 'ret', 'state', 'node')

    def __init__(self, cls, name, phase):
        self.cls, self.name, self.phase = cls, name, phase
        self.fn = self.ret = self.state = self.node = None

    @property
    def qual(self):
        return (self.cls + '.' if self.cls else '') + self.name


class Driver:
    """quiet: every verbose / debug option is off
    tag: option parameters carry a taint tag (C08)
    defaults: every parameter that has a default is left at it, the rest carries the tag 'user' (C06)"""

    def __init__(self, prog=None, quiet=False, tag=False, hooks=None, only=None, setup=None, defaults=False):
        self.defaults = defaults
        self.prog = prog or Program()
        self.quiet, self.tag = quiet, tag
        self.an = Analyzer(self.prog)
        if setup:
            setup(self)
        if hooks:
            self.an.hooks.update(hooks)
        self.an.st.d[('flag', 'created')] = FALSE
        self.base = self.an.st
        self.ops = []
        self.only = only
        self.building = []
        self.cache = {}
        self.node = ast.parse('0').body[0]
        self.node._nid = 0
        self.node._mod = ''
        self.node._parent = None
        self.current = None
        self.serial = 0
        self.sites = {}
        self.path = []
        self.tagged = {}
        self.booleans = set()
        self.inner = BOT
        self.owner = None
        self.opparams = {}

    # -------------------------------------------------------------- values
    def label(self, name, f):
        an = self.an
        old, an.label = an.label, name
        try:
            return f()
        finally:
            an.label = old

    def mknode(self):
        """every built argument is a site of its own, the same one every time
        the operation is called"""
        key = None
        if self.path:
            self.path[-1][1] += 1
            key = tuple((a, n) for a, n in self.path)
            if key in self.sites:
                return self.sites[key]
        self.serial -= 1
        n = ast.copy_location(ast.Pass(), self.node)
        n._nid, n._mod, n._parent = self.serial, '', None
        if key:
            self.sites[key] = n
        return n

    def kind(self, spec, label):
        out = BOT
        for alt in spec.split('|'):
            out = union(out, self.kind1(alt.split(':'), label))
        return out

    def kind1(self, t, label):
        v, rest = self._kind(t, label)
        return v

    def _kind(self, t, label):
        an = self.an
        h, t = t[0], t[1:]
        prim = {'str': STR, 'int': INT, 'float': FLOAT, 'bool': BOOL, 'none': NONE}
        if h in prim:
            return prim[h] | self.inner, t
        if h == 'any':
            return frozenset([('u', label)]) | self.inner, t
        if h == 'fn':
            return frozenset([('u', '')]), t
        if h in ('list', 'set'):
            e, t = self._kind(t, label)
            return self.label(label, lambda: frozenset([an.alloc(h, self.mknode(), e=e)])), t
        if h in ('dict', 'ddict'):
            k, t = self._kind(t, label)
            e, t = self._kind(t, label)
            return self.label(label, lambda: frozenset(
                [an.alloc('dict' if h == 'dict' else 'defaultdict', self.mknode(), k=k, e=e)])), t
        if h.startswith('tuple'):
            items = []
            for _ in range(int(h[5:])):
                x, t = self._kind(t, label)
                items.append(x)
            return frozenset([('t', tuple(items), None)]), t
        if h == 'nt':
            return frozenset([('t', (FLOAT, INT), None)]), []
        if h == 'inst':
            name, t = t[0], t[1:]
            if name == 'LRGraph' and label.startswith('arg:') and self.owner in api.WORKING:
                label = 'shared'
            return self.instance(name, label), t
        if h == 'res':
            target, one = t[0], len(t) > 1
            cname, meth = target.split('.')
            v = self.result(cname, meth, label)
            if one and self.an.st is not None:
                v = an.iterate(v, self.mknode())
            return v, []
        raise Broken('unknown argument kind %s' % h)

    def result(self, cname, meth, label):
        an = self.an

        def f():
            inst = self.instance(cname, label)
            m = self.method(inst, meth)
            save = an.st
            args, kw = self.args(m, cname, meth, label)
            r = an.call(m, args, kw, self.mknode())
            if an.st is None:
                an.st = save
                return frozenset([('u', label)])
            return r
        return self.label(label, f)

    def instance(self, name, label):
        """an argument object: built by its constructor under its owner's label"""
        key = (name, label)
        if key in self.building:
            return frozenset([('u', label)])
        self.building.append(key)
        an = self.an
        try:
            cv = self.klass(name)
            spec = api.CLASSES[name]

            def f():
                args, kw = self.args(self.ctor(cv), name, '__init__', label, True)
                save = an.st
                r = an.call(cv, args, kw, self.mknode())
                if an.st is None:
                    an.st = save
                    return frozenset([('u', label)])
                for t in spec['train']:
                    self.invoke(r, name, t, label)
                return r
            quiet = an.quiet_mut
            return self.label(label, f)
        finally:
            self.building.pop()

    def klass(self, name):
        spec = api.CLASSES[name]
        v = self.an.st.get(('g', spec['mod'], name))
        v = frozenset(a for a in v if a[0] == 'C')
        if not v:
            raise Broken('public class %s.%s is missing' % (spec['mod'], name))
        return v

    def ctor(self, cv):
        k = next(iter(cv))[1]
        v = self.an.class_attr(k, '__init__')
        return frozenset(a for a in v if a[0] == 'f')

    def method(self, inst, name):
        an = self.an
        out = BOT
        for a in inst:
            if a[0] == 'o':
                out = union(out, an.getattr_atom(a, name, self.mknode(), quiet=True) or BOT)
        return out

    # -------------------------------------------------------------- arguments
    def funcs_of(self, fv):
        for a in fv:
            if a[0] == 'f':
                yield self.an.funcs[a[1]], False
            elif a[0] == 'm':
                yield self.an.funcs[a[1][1]], True

    def args(self, fv, cname, meth, label, ctor=False):
        """keyword arguments for a call of the public function value fv"""
        spec = api.CLASSES.get(cname, {})
        kinds = spec.get('kinds', {})
        mk = spec.get('mkinds', {}).get(meth, {})
        fk = {} if cname else api.FKINDS.get(meth, {})
        pos = []
        for f, bound in self.funcs_of(fv):
            a = f.node.args
            ps = a.posonlyargs + a.args
            if bound or (ctor and ps):
                ps = ps[1:]
            for p in ps + a.kwonlyargs:
                n = p.arg
                d = f.defaults.get(n, f.kwdefaults.get(n))
                self.path.append(['%s.%s:%s@%s' % (cname, meth, n, label), 0])
                sp = mk.get(n) or fk.get(n) or kinds.get(n)
                own = label
                self.owner = (cname, n)
                if label == '@':
                    own = 'arg:%s' % n
                    self.opparams.setdefault((cname + '.' if cname else '') + meth, set()).add(n)
                t = '%s%s:%s' % (cname + '.' if cname else '', meth, n)
                # what an argument contains is tagged as well
                self.inner = frozenset([('#', t)]) if self.tag and label == '@' else BOT
                if n == 'encoding' and d is not None:
                    v = d
                elif self.defaults and d is not None and core(d):
                    v = d
                elif self.quiet and n in api.FLAGS:
                    v = FALSE
                elif self.quiet and n == 'verbose_points':
                    v = const(0)
                elif sp:
                    v = union(self.kind(sp, own), d or BOT)
                elif d is not None and core(d) and not any(x[0] == 'c' and x[2] is None for x in d):
                    v = d
                    for x in d:
                        if x[0] == 'c':
                            v = union(v, {'bool': BOOL, 'int': INT, 'float': FLOAT, 'str': STR}.get(x[1], ANY))
                            if x[1] == 'int' and meth != 'fold':
                                pass
                        elif x[0] in ('o', 'f'):
                            v = union(v, frozenset([('u', own)]))
                elif n in api.PARAMS:
                    v = union(self.kind(api.PARAMS[n], own), d or BOT)
                else:
                    v = union(frozenset([('u', own)]), d or BOT)
                if self.defaults and (d is None or not core(d)):
                    v = v | {('#', 'user')}
                self.inner = BOT
                if self.tag:
                    self.tagged[t] = p
                    if n in api.FLAGS or d is not None and any(x[0] == 'c' and x[1] == 'bool' for x in d):
                        self.booleans.add(t)
                    v = v | {('#', t)}
                pos.append((n, v))
                self.path.pop()
            break
        return [], dict(pos)

    def invoke(self, inst, cname, meth, label):
        """call a method of an argument or model object; state is updated"""
        self.path.append(['call %s.%s' % (cname, meth), 0])
        try:
            return self._invoke(inst, cname, meth, label)
        finally:
            self.path.pop()

    def _invoke(self, inst, cname, meth, label):
        an = self.an
        save = an.st
        for a in inst:
            if a[0] == 'o' and any(p[0] == 'property' for p in an.class_attr(an.objs[a[1]].cls, meth)):
                r = an.getattr_atom(a, meth, self.mknode())
                if an.st is None:
                    an.st = save
                    return BOT, None
                return r, an.st
        m = self.method(inst, meth)
        if not m:
            raise Broken('public method %s.%s is missing' % (cname, meth))
        args, kw = self.args(m, cname, meth, label)
        r = an.call(m, args, kw, self.mknode())
        an.end_op()
        if an.st is None:
            an.st = save
            return BOT, None
        return r, an.st

    # -------------------------------------------------------------- scenarios
    def run(self):
        for name in api.CLASSES:
            if self.only and name not in self.only:
                continue
            self.run_class(name)
        for mod, names in api.FUNCTIONS.items():
            for n in names:
                if self.only and n not in self.only:
                    continue
                self.run_function(mod, n)
        return self

    def begin(self, op, node=None):
        self.current = op
        self.an.current_op = op.qual
        self.ops.append(op)

    def run_class(self, name):
        an = self.an
        spec = api.CLASSES[name]
        an.st = self.base.copy()
        cv = self.klass(name)
        for m in spec['train'] + spec['mut'] + spec['q'] + spec.get('last', []):
            if not an.class_attr(next(iter(cv))[1], m):
                raise Broken('public method %s.%s is missing' % (name, m))
        op = Op(name, '__init__', 'model')
        self.begin(op)
        args, kw = self.args(self.ctor(cv), name, '__init__', '@', True)
        an.label = 'model'
        node = self.mknode()
        inst = an.call(cv, args, kw, node)
        an.end_op()
        op.ret, op.state = inst, an.st
        if an.st is None:
            an.label = 'global'
            op.phase = 'fails'
            if not spec.get('abstract'):
                an.ev('never_returns', an.classes[next(iter(cv))[1]].node, what=name)
            return
        for t in spec['train']:
            op = Op(name, t, 'model')
            self.begin(op)
            op.ret, op.state = self.invoke(inst, name, t, '@')
            if op.state is None and not spec.get('abstract'):
                an.ev('never_returns', an.classes[next(iter(cv))[1]].node, what='%s.%s' % (name, t))
        for rnd in range(4):
            before = an.st
            cur = before
            for m in spec['mut']:
                if self.quiet and (name, m) in api.OWN_VERBOSITY:
                    continue
                an.st = before.copy()
                op = Op(name, m, 'model')
                self.begin(op)
                op.ret, op.state = self.invoke(inst, name, m, '@')
                if op.state is None and not spec.get('abstract'):
                    an.ev('never_returns', an.classes[next(iter(cv))[1]].node, what='%s.%s' % (name, m))
                cur = join(cur, an.st)
            an.st = cur
            if cur is before or self.same(cur, before, inst):
                break
        model = an.st
        for m in spec.get('last', []):
            an.st = model.copy()
            op = Op(name, m, 'model')
            self.begin(op)
            op.ret, op.state = self.invoke(inst, name, m, '@')
        for m in spec['q']:
            an.st = model.copy()
            op = Op(name, m, 'query')
            self.begin(op)
            an.label = 'fresh'
            op.ret, op.state = self.invoke(inst, name, m, '@')
            if op.state is None and not spec.get('abstract'):
                an.ev('never_returns', an.classes[next(iter(cv))[1]].node, what='%s.%s' % (name, m))
            an.label = 'model'
        an.label = 'global'
        self.model = model
        self.inst = inst

    def same(self, a, b, inst):
        """did another round of mutators change what the object may hold?"""
        seen, todo = set(), [x for x in inst if x[0] == 'o']
        while todo:
            x = todo.pop()
            if x[1] in seen:
                continue
            seen.add(x[1])
            for k, v in a.d.items():
                if k[0] in ('a', 'e', 'k') and k[1] == x[1]:
                    if b.d.get(k) != v:
                        return False
                    for y in v:
                        if y[0] == 'o' and y[1] not in seen:
                            todo.append(y)
        return True

    def run_function(self, mod, name):
        an = self.an
        an.st = self.base.copy()
        fv = an.st.get(('g', mod, name))
        if not fv and name.startswith('_'):
            return              # renamed: whatever uses it is looked at anyway
        if not fv:
            raise Broken('public function %s.%s is missing' % (mod, name))
        op = Op('', name, 'query')
        self.begin(op)
        args, kw = self.args(fv, '', name, '@')
        an.label = 'fresh'
        op.ret = an.call(fv, args, kw, self.mknode())
        an.end_op()
        op.state = an.st
        an.label = 'global'
        if an.st is None:
            for f, _ in self.funcs_of(fv):
                an.ev('never_returns', f.node, what=name)
