"""Whole-program, flow- and context-sensitive abstract interpreter.

A value is a frozenset of atoms:
  ('c', type, v)          a known constant
  ('k', kind)             some value of a primitive kind
  ('o', oid)              an abstract heap object
  ('t', (AV, ...), nt)    a tuple (nt: namedtuple tag or None)
  ('T', AV)               a tuple of unknown length
  ('f', fid)              a function of the package
  ('m', fatom, selfatom)  a bound method
  ('C', ckey)             a class of the package
  ('N', name, fields)     a namedtuple class
  ('M', mod)              a module of the package
  ('E', dotted)           something outside the package
  ('B', name)             a builtin
  ('b', recv, name)       a method of a builtin type, bound
  ('u', label)            an unknown value (label: who owns it, '' nobody)
  ('#', tag)              a taint tag
Nothing of the analysed program is executed; loops run to a fixpoint of the
abstract state.
"""
import ast
import builtins as _bi
import posixpath
import sys

from .loader import Broken, enclosing

BOT = frozenset()
STR_METHODS = set(m for m in dir(str) if not m.startswith('_'))
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse',
            'update', 'add', 'discard', 'popitem', 'setdefault', 'appendleft',
            'popleft', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'subtract', 'extendleft', 'rotate',
            '__setitem__', '__delitem__', '__iadd__', 'resize', 'setflags', 'fill',
            'sum_duplicates', 'eliminate_zeros'}
BUILTINS = set(dir(_bi))
CONST_CAP = 24
PRIM_TYPES = {'int', 'float', 'str', 'bool', 'bytes'}


def C(v):
    return ('c', type(v).__name__, v)


def const(v):
    return frozenset([C(v)])


def K(kind):
    return frozenset([('k', kind)])


NONE = const(None)
INT, FLOAT, STR, BOOL = K('int'), K('float'), K('str'), K('bool')
ANY = frozenset([('u', '')])
TRUE, FALSE = const(True), const(False)


def tags(av):
    return frozenset(a for a in av if a[0] == '#')


def core(av):
    return frozenset(a for a in av if a[0] != '#')


def union(*avs):
    n = len(avs)
    if n == 2:
        a, b = avs
        if a is b or not b:
            return a
        if not a:
            return b
        if a <= b:
            return b
        if b <= a:
            return a
        return norm(a | b)
    r = BOT
    for a in avs:
        r = union(r, a)
    return r


def depth(av, d=0):
    if d > 5:
        return d
    m = d
    for a in av:
        if a[0] == 't':
            for i in a[1]:
                m = max(m, depth(i, d + 1))
    return m


def norm(av):
    """keep values finite: merge equal-shape tuples, widen constants"""
    tup, con = {}, []
    rest = []
    for a in av:
        if a[0] == 't':
            tup.setdefault((len(a[1]), a[2]), []).append(a)
        elif a[0] == 'c':
            con.append(a)
        else:
            rest.append(a)
    changed = False
    out = set(rest)
    for (n, nt), ts in tup.items():
        if len(ts) == 1:
            t = ts[0]
        else:
            changed = True
            t = ('t', tuple(union(*[x[1][i] for x in ts]) for i in range(n)), nt)
        if depth(frozenset([t])) > 5:
            changed = True
            t = ('u', '')
        out.add(t)
    arities = [a for a in out if a[0] == 't' and a[2] is None]
    if len(arities) > 6:
        changed = True
        e = BOT
        for a in arities:
            out.discard(a)
            e = union(e, *a[1])
        out.add(('T', e))
    big = [a for a in out if a[0] == 'T']
    if len(big) > 1:
        changed = True
        e = union(*[b[1] for b in big])
        for b in big:
            out.discard(b)
        out.add(('T', e))
    if con:
        byt = {}
        for a in con:
            byt.setdefault(a[1], []).append(a)
        for t, cs in byt.items():
            cap = CONST_CAP if t == 'str' else 6
            if len(cs) > cap or ('k', t) in out:
                if t in PRIM_TYPES:
                    changed = True
                    out.add(('k', t))
                    continue
            out.update(cs)
    if not changed:
        return av
    return frozenset(out)


class Obj:
    __slots__ = ('oid', 'kind', 'cls', 'label', 'node', 'ctx', 'extra')

    def __init__(self, oid, kind, cls, label, node, ctx, extra):
        self.oid, self.kind, self.cls, self.label = oid, kind, cls, label
        self.node, self.ctx, self.extra = node, ctx, extra


class Func:
    __slots__ = ('fid', 'node', 'mod', 'qual', 'penv', 'cls', 'defaults', 'kwdefaults',
                 'deco', 'locals', 'isgen', 'hasnested', 'globs')


class Cls:
    def __init__(self, key, node, mod, bases):
        self.key, self.node, self.mod, self.bases = key, node, mod, bases


_MISS = object()
_DEL = object()


class SD:
    """a dictionary as a shared immutable base plus a small overlay"""
    __slots__ = ('b', 'm')

    def __init__(self, b=None, m=None):
        self.b = {} if b is None else b
        self.m = {} if m is None else m

    def get(self, k, default=None):
        v = self.m.get(k, _MISS)
        if v is _MISS:
            return self.b.get(k, default)
        return default if v is _DEL else v

    def __getitem__(self, k):
        v = self.get(k, _MISS)
        if v is _MISS:
            raise KeyError(k)
        return v

    def __setitem__(self, k, v):
        self.m[k] = v

    def __contains__(self, k):
        v = self.m.get(k, _MISS)
        if v is _MISS:
            return k in self.b
        return v is not _DEL

    def pop(self, k, default=None):
        v = self.get(k, _MISS)
        if v is _MISS:
            return default
        if k in self.b:
            self.m[k] = _DEL
        else:
            del self.m[k]
        return v

    def flat(self):
        if self.m:
            d = dict(self.b)
            for k, v in self.m.items():
                if v is _DEL:
                    d.pop(k, None)
                else:
                    d[k] = v
            self.b, self.m = d, {}
        return self.b

    def items(self):
        return self.flat().items()

    def __iter__(self):
        return iter(self.flat())

    def __len__(self):
        return len(self.flat())


class State:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = SD() if d is None else d

    def copy(self):
        d = self.d
        if len(d.m) > 600:
            d.flat()
        return State(SD(d.b, dict(d.m)))

    def get(self, k):
        v = self.d.m.get(k, _MISS)
        if v is _MISS:
            return self.d.b.get(k, BOT)
        return BOT if v is _DEL else v


def join(a, b):
    """least upper bound; returns a itself when b adds nothing to it"""
    if a is None:
        return b
    if b is None or a is b:
        return a
    da, db = a.d, b.d
    if da.b is db.b:
        am, bm = da.m, db.m
        get = am.get
        keys = [k for k, v in bm.items() if get(k, _MISS) is not v]
        keys += [k for k in am if k not in bm]
    else:
        fa, fb = da.flat(), db.flat()
        keys = [k for k, v in fb.items() if fa.get(k) is not v]
        keys += [k for k in fa if k[0] == 'x' and k not in fb]
    out = None
    for k in keys:
        w = da.get(k)
        v = db.get(k)
        if w is v:
            continue
        if k[0] == 'x':
            if w is not None and v is not None:
                if w == v:
                    continue
                n = None
            elif w is None:
                # exact contents known on one side only stay valid if the
                # object does not exist on the other side
                n = None if ('e', k[1]) in da else v
            else:
                n = None if ('e', k[1]) in db else w
        elif w is None:
            n = v
        elif v is None:
            continue
        else:
            n = union(w, v)
        if n is w or n == w:
            continue
        if out is None:
            out = SD(da.b, dict(da.m))
        if n is None:
            out.pop(k)
        else:
            out[k] = n
    return a if out is None else State(out)


class Frame:
    __slots__ = ('f', 'fid', 'ctx', 'ret', 'ret_state', 'yields', 'scopes', 'ismod')

    def __init__(self, f, fid, ctx, ismod=False):
        self.f, self.fid, self.ctx = f, fid, ctx
        self.ret, self.ret_state, self.yields = BOT, None, BOT
        self.ismod = ismod
        self.scopes = [] if ismod else [fid] + list(f.penv or ())


OPEN = ('open',)


def _catch_all(h):
    t = h.type
    names = [t] if not isinstance(t, ast.Tuple) else t.elts
    return t is None or any(isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException') for x in names)


def _may_raise(s):
    """can this statement (without the blocks inside it) raise in practice?"""
    got = getattr(s, '_raises', None)
    if got is None:
        got = s._raises = _raises(s)
    return got


def _raises(s):
    if isinstance(s, (ast.Raise, ast.For, ast.Assert)):
        return True
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Try)):
        return False
    todo = []
    if isinstance(s, (ast.If, ast.While)):
        todo = [s.test]
    elif isinstance(s, ast.With):
        todo = [i.context_expr for i in s.items]
    else:
        todo = [s]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Attribute) and n.func.attr in ('close', 'append', 'add', 'strip')
                    or isinstance(n.func, ast.Name) and n.func.id == 'print'
                    or isinstance(n.func, ast.Name) and n.func.id in ('len', 'isinstance', 'set', 'list', 'dict',
                                                                      'defaultdict', 'tuple', 'enumerate')
                    and not n.args):
                return True
        elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Subscript)):
            return True
        elif isinstance(n, ast.Lambda):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Base:
    HEAP_K = 3
    MAX_DEPTH = 40

    def __init__(self, prog, pyversion='3.12.3 (main)'):
        self.prog = prog
        self.pyversion = pyversion
        self.objs = []
        self.okeys = {}
        self.funcs = []
        self.fkeys = {}
        self.classes = {}
        self.frames = {}
        self.weak = set()
        self.events = {}
        self.visited = set()
        self.reached_funcs = set()
        self.calls_resolved = set()
        self.stack = []
        self.exc = []
        self.st = State()
        self.label = 'global'
        self.modstate = {}
        self.rec_ret = {}
        self.uses = {}
        self.passes = set()
        self.steps = 0
        self.hooks = {}
        self.loops = []
        self.leaks = []
        self.closed = set()
        self.leak_events = {}
        self.current_op = ''
        self.in_handler = 0
        self.nt_fields = {}
        self.quiet_mut = False
        self._locals_cache = {}
        self.class_env, self.class_env_frame = [], []
        for name in sorted(prog.modules):
            self.import_module(name)
        self.nimport = len(self.objs)

    # ------------------------------------------------------------- events
    def ev(self, kind, node, **kw):
        key = (kind, getattr(node, '_nid', None), self.current_op, self.in_handler > 0, tuple(sorted(kw.items(), key=lambda x: x[0])))
        if key not in self.events:
            self.events[key] = {'kind': kind, 'node': node, 'op': self.current_op,
                                'handler': self.in_handler,
                                'stack': tuple(f.f.qual for f in self.stack[-6:]),
                                'fn': self.stack[-1].f.qual if self.stack else '<module>',
                                **kw}

    # ------------------------------------------------------------- open files
    def opened(self, a):
        self.st.d[OPEN] = union(self.st.get(OPEN), frozenset([a]))

    def protect(self, v):
        """the files in v are closed on every path from here (closed, or in a with)"""
        op = self.st.get(OPEN)
        if op:
            fs = frozenset(a for a in v if a[0] == 'o')
            self.closed |= {a[1] for a in fs}
            if op & fs:
                self.st.d[OPEN] = op - fs

    def escape(self, op, node):
        for a in op:
            self.leak(a[1], node)

    def leak(self, oid, node):
        if self.leaks:
            self.leaks[-1].setdefault(oid, node)
        else:
            self.ev('leak', self.objs[oid].node, oid=oid, how='exception', opener=enclosing(self.objs[oid].node),
                    at='%s:%s' % (getattr(node, '_mod', ''), enclosing(node)), line=getattr(node, 'lineno', 0))

    def end_op(self):
        """a public operation has returned: nothing it opened may still be open"""
        if self.st is None:
            return
        for a in self.st.get(OPEN):
            self.ev('leak', self.objs[a[1]].node, oid=a[1], how='return', at='', line=0,
                    opener=enclosing(self.objs[a[1]].node))
        self.st.d.pop(OPEN, None)

    def use(self, av, node, how=''):
        for a in av:
            if a[0] == '#':
                self.uses.setdefault(a[1], set()).add((node._nid, how))
            elif a[0] == 't':
                for i in a[1]:
                    self.use(i, node, how)

    # ------------------------------------------------------------- heap
    def alloc(self, kind, node, cls=None, extra=None, e=None, k=None):
        ctx = self.stack[-1].ctx[-self.HEAP_K:] if self.stack else ()
        key = (kind, cls, getattr(node, '_nid', node), ctx, self.label, extra)
        oid = self.okeys.get(key)
        if oid is None:
            oid = len(self.objs)
            self.okeys[key] = oid
            self.objs.append(Obj(oid, kind, cls, self.label, node, ctx, extra))
        d = self.st.d
        if ('e', oid) in d:
            self.weak.add(oid)
            d.pop(('x', oid), None)
            d[('e', oid)] = union(d[('e', oid)], e or BOT)
            d[('k', oid)] = union(d.get(('k', oid), BOT), k or BOT)
        else:
            d[('e', oid)] = e or BOT
            d[('k', oid)] = k or BOT
        return ('o', oid)

    def new_list(self, node, e, extra=None, x=None):
        a = self.alloc('list', node, extra=extra, e=e)
        if x is not None and a[1] not in self.weak:
            self.st.d[('x', a[1])] = tuple(x)
        return a

    def mutate(self, oid, node, how, what=''):
        self.st.d.pop(('x', oid), None)
        o = self.objs[oid]
        if o.label != self.label:
            self.ev('mutate', node, oid=oid, label=o.label, phase=self.label, how=how, what=what)

    def mutate_u(self, label, node, how):
        if label:
            self.ev('mutate', node, oid=-1, label=label, phase=self.label, how=how, what='')

    def add_e(self, oid, v):
        d = self.st.d
        d[('e', oid)] = union(d.get(('e', oid), BOT), v)

    def add_k(self, oid, v):
        d = self.st.d
        d[('k', oid)] = union(d.get(('k', oid), BOT), v)

    # ------------------------------------------------------------- modules
    def import_module(self, name):
        if name not in self.prog.modules:
            return False
        if name in self.modstate:
            return True
        self.modstate[name] = 'running'
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            self.import_module(parent)
            self.st.d[('g', parent, name.rsplit('.', 1)[1])] = frozenset([('M', name)])
        m = self.prog.modules[name]
        self.st.d[('g', name, '__name__')] = const(name)
        self.st.d[('g', name, '__file__')] = const(m.path)
        f = Func()
        f.node, f.mod, f.qual, f.penv, f.cls = m.tree, name, '<module %s>' % name, None, None
        f.defaults, f.kwdefaults, f.deco = {}, {}, ()
        f.locals, f.isgen, f.hasnested, f.globs = set(), False, True, ()
        f.fid = -1
        fr = Frame(f, ('mod', name), (), True)
        save = (self.stack, self.label, self.exc, self.class_env, self.class_env_frame)
        self.stack, self.label, self.exc = [fr], 'global', []
        self.class_env, self.class_env_frame = [], []
        before = self.st.copy()
        self.exec_block(m.tree.body)
        if self.st is None:
            self.ev('module_fails', m.tree, mod=name)
            self.st = before
        self.stack, self.label, self.exc, self.class_env, self.class_env_frame = save
        self.modstate[name] = 'done'
        return True

    # ------------------------------------------------------------- names
    def fn_locals(self, node):
        got = self._locals_cache.get(node._nid)
        if got is not None:
            return got
        names, glob, nonl = set(), set(), set()
        isgen = [False]
        nested = [False]

        def targets(t):
            if isinstance(t, ast.Name):
                names.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    targets(e)
            elif isinstance(t, ast.Starred):
                targets(t.value)

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                nested[0] = True
                return
            if isinstance(n, ast.Lambda):
                nested[0] = True
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Lambda):
                        nested[0] = True
                    if isinstance(x, ast.NamedExpr):
                        names.add(x.target.id)
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                isgen[0] = True
            if isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    targets(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                targets(n.target)
            elif isinstance(n, ast.For):
                targets(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        targets(i.optional_vars)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.NamedExpr):
                names.add(n.target.id)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    targets(t)
            for ch in ast.iter_child_nodes(n):
                walk(ch)

        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(p.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            walk(s)
        names -= glob | nonl
        got = (names, isgen[0], nested[0], glob)
        self._locals_cache[node._nid] = got
        return got

    def make_func(self, node, defaults, kwdefaults, cls=None, deco=()):
        fr = self.stack[-1] if self.stack else None
        penv = tuple(fr.scopes) if fr is not None and fr.scopes else None
        key = (node._nid, penv)
        fid = self.fkeys.get(key)
        if fid is None:
            fid = len(self.funcs)
            self.fkeys[key] = fid
            f = Func()
            f.fid, f.node, f.mod = fid, node, node._mod
            f.qual = node._qual
            f.penv, f.cls, f.deco = penv, cls, deco
            f.locals, f.isgen, f.hasnested, f.globs = self.fn_locals(node)
            f.defaults, f.kwdefaults = dict(defaults), dict(kwdefaults)
            self.funcs.append(f)
        else:
            f = self.funcs[fid]
            for n, v in defaults.items():
                f.defaults[n] = union(f.defaults.get(n, BOT), v)
        return ('f', fid)

    def lookup(self, name, node):
        fr = self.stack[-1]
        d = self.st.d
        for env in fr.scopes:
            v = d.get(('l', env, name))
            if v is not None:
                return v
        f = fr.f
        if not fr.ismod and name in f.locals:
            self.ev('unbound', node, name=name)
            self.st = None
            return BOT
        v = d.get(('g', f.mod, name))
        if v is not None:
            return v
        if name in BUILTINS:
            if name == 'None':
                return NONE
            return frozenset([('B', name)])
        if fr.ismod and self.class_env:
            v = d.get(('ca', self.class_env[-1], name))
            if v is not None:
                return v
        self.ev('unresolved_name', node, name=name, mod=f.mod)
        self.st = None
        return BOT

    def bind(self, name, v, comp=False):
        fr = self.stack[-1]
        if self.st is None:
            return
        if comp:
            self.st.d[('l', fr.scopes[0], name)] = v
            return
        if self.class_env and self.class_env_frame[-1] is fr:
            self.st.d[('ca', self.class_env[-1], name)] = v
            return
        if fr.ismod or name in fr.f.globs:
            self.st.d[('g', fr.f.mod, name)] = v
            return
        if name not in fr.f.locals and fr.f.penv:
            for env in fr.f.penv:
                if ('l', env, name) in self.st.d:
                    self.st.d[('l', env, name)] = union(self.st.d[('l', env, name)], v)
                    return
        self.st.d[('l', fr.fid, name)] = v

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def snap(self):
        if self.exc and self.st is not None:
            st = self.st.copy()
            st.d.pop(OPEN)      # open files are followed by self.leaks
            self.exc[-1] = join(self.exc[-1], st)

    def exec_stmt(self, s):
        self.visited.add(s._nid)
        self.steps += 1
        if self.exc:
            self.snap()
        op = self.st.d.get(OPEN)
        if op and _may_raise(s):
            self.escape(op, s)
        getattr(self, 's_' + type(s).__name__, self.s_unknown)(s)
        if self.exc and self.st is not None:
            self.snap()

    def s_unknown(self, s):
        self.ev('unsupported', s, what=type(s).__name__)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            if self.st is None:
                return
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.st is not None:
                self.assign(s.target, v)

    def s_AugAssign(self, s):
        load = _as_load(s.target)
        cur = self.eval(load)
        if self.st is None:
            return
        v = self.eval(s.value)
        if self.st is None:
            return
        out = BOT
        imm = BOT
        for a in cur:
            if a[0] == 'o' and self.objs[a[1]].kind in ('list', 'set', 'dict', 'deque'):
                self.mutate(a[1], s, type(s.op).__name__ + '=')
                if self.objs[a[1]].kind == 'dict':
                    for b in v:
                        if b[0] == 'o':
                            self.add_k(a[1], self.st.get(('k', b[1])))
                            self.add_e(a[1], self.st.get(('e', b[1])))
                elif not isinstance(s.op, ast.Sub):
                    self.add_e(a[1], self.iterate(v, s))
                out = union(out, frozenset([a]))
            elif a[0] == 'u' and a[1]:
                if not core(v) or any(b[0] in ('o', 'u', 't', 'T') for b in v):
                    if self.strict_u(a[1], v):
                        self.mutate_u(a[1], s, type(s.op).__name__ + '=')
                imm = union(imm, frozenset([a]))
            else:
                imm = union(imm, frozenset([a]))
        if imm:
            out = union(out, self.binop(s.op, imm, v, s))
        self.assign(s.target, out)

    def strict_u(self, label, v):
        return any(b[0] == 'o' for b in v)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st is None:
            return
        fr = self.stack[-1]
        fr.ret = union(fr.ret, v)
        fr.ret_state = join(fr.ret_state, self.st)
        self.hook('return', s, v)
        self.st = None

    def hook(self, name, *a):
        h = self.hooks.get(name)
        if h:
            h(self, *a)

    def s_Raise(self, s):
        if s.exc is not None:
            v = self.eval(s.exc)
            if self.st is not None and core(v) and not any(
                    a[0] in ('C', 'E', 'o', 'u', 'B') and a != ('B', 'NotImplemented') for a in v):
                self.ev('raise_non_exception', s)
        if self.st is not None:
            self.snap()
        self.st = None

    def s_Assert(self, s):
        t, f = self.branch(s.test)
        if f is not None and s.msg is not None:
            self.st = f
            self.eval(s.msg)
        self.st = t

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.stack[-1]
                self.lookup(t.id, t)
                if self.st is None:
                    return
                self.st.d.pop(('l', fr.fid, t.id), None)
                if fr.ismod:
                    self.st.d.pop(('g', fr.f.mod, t.id), None)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                if self.st is None:
                    return
                for a in b:
                    if a[0] == 'o':
                        self.mutate(a[1], t, 'del attribute', t.attr)
                        if a[1] not in self.weak and len(core(b)) == 1:
                            self.st.d.pop(('a', a[1], t.attr), None)
                    elif a[0] == 'u':
                        self.mutate_u(a[1], t, 'del attribute')
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                if self.st is None:
                    return
                i = self.eval(t.slice)
                if self.st is None:
                    return
                self.use(i, t, 'index')
                for a in b:
                    if a[0] == 'o':
                        self.mutate(a[1], t, 'del item')
                    elif a[0] == 'u':
                        self.mutate_u(a[1], t, 'del item')

    def s_If(self, s):
        t, f = self.branch(s.test)
        self.st = t
        if t is not None:
            self.hook('enter', s, True)
            self.exec_block(s.body)
            self.hook('leave', s, True)
        a = self.st
        self.st = f
        if f is not None:
            self.hook('enter', s, False)
            self.exec_block(s.orelse)
            self.hook('leave', s, False)
        self.st = join(a, self.st)

    def loop(self, s, head_fn, body, orelse):
        """head_fn(): from self.st produce (state entering the body or None,
        state leaving the loop or None)"""
        head = self.st
        exit_state = None
        brk = None
        for it in range(12):
            self.st = head.copy()
            ent, ext = head_fn()
            exit_state = ext
            if ent is None:
                break
            self.loops.append([None, None])
            self.st = ent
            self.exec_block(body)
            b, c = self.loops.pop()
            brk = join(brk, b)
            after = join(self.st, c)
            new = join(head, after)
            if new is head:
                break
            head = new
        else:
            self.ev('no_fixpoint', s)
        self.st = exit_state
        if orelse and self.st is not None:
            self.exec_block(orelse)
        self.st = join(self.st, brk)

    def s_For(self, s):
        itv = self.eval(s.iter)
        if self.st is None:
            return
        self.use(itv, s, 'iter')
        node = s

        def head():
            e = self.iterate(itv, node)
            if self.st is None:
                return None, None
            ext = self.st
            if not core(e):
                return None, ext
            self.st = ext.copy()
            self.assign(s.target, e)
            return self.st, ext
        self.loop(s, head, s.body, s.orelse)

    def s_While(self, s):
        self.loop(s, lambda: self.branch(s.test), s.body, s.orelse)

    def s_Break(self, s):
        l = self.loops[-1]
        l[0] = join(l[0], self.st)
        self.st = None

    def s_Continue(self, s):
        l = self.loops[-1]
        l[1] = join(l[1], self.st)
        self.st = None

    def s_With(self, s):
        closing = []
        for it in s.items:
            v = self.eval(it.context_expr)
            if self.st is None:
                return
            self.protect(v)
            ent = BOT
            for a in v:
                if a[0] == 'o' and self.objs[a[1]].kind == 'inst':
                    m = self.getattr_atom(a, '__enter__', it.context_expr, quiet=True)
                    if m:
                        ent = union(ent, self.call(m, [], {}, s))
                        if self.st is None:
                            return
                        continue
                ent = union(ent, frozenset([a]))
            closing.append((v, it))
            for a in v:
                if a[0] == 'o' and self.objs[a[1]].kind == 'file':
                    self.hook('with_file', s, a)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent)
        self.exec_block(s.body)
        if self.st is not None:
            for v, it in reversed(closing):
                for a in v:
                    if a[0] == 'o' and self.objs[a[1]].kind == 'inst':
                        m = self.getattr_atom(a, '__exit__', it.context_expr, quiet=True)
                        if m:
                            self.call(m, [NONE, NONE, NONE], {}, s)

    def s_Try(self, s):
        fin = bool(s.finalbody)
        fr = self.stack[-1]
        if fin:
            ret0, fr.ret_state = fr.ret_state, None
            if self.loops:
                self.loops.append([None, None])
            self.leaks.append({})
        st = self.st.copy()
        st.d.pop(OPEN)
        self.exc.append(st)
        self.leaks.append({})
        self.exec_block(s.body)
        caught = self.exc.pop()
        lost = self.leaks.pop()
        if caught is not None and lost:
            caught = caught.copy()
            caught.d[OPEN] = frozenset(('o', i) for i in lost)
        if not any(_catch_all(h) for h in s.handlers):
            for oid, n in lost.items():
                self.leak(oid, n)
        normal = self.st
        if normal is not None and s.orelse:
            self.exec_block(s.orelse)
            normal = self.st
        out = normal
        if caught is not None:
            for h in s.handlers:
                self.st = caught.copy()
                self.visited.add(h._nid)
                if h.type is not None:
                    self.eval(h.type)
                if h.name:
                    self.bind(h.name, frozenset([('E', 'exception')]))
                self.in_handler += 1
                self.exec_block(h.body)
                self.in_handler -= 1
                out = join(out, self.st)
        if s.finalbody:
            lost = self.leaks.pop()
            loop = self.loops.pop() if self.loops else None
            ret1, fr.ret_state = fr.ret_state, ret0
            clog, self.closed = self.closed, set()

            def final(st):
                if st is None:
                    return None
                self.st = st.copy()
                self.exec_block(s.finalbody)
                return self.st
            if lost and caught is not None:
                st = caught.copy()
                old = st.get(OPEN)
                st.d[OPEN] = old | frozenset(('o', i) for i in lost)
                final(st)
            elif out is None and caught is not None:
                final(caught)
            # leaving by return, break or continue also runs the finally block
            ret1 = final(ret1)
            fr.ret_state = join(fr.ret_state, ret1)
            if loop is not None:
                up = self.loops[-1]
                for i in (0, 1):
                    up[i] = join(up[i], final(loop[i]))
            self.st = final(out)
            for oid, n in lost.items():
                if oid not in self.closed:
                    self.leak(oid, n)
            self.closed = clog | self.closed
            return
        self.st = out

    s_TryStar = s_Try

    def s_FunctionDef(self, s):
        d, kd = self.eval_defaults(s.args)
        if self.st is None:
            return
        deco = []
        for x in s.decorator_list:
            deco.append(x)
        v = frozenset([self.make_func(s, d, kd)])
        cls = self.class_env[-1] if self.class_env and self.class_env_frame[-1] is self.stack[-1] else None
        f = self.funcs[next(iter(v))[1]]
        f.cls = cls
        for x in reversed(deco):
            if isinstance(x, ast.Name) and x.id in ('property', 'staticmethod', 'classmethod'):
                v = frozenset([(x.id, v)])
            elif isinstance(x, ast.Attribute) and x.attr in ('setter', 'getter', 'deleter') \
                    and isinstance(x.value, ast.Name):
                old = self.st.get(('ca', cls, s.name)) if cls else BOT
                prev = next((a for a in old if a[0] == 'property'), None)
                if x.attr == 'setter' and prev:
                    v = frozenset([('property', prev[1], v)])
                else:
                    v = frozenset([prev]) if prev else v
            else:
                dv = self.eval(x)
                if self.st is None:
                    return
                r = self.call(dv, [v], {}, x)
                if self.st is None:
                    return
                # a decorator from outside the package is taken to keep behaviour
                v = v if any(a[0] in ('u', 'E') for a in r) or not core(r) else r
        self.bind(s.name, v)

    def eval_defaults(self, a):
        d, kd = {}, {}
        pos = a.posonlyargs + a.args
        for p, e in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(e)
            if self.st is None:
                return d, kd
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                kd[p.arg] = self.eval(e)
                if self.st is None:
                    return d, kd
        return d, kd

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            v = self.eval(b)
            if self.st is None:
                return
            bases.extend(core(v))
        key = s._mod + '.' + s._qual
        self.classes[key] = Cls(key, s, s._mod, bases)
        self.class_env.append(key)
        self.class_env_frame.append(self.stack[-1])
        self.exec_block(s.body)
        self.class_env.pop()
        self.class_env_frame.pop()
        if self.st is not None:
            self.bind(s.name, frozenset([('C', key)]))

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split('.')[0]
            if a.name in self.prog.modules or top in self.prog.modules:
                if not self.import_module(a.name):
                    self.ev('unresolved_import', s, name=a.name)
                self.bind(a.asname or top, frozenset([('M', a.name if a.asname else top)]))
            else:
                self.bind(a.asname or top, frozenset([('E', a.name if a.asname else top)]))

    def s_ImportFrom(self, s):
        if s.level:
            mod = self.stack[-1].f.mod
            m = self.prog.modules[mod]
            parts = mod.split('.')
            up = s.level - (1 if m.is_pkg else 0)
            parts = parts[:len(parts) - up] if up else parts
            base = '.'.join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        if base.split('.')[0] in self.prog.modules:
            if not self.import_module(base):
                self.ev('unresolved_import', s, name=base)
                for a in s.names:
                    self.bind(a.asname or a.name, ANY)
                return
            for a in s.names:
                if a.name == '*':
                    names = self.star_names(base, s)
                    for n in names:
                        v = self.st.get(('g', base, n))
                        if v:
                            self.bind(n, v)
                    continue
                v = self.st.get(('g', base, a.name))
                if not v:
                    if self.import_module(base + '.' + a.name):
                        v = frozenset([('M', base + '.' + a.name)])
                    else:
                        self.ev('unresolved_import', s, name=base + '.' + a.name)
                        v = ANY
                self.bind(a.asname or a.name, v)
        else:
            for a in s.names:
                self.bind(a.asname or a.name, frozenset([('E', base + '.' + a.name)]))

    def star_names(self, base, node):
        allv = self.st.get(('g', base, '__all__'))
        if allv:
            out = []
            for a in allv:
                if a[0] == 'o':
                    for c in self.st.get(('e', a[1])):
                        if c[0] == 'c':
                            out.append(c[2])
            return sorted(out)
        return sorted(k[2] for k in self.st.d if k[0] == 'g' and k[1] == base
                      and not k[2].startswith('_'))

    # ------------------------------------------------------------- assignment
    def assign(self, t, v, comp=False):
        if self.st is None:
            return
        if isinstance(t, ast.Name):
            self.bind(t.id, v, comp)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, comp)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            if self.st is not None:
                self.setattr(b, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            if self.st is None:
                return
            i = self.eval(t.slice)
            if self.st is None:
                return
            self.use(i, t, 'index')
            self.store_item(b, i, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, comp)

    def unpack(self, t, v, comp):
        n = len(t.elts)
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
        vals = [BOT] * n
        tg = tags(v)
        ok = False
        bad = False
        for a in v:
            if a[0] == '#':
                continue
            if a[0] == 't':
                items = a[1]
                if star is None:
                    if len(items) != n:
                        bad = True
                        continue
                    ok = True
                    for i in range(n):
                        vals[i] = union(vals[i], items[i])
                    continue
                ok = True
                for i in range(n):
                    if i < star:
                        vals[i] = union(vals[i], items[i] if i < len(items) else BOT)
                    elif i == star:
                        e = union(BOT, *items[star:len(items) - (n - star - 1)])
                        vals[i] = union(vals[i], frozenset([self.new_list(t, e)]))
                    else:
                        vals[i] = union(vals[i], items[i - n])
                continue
            if a[0] == 'o' and ('x', a[1]) in self.st.d and star is None:
                x = self.st.d[('x', a[1])]
                if len(x) == n:
                    ok = True
                    for i in range(n):
                        vals[i] = union(vals[i], x[i])
                    continue
            if a[0] == 'c' and not isinstance(a[2], (str, bytes)) or \
                    a[0] == 'k' and a[1] in ('int', 'float', 'bool') or a[0] in ('f', 'm', 'C', 'M'):
                bad = True
                continue
            e = self.iterate(frozenset([a]), t)
            if self.st is None:
                return
            ok = True
            for i in range(n):
                if i == star:
                    vals[i] = union(vals[i], frozenset([self.new_list(t, e)]))
                else:
                    vals[i] = union(vals[i], e)
        if bad and not ok:
            self.ev('bad_unpack', t, n=n)
            self.st = None
            return
        if bad:
            self.ev('maybe_bad_unpack', t, n=n)
        h = self.hooks.get('unpack')
        for n, (e, x) in enumerate(zip(t.elts, vals)):
            self.assign(e, union(x, h(self, t, tg, n, star) if h else tg), comp)

    def setattr(self, b, name, v, node):
        cb = core(b)
        for a in cb:
            if a[0] == 'o':
                o = self.objs[a[1]]
                if o.kind == 'inst':
                    p = self.class_attr(o.cls, name)
                    prop = next((x for x in p if x[0] == 'property'), None)
                    if prop is not None:
                        if len(prop) > 2:
                            self.call_user(prop[2], [frozenset([a]), v], {}, node)
                            if self.st is None:
                                return
                        else:
                            self.ev('set_readonly_property', node, name=name)
                        continue
                self.mutate(a[1], node, 'attribute', name)
                key = ('a', a[1], name)
                if a[1] not in self.weak and len(cb) == 1:
                    self.st.d[key] = v
                else:
                    self.st.d[key] = union(self.st.d.get(key, BOT), v)
                self.hook('setattr', node, a, name, v)
            elif a[0] == 'u':
                self.mutate_u(a[1], node, 'attribute')
            elif a[0] == 'C':
                key = ('ca', a[1], name)
                self.st.d[key] = union(self.st.d.get(key, BOT), v)
                if self.label != 'global':
                    self.ev('mutate', node, oid=-1, label='global', phase=self.label,
                            how='class attribute', what=name)
            elif a[0] == 'M':
                self.st.d[('g', a[1], name)] = v
                if self.label != 'global':
                    self.ev('mutate', node, oid=-1, label='global', phase=self.label,
                            how='module attribute', what=name)

    def store_item(self, b, i, v, node):
        for a in b:
            if a[0] == 'o':
                o = self.objs[a[1]]
                if o.kind == 'inst':
                    m = self.getattr_atom(a, '__setitem__', node, quiet=True)
                    if m:
                        self.call(m, [i, v], {}, node)
                        if self.st is None:
                            return
                        continue
                self.mutate(a[1], node, 'item')
                if o.kind in ('dict', 'defaultdict', 'Counter'):
                    self.add_k(a[1], i)
                self.add_e(a[1], v)
                self.hook('store_item', node, a, i, v)
            elif a[0] == 'u':
                self.mutate_u(a[1], node, 'item')


def _as_load(t):
    n = type(t)()
    for f in t._fields:
        setattr(n, f, getattr(t, f))
    for x in ('lineno', 'col_offset', '_nid', '_mod', '_parent', '_in'):
        if hasattr(t, x):
            setattr(n, x, getattr(t, x))
    n.ctx = ast.Load()
    return n
