"""Value numbering: functions of the package as guarded effects and terms.

A function is read once, statement by statement. Every expression becomes a
term in a normal form (linear arithmetic, comparisons, string pieces, element of
an iterable, ...), every change of a container, file or attribute becomes an
effect together with the conditions and loops under which it happens. Calls of
package functions are read in place, comprehensions and append loops have the
same form. Nothing is executed and no path is enumerated."""
import ast

from .loader import Broken, where

NONE = ('c', None)
TRUE, FALSE = ('c', True), ('c', False)
MAXDEPTH = 7
PURE_NAMES = {'print'}


def c(v):
    return ('c', v)


def isc(t):
    return t[0] == 'c'


def isnum(t):
    return t[0] == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def key(t):
    return repr(t)


# ----------------------------------------------------------------- arithmetic
def lin(t):
    """t as (constant, {term: coefficient})"""
    if isnum(t):
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def unlin(k, d):
    d = {t: x for t, x in d.items() if x != 0}
    if not d:
        return c(k)
    if k == 0 and len(d) == 1:
        t, x = next(iter(d.items()))
        if x == 1:
            return t
    return ('lin', k, tuple(sorted(d.items(), key=lambda i: key(i[0]))))


def stringy(t):
    return t[0] == 'str' or t[0] == 'c' and isinstance(t[1], str)


def parts(t):
    if t[0] == 'str':
        return list(t[1])
    return [t]


def cat(*ts):
    """concatenation of strings, adjacent constants joined"""
    out = []
    for t in ts:
        for p in parts(t):
            if isc(p) and isinstance(p[1], str):
                if not p[1]:
                    continue
                if out and isc(out[-1]) and isinstance(out[-1][1], str):
                    out[-1] = c(out[-1][1] + p[1])
                    continue
            out.append(p)
    if not out:
        return c('')
    if len(out) == 1 and (isc(out[0]) or out[0][0] != 'fmt'):
        return out[0]
    return ('str', tuple(out))


def add(a, b):
    if stringy(a) or stringy(b):
        return cat(a, b)
    if a[0] in ('tuple', 'list') and b[0] == a[0]:
        return (a[0], a[1] + b[1])
    if a[0] in ('comp', 'new', 'list', 'listof') or b[0] in ('comp', 'new', 'list', 'listof'):
        return ('bin', '+', a, b)
    if a[0] == 'slice' and b[0] == 'slice':
        return ('bin', '+', a, b)
    ka, da = lin(a)
    kb, db = lin(b)
    for t, x in db.items():
        da[t] = da.get(t, 0) + x
    return unlin(ka + kb, da)


def scale(a, k):
    ka, da = lin(a)
    return unlin(ka * k, {t: x * k for t, x in da.items()})


def sub(a, b):
    if a == b and (isnum(a) or a[0] in ('lin', 'len', 'rng', 'phi', 'p')):
        return c(0)
    return add(a, scale(b, -1))


def mul(a, b):
    if isnum(a) and isnum(b):
        return c(a[1] * b[1])
    if isnum(a):
        return scale(b, a[1])
    if isnum(b) and not stringy(a) and a[0] not in ('list', 'tuple', 'comp', 'new'):
        return scale(a, b[1])
    if stringy(a) or stringy(b) or a[0] in ('list', 'tuple'):
        return ('bin', '*', a, b)
    x, y = sorted((a, b), key=key)
    return ('bin', '*', x, y)


# ----------------------------------------------------------------- logic
NEG = {'<': '>=', '<=': '>', '==': '!=', '!=': '==', 'in': 'notin', 'notin': 'in', 'is': 'isnot', 'isnot': 'is'}


def cmp(op, a, b):
    if op == '>':
        return cmp('<', b, a)
    if op == '>=':
        return cmp('<=', b, a)
    if isc(a) and isc(b) and type(a[1]) is type(b[1]) or isnum(a) and isnum(b):
        try:
            x, y = a[1], b[1]
            r = {'<': lambda: x < y, '<=': lambda: x <= y, '==': lambda: x == y, '!=': lambda: x != y,
                 'is': lambda: x is y, 'isnot': lambda: x is not y}.get(op)
            if r:
                return c(r())
        except TypeError:
            pass
    if op in ('is', 'isnot') and isc(b) and b[1] is None and isc(a):
        return c((a[1] is None) == (op == 'is'))
    if op in ('<', '<=', '==', '!='):
        # move common linear parts to one side: a - b (op) 0
        if (a[0] == 'lin' or b[0] == 'lin') and not stringy(a) and not stringy(b) \
                and not (isc(a) and not isnum(a)) and not (isc(b) and not isnum(b)):
            k, d = lin(sub(a, b))
            if not d:
                return c({'<': k < 0, '<=': k <= 0, '==': k == 0, '!=': k != 0}[op])
            if op in ('==', '!='):
                first = sorted(d, key=key)[0]
                if d[first] < 0:
                    k, d = -k, {t: -x for t, x in d.items()}
            left = unlin(0, {t: x for t, x in d.items() if x > 0})
            right = unlin(-k, {t: -x for t, x in d.items() if x < 0})
            return ('cmp', op, left, right)
        if op in ('==', '!=') and key(b) < key(a) and not isc(b):
            a, b = b, a
        if op in ('==', '!=') and isc(a) and not isc(b):
            a, b = b, a
    return ('cmp', op, a, b)


def neg(t):
    if isc(t):
        return c(not t[1])
    if t[0] == 'not':
        return t[1]
    if t[0] == 'cmp':
        op = NEG[t[1]]
        return cmp(op, t[2], t[3])
    if t[0] == 'and':
        return disj([neg(x) for x in t[1]])
    if t[0] == 'or':
        return conj([neg(x) for x in t[1]])
    return ('not', t)


def conj(ts):
    out = []
    for t in ts:
        for x in (t[1] if t[0] == 'and' else (t,)):
            if isc(x):
                if not x[1]:
                    return FALSE
                continue
            if neg(x) in out:
                return FALSE
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ('and', tuple(out))


def disj(ts):
    out = []
    for t in ts:
        for x in (t[1] if t[0] == 'or' else (t,)):
            if isc(x):
                if x[1]:
                    return TRUE
                continue
            if neg(x) in out:
                return TRUE
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else ('or', tuple(out))


def ite(q, a, b):
    if a == b:
        return a
    if isc(q):
        return a if q[1] else b
    if a == TRUE and b == FALSE:
        return q
    if a == FALSE and b == TRUE:
        return neg(q)
    if q[0] == 'not':
        return ('ite', q[1], b, a)
    if q[0] == 'cmp' and q[1] == 'in' and a == ('item', q[3], q[2]):
        return ('get', q[3], q[2], b)
    if q[0] == 'cmp' and q[1] == 'not in' and b == ('item', q[3], q[2]):
        return ('get', q[3], q[2], a)
    return ('ite', q, a, b)


KEYED = ('p', 'attr', 'item', 'elem', 'phi', 'out', 'call', 'new', 'get', 'copy', 'counter', 'comp', 'dict', 'ite', 'defaultdict')


def by_key(it, target, body):
    """what is gone over is indexed by what comes out of it, so it is a dict"""
    if not isinstance(target, ast.Name) or not isinstance(it, (ast.Name, ast.Attribute, ast.Subscript)):
        return False
    d = ast.dump(it)
    return any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == target.id and ast.dump(x.value) == d
               for b in body for x in ast.walk(b))


def changes_of(f, v):
    """how often the list that the variable v of function f holds is changed in place or handed around"""
    n = 0
    for x in ast.walk(f):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == v:
            n += 1
        elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == v and not isinstance(x.ctx, ast.Load):
            n += 1
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v:
            n += 1
    return n


def walk(t):
    """all sub-terms"""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def contains(t, u):
    return any(x == u for x in walk(t))


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r == t:
        return t
    if r and r[0] == 'lin' and len(r) == 3:
        out = c(r[1])
        for x, k in r[2]:
            out = add(out, scale(x, k))
        return out
    if r and r[0] == 'cmp' and len(r) == 4:
        return cmp(r[1], r[2], r[3])
    if r and r[0] == 'len' and len(r) == 2:
        return length(r[1])
    return r


def length(t):
    if isc(t) and isinstance(t[1], str):
        return c(len(t[1]))
    if t[0] in ('tuple', 'list'):
        return c(len(t[1]))
    return ('len', t)


def canon(t):
    """loop numbers renamed in order of appearance"""
    m = {}

    def rec(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'L' and isinstance(x[1], int):
                return ('L', m.setdefault(x[1], len(m)))
            return tuple(rec(y) for y in x)
        return x
    return rec(t)


COPIES = ('copy', 'copy2', 'deepcopy')


ADDS = ('store', 'inc', 'append', 'add', 'extend', 'update', 'setdefault', 'setop', 'insert')


def content(t):
    """t without the copying: what it holds when it is read"""
    if t[0] in COPIES:
        return content(t[1])
    if t[0] == 'ite' and content(t[2]) == content(t[3]):
        return content(t[2])
    return t


def copied(t):
    """a dict comprehension that only copies, as a copy"""
    if t[0] != 'comp' or t[1] != 'dict' or len(t[2]) != 1 or t[3] or t[4][0] != 'tuple':
        return t
    L, it = t[2][0]
    k, v = t[4][1]
    if not it or it[0] != 'keys':
        return t
    d = it[1]
    if k != ('key', d, L):
        return t
    if v == ('item', d, k):
        return ('copy', d)
    if v[0] in COPIES and v[1] == ('item', d, k):
        return ('copy2', d)
    return t


class Effect:
    __slots__ = ('kind', 'target', 'args', 'guards', 'loops', 'node', 'fn', 'order')

    def __init__(self, kind, target, args, guards, loops, node, fn, order):
        self.kind, self.target, self.args = kind, target, args
        self.guards, self.loops, self.node, self.fn, self.order = guards, loops, node, fn, order

    def __repr__(self):
        return '%s %s %s if %s in %s' % (self.kind, self.target, self.args, self.guards, self.loops)


class State:
    def __init__(self, env, heap, guards):
        self.env, self.heap, self.guards = env, heap, guards
        self.dead = False

    def copy(self):
        s = State(dict(self.env), dict(self.heap), self.guards)
        return s


class Fr:
    """one function being read"""

    def __init__(self, node, mod, cls, penv, base, loops):
        self.node, self.mod, self.cls, self.penv = node, mod, cls, penv
        self.base, self.loops0 = base, loops
        self.returns = []
        self.yields = False
        self.yielded = []
        self.through = None     # generator whose caller receives what is yielded here
        self.silent = False


class Reader:
    collect = True           # lists filled by a loop are read as comprehensions

    def __init__(self, prog):
        self.prog = prog
        self.effects = []
        self.loops = {}          # number -> dict(iter, node, kind, test, init, step, breaks)
        self.cur = ()            # loops around
        self.frames = []
        self.imprecise = []
        self.types = {}          # term -> class key (mod, name)
        self.fns = {}
        self.serial = 0
        self.gcache = {}
        self.gbusy = set()
        self.quiet = 0
        self.raises = []
        self.choices = {}
        self.born = {}         # a new object -> the loops it is made in
        self.made = {}         # a new dict of the standard library -> what it is made of
        self.texts = False      # text built up by a loop keeps its order

    # ------------------------------------------------------------- entry
    def find_class(self, mod, name):
        """(module name, ClassDef) of a name importable from mod"""
        t = self.global_(mod, name)
        if t and t[0] == 'cls':
            return t
        raise Broken('class %s.%s is missing' % (mod, name))

    def method(self, cls, name, after=None):
        """(FunctionDef, class term) along the base classes"""
        seen = False
        for k in self.mro(cls):
            if after is not None and not seen:
                seen = k == after
                continue
            node = self.classnode(k)
            for n in node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return n, k
        return None, None

    def classnode(self, k):
        m = self.prog.modules[k[1]]
        for n in m.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == k[2]:
                return n
        raise Broken('class %s.%s is missing' % (k[1], k[2]))

    def mro(self, k):
        out = [k]
        for b in self.classnode(k).bases:
            if isinstance(b, (ast.Name, ast.Attribute)):
                t = self.static(b, k[1])
                if t and t[0] == 'cls':
                    out += [x for x in self.mro(t) if x not in out]
        return out

    def static(self, e, mod):
        if isinstance(e, ast.Name):
            return self.global_(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.static(e.value, mod)
            if b and b[0] == 'mod':
                return self.global_(b[1], e.attr)
        return None

    def read_method(self, mod, cname, meth, args=None, selfterm=('p', 'self'), heap=None):
        """the effects of calling a method; returns (return term, frame)"""
        k = self.find_class(mod, cname)
        f, owner = self.method(k, meth)
        if f is None:
            raise Broken('method %s.%s is missing' % (cname, meth))
        self.types[selfterm] = k
        env = {}
        ps = f.args.posonlyargs + f.args.args
        vals = [selfterm] + [('p', a.arg) for a in ps[1:]]
        for a, v in zip(ps, vals):
            env[a.arg] = (args or {}).get(a.arg, v)
        for a in f.args.kwonlyargs:
            env[a.arg] = (args or {}).get(a.arg, ('p', a.arg))
        if f.args.vararg is not None:
            env[f.args.vararg.arg] = ('p', '*')
        if f.args.kwarg is not None:
            env[f.args.kwarg.arg] = ('p', '**')
        return self.run(f, owner[1], owner, env, {}, heap)

    def read_function(self, mod, name, args=None):
        t = self.global_(mod, name)
        if not t or t[0] != 'fn':
            raise Broken('function %s.%s is missing' % (mod, name))
        f, m, cls, penv = self.fns[t[1]]
        env = {a.arg: (args or {}).get(a.arg, ('p', a.arg)) for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        return self.run(f, m, cls, env, penv)

    def run(self, f, mod, cls, env, penv, heap=None):
        self.st = State(env, dict(heap or {}), ())
        fr = Fr(f, mod, cls, penv, 0, ())
        self.frames.append(fr)
        self.block(f.body)
        if not self.st.dead:
            fr.returns.append((self.st.guards, self.cur, NONE, f))
        self.frames.pop()
        self.final = self.st
        return self.rets(fr), fr

    def rets(self, fr):
        rs = fr.returns
        if not rs:
            return ('noret',)
        if any(l != fr.loops0 for _, l, _, _ in rs):
            out = ('choice', tuple(t for _, _, t, _ in rs))
            self.choices[out] = rs
            return out
        out = rs[-1][2]
        for g, _, t, _ in reversed(rs[:-1]):
            out = ite(conj(g[fr.base:]), t, out)
        return out

    # ------------------------------------------------------------- helpers
    def lid(self, node, it, kind='for', **kw):
        self.serial += 1
        L = ('L', self.serial)
        self.loops[L] = dict(node=node, iter=it, kind=kind, breaks=[], init={}, step={}, sorted=None, **kw)
        return L

    def new(self, kind, node, *extra):
        self.serial += 1
        t = ('new', kind, self.serial) + extra
        self.born[t] = self.cur
        return t

    def eff(self, kind, target, args, node):
        if self.st.dead or self.quiet:
            return
        self.effects.append(Effect(kind, target, tuple(args), self.st.guards, self.cur, node,
                                   getattr(self.frames[-1].node, '_qual', '?') if self.frames else '<module>', len(self.effects)))

    def vague(self, node, why):
        if not self.quiet:
            self.imprecise.append((where(node, self.prog), why))

    def unk(self, node, why='?'):
        self.serial += 1
        return ('unk', self.serial, why)

    # ------------------------------------------------------------- names
    def global_(self, mod, name):
        k = (mod, name)
        if k in self.gcache:
            return self.gcache[k]
        if k in self.gbusy:
            return None
        self.gbusy.add(k)
        try:
            t = self._global(mod, name)
        finally:
            self.gbusy.discard(k)
        self.gcache[k] = t
        return t

    def _global(self, mod, name):
        m = self.prog.modules.get(mod)
        if m is None:
            return None
        found = None
        for n in ast.walk(m.tree):
            if getattr(n, '_in', '') and not (isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n._qual == n.name):
                continue
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name and n._parent in (m.tree,) \
                    or isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name and n._qual == name:
                found = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if (a.asname or a.name.split('.')[0]) == name:
                        found = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    p = mod.split('.')
                    p = p[:len(p) - n.level + (1 if m.is_pkg else 0)]
                    base = '.'.join(p + ([n.module] if n.module else []))
                for a in n.names:
                    if (a.asname or a.name) == name:
                        found = ('from', base, a.name)
                    elif a.name == '*' and base in self.prog.modules and found is None:
                        t = self.global_(base, name)
                        if t:
                            found = ('from', base, name)
            elif isinstance(n, ast.Assign) and n._parent is m.tree:
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        found = n
        if found is None:
            return None
        if isinstance(found, tuple):
            if found[0] == 'mod':
                return found
            if found[1] in self.prog.modules:
                t = self.global_(found[1], found[2])
                if t is None and found[1] + '.' + found[2] in self.prog.modules:
                    return ('mod', found[1] + '.' + found[2])
                return t or ('ext', found[1] + '.' + found[2])
            return ('ext', found[1] + '.' + found[2])
        if isinstance(found, ast.FunctionDef):
            return self.fn(found, mod, None, {})
        if isinstance(found, ast.ClassDef):
            return ('cls', mod, name)
        # a module-level value: read it in an empty frame
        keep = getattr(self, 'st', None), self.cur, self.frames
        self.st, self.cur = State({}, {}, ()), ()
        self.frames = [Fr(m.tree, mod, None, {}, 0, ())]
        self.quiet += 1
        try:
            v = self.ev(found.value)
        finally:
            self.quiet -= 1
            self.st, self.cur, self.frames = keep
        if v[0] == 'new':
            v = ('gv', mod, name)
        return v

    def fn(self, node, mod, cls, penv):
        t = ('fn', node._nid) if not penv else ('fn', (node._nid, len(self.fns)))
        self.fns[t[1]] = (node, mod, cls, penv)
        return t

    def name(self, n):
        st = self.st
        if n in st.env:
            return st.env[n]
        p = self.frames[-1].penv
        if n in p:
            return p[n]
        t = self.global_(self.frames[-1].mod, n)
        return t if t is not None else ('g', n)

    # ------------------------------------------------------------- statements
    def block(self, ss):
        for s in ss:
            if self.st.dead:
                return
            getattr(self, 's_' + type(s).__name__, self.s_other)(s)

    def s_other(self, s):
        self.vague(s, type(s).__name__)

    def s_Pass(self, s):
        pass

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_ImportFrom(self, s):
        mod = self.frames[-1].mod
        m = self.prog.modules.get(mod)
        base = s.module or ''
        if s.level and m is not None:
            p = mod.split('.')
            p = p[:len(p) - s.level + (1 if m.is_pkg else 0)]
            base = '.'.join(p + ([s.module] if s.module else []))
        for a in s.names:
            t = self.global_(base, a.name) if base in self.prog.modules else None
            self.st.env[a.asname or a.name] = t or ('ext', base + '.' + a.name)

    def s_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Subscript):
            b, i = self.ev(t.value), self.ev(t.slice)
            if op in '+-' and not stringy(v):
                self.eff('inc', b, (i, v if op == '+' else scale(v, -1)), s)
            else:
                self.eff('store', b, (i, self.binop(op, self.item(b, i), v)), s)
            return
        cur = self.ev(ast.copy_location(type(t)(**{**{f: getattr(t, f) for f in t._fields}, 'ctx': ast.Load()}), t)) \
            if not isinstance(t, ast.Name) else self.name(t.id)
        if self.islist(cur) and op == '+':
            self.eff('extend', cur, (v,), s)
            return
        if cur[0] in ('new', 'comp') and cur[1] == 'set' or op in '|&' or op == '-' and cur[0] == 'item':
            self.eff('setop', cur, (c(op), v), s)
            if cur[0] == 'new':
                return
        self.assign(t, self.binop(op, cur, v), s)

    def islist(self, t):
        return t[0] == 'new' and t[1] == 'list' or t[0] == 'list' or t[0] == 'comp' and t[1] == 'list' \
            or t[0] in ('sorted', 'listof')

    def assign(self, t, v, s):
        st = self.st
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if star is not None and i >= star:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk(e, 'star'), s)
                else:
                    self.assign(e, self.item(v, c(i)), s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            k = self.types.get(b)
            if k:
                f, owner = self.setter(k, t.attr)
                if f is not None:
                    self.inline(f, owner[1], owner, [b, v], {}, {}, t)
                    return
            st.heap[(b, t.attr)] = v
            self.eff('setattr', b, (c(t.attr), v), s)
        elif isinstance(t, ast.Subscript):
            b, i = self.ev(t.value), self.ev(t.slice)
            inc = self.as_inc(b, i, v)
            if inc is not None:
                self.eff('inc', b, (i, inc), s)
            else:
                self.eff('store', b, (i, v), s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def setter(self, k, name):
        for kk in self.mro(k):
            for n in self.classnode(kk).body:
                if isinstance(n, ast.FunctionDef) and n.name == name and any(
                        isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                    return n, kk
        return None, None

    def as_inc(self, b, i, v):
        """v as  b[i] + amount"""
        for cur in (('get', b, i, c(0)), ('get', b, i, ('c', 0.0)), ('item', b, i)):
            k, d = lin(v)
            if d.get(cur) == 1:
                d = dict(d)
                del d[cur]
                if not any(contains(t, cur) for t in d):
                    return unlin(k, d)
        return None

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.eff('del', self.ev(t.value), (self.ev(t.slice),), s)
            elif isinstance(t, ast.Attribute):
                self.eff('delattr', self.ev(t.value), (c(t.attr),), s)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        fr = self.frames[-1]
        fr.returns.append((self.st.guards, self.cur, v, s))
        for L in self.cur[len(fr.loops0):]:
            self.loops[L]['returns'] = True
        self.st.dead = True

    def s_Raise(self, s):
        self.raises.append((self.st.guards, self.cur, s))
        self.st.dead = True

    def s_Assert(self, s):
        self.st.guards += (self.ev(s.test),)

    def s_If(self, s):
        q = self.ev(s.test)
        if isc(q):
            self.block(s.body if q[1] else s.orelse)
            return
        st = self.st
        a, b = st.copy(), st.copy()
        pos = list(q[1]) if q[0] == 'and' else [q]
        n = neg(q)
        ne = list(n[1]) if n[0] == 'and' else [n]
        a.guards = st.guards + tuple(pos)
        b.guards = st.guards + tuple(ne)
        self.st = a
        self.block(s.body)
        a = self.st
        self.st = b
        self.block(s.orelse)
        b = self.st
        self.st = self.merge(st.guards, q, pos, ne, a, b)

    def merge(self, g, q, pos, ne, a, b):
        if a.dead and b.dead:
            return a
        if a.dead:
            return b
        if b.dead:
            return a
        out = State({}, {}, g)
        ra, rb = a.guards[len(g) + len(pos):], b.guards[len(g) + len(ne):]
        if ra or rb:
            out.guards = g + (disj([conj([q] + list(ra)), conj([neg(q)] + list(rb))]),)
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                out.env[k] = x or y
            else:
                out.env[k] = ite(q, x, y)
        for k in set(a.heap) | set(b.heap):
            x = a.heap.get(k, ('attr',) + k)
            y = b.heap.get(k, ('attr',) + k)
            out.heap[k] = ite(q, x, y)
        return out

    def assigned(self, body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    p, comp = n, False
                    while p is not None and p not in body:
                        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda,
                                          ast.FunctionDef)):
                            comp = True
                            break
                        p = getattr(p, '_parent', None)
                    if not comp:
                        out.add(n.id)
        return out

    def loop(self, Ls, extra, body, orelse, bind, s):
        """read the body once under loops Ls with guards extra"""
        st0 = self.st
        cur0 = self.cur
        main = Ls[-1]
        names = self.assigned(body)
        # attributes changed by the body: found in a first, silent reading
        heapkeys = set()
        for rnd in range(2):
            st = st0.copy()
            info = self.loops[main]
            info['breaks'] = []
            info['init'], info['step'] = {}, {}
            for n in names:
                if n in st.env:
                    info['init'][n] = st.env[n]
                st.env[n] = ('phi', main, n)
                if self.texts and n in info['init'] and stringy(info['init'][n]):
                    st.env[n] = ('str', (st.env[n],))
            for k in heapkeys:
                info['init'][k] = st.heap.get(k, ('attr',) + k)
                st.heap[k] = ('phi', main, k)
            self.st = st
            self.cur = cur0 + tuple(Ls)
            st.guards = st0.guards + tuple(extra)
            quiet = rnd == 0 and True
            nfr = len(self.frames[-1].returns)
            if quiet:
                self.quiet += 1
                ne, nr = len(self.effects), len(self.raises)
            start = dict(st.heap)
            test = bind()
            if test is not None and not (isc(test) and test[1]):
                info['test'] = test
                self.st.guards += tuple(test[1]) if test[0] == 'and' else (test,)
            self.brk = info
            olds = getattr(self, 'brkstack', [])
            self.brkstack = olds + [(info, len(self.st.guards), [])]
            self.block(body)
            conts = self.brkstack[-1][2]
            self.brkstack = olds
            end = self.st
            if quiet:
                self.quiet -= 1
                del self.raises[nr:]
                del self.frames[-1].returns[nfr:]
                heapkeys = {k for k, v in end.heap.items() if start.get(k) != v and v != ('phi', main, k)}
                for cst in conts:
                    heapkeys |= {k for k, v in cst.heap.items() if start.get(k) != v}
                continue
        # values at the end of one round
        ends = ([] if end.dead else [end]) + conts
        info['ends'] = [(e.guards[len(st0.guards):], e.env) for e in ends]
        out = st0.copy()
        for n in names:
            vs = {e.env.get(n, ('phi', main, n)) for e in ends} or {('phi', main, n)}
            step = vs.pop() if len(vs) == 1 else ('choice', tuple(sorted(vs, key=key)))
            bs = {e.env.get(n) for e in info.get('breakstates', [])}
            info['step'][n] = step
            if step == ('phi', main, n) and not (bs - {step}):
                if n in info['init']:
                    out.env[n] = info['init'][n]
                else:
                    out.env[n] = ('out', main, n)
            else:
                out.env[n] = ('out', main, n)
        for k in heapkeys:
            vs = {e.heap.get(k, ('phi', main, k)) for e in ends} or {('phi', main, k)}
            step = vs.pop() if len(vs) == 1 else ('choice', tuple(sorted(vs, key=key)))
            info['step'][k] = step
            out.heap[k] = info['init'][k] if step == ('phi', main, k) else ('out', main, k)
        self.st = out
        self.cur = cur0
        if info.get('returns'):
            out.guards = st0.guards + (('noret', main),)
        if orelse:
            if info['breaks']:
                b = out.copy()
                out2 = out.copy()
                q = ('nobreak', main)
                out2.guards = out.guards + (q,)
                self.st = out2
                self.block(orelse)
                b.guards = out.guards + (('not', q),)
                self.st = self.merge(out.guards, q, [q], [('not', q)], self.st, b)
            else:
                self.block(orelse)
        return info

    def s_For(self, s):
        it = self.ev(s.iter)
        if by_key(s.iter, s.target, s.body) and it[0] in KEYED:
            it = ('keys', it)
        box = {}
        Ls, guards, el = self.over(it, s)

        def bind():
            self.assign(s.target, el, s)
            for n in names:
                box[n] = self.st.env.get(n)
            return None
        before = dict(self.st.env)
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        n0, r0, k0, g0 = len(self.effects), len(self.frames[-1].returns), len(self.raises), len(self.st.guards)
        info = self.loop(Ls, guards, s.body, s.orelse, bind, s)
        if len(self.effects) == n0 + 1 and len(self.frames[-1].returns) == r0 and len(self.raises) == k0 and not s.orelse:
            self.collected(s, info, Ls, self.effects[n0], g0)
        # after the loop a target has its value of the last round
        for n in names:
            v = box.get(n)
            was = before.get(n)
            if (was == c(-1) and len(Ls) == 1 and not guards and not info['breaks'] and v is not None and v[0] == 'rng'
                    and v[1] == c(0) and v[3] == Ls[0] and info['step'].get(n) is None):
                self.st.env[n] = sub(v[2], c(1))
                continue
            if was is not None:
                info['init'].setdefault(n, was)
            if v is not None:
                info['step'].setdefault(n, v)
            self.st.env[n] = ('out', Ls[-1], n)

    def collected(self, s, info, Ls, e, g0):
        """a loop that does nothing but append to a list that is new and not changed elsewhere is a list comprehension"""
        t = e.target
        if not self.collect or self.quiet or e.kind != 'append' or t[0] != 'new' or t[1] != 'list' or len(t) > 3 or info['breaks'] or len(e.args) != 1:
            return
        vs = [v for v, x in self.st.env.items() if contains(x, t)]
        if len(vs) != 1 or self.st.env[vs[0]] != t or self.born.get(t) != self.cur or e.loops[:len(self.cur)] != self.cur:
            return
        if any(contains(x, t) for x in self.st.heap.values()) or any(x is not e and (x.target == t or any(contains(a, t) for a in x.args))
                                                                     for x in self.effects):
            return
        f = self.frames[-1].node
        if changes_of(f, vs[0]) != 1:
            return
        inner = e.loops[len(self.cur):]
        if inner[:len(Ls)] != tuple(Ls) or any(self.loops[L]['iter'] is None or self.loops[L]['breaks'] for L in inner):
            return
        parts = e.args + e.guards[g0:]
        if any(x[0] in ('phi', 'out', 'unk', 'choice', 'new', 'noret', 'nobreak') for a in parts for x in walk(a)):
            return
        self.effects.remove(e)
        self.st.env[vs[0]] = copied(('comp', 'list', tuple((L, self.loops[L]['iter']) for L in inner), e.guards[g0:], e.args[0]))

    def s_While(self, s):
        L = self.lid(s, None, 'while')

        def bind():
            return self.ev(s.test)
        n0 = len(self.effects)
        r0 = len(self.frames[-1].returns)
        info = self.loop([L], [], s.body, s.orelse, bind, s)
        # a counting loop is a range
        test = info.get('test')
        if test is None:
            return
        tests = test[1] if test[0] == 'and' else (test,)
        for t in tests:
            if t[0] == 'cmp' and t[1] in ('<', '<='):
                for v in [x for x in info['step'] if isinstance(x, str)]:
                    phi = ('phi', L, v)
                    k, d = lin(sub(t[2], t[3]))
                    if d.get(phi) == 1 and info['step'][v] == add(phi, c(1)) and v in info['init'] and not info['breaks']:
                        d = dict(d)
                        del d[phi]
                        hi = scale(unlin(k, d), -1)
                        if t[1] == '<=':
                            hi = add(hi, c(1))
                        if any(x[0] == 'phi' and x[1] == L for x in walk(hi)):
                            continue
                        r = ('rng', info['init'][v], hi, L)
                        m = {phi: r}
                        drop = cmp(t[1], t[2], t[3])
                        for e in self.effects[n0:]:
                            e.guards = tuple(subst(g, m) for g in e.guards if g != drop)
                            e.target = subst(e.target, m)
                            e.args = tuple(subst(a, m) for a in e.args)
                        fr = self.frames[-1]
                        fr.returns[r0:] = [(tuple(subst(g, m) for g in gs if g != drop), ls, subst(x, m), nd)
                                           for gs, ls, x, nd in fr.returns[r0:]]
                        info['iter'] = ('range', info['init'][v], hi)
                        info['kind'] = 'for'
                        info['counter'] = v
                        return

    def s_Break(self, s):
        info, n, conts = self.brkstack[-1]
        info['breaks'].append(self.st.guards[n:])
        info.setdefault('breakstates', []).append(self.st)
        self.st.dead = True

    def s_Continue(self, s):
        self.brkstack[-1][2].append(self.st)
        st = self.st.copy()
        st.dead = True
        self.st = st

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        st0 = self.st.copy()
        self.block(s.body)
        if not self.st.dead:
            self.block(s.orelse)
        after = self.st
        for i, h in enumerate(s.handlers):
            q = ('exc', s._nid, i)
            hs = st0.copy()
            hs.guards = st0.guards + (q,)
            if h.name:
                hs.env[h.name] = ('unk', 0, 'exception')
            for n in self.assigned(s.body):
                hs.env[n] = self.unk(s, 'maybe assigned')
            self.st = hs
            self.block(h.body)
            if not self.st.dead:
                if after.dead:
                    after = self.st
                else:
                    m = State({}, {}, after.guards)
                    for k in set(after.env) | set(self.st.env):
                        x, y = after.env.get(k), self.st.env.get(k)
                        m.env[k] = ite(q, y, x) if x is not None and y is not None else (x or y)
                    for k in set(after.heap) | set(self.st.heap):
                        x = after.heap.get(k, ('attr',) + k)
                        y = self.st.heap.get(k, ('attr',) + k)
                        m.heap[k] = ite(q, y, x)
                    after = m
        self.st = after
        if s.finalbody:
            dead = self.st.dead
            self.st.dead = False
            self.block(s.finalbody)
            self.st.dead = self.st.dead or dead

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        penv = dict(fr.penv)
        penv.update(self.st.env)
        self.st.env[s.name] = self.fn(s, fr.mod, fr.cls, _Live(penv, self))

    def s_ClassDef(self, s):
        self.st.env[s.name] = self.unk(s, 'class')

    # ------------------------------------------------------------- iteration
    def over(self, it, node):
        """loops, guards and the element of one round over it"""
        h = it[0]
        if h in ('comp',) + COPIES and self.touched(it):
            L = self.lid(node, ('keys', it) if h != 'comp' or it[1] == 'dict' else it)
            return [L], [], ('key', it, L) if h != 'comp' or it[1] == 'dict' else ('elem', it, L)
        if h == 'comp' and it[1] in ('list', 'gen', 'set'):
            ren = {}
            Ls, gens = [], []
            for L, x in it[2]:
                n = self.lid(node, subst(x, ren))
                self.loops[n]['iter'] = subst(x, ren)
                for o in ('sorted', 'reversed', 'distinct'):
                    if self.loops.get(L, {}).get(o):
                        self.loops[n][o] = self.loops[L][o]
                ren[L] = n
                Ls.append(n)
            if it[1] == 'set':
                self.loops[Ls[-1]]['distinct'] = True
            return Ls, [subst(g, ren) for g in it[3]], subst(it[4], ren)
        if h == 'comp' and it[1] == 'dict':
            Ls, gs, kv = self.over(('comp', 'list') + it[2:], node)
            self.loops[Ls[-1]]['distinct'] = True
            return Ls, gs, kv[1][0]
        if h in ('sorted', 'reversed', 'listof', 'setof', 'iterof', 'tupleof'):
            Ls, gs, el = self.over(it[1], node)
            if h == 'sorted':
                self.loops[Ls[-1]]['sorted'] = it
            if h == 'reversed':
                self.loops[Ls[-1]]['reversed'] = True
            if h == 'setof':
                self.loops[Ls[-1]]['distinct'] = True
            return Ls, gs, el
        if h in ('items', 'keys', 'values'):
            d = it[1] if self.touched(it[1]) else content(it[1])
            if d[0] == 'comp' and d[1] == 'dict' and not self.touched(d):
                Ls, gs, kv = self.over(('comp', 'list') + d[2:], node)
                return Ls, gs, kv if h == 'items' else kv[1][0 if h == 'keys' else 1]
            L = self.lid(node, ('keys', d))
            k = ('key', d, L)
            v = ('item', d, k)
            return [L], [], ('tuple', (k, v)) if h == 'items' else k if h == 'keys' else v
        if h == 'enumerate':
            Ls, gs, el = self.over(it[1], node)
            if len(Ls) == 1 and not gs:
                x = self.loops[Ls[0]]['iter']
                lo = it[2]
                idx = ('rng', lo, add(length(x) if x is not None else ('len', it[1]), lo), Ls[0])
            else:
                idx = ('idx', tuple(Ls), it[2], tuple(gs))
            return Ls, gs, ('tuple', (idx, el))
        if h == 'zip':
            L = self.lid(node, it)
            return [L], [], ('tuple', tuple(self.elem(x, L) for x in it[1]))
        if h == 'range':
            L = self.lid(node, it)
            if len(it) == 3:
                return [L], [], ('rng', it[1], it[2], L)
            return [L], [], ('rngs', it[1], it[2], it[3], L)
        if h == 'map' and len(it) == 3:
            Ls, gs, el = self.over(it[2], node)
            return Ls, gs, self.apply(it[1], [el], {}, node)
        if h == 'filter' and len(it) == 3:
            Ls, gs, el = self.over(it[2], node)
            return Ls, gs + [self.apply(it[1], [el], {}, node) if it[1] != NONE else el], el
        if h == 'new' and it[1] == 'list':
            es = [e for e in self.effects if e.target == it]
            if len(es) == 1 and es[0].kind == 'append' and not self.quiet and it not in self.dirty() \
                    and not (set(es[0].loops) & set(self.cur)):
                e = es[0]
                base = [L for L in e.loops if L not in self.cur]
                if base:
                    gens = tuple((L, self.loops[L]['iter']) for L in base)
                    if all(x is not None for _, x in gens):
                        g = [x for x in e.guards if x not in self.st.guards]
                        return self.over(('comp', 'list', gens, tuple(g), e.args[0]), node)
        if h in COPIES or h == 'ite' and content(it) != it:
            return self.over(content(it), node)
        if h == 'gencall':
            n, cur = len(self.st.guards), len(self.cur)
            fr = self.generate(it, node, None, True)
            if fr is not None and len(fr.yielded) == 1 and self.st.guards[:n] == fr.yielded[0][1][:n]:
                el, gs, ls = fr.yielded[0]
                Ls = list(ls[cur:])
                own = [el] + list(gs[n:]) + [self.loops[L]['iter'] for L in Ls]
                if Ls and None not in own and not any(self.loops[L]['breaks'] or self.loops[L].get('returns') for L in Ls) \
                        and not any(x[0] in ('phi', 'out') and x[1] in Ls for o in own for x in walk(o)):
                    return Ls, list(gs[n:]), el
            self.vague(node, 'generator')
        L = self.lid(node, it)
        return [L], [], self.elem(it, L)

    def touched(self, t):
        """filled further after it was built, so it no longer holds only what it was built from"""
        return any(e.target == t and e.kind in ADDS for e in self.effects)

    def dirty(self):
        return {e.target for e in self.effects if e.kind not in ('append',)}

    def elem(self, x, L):
        if x[0] == 'range':
            return ('rng', x[1], x[2], L) if len(x) == 3 else ('rngs', x[1], x[2], x[3], L)
        if x[0] in ('listof', 'iterof', 'tupleof'):
            return self.elem(x[1], L)
        if x[0] in ('items',):
            k = ('key', x[1], L)
            return ('tuple', (k, ('item', x[1], k)))
        return ('elem', x, L)

    # ------------------------------------------------------------- expressions
    def ev(self, e):
        return getattr(self, 'e_' + type(e).__name__, self.e_other)(e)

    def e_other(self, e):
        self.vague(e, type(e).__name__)
        return self.unk(e, type(e).__name__)

    def e_Constant(self, e):
        return c(e.value) if e.value is not Ellipsis else ('g', '...')

    def e_Name(self, e):
        return self.name(e.id)

    def e_Starred(self, e):
        return ('star', self.ev(e.value))

    def e_Tuple(self, e):
        return ('tuple', tuple(self.ev(x) for x in e.elts))

    def e_List(self, e):
        xs = tuple(self.ev(x) for x in e.elts)
        if xs:
            return ('list', xs)
        return self.new('list', e)

    def e_Set(self, e):
        return ('set', tuple(self.ev(x) for x in e.elts))

    def e_Dict(self, e):
        if not e.keys:
            return self.new('dict', e)
        return ('dict', tuple((self.ev(k) if k is not None else ('star',), self.ev(v)) for k, v in zip(e.keys, e.values)))

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(c(v.value))
            else:
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec)
                    spec = sp[1] if isc(sp) else '?'
                out.append(self.fmt(self.ev(v.value), spec))
        return cat(*out)

    def fmt(self, t, spec=''):
        if not spec:
            if isc(t) and isinstance(t[1], str):
                return t
            if t[0] == 'str' and not isc(t):
                return t
        if isc(t) and not spec and isinstance(t[1], int):
            return c(str(t[1]))
        return ('fmt', t, spec)

    def e_Lambda(self, e):
        fr = self.frames[-1]
        penv = dict(fr.penv)
        penv.update(self.st.env)
        return self.fn(e, fr.mod, fr.cls, penv or {'': NONE})

    def e_IfExp(self, e):
        q = self.ev(e.test)
        if isc(q):
            return self.ev(e.body if q[1] else e.orelse)
        st = self.st
        g = st.guards
        st.guards = g + ((q,) if q[0] != 'and' else q[1])
        a = self.ev(e.body)
        n = neg(q)
        self.st.guards = g + ((n,) if n[0] != 'and' else n[1])
        b = self.ev(e.orelse)
        self.st.guards = g
        return ite(q, a, b)

    def e_BoolOp(self, e):
        vals = []
        g = self.st.guards
        isand = isinstance(e.op, ast.And)
        for v in e.values:
            t = self.ev(v)
            vals.append(t)
            self.st.guards += ((t if isand else neg(t)),)
        self.st.guards = g
        boolish = all(x[0] in ('cmp', 'and', 'or', 'not') or isc(x) and isinstance(x[1], bool) for x in vals)
        p = getattr(e, '_parent', None)
        tested = isinstance(p, (ast.If, ast.While, ast.BoolOp, ast.Assert)) or isinstance(p, ast.UnaryOp) \
            or isinstance(p, ast.IfExp) and p.test is e or isinstance(p, ast.comprehension)
        if boolish or tested:
            return conj(vals) if isand else disj(vals)
        return ('andv' if isand else 'orv', tuple(vals))

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return neg(v)
        if isinstance(e.op, ast.USub):
            return scale(v, -1)
        if isinstance(e.op, ast.UAdd):
            return v
        return ('inv', v)

    def e_BinOp(self, e):
        return self.binop(self.OPS[type(e.op)], self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            if a[0] in ('new', 'comp', 'setof', 'set') or b[0] in ('comp', 'setof', 'set'):
                return ('bin', '-', a, b)
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '%' and isc(a) and isinstance(a[1], str):
            return self.percent(a[1], b)
        if isnum(a) and isnum(b):
            try:
                x, y = a[1], b[1]
                r = {'/': lambda: x / y, '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y if abs(y) < 64 else None,
                     '<<': lambda: x << y, '>>': lambda: x >> y}.get(op, lambda: None)()
                if r is not None:
                    return c(r)
            except (ZeroDivisionError, TypeError, ValueError):
                pass
        if op in '|&^':
            x, y = a, b
            return ('bin', op, x, y)
        return ('bin', op, a, b)

    def percent(self, s, b):
        import re
        args = list(b[1]) if b[0] == 'tuple' else [b]
        out, pos, i = [], 0, 0
        for m in re.finditer(r'%([-+ #0]*\d*(?:\.\d+)?)([sdfrixgeo%])', s):
            out.append(c(s[pos:m.start()]))
            pos = m.end()
            if m.group(2) == '%':
                out.append(c('%'))
                continue
            if i >= len(args):
                return self.unk(None, 'format')
            out.append(self.fmt(args[i], '' if m.group(2) in 'sd' and not m.group(1) else m.group(1) + m.group(2)))
            i += 1
        out.append(c(s[pos:]))
        return cat(*out)

    def e_Compare(self, e):
        left = self.ev(e.left)
        out = []
        ops = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
               ast.NotIn: 'notin', ast.Is: 'is', ast.IsNot: 'isnot'}
        for o, x in zip(e.ops, e.comparators):
            r = self.ev(x)
            op = ops[type(o)]
            if op in ('in', 'notin') and r[0] == 'keys':
                r = r[1]
            if op in ('is', 'isnot') and isc(r) and isinstance(r[1], bool):
                op = {'is': '==', 'isnot': '!='}[op]
            if op in ('==', '!=') and isc(r) and r[1] is None:
                op = {'==': 'is', '!=': 'isnot'}[op]
            out.append(cmp(op, left, r))
            left = r
        return conj(out)

    def e_Slice(self, e):
        f = lambda x: self.ev(x) if x is not None else NONE
        return ('sl', f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev(e.slice)
        return self.item(b, i)

    def item(self, b, i):
        if i[0] == 'sl':
            lo, hi, st = i[1:]
            if lo == NONE and st == NONE:
                lo = c(0)
            if st == NONE and hi == ('len', b):
                hi = NONE
            if b[0] in ('tuple', 'list') and isc(lo) and isc(hi) and st == NONE:
                return (b[0], b[1][lo[1]:hi[1]])
            if isc(b) and isinstance(b[1], str) and isc(lo) and isc(hi) and st == NONE:
                return c(b[1][lo[1]:hi[1]])
            # a slice of a slice
            if b[0] == 'slice' and b[4] == NONE and st == NONE and b[3] == NONE and not (isnum(lo) and lo[1] < 0) \
                    and not (isnum(b[2]) and b[2][1] < 0):
                return ('slice', b[1], add(b[2], lo), NONE if hi == NONE else add(b[2], hi), NONE) \
                    if not (isnum(hi) and hi[1] < 0) else ('slice', b, lo, hi, st)
            return ('slice', b, lo, hi, st)
        if b[0] == 'tuple' or b[0] == 'list':
            if isc(i) and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                r = b[1][i[1]]
                if not any(x[0] == 'star' for x in b[1]):
                    return r
        if b[0] == 'dict' and isc(i):
            for k, v in b[1]:
                if k == i:
                    return v
        if b[0] == 'ite' and isc(i):
            return ite(b[1], self.item(b[2], i), self.item(b[3], i))
        if b[0] in ('listof', 'tupleof'):
            return self.item(b[1], i)
        if b[0] == 'nt' and isc(i) and isinstance(i[1], int) and -len(b[2]) <= i[1] < len(b[2]):
            return b[2][i[1]][1]
        if isc(b) and isinstance(b[1], str) and isc(i) and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
            return c(b[1][i[1]])
        if i[0] == 'rng' and i[1] == c(0) and i[2] == ('len', b):
            L = i[3]
            if self.loops[L]['iter'] == ('range', c(0), ('len', b)):
                self.loops[L]['iter'] = b
            return ('elem', b, L)
        if isc(i) and isinstance(i[1], int) and i[1] < 0 and b[0] == 'slice':
            pass
        return ('item', b, i)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        return self.attr(b, e.attr, e)

    def attr(self, b, name, e):
        if b[0] == 'mod':
            t = self.global_(b[1], name) if b[1] in self.prog.modules else None
            if t is None and b[1] + '.' + name in self.prog.modules:
                return ('mod', b[1] + '.' + name)
            return t or ('ext', b[1] + '.' + name)
        if (b, name) in self.st.heap:
            return self.st.heap[(b, name)]
        if b[0] == 'nt':
            for f, v in b[2]:
                if f == name:
                    return v
        if b[0] == 'ite' and b[2][0] == 'nt' and b[3][0] == 'nt':
            return ite(b[1], self.attr(b[2], name, e), self.attr(b[3], name, e))
        k = self.types.get(b)
        if k:
            f, owner = self.method(k, name)
            if f is not None:
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in f.decorator_list):
                    return self.inline(f, owner[1], owner, [b], {}, {}, e)
                static = any(isinstance(d, ast.Name) and d.id in ('staticmethod',) for d in f.decorator_list)
                t = ('meth', b if not static else None, f._nid, f.name)
                self.fns[('m', f._nid)] = (f, owner[1], owner, {})
                return t
            for kk in self.mro(k):
                for n in self.classnode(kk).body:
                    if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
                        keep = self.st
                        v = self.ev(n.value)
                        return v
        if b[0] == 'super':
            f, owner = self.method(b[2], name, after=b[3])
            if f is not None:
                self.fns[('m', f._nid)] = (f, owner[1], owner, {})
                return ('meth', b[1], f._nid, f.name)
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + name)
        return ('attr', b, name)

    def comp(self, e, kind):
        st0 = self.st
        self.st = st0.copy()
        cur0 = self.cur
        gens, guards = [], []
        for g in e.generators:
            it = self.ev(g.iter)
            if by_key(g.iter, g.target, [e]) and it[0] in KEYED:
                it = ('keys', it)
            Ls, gs, el = self.over(it, e)
            for L in Ls:
                gens.append((L, self.loops[L]['iter']))
            self.cur += tuple(Ls)
            guards += gs
            self.st.guards += tuple(gs)
            self.assign(g.target, el, e)
            for q in g.ifs:
                t = self.ev(q)
                ts = list(t[1]) if t[0] == 'and' else [t]
                ts = [x for x in ts if not (isc(x) and x[1])]
                guards += ts
                self.st.guards += tuple(ts)
        if kind == 'dict':
            el = ('tuple', (self.ev(e.key), self.ev(e.value)))
        else:
            el = self.ev(e.elt)
        self.cur = cur0
        heap = self.st.heap
        self.st = st0
        # items indexed by the counter may have turned the range into a walk
        gens = [(L, self.loops[L]['iter']) for L, _ in gens]
        return copied(('comp', kind, tuple(gens), tuple(guards), el))

    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'gen')

    def e_DictComp(self, e):
        return self.comp(e, 'dict')

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        fr = self.frames[-1]
        fr.yields = True
        fr.yielded.append((v, self.st.guards, self.cur))
        if not fr.silent:
            self.eff('yield', ('fn', (fr.through or fr.node)._nid), (v,), e)
        return self.unk(e, 'yield')

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        if v[0] == 'gencall':
            t = self.generate(v, e, fr.through or fr.node, fr.silent)
            if t is not None:
                fr.yielded += t.yielded
                return self.unk(e, 'yield')
        self.eff('yieldfrom', ('fn', fr.node._nid), (v,), e)
        return self.unk(e, 'yield')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    # ------------------------------------------------------------- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and 'super' not in self.st.env:
            fr = self.frames[-1]
            ps = fr.node.args.args
            if fr.cls and ps:
                s = self.st.env.get(ps[0].arg, ('p', 'self'))
                return ('super', s, self.types.get(s, fr.cls), fr.cls)
        f = self.ev(e.func)
        args = []
        for a in e.args:
            t = self.ev(a)
            if t[0] == 'star' and t[1][0] in ('tuple', 'list') and not any(x[0] == 'star' for x in t[1][1]):
                args += t[1][1]
            else:
                args.append(t)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                t = self.ev(k.value)
                if t[0] == 'dict' and all(isc(a) and isinstance(a[1], str) for a, _ in t[1]):
                    kw.update((a[1], b) for a, b in t[1])
                else:
                    kw['**'] = t
            else:
                kw[k.arg] = self.ev(k.value)
        return self.apply(f, args, kw, e)

    def positional(self, node, args, kw):
        """keyword arguments put in their place"""
        names = [a.arg for a in node.args.args]
        args, kw = list(args), dict(kw)
        while len(args) < len(names) and names[len(args)] in kw:
            args.append(kw.pop(names[len(args)]))
        return args, kw

    def close(self, mod, *names):
        """leave calls of these functions as they are"""
        self.opaque_fns = getattr(self, 'opaque_fns', {})
        for n in names:
            f = self.global_(mod, n)
            if f is None or f[0] != 'fn':
                raise Broken('function %s.%s is missing' % (mod, n))
            self.opaque_fns[self.fns[f[1]][0]] = n

    def apply(self, f, args, kw, e):
        h = f[0]
        if h == 'fn':
            node, mod, cls, penv = self.fns[f[1]]
            if node in getattr(self, 'opaque_fns', ()):
                args, kw = self.positional(node, args, kw)
                return ('call', ('g', self.opaque_fns[node]), tuple(args), tuple(sorted(kw.items())))
            if isinstance(penv, _Live):
                penv = penv.now(node)
            return self.inline(node, mod, None if cls is None else cls, args, kw, penv, e, f)
        if h == 'meth':
            if getattr(self, 'opaque', None) and f[3] in self.opaque and f[1] in self.types:
                t = ('call', f, tuple(args), tuple(sorted(kw.items())))
                if getattr(self, 'logopaque', None) is not None and not self.quiet:
                    self.logopaque.append((t, self.st.guards + self.cur))
                return t
            node, mod, cls, _ = self.fns[('m', f[2])]
            return self.inline(node, mod, cls, ([f[1]] if f[1] is not None else []) + args, kw, {}, e, f)
        if h == 'cls':
            return self.make(f, args, kw, e)
        if h == 'attr':
            return self.method_call(f[1], f[2], args, kw, e, f)
        if h == 'g':
            return self.builtin(f[1], args, kw, e)
        if h == 'ext':
            return self.external(f[1], args, kw, e)
        if h == 'ntc':
            vals = []
            for i, n in enumerate(f[2]):
                vals.append((n, args[i] if i < len(args) else kw.get(n, ('unk', 0, n))))
            return ('nt', f[1], tuple(vals))
        if h == 'ite':
            return ite(f[1], self.apply(f[2], args, kw, e), self.apply(f[3], args, kw, e))
        t = ('call', f, tuple(args), tuple(sorted(kw.items())))
        k = self.types.get(f)
        if k:
            m, owner = self.method(k, '__call__')
            if m is not None:
                return self.inline(m, owner[1], owner, [f] + args, kw, {}, e, f)
        self.eff('call', f, (('args', tuple(args), tuple(sorted(kw.items()))),), e)
        return t

    def make(self, k, args, kw, e):
        if any(isinstance(x, tuple) and x[0] == 'star' for x in args) or '**' in kw:
            return self.unk(e, 'star args')
        t = self.new('inst', e, k[2])
        self.types[t] = k
        f, owner = self.method(k, '__init__')
        if f is not None:
            self.inline(f, owner[1], owner, [t] + args, kw, {}, e)
        return t

    def generate(self, t, e, through, silent):
        """run the body of a generator where it is consumed; returns its frame"""
        f, args, kw = t[1], list(t[2]), dict(t[3])
        if f[0] == 'fn':
            node, mod, cls, penv = self.fns[f[1]]
            if isinstance(penv, _Live):
                penv = penv.now(node)
        elif f[0] == 'meth':
            node, mod, cls, penv = self.fns[('m', f[2])]
            if f[1] is not None and not (args and args[0] == f[1]):
                args = [f[1]] + args
        else:
            return None
        if any(fr.node is node for fr in self.frames) or len(self.frames) > MAXDEPTH:
            return None
        box = []
        self.inline(node, mod, cls, args, kw, penv, e, f, (through, silent, box))
        return box[0] if box else None

    def inline(self, node, mod, cls, args, kw, penv, e, f=None, gen=None):
        name = getattr(node, 'name', '<lambda>')
        if any(fr.node is node for fr in self.frames) or len(self.frames) > MAXDEPTH or \
                any(a[0] == 'star' for a in args) or '**' in kw:
            self.vague(e, 'call of %s not followed' % name)
            return ('call', f or ('fn', node._nid), tuple(args), tuple(sorted(kw.items())))
        if gen is None and isinstance(node, ast.FunctionDef) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)):
            return ('gencall', f or ('fn', node._nid), tuple(args), tuple(sorted(kw.items())))
        env = self.bindargs(node, args, kw, mod, penv)
        if env is None:
            self.vague(e, 'arguments of %s' % name)
            return ('call', f or ('fn', node._nid), tuple(args), tuple(sorted(kw.items())))
        st = self.st
        save = st.env
        fr = Fr(node, mod, cls, penv, len(st.guards), self.cur)
        if gen is not None:
            fr.through, fr.silent = gen[:2]
            gen[2].append(fr)
        st.env = env
        self.frames.append(fr)
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body)
            self.frames.pop()
            self.st.env = save
            return r
        bs = getattr(self, 'brkstack', [])
        self.brkstack = []
        self.block(node.body)
        self.brkstack = bs
        if not self.st.dead:
            fr.returns.append((self.st.guards, self.cur, NONE, node))
        self.frames.pop()
        out = self.rets(fr)
        g = st.guards[:fr.base] if st is self.st else self.st.guards[:fr.base]
        if not fr.returns:
            self.st.env = save
            self.st.dead = True
            return ('noret',)
        # heap at the exits: merged as if control joined (returns in branches
        # keep the state of the last exit when they disagree)
        s2 = State(save, self.st.heap, g)
        rg = [r[0][fr.base:] for r in fr.returns if r[1] == fr.loops0]
        if len(fr.returns) == 1 and rg:
            s2.guards = g + tuple(rg[0])
        self.st = s2
        return out

    def bindargs(self, node, args, kw, mod, penv):
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(ps) and a.vararg is None:
            return None
        for p, v in zip(ps, args):
            env[p] = v
        if a.vararg is not None:
            env[a.vararg.arg] = ('tuple', tuple(args[len(ps):]))
        rest = dict(kw)
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p in rest:
                if p in env:
                    return None
                env[p] = rest.pop(p)
        if a.kwarg is not None:
            env[a.kwarg.arg] = ('dict', tuple((c(k), v) for k, v in sorted(rest.items())))
        elif rest:
            return None
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                if p not in ds:
                    return None
                env[p] = self.default(ds[p], mod, penv)
        return env

    def default(self, d, mod, penv):
        keep = self.st, self.frames
        self.st = State(dict(penv), {}, self.st.guards)
        self.frames = self.frames + [Fr(d, mod, None, {}, 0, self.cur)]
        self.quiet += 1
        try:
            return self.ev(d)
        finally:
            self.quiet -= 1
            self.st, self.frames = keep

    # ------------------------------------------------------------- models
    WRAP = {'list': 'listof', 'tuple': 'tupleof', 'set': 'setof', 'frozenset': 'setof', 'iter': 'iterof',
            'reversed': 'reversed'}

    def keyfn(self, kw, e):
        k = kw.get('key')
        if k is None or k == NONE:
            return NONE
        if k[0] in ('fn', 'meth', 'attr', 'g'):
            self.quiet += 1
            t = self.apply(k, [('lp', 0)], {}, e)
            self.quiet -= 1
            return ('lam', t)
        return k

    def builtin(self, n, args, kw, e):
        if n in self.WRAP:
            if not args:
                return self.new({'listof': 'list', 'setof': 'set'}.get(self.WRAP[n], n), e)
            if n in ('list', 'tuple') and args[0][0] == 'comp' and args[0][1] in ('gen', 'list') and n == 'list':
                return ('comp', 'list') + args[0][2:]
            if n in ('set', 'frozenset') and args[0][0] == 'comp' and args[0][1] in ('gen', 'list'):
                return ('comp', 'set') + args[0][2:]
            return (self.WRAP[n], args[0])
        if n == 'dict':
            if not args:
                return self.new('dict', e) if not kw else ('dict', tuple((c(k), v) for k, v in sorted(kw.items())))
            a = args[0]
            if a[0] == 'comp' and a[1] in ('gen', 'list') and a[4][0] == 'tuple' and len(a[4][1]) == 2:
                return copied(('comp', 'dict') + a[2:])
            return ('copy', a)
        if n == 'len' and args:
            return length(args[0])
        if n == 'sorted':
            return ('sorted', args[0], self.keyfn(kw, e), kw.get('reverse', FALSE))
        if n in ('max', 'min'):
            d = kw.get('default')
            if len(args) == 1:
                return (n, (args[0],), self.keyfn(kw, e), d or NONE, 'of')
            if all(isnum(a) for a in args):
                return c({'max': max, 'min': min}[n](a[1] for a in args))
            return (n, tuple(sorted(args, key=key)), self.keyfn(kw, e))
        if n == 'sum':
            return ('sum', args[0])
        if n == 'enumerate':
            return ('enumerate', args[0], args[1] if len(args) > 1 else kw.get('start', c(0)))
        if n == 'range':
            if len(args) == 1:
                return ('range', c(0), args[0])
            if len(args) == 2:
                return ('range', args[0], args[1])
            return ('range', args[0], args[1], args[2]) if args[2] != c(1) else ('range', args[0], args[1])
        if n == 'zip':
            return ('zip', tuple(args))
        if n in ('map', 'filter'):
            return (n,) + tuple(args)
        if n == 'str' and len(args) == 1:
            return self.fmt(args[0]) if self.fmt(args[0])[0] != 'fmt' else ('str', (self.fmt(args[0]),))
        if n in ('int', 'float', 'bool', 'abs', 'ord', 'chr', 'round', 'repr', 'any', 'all', 'next', 'hash', 'id', 'type',
                 'isinstance', 'hasattr', 'getattr', 'callable', 'divmod', 'pow', 'issubclass', 'format', 'input', 'bytes'):
            if n == 'ord' and args and isc(args[0]) and isinstance(args[0][1], str) and len(args[0][1]) == 1:
                return c(ord(args[0][1]))
            if n == 'divmod':
                return ('tuple', (self.binop('//', *args), self.binop('%', *args)))
            if n == 'next':
                self.eff('next', args[0], (), e)
            return ('call', ('g', n), tuple(args), tuple(sorted(kw.items())))
        if n == 'print':
            self.eff('print', ('g', 'print'), args, e)
            return NONE
        if n == 'open':
            t = self.new('file', e, args[0] if args else kw.get('file', NONE), args[1] if len(args) > 1 else kw.get('mode', c('r')))
            return t
        if n == 'setattr':
            self.eff('setattr', args[0], (args[1], args[2]), e)
            return NONE
        self.eff('call', ('g', n), (('args', tuple(args), tuple(sorted(kw.items()))),), e)
        return ('call', ('g', n), tuple(args), tuple(sorted(kw.items())))

    def external(self, n, args, kw, e):
        s = n.rsplit('.', 1)[-1]
        if n in ('collections.defaultdict', 'collections.Counter', 'collections.OrderedDict', 'collections.deque'):
            kind = {'defaultdict': 'ddict', 'Counter': 'counter', 'OrderedDict': 'dict', 'deque': 'list'}[s]
            if s == 'Counter' and args:
                return ('counter', args[0])
            if s == 'deque' and args:
                return ('listof', args[0])
            t = self.new(kind, e)
            self.made[t] = (tuple(args), dict(kw), e)
            return t
        if n == 'collections.namedtuple' and len(args) == 2:
            fs = args[1]
            if isc(fs) and isinstance(fs[1], str):
                return ('ntc', args[0][1] if isc(args[0]) else '?', tuple(fs[1].replace(',', ' ').split()))
            if fs[0] in ('list', 'tuple') and all(isc(x) for x in fs[1]):
                return ('ntc', args[0][1] if isc(args[0]) else '?', tuple(x[1] for x in fs[1]))
        if n == 're.compile':
            return ('regex',) + tuple(args)
        if n in ('re.sub', 're.findall', 're.split', 're.match', 're.search', 're.fullmatch', 're.finditer'):
            return ('call', ('attr', ('regex', args[0]), s), tuple(args[1:]), tuple(sorted(kw.items())))
        if n in ('copy.copy', 'copy.deepcopy'):
            return ('copy' if s == 'copy' else 'deepcopy', args[0])
        if n in ('json.dump', 'pickle.dump', 'json.load', 'pickle.load'):
            self.eff(n, args[-1] if s == 'load' else args[1], tuple(args[:1]), e)
            return ('call', ('ext', n), tuple(args), tuple(sorted(kw.items())))
        self.eff('call', ('ext', n), (('args', tuple(args), tuple(sorted(kw.items()))),), e)
        return ('call', ('ext', n), tuple(args), tuple(sorted(kw.items())))

    PURE = {'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'join', 'replace', 'index', 'find', 'count',
            'lstrip', 'rstrip', 'rsplit', 'partition', 'rpartition', 'isdigit', 'isspace', 'isalpha', 'splitlines', 'title',
            'encode', 'decode', 'sub', 'findall', 'match', 'search', 'fullmatch', 'group', 'span', 'start', 'end', 'finditer',
            'union', 'intersection', 'difference', 'most_common', 'tocsr', 'tocoo', 'sum', 'reshape', 'argsort', 'isnumeric',
            'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'zfill', 'tolist', 'dot'}

    def method_call(self, b, n, args, kw, e, f):
        if n == 'append' or n == 'add' or n == 'appendleft':
            self.eff('append' if n != 'add' else 'add', b, args, e)
            return NONE
        if n in ('extend', 'update', 'insert', 'remove', 'discard', 'clear', 'sort', 'reverse'):
            a = list(args)
            if n == 'sort':
                a = [self.keyfn(kw, e), kw.get('reverse', FALSE)]
            elif kw:
                a.append(('kw', tuple(sorted(kw.items()))))
            self.eff(n, b, a, e)
            if n == 'sort' and self.frames and self.cur == self.frames[-1].loops0 and not self.quiet and not args:
                for k, v in list(self.st.env.items()):
                    if v == b and b[0] in ('new', 'comp', 'bin', 'listof', 'out', 'list'):
                        self.st.env[k] = ('sorted', b, a[0], a[1])
            return NONE
        if n in ('pop', 'popitem', 'popleft'):
            self.serial += 1
            self.eff('pop', b, args if n != 'popleft' else [c(0)], e)
            return ('popped', b, self.serial) + tuple(args)
        if n == 'get' and args and not kw:
            return self.get(b, args[0], args[1] if len(args) > 1 else NONE)
        if n == 'setdefault' and args:
            self.eff('setdefault', b, args, e)
            return ('item', b, args[0])
        if n in ('items', 'keys', 'values') and not args:
            return (n, b)
        if n == 'copy' and not args:
            return ('copy', b)
        if n == 'format' and stringy(b):
            return self.format(b, args, kw)
        if n in ('write', 'writelines'):
            self.eff(n, b, args, e)
            return NONE
        if n in ('read', 'readline', 'readlines'):
            if n == 'readlines':
                return ('listof', b)
            self.eff(n, b, args, e)
            self.serial += 1
            return ('read', b, n, self.serial)
        if n in ('close', 'flush', 'seek'):
            self.eff(n, b, args, e)
            return NONE
        if n == '__contains__' and args:
            return cmp('in', args[0], b)
        if n == '__getitem__' and args:
            return self.item(b, args[0])
        if n == '__len__':
            return length(b)
        if n == 'join' and args and isc(b) and args[0][0] in ('tuple', 'list'):
            out = []
            for i, x in enumerate(args[0][1]):
                if i:
                    out.append(b)
                out.append(('fmt', x, '') if not stringy(x) else x)
            return cat(*out)
        if n == '_replace' and b[0] == 'nt':
            return ('nt', b[1], tuple((k, kw.get(k, v)) for k, v in b[2]))
        if b[0] == 'super':
            return ('call', f, tuple(args), tuple(sorted(kw.items())))
        if n in self.PURE:
            return ('call', f, tuple(args), tuple(sorted(kw.items())))
        self.eff('call', f, (('args', tuple(args), tuple(sorted(kw.items()))),), e)
        return ('call', f, tuple(args), tuple(sorted(kw.items())))

    def get(self, b, k, d):
        return ('get', b, k, d)

    def format(self, b, args, kw):
        import string
        if not (isc(b) and isinstance(b[1], str)):
            return ('call', ('attr', b, 'format'), tuple(args), tuple(sorted(kw.items())))
        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(b[1]):
                out.append(c(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return ('call', ('attr', b, 'format'), tuple(args), tuple(sorted(kw.items())))
                out.append(self.fmt(v, (spec or '') + ('!' + conv if conv else '')))
        except (ValueError, IndexError):
            return ('call', ('attr', b, 'format'), tuple(args), tuple(sorted(kw.items())))
        return cat(*out)


class _Live(dict):
    """the names around a nested function, as they are when it is called"""

    def __init__(self, env, reader):
        super().__init__(env)
        self.reader = reader
        self.frame = reader.frames[-1]

    def now(self, node):
        d = dict(self)
        r = self.reader
        if r.frames and r.frames[-1] is self.frame:
            d.update(r.st.env)
        return d
