"""What builtins, builtin-type methods and outside libraries do, abstractly."""
import posixpath
import re._parser as sre_parse

from . import interp as I
from .interp import (BOT, ANY, NONE, INT, FLOAT, STR, BOOL, TRUE, FALSE, C, K, const,
                     core, tags, union, join, STR_METHODS, MUTATORS)

LIST_M = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'index', 'count', 'sort',
          'reverse', 'copy', '__len__', '__contains__', '__iter__', '__getitem__'}
DICT_M = {'get', 'items', 'keys', 'values', 'update', 'pop', 'popitem', 'setdefault', 'clear',
          'copy', 'fromkeys', '__len__', '__contains__', '__iter__', '__getitem__'}
SET_M = {'add', 'remove', 'discard', 'pop', 'clear', 'update', 'union', 'intersection',
         'difference', 'symmetric_difference', 'intersection_update', 'difference_update',
         'symmetric_difference_update', 'issubset', 'issuperset', 'isdisjoint', 'copy',
         '__len__', '__contains__', '__iter__'}
FILE_M = {'read', 'readline', 'readlines', 'write', 'writelines', 'close', 'flush', 'seek',
          'tell', '__next__', '__iter__', '__enter__', '__exit__', 'closed', 'name', 'fileno',
          'encoding'}
TYPE_M = {
    'list': LIST_M, 'dict': DICT_M, 'defaultdict': DICT_M | {'default_factory', '__missing__'},
    'Counter': DICT_M | {'most_common', 'elements', 'subtract', 'total'},
    'set': SET_M, 'file': FILE_M, 'deque': LIST_M | {'appendleft', 'popleft', 'extendleft',
                                                     'rotate', 'maxlen'},
    'gen': {'__next__', 'send', 'close', 'throw', '__iter__'},
    'view': {'isdisjoint', '__len__', '__iter__', 'union', 'mapping'},
    'int': set(dir(int)), 'float': set(dir(float)), 'bool': set(dir(bool)), 'str': set(dir(str)),
    'bytes': set(dir(bytes)), 'NoneType': set(dir(None)), 'tuple': {'count', 'index'},
    'range': {'start', 'stop', 'step', 'count', 'index'},
    'regex': {'findall', 'finditer', 'match', 'search', 'sub', 'subn', 'split', 'fullmatch',
              'pattern', 'flags', 'groups', 'groupindex'},
    'match': {'group', 'groups', 'start', 'end', 'span', 'groupdict', 'string', 're', 'expand',
              'lastindex', 'lastgroup', 'pos', 'endpos'},
    'slice': {'start', 'stop', 'step'},
    'object': set(dir(object)),
}


class ModelMixin:

    def created(self):
        """has this call certainly created a directory just now?"""
        return self.st.get(('flag', 'created')) == TRUE

    def builtin_attr(self, a, kind, name, node):
        known = TYPE_M.get(kind)
        if known is not None and name not in known and not name.startswith('__'):
            self.ev('unresolved_attr', node, name=name, cls=kind)
            return None
        if kind == 'file' and name in ('closed', 'name', 'encoding'):
            return ANY
        if kind == 'regex' and name in ('pattern', 'flags', 'groups', 'groupindex'):
            return STR if name == 'pattern' else ANY
        if kind == 'defaultdict' and name == 'default_factory':
            return self.st.get(('a', a[1], '#factory'))
        return frozenset([('b', a, name)])

    def ext_attr(self, base, name):
        d = base + '.' + name
        if d == 'sys.version':
            return const(self.pyversion)
        if d in ('os.sep', 'os.path.sep'):
            return const('/')
        if d == 'sys.version_info.major':
            return const(3)
        if d == 'sys.version_info.minor':
            return const(12)
        if d in ('re.UNICODE', 're.U', 're.IGNORECASE', 're.I'):
            return INT
        if d == 'sys.maxsize':
            return INT
        if base == 'exception':
            return ANY
        if base.split('.')[0] in STDLIB and not self.ext_exists(base, name):
            return frozenset([('E', d)])
        return frozenset([('E', d)])

    def ext_exists(self, base, name):
        return True

    # ------------------------------------------------------------- builtins
    def call_builtin(self, n, args, kwargs, node, star=None, dstar=None):
        allargs = list(args) + list(kwargs.values()) + ([star] if star else []) + ([dstar] if dstar else [])
        tg = BOT
        for v in allargs:
            tg |= tags(v)
        if n not in ('isinstance', 'type', 'id', 'hasattr', 'list', 'dict', 'set', 'tuple', 'iter',
                     'getattr', 'setattr', 'str', 'int', 'float', 'bool', 'map', 'filter', 'zip',
                     'enumerate', 'reversed', 'sorted', 'super', 'object', 'property'):
            for v in allargs:
                self.use(v, node, n)
        self.hook('builtin', node, n, args, kwargs)
        m = getattr(self, 'b_' + n, None)
        if m is not None:
            try:
                r = m(node, args, kwargs, star)
            except IndexError:
                if star is not None:
                    return ANY
                self.ev('bad_call', node, callee=n, why='missing argument')
                self.st = None
                return BOT
            return r
        if n in ('len', 'ord', 'hash', 'id', 'round'):
            if n == 'len' and args:
                cx = core(args[0])
                if len(cx) == 1:
                    a = next(iter(cx))
                    if a[0] == 'c' and isinstance(a[2], str):
                        return const(len(a[2])) | tags(args[0])
                    if a[0] == 't':
                        return const(len(a[1])) | tags(args[0])
                    if a[0] == 'c' and isinstance(a[2], (int, float)) or a[0] == 'c' and a[2] is None:
                        self.ev('type_mismatch', node, op='len', a=str(a[2]), b='')
                        self.st = None
                        return BOT
                    if a[0] == 'o' and self.objs[a[1]].kind == 'inst':
                        mm = self.getattr_atom(a, '__len__', node, quiet=True)
                        if not mm:
                            if not self.ext_bases(self.objs[a[1]].cls):
                                self.ev('unresolved_attr', node, name='__len__', cls=self.objs[a[1]].cls)
                        else:
                            return self.call(mm, [], {}, node)
                for a in cx:
                    if a[0] == 'o' and self.objs[a[1]].kind == 'inst':
                        mm = self.getattr_atom(a, '__len__', node, quiet=True)
                        if mm:
                            self.call(mm, [], {}, node)
                            if self.st is None:
                                return BOT
            if n == 'ord' and args:
                out = BOT
                for a in core(args[0]):
                    if a[0] == 'c' and isinstance(a[2], str) and len(a[2]) == 1:
                        out = union(out, const(ord(a[2])))
                    else:
                        out = union(out, INT)
                return out | tg
            if n == 'round':
                return INT | FLOAT | tg
            return INT | tg
        if n in ('chr', 'repr', 'format', 'hex', 'bin', 'oct', 'ascii', 'input'):
            return STR | tg
        if n in ('print',):
            fs = core(kw_file) if (kw_file := kwargs.get('file')) else BOT
            if not (fs and all(a[0] == 'o' and self.objs[a[1]].kind == 'file' for a in fs)):
                self.ev('print', node, created=self.created())
            return NONE
        if n in ('any', 'all', 'callable', 'issubclass'):
            for v in args:
                self.iterate(v, node) if n in ('any', 'all') else None
            return BOOL | tg
        if n in ('abs', 'pow', 'divmod'):
            return (INT | FLOAT | tg) if n != 'divmod' else frozenset([('t', (INT, INT), None)])
        if n in ('globals', 'locals', 'vars', 'dir'):
            return ANY
        if n in ('Exception', 'ValueError', 'KeyError', 'TypeError', 'IndexError', 'RuntimeError',
                 'NotImplementedError', 'AttributeError', 'IOError', 'OSError', 'StopIteration',
                 'FileNotFoundError', 'AssertionError', 'LookupError', 'Warning', 'UserWarning',
                 'DeprecationWarning'):
            return frozenset([('E', 'exception')])
        if n == 'NotImplemented':
            self.ev('not_callable', node, what='NotImplemented')
            self.st = None
            return BOT
        return ANY

    def b_isinstance(self, node, args, kw, star):
        if len(args) != 2:
            self.ev('bad_call', node, callee='isinstance', why='takes 2 arguments, %d given' % len(args))
            self.st = None
            return BOT
        self.use(args[0], node, 'isinstance')
        res = set()
        for a in core(args[0]):
            res |= self.isinst(a, args[1])
        if not core(args[0]):
            res = {True, False}
        return (TRUE if True in res else BOT) | (FALSE if False in res else BOT) | tags(args[0])

    def b_type(self, node, args, kw, star):
        self.use(args[0], node, 'type')
        out = BOT
        for a in core(args[0]):
            if a[0] == 'c' or a[0] == 'k':
                out |= frozenset([('B', a[1])]) if a[1] in I.BUILTINS else ANY
            elif a[0] in ('t', 'T'):
                if a[0] == 't' and a[2]:
                    out |= frozenset([('N', a[2], tuple(self.nt_fields[a[2]]))])
                else:
                    out |= frozenset([('B', 'tuple')])
            elif a[0] == 'o':
                o = self.objs[a[1]]
                if o.kind == 'inst':
                    out |= frozenset([('C', o.cls)])
                elif o.kind in ('list', 'dict', 'set'):
                    out |= frozenset([('B', o.kind)])
                elif o.kind in ('defaultdict', 'Counter', 'deque'):
                    out |= frozenset([('E', 'collections.' + o.kind)])
                else:
                    out |= ANY
            else:
                out |= ANY
        return out or ANY

    def _conv(self, kind, node, args, kw):
        if not args:
            e = BOT
            if kind == 'dict':
                for v in kw.values():
                    e = union(e, v)
                return frozenset([self.alloc('dict', node, e=e, k=STR if kw else BOT)])
            return frozenset([self.alloc(kind, node)])
        v = args[0]
        tg = tags(v)
        if kind == 'dict':
            k, e = BOT, BOT
            for a in core(v):
                if a[0] == 'o' and self.objs[a[1]].kind in ('dict', 'defaultdict', 'Counter'):
                    k = union(k, self.st.get(('k', a[1])))
                    e = union(e, self.st.get(('e', a[1])))
                else:
                    el = self.iterate(frozenset([a]), node)
                    if self.st is None:
                        return BOT
                    kk, ee = self.pair(el)
                    k, e = union(k, kk), union(e, ee)
            for x in kw.values():
                e = union(e, x)
                k = union(k, STR)
            return frozenset([self.alloc('dict', node, e=e, k=k)]) | tg
        el = self.iterate(v, node)
        if self.st is None:
            return BOT
        x = None
        cv = core(v)
        if kind == 'list' and len(cv) == 1:
            a = next(iter(cv))
            if a[0] == 't':
                x = a[1]
            elif a[0] == 'o':
                x = self.st.d.get(('x', a[1]))
        if kind == 'list':
            return frozenset([self.new_list(node, core(el) | tags(el), x=x)]) | tg
        return frozenset([self.alloc(kind, node, e=el)]) | tg

    def pair(self, el):
        k, e = BOT, BOT
        for a in core(el):
            if a[0] == 't' and len(a[1]) == 2:
                k, e = union(k, a[1][0]), union(e, a[1][1])
            elif a[0] == 'T':
                k, e = union(k, a[1]), union(e, a[1])
            elif a[0] == 'o':
                x = self.st.get(('e', a[1]))
                k, e = union(k, x), union(e, x)
            elif a[0] == 'u':
                k, e = union(k, frozenset([a])), union(e, frozenset([a]))
            else:
                k, e = union(k, ANY), union(e, ANY)
        tg = tags(el)
        return k | tg, e | tg

    def b_list(self, node, args, kw, star):
        return self._conv('list', node, args, kw)

    def b_set(self, node, args, kw, star):
        return self._conv('set', node, args, kw)

    def b_frozenset(self, node, args, kw, star):
        return self._conv('set', node, args, kw)

    def b_dict(self, node, args, kw, star):
        return self._conv('dict', node, args, kw)

    def b_tuple(self, node, args, kw, star):
        if not args:
            return frozenset([('t', (), None)])
        cv = core(args[0])
        if len(cv) == 1 and next(iter(cv))[0] in ('t', 'T'):
            return args[0]
        if len(cv) == 1 and next(iter(cv))[0] == 'o':
            x = self.st.d.get(('x', next(iter(cv))[1]))
            if x is not None:
                return frozenset([('t', tuple(x), None)])
        el = self.iterate(args[0], node)
        return frozenset([('T', el)]) | tags(args[0]) if self.st is not None else BOT

    def b_str(self, node, args, kw, star):
        if not args:
            return const('')
        for v in args:
            self.use(v, node, 'str')
        out = BOT
        for a in core(args[0]):
            if a[0] == 'c':
                out = union(out, const(str(a[2])))
            else:
                out = union(out, STR)
        return out | tags(args[0])

    def b_int(self, node, args, kw, star):
        out = BOT
        for a in (core(args[0]) if args else [C(0)]):
            if a[0] == 'c' and isinstance(a[2], (int, float)):
                out = union(out, const(int(a[2])))
            else:
                out = union(out, INT)
        return out | (tags(args[0]) if args else BOT)

    def b_float(self, node, args, kw, star):
        return FLOAT | (tags(args[0]) if args else BOT)

    def b_bool(self, node, args, kw, star):
        if not args:
            return FALSE
        t, f = self.truth(args[0])
        return (TRUE if t else BOT) | (FALSE if f else BOT) | tags(args[0])

    def b_range(self, node, args, kw, star):
        tg = BOT
        for v in args:
            tg |= tags(v)
            for a in core(v):
                if a[0] == 'k' and a[1] in ('str', 'float') or a[0] == 'c' and not isinstance(a[2], int):
                    if len(core(v)) == 1:
                        self.ev('type_mismatch', node, op='range', a=str(a[1]), b='')
        vals = []
        for v in args:
            cv = core(v)
            if len(cv) == 1 and next(iter(cv))[0] == 'c' and isinstance(next(iter(cv))[2], int):
                vals.append(next(iter(cv))[2])
        el = INT
        if len(vals) == len(args):
            try:
                r = list(range(*vals)) if not any(abs(x) > 100 for x in vals) else None
            except ValueError:
                r = None
            if r is not None and len(r) <= 6:
                el = BOT
                for i in r:
                    el = union(el, const(i))
        return frozenset([self.alloc('range', node, e=el | tg)])

    def b_enumerate(self, node, args, kw, star):
        el = self.iterate(args[0], node)
        if self.st is None:
            return BOT
        if not core(el):
            return frozenset([self.alloc('gen', node)])
        return frozenset([self.alloc('gen', node, e=frozenset([('t', (INT, el), None)]))]) | tags(args[0])

    def b_zip(self, node, args, kw, star):
        els = []
        for v in args:
            els.append(self.iterate(v, node))
            if self.st is None:
                return BOT
        if star is not None:
            e = self.iterate(star, node)
            return frozenset([self.alloc('gen', node, e=frozenset([('T', union(e, *els) if els else e)]))])
        if not all(core(e) for e in els):
            return frozenset([self.alloc('gen', node)])
        return frozenset([self.alloc('gen', node, e=frozenset([('t', tuple(els), None)]))])

    def b_map(self, node, args, kw, star):
        els = []
        for v in args[1:]:
            els.append(self.iterate(v, node))
            if self.st is None:
                return BOT
        if not all(core(e) for e in els):
            return frozenset([self.alloc('gen', node)])
        keep = self.st
        r = self.call(args[0], els, {}, node)
        if self.st is None:
            self.st = keep
            r = BOT
        x = None
        if len(args) == 2:
            cv = core(args[1])
            if len(cv) == 1 and next(iter(cv))[0] == 't':
                x = [r] * len(next(iter(cv))[1])
        o = self.alloc('gen', node, e=r)
        if x is not None and o[1] not in self.weak:
            self.st.d[('x', o[1])] = tuple(x)
        return frozenset([o])

    def b_filter(self, node, args, kw, star):
        el = self.iterate(args[1], node)
        if self.st is None:
            return BOT
        if core(el) and core(args[0]) != core(NONE):
            keep = self.st
            r = self.call(args[0], [el], {}, node)
            if self.st is None:
                self.st = keep
            else:
                self.use(r, node, 'filter')
        return frozenset([self.alloc('gen', node, e=el)])

    def b_sorted(self, node, args, kw, star):
        el = self.iterate(args[0], node)
        if self.st is None:
            return BOT
        self.key_call(el, kw, node)
        if self.st is None:
            return BOT
        h = self.hooks.get('sorted')
        tg = tags(args[0])
        if h:
            el, tg = h(self, node, args[0], el, kw, tg)
        return frozenset([self.new_list(node, el)]) | tg

    def key_call(self, el, kw, node):
        k = kw.get('key')
        if k is not None and core(k) and core(el) and core(k) != core(NONE):
            keep = self.st.copy()
            r = self.call(k, [el], {}, node)
            if self.st is None:
                self.st = keep
            return r
        return BOT

    def b_reversed(self, node, args, kw, star):
        el = self.iterate(args[0], node)
        return frozenset([self.alloc('gen', node, e=el)]) | tags(args[0]) if self.st is not None else BOT

    def b_iter(self, node, args, kw, star):
        el = self.iterate(args[0], node)
        return frozenset([self.alloc('gen', node, e=el)]) if self.st is not None else BOT

    def b_next(self, node, args, kw, star):
        el = self.iterate(args[0], node)
        if self.st is None:
            return BOT
        for v in args[1:]:
            el = union(el, v)
        return el

    def _minmax(self, node, args, kw, star):
        if len(args) == 1 and star is None:
            el = self.iterate(args[0], node)
            if self.st is None:
                return BOT
            if 'default' in kw:
                el = union(el, kw['default'])
        else:
            el = union(BOT, *args)
            if star:
                el = union(el, star)
        self.key_call(el, kw, node)
        if self.st is None:
            return BOT
        # the result of max/min over numbers is one of them
        return el

    b_max = _minmax
    b_min = _minmax

    def b_sum(self, node, args, kw, star):
        el = self.iterate(args[0], node)
        if self.st is None:
            return BOT
        out = BOT
        for a in core(el):
            if a[0] in ('c', 'k') and a[1] in ('int', 'bool'):
                out |= INT
            elif a[0] in ('c', 'k') and a[1] == 'float':
                out |= FLOAT
            elif a[0] in ('c', 'k') and a[1] == 'str':
                self.ev('type_mismatch', node, op='sum', a='str', b='')
            else:
                out |= ANY
        if len(args) > 1:
            out = union(out, args[1])
        return (out or INT) | tags(el)

    def b_hasattr(self, node, args, kw, star):
        res = BOT
        nm = None
        for a in core(args[1]):
            if a[0] == 'c':
                nm = a[2]
        for a in core(args[0]):
            if nm and a[0] == 'o' and self.objs[a[1]].kind == 'inst':
                has = ('a', a[1], nm) in self.st.d or self.class_attr(self.objs[a[1]].cls, nm)
                res |= TRUE if has else FALSE
                if ('a', a[1], nm) in self.st.d and not self.class_attr(self.objs[a[1]].cls, nm):
                    res |= FALSE
            elif a[0] == 'o' and nm in ('__iter__', '__len__'):
                k = self.objs[a[1]].kind
                res |= FALSE if k == 'gen' and nm == '__len__' else TRUE
            else:
                res |= BOOL
        return res or BOOL

    def b_getattr(self, node, args, kw, star):
        out = BOT
        names = [a[2] for a in core(args[1]) if a[0] == 'c']
        for a in core(args[0]):
            for n in names:
                v = self.getattr_atom(a, n, node, quiet=len(args) > 2)
                if self.st is None:
                    return BOT
                if v:
                    out = union(out, v)
        if len(args) > 2:
            out = union(out, args[2])
        if not names:
            out = union(out, ANY)
        return out or ANY

    def b_setattr(self, node, args, kw, star):
        names = [a[2] for a in core(args[1]) if a[0] == 'c']
        for n in names or ['?']:
            self.setattr(args[0], n, args[2], node)
        return NONE

    def b_open(self, node, args, kw, star):
        o = self.alloc('file', node)
        self.ev('open', node, path=_fmt(args[0]) if args else _fmt(kw.get('file', BOT)),
                mode=_fmt(args[1]) if len(args) > 1 else _fmt(kw.get('mode', const('r'))),
                encoding=_fmt(args[3]) if len(args) > 3 else _fmt(kw.get('encoding', const('<default>'))),
                etags=tuple(sorted(str(t[1]) for t in tags(kw.get('encoding', BOT)))),
                ptags=tuple(sorted(str(t[1]) for t in tags(args[0] if args else kw.get('file', BOT)))),
                api='open')
        self.opened(o)
        self.hook('open', node, o, args, kw)
        return frozenset([o])

    def b_super(self, node, args, kw, star):
        return ANY

    def b_object(self, node, args, kw, star):
        return ANY

    def b_exec(self, node, args, kw, star):
        self.ev('dynamic', node, what='exec')
        return NONE

    def b_eval(self, node, args, kw, star):
        self.ev('dynamic', node, what='eval')
        return ANY

    # ------------------------------------------------------------- methods of builtin types
    def call_method(self, recv, name, args, kwargs, node, star=None, dstar=None):
        t = recv[0]
        for v in list(args) + list(kwargs.values()):
            if name not in ('append', 'add', 'extend', 'update', 'insert', 'setdefault', 'get', 'pop',
                            'write', 'format', 'join', 'appendleft'):
                self.use(v, node, name)
        if t == 'o':
            kind = self.objs[recv[1]].kind
            if kind in ('list', 'deque'):
                return self.m_list(recv, name, args, kwargs, node)
            if kind in ('dict', 'defaultdict', 'Counter'):
                return self.m_dict(recv, kind, name, args, kwargs, node)
            if kind == 'set':
                return self.m_set(recv, name, args, kwargs, node)
            if kind == 'file':
                return self.m_file(recv, name, args, kwargs, node)
            if kind == 'regex':
                return self.m_regex(recv, name, args, kwargs, node)
            if kind == 'match':
                if name == 'span':
                    return frozenset([('t', (INT, INT), None)])
                if name in ('start', 'end'):
                    return INT
                if name == 'group' and len(args) < 2 and star is None:
                    return STR
                return ANY
            if kind == 'gen':
                if name in ('__next__', 'send'):
                    return self.st.get(('e', recv[1]))
                return ANY
            if kind == 'view':
                return frozenset([self.alloc('set', node, e=self.st.get(('e', recv[1])))])
            return ANY
        if t in ('c', 'k') and recv[1] == 'str':
            return self.m_str(recv, name, args, kwargs, node)
        if t in ('c', 'k'):
            if name == 'decode':
                return STR
            return ANY
        if t == 't' or t == 'T':
            if name == '_replace':
                fields = self.nt_fields[recv[2]]
                vals = [kwargs.get(f, v) for f, v in zip(fields, recv[1])]
                bad = [k for k in kwargs if k not in fields]
                if bad:
                    self.ev('bad_call', node, callee='_replace', why='no field %s' % bad[0])
                return frozenset([('t', tuple(vals), recv[2])])
            return INT
        if t == 'B':
            if recv[1] in ('str', 'dict', 'list', 'set') and args and name != 'fromkeys' and name != 'join':
                fv = BOT
                for a in core(args[0]):
                    v = self.getattr_atom(a, name, node, quiet=False)
                    if v:
                        fv = union(fv, v)
                return self.call(fv, args[1:], kwargs, node) if fv else ANY
            if name == 'fromkeys':
                el = self.iterate(args[0], node)
                return frozenset([self.alloc('dict', node, k=el, e=args[1] if len(args) > 1 else NONE)])
            if recv[1] == 'str' and name == 'join':
                return STR
            return ANY
        if t == 'N':
            if name == '_make':
                el = self.iterate(args[0], node)
                return frozenset([('t', tuple(el for _ in recv[2]), recv[1])])
            return ANY
        if t == 'u':
            return self.m_unknown(recv, name, args, kwargs, node)
        return ANY

    def m_unknown(self, recv, name, args, kwargs, node):
        lab = recv[1]
        if name in ('enter_context', 'push') and args and self.st.get(('open',)):
            self.protect(args[0])
            return args[0]
        if name in MUTATORS:
            self.mutate_u(lab, node, '.%s()' % name)
            return frozenset([recv])
        if name in ('split', 'splitlines', 'rsplit', 'partition'):
            return frozenset([self.alloc('list', node, extra='usplit', e=STR)])
        if name in ('items',):
            el = frozenset([('t', (frozenset([recv]), frozenset([recv])), None)])
            return frozenset([self.alloc('view', node, extra='u', e=el)])
        if name in ('keys', 'values'):
            return frozenset([self.alloc('view', node, extra='u', e=frozenset([recv]))])
        if name in ('strip', 'lower', 'upper', 'replace', 'lstrip', 'rstrip', 'format', 'title'):
            return STR
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace'):
            return BOOL
        if name in ('copy', 'union', 'intersection', 'difference'):
            return frozenset([('u', '')])
        if name == 'get':
            return union(frozenset([recv]), args[1] if len(args) > 1 else NONE)
        return frozenset([('u', lab)]) if lab else ANY

    def m_list(self, r, name, args, kw, node):
        oid = r[1]
        d = self.st.d
        if name in ('append', 'appendleft'):
            if not args:
                self.ev('bad_call', node, callee=name, why='missing argument')
                return NONE
            if len(args) > 1:
                self.ev('bad_call', node, callee=name, why='too many arguments')
                self.st = None
                return BOT
            self.mutate(oid, node, '.%s()' % name)
            self.hook('append', node, r, args[0])
            self.add_e(oid, args[0])
            return NONE
        if name in ('extend', 'extendleft'):
            self.mutate(oid, node, '.%s()' % name)
            el = self.iterate(args[0], node)
            if self.st is None:
                return BOT
            self.add_e(oid, el)
            return NONE
        if name == 'insert':
            self.mutate(oid, node, '.insert()')
            self.add_e(oid, args[1])
            return NONE
        if name in ('pop', 'popleft'):
            self.mutate(oid, node, '.%s()' % name)
            h = self.hooks.get('pop')
            if h:
                h(self, node, r)
            return self.st.get(('e', oid))
        if name in ('remove', 'clear', 'reverse', 'sort', 'rotate'):
            self.mutate(oid, node, '.%s()' % name)
            if name == 'sort':
                self.key_call(self.st.get(('e', oid)), kw, node)
                h = self.hooks.get('list_sort')
                if h:
                    h(self, node, r, kw)
            return NONE
        if name == 'copy':
            return frozenset([self.new_list(node, self.st.get(('e', oid)))])
        if name in ('index', 'count', '__len__'):
            return INT
        if name == '__contains__':
            return BOOL
        if name == '__iter__':
            return frozenset([self.alloc('gen', node, e=self.st.get(('e', oid)))])
        if name == '__getitem__':
            return self.st.get(('e', oid))
        return ANY

    def view(self, node, r, what, e):
        o = self.alloc('view', node, extra=(what, r[1]), e=e)
        h = self.hooks.get('view')
        if h:
            h(self, node, o, r, what)
        return frozenset([o])

    def m_dict(self, r, kind, name, args, kw, node):
        oid = r[1]
        k, e = self.st.get(('k', oid)), self.st.get(('e', oid))
        if name == 'get':
            if not args:
                self.ev('bad_call', node, callee='get', why='missing argument')
                return ANY
            self.use(args[0], node, 'key')
            return union(e, args[1] if len(args) > 1 else NONE)
        if name == 'items':
            if not core(k) and not core(e):
                return self.view(node, r, 'items', BOT)
            return self.view(node, r, 'items', frozenset([('t', (k, e), None)]))
        if name == 'keys':
            return self.view(node, r, 'keys', k)
        if name == 'values':
            return self.view(node, r, 'values', e)
        if name == 'update' or name == 'subtract':
            self.mutate(oid, node, '.%s()' % name)
            for v in args:
                for a in core(v):
                    if a[0] == 'o' and self.objs[a[1]].kind in ('dict', 'defaultdict', 'Counter'):
                        self.add_k(oid, self.st.get(('k', a[1])))
                        self.add_e(oid, self.st.get(('e', a[1])))
                    elif kind == 'Counter':
                        self.add_k(oid, self.iterate(frozenset([a]), node))
                        if self.st is None:
                            return BOT
                        self.add_e(oid, INT)
                    elif a[0] == 'u':
                        self.add_k(oid, frozenset([a]))
                        self.add_e(oid, frozenset([a]))
                    else:
                        el = self.iterate(frozenset([a]), node)
                        if self.st is None:
                            return BOT
                        kk, ee = self.pair(el)
                        self.add_k(oid, kk)
                        self.add_e(oid, ee)
            for n, v in kw.items():
                self.add_k(oid, const(n))
                self.add_e(oid, v)
            return NONE
        if name == 'pop':
            self.mutate(oid, node, '.pop()')
            return union(e, *args[1:]) if len(args) > 1 else e
        if name == 'popitem':
            self.mutate(oid, node, '.popitem()')
            return frozenset([('t', (k, e), None)])
        if name == 'setdefault':
            self.mutate(oid, node, '.setdefault()')
            self.add_k(oid, args[0])
            v = args[1] if len(args) > 1 else NONE
            self.add_e(oid, v)
            return union(e, v)
        if name == 'clear':
            self.mutate(oid, node, '.clear()')
            return NONE
        if name == 'copy':
            o = self.alloc(kind, node, e=e, k=k)
            return frozenset([o])
        if name == 'most_common':
            return frozenset([self.new_list(node, frozenset([('t', (k, e), None)]) if core(k) else BOT)])
        if name == 'elements':
            return frozenset([self.alloc('gen', node, e=k)])
        if name in ('__len__', 'total'):
            return INT
        if name == '__contains__':
            return BOOL
        if name == '__getitem__':
            return self.load_item(frozenset([r]), args[0], node)
        if name == '__iter__':
            return frozenset([self.alloc('gen', node, e=k)])
        return ANY

    def m_set(self, r, name, args, kw, node):
        oid = r[1]
        e = self.st.get(('e', oid))
        if name == 'add':
            self.mutate(oid, node, '.add()')
            self.hook('set_add', node, r, args[0])
            self.add_e(oid, args[0])
            return NONE
        if name == 'update':
            self.mutate(oid, node, '.update()')
            for v in args:
                el = self.iterate(v, node)
                if self.st is None:
                    return BOT
                self.add_e(oid, el)
            return NONE
        if name in ('remove', 'discard', 'clear', 'intersection_update', 'difference_update',
                    'symmetric_difference_update'):
            self.mutate(oid, node, '.%s()' % name)
            return NONE
        if name == 'pop':
            self.mutate(oid, node, '.pop()')
            h = self.hooks.get('pop')
            if h:
                h(self, node, r)
            return e
        if name in ('union', 'symmetric_difference'):
            out = e
            for v in args:
                out = union(out, self.iterate(v, node))
                if self.st is None:
                    return BOT
            return frozenset([self.alloc('set', node, e=out)])
        if name in ('intersection', 'difference', 'copy'):
            return frozenset([self.alloc('set', node, e=e)])
        if name in ('issubset', 'issuperset', 'isdisjoint', '__contains__'):
            return BOOL
        if name == '__len__':
            return INT
        if name == '__iter__':
            return frozenset([self.alloc('gen', node, e=e)])
        return ANY

    def m_file(self, r, name, args, kw, node):
        self.hook('file_method', node, r, name, args)
        if name in ('close', '__exit__', 'detach'):
            self.protect(frozenset([r]))
        if name in ('read', 'readline', '__next__'):
            return STR
        if name == 'readlines':
            return frozenset([self.new_list(node, STR)])
        if name in ('write', 'writelines'):
            for v in args:
                self.use(v, node, 'write')
            return INT
        if name == '__iter__':
            return frozenset([self.alloc('gen', node, e=STR)])
        return NONE

    def m_regex(self, r, name, args, kw, node):
        pats = self.st.get(('a', r[1], '#pattern'))
        if name in ('sub', 'subn') and args and any(x[0] in ('f', 'm', 'C') for x in args[0]):
            fn = frozenset(x for x in args[0] if x[0] in ('f', 'm', 'C'))
            save = self.st.copy()
            self.call(fn, [frozenset([self.alloc('match', node, extra='sub')])], {}, node)
            self.st = join(save, self.st) if self.st is not None else save
        return self.re_result(name, pats, node)

    def re_result(self, name, pats, node):
        if name == 'findall':
            el = STR
            cp = core(pats)
            if len(cp) == 1 and next(iter(cp))[0] == 'c' and isinstance(next(iter(cp))[2], str):
                try:
                    n = sre_parse.parse(next(iter(cp))[2]).state.groups - 1
                except Exception:
                    n = -1
                if n > 1:
                    el = frozenset([('t', tuple(STR for _ in range(n)), None)])
                elif n < 0:
                    el = ANY
            else:
                el = ANY
            return frozenset([self.new_list(node, el)])
        if name == 'finditer':
            return frozenset([self.alloc('gen', node, e=frozenset([self.alloc('match', node)]))])
        if name in ('match', 'search', 'fullmatch'):
            return NONE | frozenset([self.alloc('match', node)])
        if name in ('sub', 'escape'):
            return STR
        if name == 'subn':
            return frozenset([('t', (STR, INT), None)])
        if name == 'split':
            return frozenset([self.new_list(node, STR)])
        return ANY

    def m_str(self, r, name, args, kw, node):
        tg = BOT
        for v in list(args) + list(kw.values()):
            tg |= tags(v)
        if r[0] == 'c' and not kw:
            cs = []
            for v in args:
                cv = core(v)
                if len(cv) == 1 and next(iter(cv))[0] == 'c':
                    cs.append(next(iter(cv))[2])
                else:
                    cs = None
                    break
            if cs is not None and name not in ('join', 'encode', 'maketrans', 'translate'):
                try:
                    res = getattr(r[2], name)(*cs)
                except Exception:
                    res = None
                if isinstance(res, list) and len(res) <= 40:
                    x = [const(i) for i in res]
                    return frozenset([self.new_list(node, union(BOT, *x) if x else BOT, x=x)])
                if isinstance(res, (str, int, bool)):
                    return const(res) | tg
                if isinstance(res, tuple):
                    return frozenset([('t', tuple(const(i) for i in res), None)])
        if name == 'join':
            if not args:
                self.ev('bad_call', node, callee='join', why='missing argument')
                self.st = None
                return BOT
            for a in core(args[0]):
                if a[0] == 'o' and r[0] == 'c':
                    x = self.st.d.get(('x', a[1]))
                    if x is not None and len(core(args[0])) == 1 and all(
                            len(core(i)) == 1 and next(iter(core(i)))[0] == 'c' and
                            isinstance(next(iter(core(i)))[2], str) for i in x):
                        return const(r[2].join(next(iter(core(i)))[2] for i in x)) | tags(args[0])
            el = self.iterate(args[0], node)
            if self.st is None:
                return BOT
            self.use(el, node, 'join')
            cel = core(el)
            if cel and all(a[0] in ('k', 'c') and a[1] not in ('str',) or a[0] in ('t', 'T', 'f')
                           for a in cel):
                self.ev('type_mismatch', node, op='join', a='str', b=str(sorted(x[1] if x[0] in 'kc' else 'tuple' for x in cel)))
                self.st = None
                return BOT
            return STR | tags(el) | tg
        if name in ('split', 'rsplit', 'splitlines'):
            return frozenset([self.new_list(node, STR)])
        if name in ('partition', 'rpartition'):
            return frozenset([('t', (STR, STR, STR), None)])
        if name in ('startswith', 'endswith') or name.startswith('is') and name != 'isidentifier':
            return BOOL
        if name in ('find', 'rfind', 'index', 'rindex', 'count', '__len__'):
            return INT
        if name == 'encode':
            return K('bytes')
        if name == 'format':
            for v in list(args) + list(kw.values()):
                self.use(v, node, 'format')
            vals = []
            for v in args:
                cv = core(v)
                vals.append(cv)
            if r[0] == 'c':
                n = _fmt_slots(r[2])
                if n is not None and n > len(args):
                    self.ev('format_args', node, need=n, got=len(args))
                    self.st = None
                    return BOT
                if not kw and vals and all(len(x) and len(x) <= 4 and all(a[0] == 'c' for a in x) for x in vals):
                    import itertools
                    combos = list(itertools.islice(itertools.product(*vals), 24))
                    out = BOT
                    for cb in combos:
                        try:
                            out = union(out, const(r[2].format(*[a[2] for a in cb])))
                        except Exception:
                            out = union(out, STR)
                    return out | tg
            return STR | tg
        return STR | tg

    # ------------------------------------------------------------- outside libraries
    def call_ext(self, d, args, kwargs, node, star=None, dstar=None):
        allv = list(args) + list(kwargs.values())
        tg = BOT
        for v in allv:
            tg |= tags(v)
            if d not in ('collections.defaultdict', 'collections.OrderedDict'):
                self.use(v, node, d)
        self.hook('ext', node, d, args, kwargs)
        last = d.split('.')[-1]
        if d == 'collections.namedtuple':
            return self.make_nt(args, kwargs, node)
        if d == 'collections.defaultdict':
            k, e = BOT, BOT
            for v in args[1:]:
                for a in core(v):
                    if a[0] == 'o':
                        k = union(k, self.st.get(('k', a[1])))
                        e = union(e, self.st.get(('e', a[1])))
                    elif a[0] == 'u':
                        k, e = union(k, frozenset([a])), union(e, frozenset([a]))
            o = self.alloc('defaultdict', node, e=e, k=k)
            f = args[0] if args else NONE
            key = ('a', o[1], '#factory')
            self.st.d[key] = union(self.st.d.get(key, BOT), f)
            return frozenset([o])
        if d == 'collections.OrderedDict':
            return self._conv('dict', node, args, kwargs)
        if d == 'collections.Counter':
            k = BOT
            if args:
                for a in core(args[0]):
                    if a[0] == 'o' and self.objs[a[1]].kind in ('dict', 'Counter', 'defaultdict'):
                        k = union(k, self.st.get(('k', a[1])))
                    else:
                        k = union(k, self.iterate(frozenset([a]), node))
                        if self.st is None:
                            return BOT
            return frozenset([self.alloc('Counter', node, e=INT if core(k) else BOT, k=k)])
        if d == 'collections.deque':
            el = self.iterate(args[0], node) if args else BOT
            return frozenset([self.alloc('deque', node, e=el)])
        if d in ('re.compile',):
            o = self.alloc('regex', node)
            self.st.d[('a', o[1], '#pattern')] = union(
                self.st.get(('a', o[1], '#pattern')), args[0] if args else BOT)
            return frozenset([o])
        if d.startswith('re.'):
            if last in ('sub', 'subn') and len(args) > 1 and any(x[0] in ('f', 'm', 'C') for x in args[1]):
                fn = frozenset(x for x in args[1] if x[0] in ('f', 'm', 'C'))
                save = self.st.copy()
                self.call(fn, [frozenset([self.alloc('match', node, extra='sub')])], {}, node)
                self.st = join(save, self.st) if self.st is not None else save
            return self.re_result(last, args[0] if args else BOT, node)
        if d.startswith('os.path.'):
            vals = []
            for v in args:
                cv = core(v)
                if len(cv) == 1 and next(iter(cv))[0] == 'c' and isinstance(next(iter(cv))[2], str):
                    vals.append(next(iter(cv))[2])
                else:
                    vals = None
                    break
            if vals:
                if last in ('dirname', 'basename', 'join', 'normpath', 'splitext'):
                    r = getattr(posixpath, last)(*vals)
                    if isinstance(r, tuple):
                        return frozenset([('t', tuple(const(i) for i in r), None)])
                    return const(r)
                if last in ('realpath', 'abspath') and vals[0].startswith('/'):
                    return const(posixpath.normpath(vals[0]))
                if last in ('realpath', 'abspath'):
                    return STR | tg | frozenset([('#', 'process')])
            if last in ('exists', 'isfile', 'isdir'):
                return BOOL
            if last in ('splitext', 'split'):
                return frozenset([('t', (STR, STR), None)])
            if last in ('getsize', 'getmtime'):
                return INT
            return STR | tg
        if d in ('os.makedirs', 'os.mkdir', 'os.remove', 'os.rename'):
            self.ev('fs', node, what=d)
            if d in ('os.makedirs', 'os.mkdir'):
                self.st.d[('flag', 'created')] = TRUE
            return NONE
        if d in ('glob.glob', 'os.listdir'):
            self.ev('glob', node, path=_fmt(args[0]) if args else '')
            return frozenset([self.new_list(node, STR)])
        if d == 'io.open':
            return self.b_open(node, args, kwargs, star)
        if d == 'codecs.open':
            kwargs = dict(kwargs)
            if len(args) > 2:
                kwargs['encoding'] = args[2]
            return self.b_open(node, args[:2], kwargs, star)
        if d == 'contextlib.closing' and args:
            return args[0]
        if d in ('json.load', 'json.loads', 'pickle.load', 'pickle.loads'):
            lab = ''
            return frozenset([('u', lab)])
        if d in ('json.dump', 'pickle.dump'):
            return NONE
        if d in ('sys.stdout.write', 'sys.stderr.write', 'pprint.pprint', 'warnings.warn',
                 'sys.stdout.flush', 'sys.stdout.writelines', 'pprint', 'logging.info',
                 'logging.warning', 'logging.debug', 'logging.error', 'print', 'traceback.print_exc',
                 'os.write', 'sys.__stdout__.write', 'sys.__stderr__.write'):
            if last != 'flush':
                self.ev('print', node, created=self.created(), api=d)
            return NONE
        if d.startswith('logging.'):
            return ANY
        if d in ('copy.copy', 'copy.deepcopy'):
            return self.model_copy(args[0], d.endswith('deepcopy'), node)
        if d in ('math.log', 'math.exp', 'math.sqrt', 'math.pow', 'math.log2', 'math.log10'):
            return FLOAT | tg
        if d in ('math.floor', 'math.ceil'):
            return INT | tg
        if d in ('numpy.power', 'numpy.log', 'numpy.exp', 'numpy.sqrt'):
            if args and all(core(v) and all(a[0] in 'ck' and a[1] in ('int', 'float') for a in core(v)) for v in args):
                return FLOAT | tg
            return ANY | tg
        if d in ('os.getcwd', 'pathlib.Path.cwd', 'os.path.expanduser', 'os.environ.get', 'os.getenv', 'tempfile.gettempdir'):
            return STR | frozenset([('#', 'process')])
        if d == 'os.getpid':
            return INT
        if d == 'itertools.chain' or d == 'itertools.chain.from_iterable':
            el = BOT
            for v in args:
                x = self.iterate(v, node)
                if self.st is None:
                    return BOT
                el = union(el, x if last == 'chain' else self.iterate(x, node))
            return frozenset([self.alloc('gen', node, e=el)])
        if d in ('itertools.combinations', 'itertools.product', 'itertools.permutations', 'itertools.groupby'):
            el = BOT
            for v in args:
                x = self.iterate(v, node)
                el = union(el, x) if self.st is not None else el
            return frozenset([self.alloc('gen', node, e=frozenset([('T', el)]))])
        if d in ('functools.reduce',):
            el = self.iterate(args[1], node)
            r = self.call(args[0], [union(el, *args[2:]), el], {}, node)
            return union(r, *args[2:]) if self.st is not None else BOT
        if d in ('functools.partial',):
            return ANY
        if d in ('functools.lru_cache', 'functools.wraps'):
            return ANY
        if d in ('operator.itemgetter', 'operator.attrgetter'):
            return ANY
        if d.split('.')[0] in ('random', 'time', 'uuid', 'secrets') or d.startswith('numpy.random'):
            self.ev('nondet', node, api=d)
            return ANY
        return ANY | tg

    def model_copy(self, v, deep, node):
        out = tags(v)
        for a in core(v):
            if a[0] == 'o':
                o = self.objs[a[1]]
                n = self.alloc(o.kind, node, cls=o.cls, extra=('copy', a[1]))
                e, k = self.st.get(('e', a[1])), self.st.get(('k', a[1]))
                if deep:
                    e, k = self.deep(e, node, 0), self.deep(k, node, 0)
                self.add_e(n[1], e)
                self.add_k(n[1], k)
                for key in [x for x in self.st.d if x[0] == 'a' and x[1] == a[1]]:
                    val = self.st.d[key]
                    self.st.d[('a', n[1], key[2])] = self.deep(val, node, 0) if deep else val
                out |= frozenset([n])
            elif a[0] == 't' and deep:
                out |= frozenset([('t', tuple(self.deep(i, node, 0) for i in a[1]), a[2])])
            elif a[0] == 'u':
                out |= frozenset([('u', '')]) if deep else frozenset([a])
            else:
                out |= frozenset([a])
        return out

    def deep(self, v, node, n):
        out = tags(v)
        for a in core(v):
            if a[0] == 'o' and n < 6:
                o = self.objs[a[1]]
                x = self.alloc(o.kind, node, cls=o.cls, extra=('copy', a[1]))
                self.add_e(x[1], self.deep(self.st.get(('e', a[1])), node, n + 1))
                self.add_k(x[1], self.deep(self.st.get(('k', a[1])), node, n + 1))
                for key in [z for z in self.st.d if z[0] == 'a' and z[1] == a[1]]:
                    self.st.d[('a', x[1], key[2])] = self.deep(self.st.d[key], node, n + 1)
                out |= frozenset([x])
            elif a[0] == 't':
                out |= frozenset([('t', tuple(self.deep(i, node, n + 1) for i in a[1]), a[2])])
            elif a[0] == 'u':
                out |= frozenset([('u', '')])
            else:
                out |= frozenset([a])
        return out

    def make_nt(self, args, kw, node):
        fields = []
        name = 'nt'
        for a in core(args[0]):
            if a[0] == 'c':
                name = a[2]
        fv = args[1] if len(args) > 1 else kw.get('field_names', BOT)
        for a in core(fv):
            if a[0] == 'c':
                fields = a[2].replace(',', ' ').split()
            elif a[0] == 'o':
                x = self.st.d.get(('x', a[1]), ())
                fields = [next(iter(core(i)))[2] for i in x]
            elif a[0] == 't':
                fields = [next(iter(core(i)))[2] for i in a[1]]
        key = node._mod + '.' + name
        self.nt_fields[key] = fields
        return frozenset([('N', key, tuple(fields))])


STDLIB = {'os', 'sys', 're', 'json', 'math', 'pickle', 'collections'}


def _fmt(v):
    if isinstance(v, tuple):
        v = v[1]
    out = []
    for a in sorted(core(v), key=str):
        if a[0] == 'c':
            out.append(str(a[2]))
        else:
            out.append('<%s>' % (a[1] if a[0] in ('k', 'u') and a[1] else a[0]))
    return '|'.join(out)


def _fmt_slots(s):
    import string
    n = 0
    auto = 0
    try:
        for _, field, spec, conv in string.Formatter().parse(s):
            if field is None:
                continue
            f = field.split('.')[0].split('[')[0]
            if f == '':
                auto += 1
            elif f.isdigit():
                n = max(n, int(f) + 1)
            else:
                return None
    except ValueError:
        return None
    return max(n, auto)
