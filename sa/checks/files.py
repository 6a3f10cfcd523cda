"""C04, C05, C06: how files are opened, closed and found."""
import ast
import fnmatch
import os

from ..run import analyse
from ..report import Report
from ..interp import STR, core, tags, union
from .common import note_engine, chain


UTF8 = {'utf-8', 'utf8', 'utf-8-sig', 'u8'}
EXPL = ('abstract interpretation of every public operation and of all module bodies; every reachable file open is an '
        'obligation. ')


def c04(tier):
    rep = Report('C04', tier, 'every text-mode open names UTF-8')
    r = analyse()
    note_engine(rep, r)
    sites = set()
    for e in r.events:
        if e['kind'] != 'open':
            continue
        sites.add(e['where'])
        mode = e.get('mode')
        enc = e.get('encoding')
        if isinstance(mode, str) and 'b' in mode:
            continue
        if enc and all(x.lower().replace('_', '-') in UTF8 for x in enc.split('|')):
            continue
        rep.violation('text-file-without-utf8', '%s|%s' % (e['op'] or e['fn'], e['fn']), e['where'],
                      '%s opens a text file %s in %s: %s; path %s' % (
                          e['op'], 'with encoding %r' % (enc,) if enc else 'without an encoding', e['fn'], e['src'], chain(e)),
                      event=e)
    rep.count('open_sites', len(sites))
    for s in sorted(sites)[:12]:
        rep.sample(s)
    return rep.finish('other', EXPL + 'C04 obligation: binary mode, or an encoding argument whose every possible value is a '
                      'constant naming UTF-8 (a caller-set encoding option counts by its default).')


def c05(tier):
    rep = Report('C05', tier, 'every opened file is closed on every normal and exceptional path')
    r = analyse()
    note_engine(rep, r)
    sites = {e['where'] for e in r.events if e['kind'] == 'open'}
    rep.count('open_sites', len(sites))
    for e in r.events:
        if e['kind'] != 'leak':
            continue
        rep.violation('file-not-closed', '%s|%s' % (e['opener'], e['how']), e['where'],
                      'the file opened here is still open when %s %s: %s' % (
                          e['op'] or 'the import',
                          'returns' if e['how'] == 'return' else 'is left by an exception at %s line %s' % (e['at'], e['line']),
                          e['src']), event=e)
    for s in sorted(sites)[:12]:
        rep.sample(s)
    return rep.finish('other', EXPL + 'C05 obligation (typestate open -> closed): with-blocks, close() calls and finally blocks '
                      'are followed along normal, return, break, generator-abandon and exception paths; no path leaves the '
                      'public call with the file open.')


# ---------------------------------------------------------------- C06
_LINES = {}


def lines_of(path):
    if path not in _LINES:
        with open(path, encoding='utf-8', errors='replace') as f:
            _LINES[path] = f.read().split('\n')
        if _LINES[path] and not _LINES[path][-1]:
            _LINES[path].pop()
    return _LINES[path]


def kinds(v, k):
    return [t for t in v if t[0] == '#' and isinstance(t[1], tuple) and t[1][0] == k]


def without(v, ks):
    return frozenset(t for t in v if not (t[0] == '#' and isinstance(t[1], tuple) and t[1][0] in ks))


def track_formats(d):
    """follow the lines of bundled files: line -> columns -> column"""
    an = d.an

    def split(line, sep, n):
        return line.strip().split(sep, -1 if n is None else n) if sep is not None else line.split(None, -1 if n is None else n)

    def bad(node, path, what, line):
        an.ev('format', node, path=path, what=what, line=line[:60])

    def on_open(an, node, o, args, kw):
        pv = args[0] if args else kw.get('file', frozenset())
        ps = [a[2] for a in core(pv) if a[0] == 'c' and isinstance(a[2], str)]
        an.st.d[('a', o[1], '#file')] = frozenset(('#', ('line', p)) for p in ps if os.path.isfile(p))

    def on_iterate(an, a, out, node):
        if an.objs[a[1]].kind == 'file':
            out = union(out, an.st.get(('a', a[1], '#file')))
        return out

    def on_result(an, e, fv, args, r):
        for b in fv:
            if b[0] != 'b':
                continue
            if b[2] in ('split', 'rsplit') and kinds(r, 'line'):
                sep, n = None, None
                cs = [core(x) for x in args[:2]]
                if all(len(c) == 1 and next(iter(c))[0] == 'c' for c in cs):
                    vals = [next(iter(c))[2] for c in cs]
                    sep = vals[0] if vals else None
                    n = vals[1] if len(vals) > 1 else None
                    new = [('#', ('cols', t[1][1], sep, n)) for t in kinds(r, 'line')]
                else:
                    new = []
                r = without(r, ('line',)) | frozenset(new)
            elif b[1][0] == 'o' and an.objs[b[1][1]].kind == 'file' and b[2] in ('readline', '__next__', 'readlines', '__iter__'):
                r = r | an.st.get(('a', b[1][1], '#file'))
        return r

    def on_subscript(an, e, b, i, r):
        cols = kinds(r, 'cols')
        if cols:
            idx = [a[2] for a in core(i) if a[0] == 'c' and isinstance(a[2], int)]
            r = without(r, ('cols',))
            if len(core(i)) == 1 and idx and not isinstance(e.slice, ast.Slice):
                k = idx[0]
                for t in cols:
                    _, p, sep, n = t[1]
                    for ln in lines_of(p):
                        c = split(ln, sep, n)
                        if not -len(c) <= k < len(c):
                            bad(e, p, 'has no column %d when split at %r' % (k, sep), ln)
                            break
                    r = r | {('#', ('col', p, sep, n, k))}
        return r

    def on_unpack(an, t, tg, i, star):
        cols = kinds(tg, 'cols')
        if cols and star is None:
            want = len(t.elts)
            new = without(tg, ('cols',))
            for c in cols:
                _, p, sep, n = c[1]
                for ln in lines_of(p):
                    got = len(split(ln, sep, n))
                    if got != want:
                        bad(t, p, 'has %d columns when split at %r, and %d are unpacked' % (got, sep, want), ln)
                        break
                new = new | {('#', ('col', p, sep, n, i))}
            return new
        return without(tg, ('cols',))

    def on_builtin(an, node, n, args, kw):
        if n not in ('int', 'float') or not args:
            return
        for t in kinds(args[0], 'col'):
            _, p, sep, m, k = t[1]
            for ln in lines_of(p):
                c = split(ln, sep, m)
                if -len(c) <= k < len(c):
                    try:
                        (int if n == 'int' else float)(c[k])
                    except ValueError:
                        bad(node, p, 'column %d is not %s' % (k, 'an integer' if n == 'int' else 'a number'), ln)
                        break
        for t in kinds(args[0], 'line'):
            for ln in lines_of(t[1][1]):
                try:
                    float(ln)
                except ValueError:
                    bad(node, t[1][1], 'a line is not a number', ln)
                    break

    def words(v, node):
        """whole lines (or number columns) of a table taken for words"""
        for t in kinds(v, 'line'):
            ls = lines_of(t[1][1])
            if ls and all(len(x.split()) > 1 for x in ls[:50]):
                bad(node, t[1][1], 'every line holds several columns, and the whole line is taken for a word', ls[0])
        for t in kinds(v, 'col'):
            _, p, sep, m, k = t[1]
            ls = [split(x, sep, m) for x in lines_of(p)[:50]]
            if ls and all(-len(c) <= k < len(c) and isnum(c[k]) for c in ls):
                bad(node, p, 'the number column %d is taken for a word' % k, lines_of(p)[0])

    alloc0, add_e0, add_k0 = an.alloc, an.add_e, an.add_k

    def alloc(kind, node, cls=None, extra=None, e=None, k=None):
        if kind == 'set' and e:
            words(e, node)
        if k:
            words(k, node)
        return alloc0(kind, node, cls=cls, extra=extra, e=e, k=k)

    def add_e(oid, v):
        if an.objs[oid].kind == 'set':
            words(v, an.objs[oid].node)
        add_e0(oid, v)

    def add_k(oid, v):
        words(v, an.objs[oid].node)
        add_k0(oid, v)

    an.alloc, an.add_e, an.add_k = alloc, add_e, add_k
    an.hooks.update(open=on_open, iterate=on_iterate, result=on_result, subscript=on_subscript,
                    unpack=on_unpack, builtin=on_builtin)


def isnum(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def package_data(repo):
    """glob patterns of the data files setup.py installs, read from its syntax tree"""
    p = os.path.join(repo, 'setup.py')
    if not os.path.exists(p):
        return None
    with open(p, encoding='utf-8') as f:
        t = ast.parse(f.read())
    for n in ast.walk(t):
        if isinstance(n, ast.keyword) and n.arg == 'package_data':
            try:
                return ast.literal_eval(n.value).get('soynlp')
            except (ValueError, AttributeError):
                return None
    return None


def packed(rel, pats):
    parts = rel.split('/')
    for p in pats:
        q = p.split('/')
        if len(q) == len(parts) and all(fnmatch.fnmatchcase(a, b) for a, b in zip(parts, q)):
            return True
    return False


def c06(tier):
    rep = Report('C06', tier, 'with all path options at their defaults every file opened for reading is a constant path '
                              'under the package, exists, is installed and has the columns its reader takes')
    r = analyse(defaults=True, setup=track_formats)
    note_engine(rep, r)
    root = r.prog.root if hasattr(r.prog, 'root') else os.path.join(r.prog.repo, 'soynlp')
    pats = package_data(r.prog.repo)
    files = set()
    for e in r.events:
        if e['kind'] == 'format':
            rep.violation('format', '%s|%s' % (e['fn'], os.path.relpath(e['path'], root)), e['where'],
                          '%s reads %s in a format it does not have: %s (line %r); path %s' % (
                              e['op'] or 'the import', os.path.relpath(e['path'], root), e['what'], e['line'], chain(e)), event=e)
        if e['kind'] != 'open' or 'user' in e['ptags']:
            continue
        if 'process' in e['ptags']:
            rep.violation('path-depends-on-process', '%s|%s' % (e['op'], e['fn']), e['where'],
                          '%s opens a bundled file at a place that depends on the working directory or environment: %s' % (
                              e['op'] or 'the import', e['src']), event=e)
            continue
        if e['mode'] and any(c in e['mode'] for c in 'wax'):
            continue
        for p in e['path'].split('|'):
            if p.startswith('<') and p.endswith('>'):
                rep.undecide(e['where'], '%s opens a path that is not a constant here' % (e['op'] or 'import'))
                continue
            key = '%s|%s' % (e['fn'], os.path.basename(p))
            if not os.path.isabs(p):
                rep.violation('relative-path', key, e['where'], '%s opens %r relative to the working directory; path %s' % (
                    e['op'] or 'the import', p, chain(e)), event=e)
                continue
            rel = os.path.relpath(p, root)
            files.add(rel)
            if rel.startswith('..'):
                rep.violation('outside-package', key, e['where'], '%s opens %s, outside the package; path %s' % (
                    e['op'] or 'the import', p, chain(e)), event=e)
            elif not os.path.isfile(p):
                rep.violation('missing-file', key, e['where'], '%s opens soynlp/%s, which does not exist; path %s' % (
                    e['op'] or 'the import', rel, chain(e)), event=e)
            elif pats is not None and not packed(rel, pats):
                rep.violation('not-installed', rel, e['where'],
                              '%s opens soynlp/%s, which package_data in setup.py does not install' % (e['op'], rel), event=e)
    rep.count('bundled_files', len(files))
    for f in sorted(files):
        rep.sample(f)
    return rep.finish('other', EXPL + 'C06 obligation: in the scenario where every parameter with a default is left at it, '
                      'the opened path folds to a constant that lies under soynlp/, is on disk and in package_data, and every '
                      'split/unpack/index/number conversion of its lines fits all of its lines.')
