"""Parses the package under /repo and gives every syntax node an identity."""
import ast
import hashlib
import os
import warnings

from .plain import read_through

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'soynlp'


class Broken(Exception):
    """The analysis itself cannot be carried out (an anchor vanished, a file
    does not parse): an error exit, never a verdict."""


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = is_pkg
        self.rel = os.path.relpath(path, REPO)


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.nodes = 0
        digest = hashlib.sha256()
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise Broken('package directory %s is missing' % root)
        for dp, dn, fn in os.walk(root):
            dn.sort()
            dn[:] = [d for d in dn if d != '__pycache__']
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                digest.update(path.encode())
                digest.update(src.encode())
                rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                if is_pkg:
                    rel = rel[:-len('.__init__')]
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise Broken('cannot parse %s: %s' % (path, e))
                m = Module(rel, path, tree, src, is_pkg)
                m.rel = os.path.relpath(path, self.repo)
                self.modules[rel] = m
        if not self.modules:
            raise Broken('no python module found under %s' % root)
        self.digest = digest.hexdigest()
        for m in self.modules.values():
            read_through(m.tree)
            for n in ast.walk(m.tree):
                self.nodes += 1
                n._nid = self.nodes
                n._mod = m.name
            _link(m.tree)

    def functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    yield m, n


def _link(tree):
    """parent links and qualified names"""
    def rec(node, qual, cls):
        for ch in ast.iter_child_nodes(node):
            ch._parent = node
            q, c = qual, cls
            if isinstance(ch, ast.FunctionDef):
                q = (qual + '.' if qual else '') + ch.name
                ch._qual = q
                ch._cls = cls if isinstance(node, ast.ClassDef) else None
            elif isinstance(ch, ast.ClassDef):
                q = (qual + '.' if qual else '') + ch.name
                ch._qual = q
                c = q
            elif isinstance(ch, ast.Lambda):
                ch._qual = (qual + '.' if qual else '') + '<lambda>'
                ch._cls = None
            ch._in = q if not isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) else qual
            rec(ch, q, c)
    tree._parent = None
    rec(tree, '', None)


def where(node, prog):
    m = prog.modules.get(getattr(node, '_mod', ''), None)
    rel = m.rel if m else '?'
    return '%s:%s' % (rel, getattr(node, 'lineno', '?'))


def enclosing(node):
    """qualified name of the function that contains node ('<module>' at top level)"""
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return n._qual
        n = getattr(n, '_parent', None)
    return '<module>'
