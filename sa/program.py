"""Loads every module of the analysed package as syntax trees (never imports)."""
import ast
import os


class Budget(Exception):
    """The obligation took too long to decide."""


class AnalysisError(Exception):
    """The analysis cannot decide (anchor missing, source unparsable)."""


class Missing(AnalysisError):
    """A named function or class is not there."""


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.is_pkg = path.endswith('__init__.py')

    def rel(self, root):
        return os.path.relpath(self.path, root)


class Program(object):
    def __init__(self, root='/repo', pkg='pgp', skip_tests=True):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError('package directory %s not found' % base)
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            rel = os.path.relpath(d, root)
            if skip_tests and 'tests' in rel.split(os.sep):
                continue
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                parts = os.path.relpath(p, root)[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                name = '.'.join(parts)
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (p, e))
                self.modules[name] = Module(name, p, tree, src)
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    c._parent = n
                    
    def add_file(self, name, path):
        """A reference module of the checker, analysed like the package."""
        if name in self.modules:
            return
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self.modules[name] = Module(name, path, tree, src)

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError('module %s not found' % name)
        return m

    def find_def(self, modname, qual):
        """AST node of a class/function by dotted qualified name."""
        node = self.module(modname).tree
        for part in qual.split('.'):
            found = None
            for n in ast.walk(node) if node is self.module(
                    modname).tree else node.body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                        n.name == part:
                    if node is self.module(modname).tree and \
                            not toplevel(n):
                        continue
                    found = n
            if found is None:
                raise Missing('%s.%s not found' % (modname, qual))
            node = found
        return node

    def functions(self):
        """All (module, qualname, node) function definitions."""
        for m in self.modules.values():
            stack = [(m.tree, '')]
            while stack:
                n, q = stack.pop()
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef,
                                      ast.AsyncFunctionDef)):
                        qq = (q + '.' if q else '') + c.name
                        yield m, qq, c
                        stack.append((c, qq))
                    elif isinstance(c, ast.ClassDef):
                        stack.append((c, (q + '.' if q else '') + c.name))
                    else:
                        stack.append((c, q))


def toplevel(n):
    p = getattr(n, '_parent', None)
    while p is not None and not isinstance(p, ast.Module):
        if isinstance(p, (ast.FunctionDef, ast.ClassDef)):
            return False
        p = getattr(p, '_parent', None)
    return True
