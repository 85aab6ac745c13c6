"""Parse /repo/src (current working tree) into modules, classes, functions."""
import ast
import os
import warnings

REPO = os.environ.get('QSA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
MODULES = ['mesh', 'fem', 'function', 'assembler', 'solver', 'spd', 'gmrf',
           'diagnostics', 'plot']


class AnalysisBroken(Exception):
    """an anchor vanished or the source cannot be analysed: error exit"""


class Module(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path) as f:
            self.text = f.read()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = ast.parse(self.text, path)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))


class Program(object):
    def __init__(self, names=None):
        self.modules = {}
        self.names = names or self.discover()
        for n in self.names:
            p = os.path.join(SRC, n + '.py')
            if os.path.exists(p):
                self.modules[n] = Module(n, p)
        if not self.modules:
            raise AnalysisBroken('no modules under ' + SRC)

    @staticmethod
    def discover():
        out = list(MODULES)
        for f in sorted(os.listdir(SRC)):
            if f.endswith('.py') and f[:-3] not in out and f != '__init__.py':
                out.append(f[:-3])
        return out

    def is_repo_module(self, name):
        return name in self.modules

    def functions(self):
        """yield (qualname, module, classname|None, FunctionDef)"""
        for m in self.modules.values():
            for q, c, f in walk_functions(m.tree):
                yield m.name + '.' + q, m.name, c, f


def walk_functions(tree):
    out = []

    def rec(node, prefix, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + ch.name
                out.append((q, cls, ch))
                rec(ch, q + '.<locals>.', None)
            elif isinstance(ch, ast.ClassDef):
                rec(ch, prefix + ch.name + '.', ch.name)
            else:
                rec(ch, prefix, cls)
    rec(tree, '', None)
    return out
