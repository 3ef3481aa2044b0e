"""
Loads the code under test, from the current working tree of the repository,
on top of the controlled runtime.

The source is always compiled from the file as it is now (no byte code is read
or written). With MC_LINE=1 (or `line=True`) a scheduling point is inserted
before every statement of every function body; what is executed is otherwise
exactly the source.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys
import warnings

REPO = os.environ.get('MC_REPO', '/repo')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

# Third-party modules first, so they get the real primitives.
import numpy as np      # noqa
import numpy.ma         # noqa
import six              # noqa
import six.moves        # noqa
from six.moves import builtins, queue, zip_longest   # noqa
import functools, itertools, collections, copy, uuid  # noqa
import logging          # noqa
import concurrent.futures.thread  # noqa

np.seterr(all='ignore')
np.set_printoptions(threshold=40)

if not hasattr(collections, 'Iterable'):
    raise SystemExit('needs a Python which still has collections.Iterable')

from mc import runtime  # noqa


class _Instrument(ast.NodeTransformer):
    """Insert `__mc_point__()` before the statements of function bodies."""

    def __init__(self):
        self.depth = 0
        self.points = 0

    def _call(self, node):
        self.points += 1
        return ast.copy_location(ast.Expr(ast.Call(
            ast.Name('__mc_point__', ast.Load()), [], [])), node)

    def _body(self, stmts, docstring=False):
        out = []
        for i, stmt in enumerate(stmts):
            stmt = self.visit(stmt)
            if self.depth and not (
                    docstring and i == 0 and isinstance(stmt, ast.Expr) and
                    isinstance(stmt.value, ast.Constant)) and not isinstance(
                    stmt, (ast.Global, ast.Nonlocal, ast.Import,
                           ast.ImportFrom)):
                out.append(self._call(stmt))
            out.append(stmt)
        return out

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self._body(node.body, True)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = depth
        return node

    def generic_visit(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list):
                setattr(node, field, self._body(stmts))
        for handler in getattr(node, 'handlers', ()):
            handler.body = self._body(handler.body)
        return node

    def visit_Module(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node


class _Loader(importlib.abc.Loader):
    def __init__(self, path, line):
        self.path = path
        self.line = line

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as fh:
            tree = ast.parse(fh.read(), self.path)
        if self.line:
            tree = ast.fix_missing_locations(_Instrument().visit(tree))
            module.__dict__['__mc_point__'] = runtime.line_point
        exec(compile(tree, self.path, 'exec', dont_inherit=True),
             module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, line):
        self.line = line

    def find_spec(self, name, path=None, target=None):
        if name != 'biggus' and not name.startswith('biggus.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            file = os.path.join(base, '__init__.py')
            if not os.path.exists(file):
                return None
            return importlib.util.spec_from_file_location(
                name, file, loader=_Loader(file, self.line),
                submodule_search_locations=[base])
        file = base + '.py'
        if os.path.exists(file):
            return importlib.util.spec_from_file_location(
                name, file, loader=_Loader(file, self.line))
        return None


def load(line=False):
    """Install the runtime, import and return biggus."""
    if 'biggus' in sys.modules:
        return sys.modules['biggus']
    runtime.install()
    sys.meta_path.insert(0, _Finder(line))
    import biggus
    assert biggus.__file__.startswith(REPO + os.sep), biggus.__file__
    # Get the abstract syntax trees etc. out of the way.
    import gc
    gc.collect()
    return biggus


def set_limit(n):
    """
    Set the maximum number of elements in a piece.
    """
    import biggus._init
    if not hasattr(biggus._init, 'MAX_CHUNK_SIZE'):
        raise RuntimeError('the piece limit MAX_CHUNK_SIZE is not where it '
                           'is documented to be')
    biggus._init.MAX_CHUNK_SIZE = n


DEFAULT_LIMIT = 8 * 1024 * 1024 * 2
