"""Import hook: load quickly.* from the source tree, instrumented.

The source of every module is read at run time; the abstract syntax tree is
rewritten so that operations that CPython would perform in C on concrete values
(calls of builtins, subscripts, membership tests, f-strings) go through ops.py,
where they are given a meaning on symbolic values. Everything else (operators,
attribute access, control flow) reaches the symbolic values through their
operator methods. The meaning of the code is not changed: with concrete values
every helper simply performs the original operation.
"""

import ast
import importlib.abc
import importlib.util
import os
import sys

from . import ops

# methods whose result CPython checks to be of a certain type
PLAIN_RESULT = {'__bool__', '__len__', '__index__', '__int__', '__float__', '__hash__', '__str__', '__repr__',
                '__format__', '__contains__'}
NO_CALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', 'breakpoint'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.path = [modname]

    def _name(self, n, node):
        return ast.copy_location(ast.Name(n, ast.Load()), node)

    def _call(self, fname, args, node):
        return ast.copy_location(ast.Call(self._name(fname, node), args, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_CALL:
            return node
        return ast.copy_location(
            ast.Call(self._name('_vs_call', node), [node.func] + node.args, node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice) or isinstance(s, ast.Constant):
                return node
            if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
                return node
            return self._call('_vs_getitem', [node.value, s], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = self._call('_vs_in', [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                n = ast.copy_location(ast.UnaryOp(ast.Not(), n), node)
            return n
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant('')
                parts.append(self._call('_vs_fmt', [self.visit(v.value), ast.Constant(v.conversion), spec], v))
        return self._call('_vs_fstr', parts, node)

    def _function(self, node):
        self.path.append(node.name)
        self.generic_visit(node)
        name = '.'.join(self.path)
        self.path.pop()
        tick = ast.copy_location(ast.Expr(self._call('_vs_fn', [ast.Constant(name)], node)), node)
        if node.name in PLAIN_RESULT and len(self.path) > 1:
            node = PlainReturn(self).visit(node)
        body = node.body
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            i = 1
        node.body = body[:i] + [tick] + body[i:]
        # annotations are not evaluated differently
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.path.append(node.name)
        self.generic_visit(node)
        self.path.pop()
        return node


class PlainReturn(ast.NodeTransformer):
    """Make a method return a concrete value."""
    def __init__(self, rewriter):
        self.rewriter = rewriter
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        if self.depth == 1:
            self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_Lambda(self, node):
        return node

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.rewriter._call('_vs_plain', [node.value], node)
        return node


def rewrite(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = rewrite(src, self.path, self.fullname)
        module.__dict__.update(ops.NAMES)
        exec(code, module.__dict__)

    def get_source(self, fullname):
        with open(self.path, encoding='utf-8') as f:
            return f.read()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root = root
        self.package = package

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + '.'):
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(fullname, init), submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=Loader(fullname, base + '.py'))
        return None


def install(root, package='quickly'):
    """Load ``package`` from ``root`` instrumented from now on."""
    assert package not in sys.modules
    sys.meta_path.insert(0, Finder(root, package))
