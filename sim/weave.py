"""Loads the code under test with points at which a thread may lose the processor.

Each function gets a call before every statement, for every item a comprehension
takes, and after every attribute, item and call inside an expression. The calls do
nothing unless the thread scheduler runs. Nothing else is changed.

(The interpreter's own trace function cannot be used: with several threads in the
same traced function, Python 3.12.3 crashes.)
"""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SCHED = None            # the running scheduler


def _point():
    s = SCHED
    if s is not None:
        s.yield_point()


def _value(v):
    s = SCHED
    if s is not None and s.fine:
        s.yield_point()
    return v


def _items(it):
    for x in it:
        s = SCHED
        if s is not None:
            s.yield_point()
        yield x


class Weaver(ast.NodeTransformer):

    def __init__(self):
        self.depth = 0

    def _function(self, node):
        # defaults, decorators and annotations belong to the outside
        self.depth += 1
        node.body = self.block(node.body, True)
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        saved, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = saved
        return node

    def visit_Lambda(self, node):
        return node

    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            c.body = self.block(c.body)
        return node

    def block(self, stmts, docstring=False):
        out = []
        for i, s in enumerate(stmts):
            first = (docstring and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
                     and isinstance(s.value.value, str))
            if not first and not isinstance(s, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
                out.append(ast.copy_location(ast.Expr(self.call('__rs_point__', [])), s))
            out.append(s if first else self.visit(s))
        return out

    def call(self, name, args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[])

    def generic_visit(self, node):
        if self.depth:
            for field in ('body', 'orelse', 'finalbody'):
                v = getattr(node, field, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(node, field, self.block(v))
            for field, v in ast.iter_fields(node):
                if field in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                    continue
                if isinstance(v, ast.AST):
                    setattr(node, field, self.visit(v))
                elif isinstance(v, list):
                    setattr(node, field, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            return node
        return ast.NodeTransformer.generic_visit(self, node)

    def _wrap(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            return ast.copy_location(self.call('__rs_value__', [node]), node)
        return node

    visit_Attribute = _wrap
    visit_Subscript = _wrap
    visit_Call = _wrap

    def visit_comprehension(self, node):
        self.generic_visit(node)
        if self.depth and not node.is_async:
            node.iter = ast.copy_location(self.call('__rs_items__', [node.iter]), node.iter)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Delete(self, node):
        return node


class Loader(importlib.machinery.SourceFileLoader):

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(Weaver().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        # never from a cache
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, fullname, path, target=None):
        if fullname != 'resync' and not fullname.startswith('resync.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [self.repo])
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        locations = spec.submodule_search_locations
        return importlib.util.spec_from_file_location(fullname, spec.origin, loader=Loader(fullname, spec.origin),
                                                      submodule_search_locations=locations)


def install(repo):
    builtins.__rs_point__ = _point
    builtins.__rs_value__ = _value
    builtins.__rs_items__ = _items
    sys.meta_path.insert(0, Finder(os.path.realpath(repo)))
