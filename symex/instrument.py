"""Import hook that recompiles the real code so that symbolic values can flow
through constructs that the interpreter implements in C (``in``, dict keys,
``%``, f-strings, calls of builtins).  The encoding is regenerated from the
current source of the repository in every run.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import sys
import os

from . import models

KEEP = {"super", "locals", "globals", "vars", "dir", "eval", "exec",
        "__import__", "print_function"}
SX = "__sx__"


class Rewriter(ast.NodeTransformer):

    def __init__(self, depth=0):
        super().__init__()

    def _sx(self, name, args, node):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id=SX, ctx=ast.Load()),
                               attr=name, ctx=ast.Load()),
            args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in KEEP:
            return node
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id=SX, ctx=ast.Load()),
                               attr="call", ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return self._sx("contains", [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                inner = self._sx("contains", [node.left, node.comparators[0]], node)
                return ast.copy_location(
                    ast.UnaryOp(op=ast.Not(), operand=inner), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, (ast.Slice, ast.Constant)) and not isinstance(
                getattr(node.slice, "value", None), str):
            return node
        if isinstance(node.slice, ast.Tuple) and any(
                isinstance(e, ast.Slice) for e in node.slice.elts):
            return node
        if isinstance(node.value, ast.Name):
            container = ast.Name(id=node.value.id, ctx=ast.Load())
            node.slice = self._sx("subkey", [container, node.slice], node)
            return node
        if isinstance(node.ctx, ast.Load):
            return self._sx("getitem", [node.value, node.slice], node)
        # store/delete in expression: evaluate container only once
        self.counter = getattr(self, "counter", 0) + 1
        if isinstance(node.value, ast.Attribute) and isinstance(
                node.value.value, ast.Name):
            container = ast.Attribute(
                value=ast.Name(id=node.value.value.id, ctx=ast.Load()),
                attr=node.value.attr, ctx=ast.Load())
            node.slice = self._sx("subkey", [container, node.slice], node)
            return node
        node.value = self._sx("proxy", [node.value], node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for value in node.values:
            if isinstance(value, ast.FormattedValue):
                spec = value.format_spec
                if spec is None:
                    spec = ast.Constant(value="")
                else:
                    spec = self.visit(spec)
                parts.append(ast.Tuple(elts=[
                    self.visit(value.value),
                    ast.Constant(value=value.conversion), spec],
                    ctx=ast.Load()))
            else:
                parts.append(value)
        return self._sx("fstring", parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._sx("mod", [node.left, node.right], node)
        name = SET_OPS.get(type(node.op))
        if name and not isinstance(node.right, ast.Constant):
            return self._sx(
                "setop", [ast.Constant(value=name), node.left, node.right],
                node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        name = SET_OPS.get(type(node.op))
        if name and isinstance(node.target, ast.Name) and not isinstance(
                node.value, ast.Constant):
            return ast.copy_location(ast.Assign(
                targets=[node.target], value=self._sx("isetop", [
                    ast.Constant(value=name),
                    ast.Name(id=node.target.id, ctx=ast.Load()),
                    node.value], node)), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._sx("mk_set", [ast.List(elts=node.elts, ctx=ast.Load())],
                        node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._sx("mk_set", [ast.copy_location(ast.ListComp(
            elt=node.elt, generators=node.generators), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self._sx("mk_dict", [ast.copy_location(ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators), node)], node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or any(k is None for k in node.keys) or all(
                isinstance(k, ast.Constant) for k in node.keys):
            return node
        return self._sx("mk_dict", [ast.List(elts=[
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)], ctx=ast.Load())], node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        broad = node.type is None or (
            isinstance(node.type, ast.Name) and node.type.id == "BaseException")
        if broad:
            node.body.insert(0, ast.copy_location(ast.Expr(
                value=self._sx("reraise_control", [], node)), node))
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [
            d and self.visit(d) for d in node.args.kw_defaults]
        body = []
        for stmt in node.body:
            res = self.visit(stmt)
            body.append(res)
        node.body = body
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_MatchValue(self, node):
        return node


SET_OPS = {ast.Sub: "sub", ast.BitAnd: "and", ast.BitOr: "or",
           ast.BitXor: "xor"}


class _Proxy(object):
    """Subscript store/delete in containers reached by an expression"""

    def __init__(self, container):
        self.container = container

    def __setitem__(self, key, value):
        self.container[models.subkey(self.container, key)] = value

    def __delitem__(self, key):
        del self.container[models.subkey(self.container, key)]

    def __getitem__(self, key):
        return self.container[models.subkey(self.container, key)]


class _Namespace(object):
    call = staticmethod(models.call)
    contains = staticmethod(models.contains)
    subkey = staticmethod(models.subkey)
    fstring = staticmethod(models.fstring)
    mod = staticmethod(models.mod)
    setop = staticmethod(models.setop)
    isetop = staticmethod(models.isetop)
    mk_set = staticmethod(models.mk_set)
    mk_dict = staticmethod(models.mk_dict)
    reraise_control = staticmethod(models.reraise_control)

    @staticmethod
    def proxy(container):
        if models.isinstance_(container, dict):
            return _Proxy(container)
        return container

    @staticmethod
    def getitem(container, key):
        return container[models.subkey(container, key)]


NAMESPACE = _Namespace()


def compile_source(source, path):
    return compile_tree(ast.parse(source, path), path)


def compile_tree(tree, path, mode="exec", **kwargs):
    tree = Rewriter().visit(tree)
    # from __future__ imports must stay first
    ast.fix_missing_locations(tree)
    kwargs.setdefault("dont_inherit", True)
    return compile(tree, path, mode, **kwargs)


class Loader(importlib.machinery.SourceFileLoader):
    """Source loader that rewrites the tree"""

    def get_code(self, fullname):
        with open(self.path, "rb") as fil:
            source = fil.read()
        return compile_source(source, self.path)

    def exec_module(self, module):
        module.__dict__[SX] = NAMESPACE
        exec(self.get_code(self.name), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, prefixes, skip=()):
        self.prefixes = tuple(prefixes)
        self.skip = tuple(skip)

    def find_spec(self, fullname, path, target=None):
        if not fullname.startswith(self.prefixes):
            return None
        if self.skip and fullname.startswith(self.skip):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        loader = Loader(fullname, spec.origin)
        new = importlib.machinery.ModuleSpec(
            fullname, loader, origin=spec.origin,
            is_package=spec.submodule_search_locations is not None)
        new.submodule_search_locations = spec.submodule_search_locations
        new.has_location = True
        return new


REPO = os.environ.get("NOW_REPO", "/repo")


def install():
    sys.path.insert(0, os.path.join(REPO, "capture"))
    sys.meta_path.insert(0, Finder(
        ["noworkflow.now", "noworkflow.patterns", "noworkflow.kernel"]))
    sys.dont_write_bytecode = True


def symbolic_posixpath():
    """Instrumented copy of posixpath (pure python part of os.path)"""
    import types
    import posixpath
    module = types.ModuleType("posixpath_sx")
    with open(posixpath.__file__) as fil:
        source = fil.read()
    # C accelerated normpath/splitroot have pure python fallbacks
    source = source.replace("from posix import _path_normpath as normpath",
                            "from posix import _path_no_such as normpath")
    source = source.replace("from posix import _path_normpath",
                            "from posix import _path_no_such")
    source = source.replace("from posix import _path_splitroot_ex",
                            "from posix import _path_no_such")
    module.__dict__[SX] = NAMESPACE
    code = compile_source(source, posixpath.__file__)
    exec(code, module.__dict__)

    def fspath(path):
        if models.isinstance_(path, models.SymStr):
            return path
        return os.fspath(path)

    class FakeOs(object):
        def __getattr__(self, name):
            if name == "fspath":
                return fspath
            return getattr(os, name)
    module.os = FakeOs()
    return module
