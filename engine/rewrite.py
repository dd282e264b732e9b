# -*- coding: utf-8 -*-
"""Modules of the code are compiled with two operations of strings turned into
calls, as strings themselves accept nothing but strings: sep.join(items) and
'x in string'.  With plain values the calls do what the operations do."""
import __builtin__
import ast
import imp
import os
import sys

import symx


class Calls(ast.NodeTransformer):

    def call(self, name, args, node):
        new = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[], starargs=None, kwargs=None)
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def visit_Call(self, node):
        self.generic_visit(node)
        if (isinstance(node.func, ast.Attribute) and node.func.attr == "join" and len(node.args) == 1 and
                not node.keywords and not node.starargs and not node.kwargs):
            return self.call("_symx_join", [node.func.value, node.args[0]], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = self.call("_symx_in", [node.left, node.comparators[0]], node)
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=call), node)
            return ast.fix_missing_locations(call)
        return node


def join(sep, items):
    if not isinstance(sep, (str, unicode)):
        return sep.join(items)
    items = list(items)
    if not [i for i in items if isinstance(i, symx.Sym)]:
        return sep.join(items)
    if len(items) == 1:
        return items[0]
    if not sep:
        full = [i for i in items if isinstance(i, symx.Sym) or i != ""]
        if len(full) == 1:
            return full[0]
    return sep.join([i.concrete() if isinstance(i, (symx.Tok, symx.SymEnum)) else i for i in items])


def within(a, b):
    if isinstance(b, (str, unicode)) and isinstance(a, (symx.Tok, symx.SymEnum)):
        return a.concrete() in b
    return a in b


class Importer(object):

    def find_module(self, name, path=None):
        if name.split(".")[0] != "daeso":
            return None
        last = name.split(".")[-1]
        for d in (path if path is not None else sys.path):
            for p, package in ((os.path.join(d, last, "__init__.py"), True), (os.path.join(d, last + ".py"), False)):
                if os.path.isfile(p):
                    try:
                        with open(p, "U") as f:
                            tree = Calls().visit(ast.parse(f.read(), p))
                        code = compile(tree, p, "exec", 0, True)
                    except Exception:
                        return None     # imported as usual, with its own error
                    return Loader(code, p, package)
        return None


class Loader(object):

    def __init__(self, code, path, package):
        self.code, self.path, self.package = code, path, package

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        m = sys.modules[name] = imp.new_module(name)
        m.__file__ = self.path
        m.__loader__ = self
        if self.package:
            m.__path__ = [os.path.dirname(self.path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition(".")[0]
        try:
            exec self.code in m.__dict__
        except:
            sys.modules.pop(name, None)
            raise
        return m


def install():
    __builtin__._symx_join = join
    __builtin__._symx_in = within
    sys.meta_path.insert(0, Importer())
