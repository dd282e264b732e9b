# -*- coding: utf-8 -*-
"""stand-ins for parts of the standard library, in whatever way the modules of
the code got hold of them: the module itself or what it defines, by any name"""
import sys


class Proxy(object):
    """a module of which some things are replaced"""

    def __init__(self, module, things):
        self.__dict__["_module"] = module
        self.__dict__.update(things)

    def __getattr__(self, name):
        return getattr(self._module, name)


class standin(object):
    """standin(["xml.parsers.expat"], ParserCreate=f): replaces expat, and
    ParserCreate, wherever a module of the code refers to it"""

    def __init__(self, modules, **things):
        self.swap = []
        for name in modules:
            __import__(name)
            m = sys.modules[name]
            self.swap.append((m, Proxy(m, things)))
            for k, v in things.items():
                if hasattr(m, k):
                    self.swap.append((getattr(m, k), v))

    def __enter__(self):
        self.undo = []
        for name, mod in sorted(sys.modules.items()):
            if mod is None or not name.split(".")[0] == "daeso":
                continue
            for k, v in list(vars(mod).items()):
                for old, new in self.swap:
                    if v is old:
                        setattr(mod, k, new)
                        self.undo.append((mod, k, v))
                        break
        return self

    def __exit__(self, *exc):
        for mod, k, v in self.undo:
            setattr(mod, k, v)
