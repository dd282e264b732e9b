# -*- coding: utf-8 -*-
"""reading back documents in which tokens are written as canonical labels: the
real XML library does all the work, the labels it returns become tokens again"""
import xml.etree.cElementTree as real
from standin import standin

NAMES = ["xml.etree.cElementTree", "xml.etree.ElementTree"]


class Shim(object):
    """stands for functions of the module xml.etree.cElementTree"""

    def __init__(self, x):
        self._x = x

    def _fix(self, elem):
        for k, v in elem.attrib.items():
            elem.attrib[k] = self._x.unlabel(v)
        if elem.text is not None:
            elem.text = self._x.unlabel(elem.text)

    def iterparse(self, *args, **kw):
        for event, elem in real.iterparse(*args, **kw):
            self._fix(elem)
            yield event, elem

    def parse(self, *args, **kw):
        tree = real.parse(*args, **kw)
        for elem in tree.getiterator():
            self._fix(elem)
        return tree


class installed(standin):
    """replaces what reads XML within modules of the code"""

    def __init__(self, x):
        shim = Shim(x)
        if x.symbolic:
            standin.__init__(self, NAMES, iterparse=shim.iterparse, parse=shim.parse)
        else:
            self.swap = []
