# -*- coding: utf-8 -*-
"""files and standard output for several checks"""
import os
import shutil
import sys
import tempfile
from StringIO import StringIO


class Scratch(object):
    """a directory of its own, which is the current one meanwhile;
    files: name -> contents"""

    def __init__(self, files=None):
        self.files = files or {}

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp()
        os.chdir(self.dir)
        for name, text in self.files.items():
            put(name, text)
        return self

    def __exit__(self, *args):
        os.chdir(self.old)
        shutil.rmtree(self.dir)


def put(name, text):
    d = os.path.dirname(name)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    with open(name, "w") as f:
        f.write(text)


def get(name):
    with open(name) as f:
        return f.read()


class Output(object):
    """collects standard output (and swallows the other one)"""

    def __init__(self):
        self.text = ""

    def write(self, s):
        if isinstance(s, unicode):
            s = s.encode("ascii")
        self.text += s

    def flush(self):
        pass

    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        if hasattr(sys.stdout, "sink"):
            sys.stdout.sink = self      # also for those who have it as a default
        else:
            sys.stdout = self
        sys.stderr = Other()
        return self

    def __exit__(self, *args):
        sys.stdout, sys.stderr = self.old
        if hasattr(sys.stdout, "sink"):
            sys.stdout.sink = None


class Other(object):
    def write(self, s):
        pass

    def flush(self):
        pass


def script(name, *argv):
    """run a command line tool -> exit code, standard output"""
    import daeso
    path = os.path.join(os.path.dirname(os.path.abspath(daeso.__file__)), "..", "..", "bin", name)
    old = sys.argv, sys.stdin
    sys.argv = [name] + list(argv)
    sys.stdin = StringIO("")            # exit() closes it
    code = 0
    try:
        with Output() as out:
            try:
                execfile(path, {"__name__": "__main__", "__file__": path})
            except SystemExit, e:
                code = e.code or 0
    finally:
        sys.argv, sys.stdin = old
    return code, out.text
