# -*- coding: utf-8 -*-
"""XML documents as sequences of parser events.

With symbolic values the events are passed to the handlers of the code by a
stand-in for expat; with concrete values the document is rendered as XML text
and parsed by the real expat."""
from StringIO import StringIO
from xml.sax.saxutils import escape, quoteattr
from standin import standin


class Doc(object):
    def __init__(self, name="doc"):
        self.events = []
        self.name = name

    def start(self, tag, **attrs):
        return self.start_(tag, attrs)

    def start_(self, tag, attrs):
        self.events.append(("start", tag, attrs))
        return self

    def text(self, *chunks):
        for c in chunks:
            self.events.append(("text", c))
        return self

    def end(self, tag):
        self.events.append(("end", tag))
        return self

    def elem(self, tag, attrs, *chunks):
        return self.start_(tag, attrs).text(*chunks).end(tag)

    def render(self):
        out = []
        for e in self.events:
            if e[0] == "start":
                out.append("<%s%s>" % (e[1], "".join([" %s=%s" % (k, quoteattr(v)) for k, v in sorted(e[2].items())])))
            elif e[0] == "end":
                out.append("</%s>" % e[1])
            else:
                out.append(escape(e[1]))
        return u"".join(out).encode("utf-8")

    # -- as the argument of the code under test, which may read it all at once
    def read(self, *size):
        return self

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def file(self, x):
        if x.symbolic:
            return self
        f = StringIO(self.render())
        f.name = self.name
        return f

    def string(self, x):
        return self if x.symbolic else self.render()

    def cut(self, x, n):
        """the document in two parts, cut before event n"""
        if x.symbolic:
            a, b = Doc(self.name), Doc(self.name)
            a.events, b.events = self.events[:n], self.events[n:]
            return a, b
        text = self.render()
        d = Doc()
        d.events = self.events[:n]
        k = len(d.render())
        return text[:k], text[k:]


class FakeParser(object):
    StartElementHandler = EndElementHandler = CharacterDataHandler = None
    buffer_text = False

    def Parse(self, data, final=0):
        if isinstance(data, Doc):
            for e in data.events:
                if e[0] == "start":
                    self.StartElementHandler(e[1], dict(e[2]))
                elif e[0] == "end":
                    self.EndElementHandler(e[1])
                else:
                    self.CharacterDataHandler(e[1])

    def ParseFile(self, f):
        self.Parse(f, 1)


class fake_expat(standin):
    """the parser is ours when values are symbolic"""

    def __init__(self, x):
        if x.symbolic:
            standin.__init__(self, ["xml.parsers.expat"], ParserCreate=lambda *args, **kw: FakeParser())
        else:
            self.swap = []
