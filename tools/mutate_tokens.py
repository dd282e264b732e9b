import sys, tokenize, json
from StringIO import StringIO
out = {}
for p in sys.argv[1:]:
    t = open(p).read().decode("latin-1").replace("\r\n", "\n") + "\n"
    try:
        out[p] = [[tokenize.tok_name[a], b, list(c), list(d)] for a, b, c, d, e in tokenize.generate_tokens(StringIO(t.encode("latin-1")).readline)]
        out[p] = [[a, b.decode("latin-1"), c, d] for a, b, c, d in out[p]]
    except Exception, e:
        out[p] = []
        sys.stderr.write("%s %s\n" % (p, e))
json.dump(out, open("/tmp/toks.json", "w"))
