#!/usr/bin/python3
"""mut.py N SEED OUT file=PROP[,PROP] ...   random token mutants, checks run on a copy"""
import sys, os, random, subprocess, shutil, json, io, threading, queue, warnings
warnings.simplefilter("ignore")
TOKS = json.load(open('/tmp/toks.json'))
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
REPO = "/tmp/wk"
SWAP = {"==": ["!="], "!=": ["=="], "<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"],
  "and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"], "source": ["target"], "target": ["source"], "break": ["continue"],
  "continue": ["break"], "min": ["max"], "max": ["min"], "any": ["all"], "all": ["any"], "union": ["intersection"], "append": ["extend"] , "+=": ["-=", "="], "-=": ["+="],
  "from": [], "None": [], "sorted": ["list"], "copy": [], "succ": ["pred"], "pred": ["succ"], "extend": ["append"]}
def mutants(path):
    src = open(path, encoding="latin-1", newline="").read()
    nl = "\r\n" if "\r\n" in src else "\n"
    lines = src.split(nl)
    text = "\n".join(lines)
    toks = [(a, b, tuple(c), tuple(d), '') for a, b, c, d in TOKS[path]]
    out = []
    def sub(a, b, new):
        (r, c), (r2, c2) = a, b
        if r != r2: return
        l = lines[r-1]
        L = list(lines); L[r-1] = l[:c] + new + l[c2:]
        out.append((r, l.strip(), L[r-1].strip(), nl.join(L)))
    start = None
    depth_def = 0
    for k, t in enumerate(toks):
        ty, s, a, b, _ = t
        if ty in ('COMMENT', 'NL', 'INDENT', 'DEDENT'): continue
        if start is None and ty != 'NEWLINE': start = k
        if ty == 'NUMBER' and s.isdigit():
            sub(a, b, str(int(s) + 1))
            if int(s) > 0: sub(a, b, str(int(s) - 1))
        elif ty in ('OP', 'NAME') and s in SWAP:
            if s in "*-" and toks[k-1][1] in ("(", ",", "[", ":", "=", "return"): 
                if s == "-": sub(a, b, "")
                continue
            for n in SWAP[s]: sub(a, b, n)
        elif s == "not":
            sub(a, b, "not not")
        elif s == "in" and toks[start][1] not in ("for",) and toks[k-1][1] != "not":
            if not any(x[1] == "for" for x in toks[max(start, k-8):k]): sub(a, b, "not in")
        elif s == "if" and toks[start][1] == "if" and k == start:
            # to the colon on the same line
            l = lines[a[0]-1]
            if l.rstrip().endswith(":") and l.count(":") == 1:
                e = l.rstrip().rindex(":")
                sub((a[0], b[1]), (a[0], e), " True"); sub((a[0], b[1]), (a[0], e), " False")
        if ty == 'NEWLINE':
            f = toks[start]
            if f[1] not in ("def", "class", "if", "for", "while", "try", "except", "else", "elif", "import", "from", "pass", "@", "with", "finally", "print") and f[0] != 'STRING' and f[2][0] == a[0] and f[2][1] > 0:
                sub(f[2], (a[0], len(lines[a[0]-1].rstrip())), "pass")
            start = None
    return out
def run(w, item, lock):
    f, props, (r, old, new, txt) = item
    d = "/tmp/mutw/%d" % w
    p = os.path.join(d, f)
    keep = open(p, encoding="latin-1", newline="").read()
    open(p, "w", encoding="latin-1", newline="").write(txt)
    try:
        env = dict(os.environ, SYMX_REPO=d, SYMX_WORKERS="4", SYMX_LIMIT="400")
        rcs = []
        last = ""
        for prop in props:
            try:
                q = subprocess.run(["bash", "check.sh", prop], cwd="/tmp/mutv/%d" % w, env=env, capture_output=True, text=True, timeout=600)
                rc = q.returncode
                if rc not in (0, 1): last = q.stdout.strip()[-600:]
            except subprocess.TimeoutExpired:
                rc = "timeout"
            rcs.append(rc)
            if rc == 1: break
        rc = 1 if 1 in rcs else 0 if set(rcs) == {0} else rcs
    finally:
        open(p, "w", encoding="latin-1", newline="").write(keep)
    with lock:
        with open(OUT, "a") as o:
            o.write(json.dumps([props, f, r, old, new, rc, last]) + "\n")
def main():
    rnd = random.Random(SEED)
    q = queue.Queue()
    items = []
    for spec in sys.argv[4:]:
        f, props = spec.split("=")
        n = N
        if ":" in props: props, n = props.split(":"); n = int(n)
        lo, hi = 0, 10**9
        if "@" in f: f, rg = f.split("@"); lo, hi = map(int, rg.split("-"))
        ms = [m for m in mutants(os.path.join(REPO, f)) if lo <= m[0] <= hi and not m[1].startswith(("print", "__authors__", ">>>"))]
        rnd.shuffle(ms)
        # spread over lines
        seen, pick = {}, []
        for m in ms:
            if seen.setdefault(m[0], 0) < 1:
                seen[m[0]] += 1; pick.append(m)
        pick += [m for m in ms if m not in pick]
        for m in pick[:n]:
            items.append((f, props.split(","), m))
    rnd.shuffle(items)
    for i in items: q.put(i)
    print(len(items), "mutants", flush=True)
    lock = threading.Lock()
    def loop(w):
        for base, src in (("/tmp/mutw", REPO), ("/tmp/mutv", "/verif")):
            d = "%s/%d" % (base, w)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(base, exist_ok=True)
            subprocess.check_call(["git", "clone", "-q", src, d])
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            run(w, i, lock)
    ts = [threading.Thread(target=loop, args=(w,)) for w in range(int(os.environ.get("MW", "3")))]
    for t in ts: t.start()
    for t in ts: t.join()
main()
