"""C10: layout, comments and line endings never change what a program does."""
import random

import mutate as X
import repl
import samples
import scale
from c04 import split
from gen import Gen
from harness import Check, Family

COMMENTS = ["//", "// c", "//5", "//3/4/2020", "//'", "//\"", "///", "////", "//ENDIF", "// OUTPUT \"x\"", "//<-", "//\\", "//1.5", "// // x",
            "//(", "//\t", "/// 1", "//THEN", "//:", "//\v\f", "//EOF\xff"]
SETS = [("indent",), ("widen",), ("tabs",), ("tight",), ("tail",), ("comment",), ("blank",), ("fullcomment",), ("crlf",), ("mixed",), ("final",),
        ("tight", "comment"), ("comment", "crlf"), ("blank", "fullcomment", "crlf"), ("indent", "widen", "tabs", "tail"),
        ("indent", "widen", "tail", "comment", "blank", "fullcomment", "mixed"), ("comment", "final"), ("indent", "tight", "fullcomment", "tail")]
PARENS = """TYPE E = (p, q, r)
DECLARE a : ARRAY [ (1) : (3) ] OF INTEGER
DECLARE m : ARRAY [0 : (1), (0) : 1] OF INTEGER
DECLARE e : E
FUNCTION f (x : INTEGER, BYREF y : INTEGER) RETURNS INTEGER
  y <- (y + 1)
  RETURN (x * y)
ENDFUNCTION
PROCEDURE pr (x : INTEGER)
  OUTPUT (x), ((x))
ENDPROCEDURE
PROCEDURE none ( )
  PRINT ("none")
ENDPROCEDURE
OPENFILE ("t.txt") FOR WRITE
WRITEFILE ("t.txt"), (1 + 2)
WRITEFILE ("t" & ".txt"), ("x" & 'y')
CLOSEFILE ("t.txt")
OPENFILE ("t.txt") FOR READ
WHILE (NOT (EOF ("t.txt"))) DO
  READFILE ("t.txt"), line
  OUTPUT (line), LENGTH (line)
ENDWHILE
CLOSEFILE ("t" & (".txt"))
OPENFILE ("r.dat") FOR RANDOM
n <- (7)
PUTRECORD ("r.dat"), n
SEEK ("r.dat"), (1)
GETRECORD ("r.dat"), k
CLOSEFILE ("r.dat")
"""
PARENS = PARENS.replace("n <- (7)\n", "n <- (7)\nk <- (0)\n") + """OUTPUT (n), (-n), -(n), n - (1), (n)-(1), (n) DIV (2), (n) MOD (2), DIV (n, 2), MOD (n, 2)
OUTPUT ((n)), (k), (n = k) AND (TRUE), NOT (FALSE), (NOT TRUE) OR (n > (k))
e <- (p)
e <- (e + (1))
OUTPUT (e), e = (q), (1 / 2), (1) / (2), (3 / 4 / 2020)
FOR i <- (1) TO (3) STEP (1)
  a[(i)] <- (i * i)
  m[(i) DIV (2), 0] <- (a[i])
NEXT i
OUTPUT (a[(2)]), a[ (1) + (2) ], m[(1), (0)]
IF (n = 7) THEN
  CALL pr ((n))
ELSE IF (TRUE) THEN
  CALL pr (1)
ENDIF
CALL none ( )
CALL none
REPEAT
  n <- (n - 1)
UNTIL (n < (5))
CASE OF n
  (4) : OUTPUT ("four")
  (5) TO (6) : OUTPUT ("more")
  OTHERWISE : OUTPUT ("other")
ENDCASE
OUTPUT (f (2, n)), f ((3), n) + (f (1, n)), n
INPUT b
INPUT a[(1)]
OUTPUT (b), REAL (3), STRING ((n)), INTEGER ("12")
OUTPUT (f ((1), (n)))
"""
SMALL = [(n, t, samples.STDIN, {}) for n, t in samples.SAMPLES.items()] + [("parens", PARENS, samples.STDIN, {})]


def programs():
    return SMALL + X.corpus()


def total(text):
    return text.count("\n") + (0 if text.endswith("\n") or not text else 1)


def same(env, src, new, where, a, b, what):
    """The verdict: the two runs must agree, up to the moved line numbers."""
    w = None
    if a.kind != b.kind or a.code != b.code:
        w = "the outcome is %s, with the other layout %s" % (a.kind, b.kind)
    elif a.out != b.out:
        w = "the output differs"
    elif a.files != b.files:
        w = "the files differ"
    elif len(a.diags) != len(b.diags):
        w = "the number of diagnostics differs"
    else:
        n0, n1 = total(src), total(new)
        for d, e in zip(a.diags, b.diags):
            if d.kind != e.kind or len(d.frames) != len(e.frames):
                w = "the diagnostics differ in kind or depth"
                break
            for f, g in zip(d.frames, e.frames):
                ok = g[1] == where.get(f[1], f[1]) or f[1] >= n0 and a.kind == "syntax" and n1 - 1 <= g[1] <= n1 + 2
                if f[0] != g[0] or not ok:
                    w = "the diagnostic at line %d moved to line %d, the source line to %s" % (f[1], g[1], where.get(f[1]))
                    break
            if w:
                break
    if w:
        env.violation("%s: %s" % (what, w))
        return False
    env.ok((src, new), nontrivial=src != new)
    env.events["layouts compared"] = env.events.get("layouts compared", 0) + 1
    if a.diags:
        env.events["diagnostics mapped"] = env.events.get("diagnostics mapped", 0) + 1
    return True


def base(env, src, stdin, files, **kw):
    a = env.run(src, stdin, files, **kw)
    if b"Warning on line" in a.out:
        env.discard("a warning names a line in the output")
        return None
    if a.kind in ("budget", "timeout"):
        env.inconclusive(a.kind)
        return None
    if a.kind not in ("ok", "syntax", "runtime", "pedantic"):
        env.discard("the program ends with " + a.kind)
        return None
    return a


def variant(env, src, new, where, a, stdin, files, what, **kw):
    if new == src:
        return True
    return same(env, src, new, where, a, env.run(new, stdin, files, **kw), what)


def single(env, i):
    """Every line of every small program x every comment text, glued to the last token and after a blank."""
    ps = programs()
    name, text, stdin, files = ps[i % len(ps)]
    a = base(env, text, stdin, files)
    if a is None:
        return
    ls = X.lines(text)
    for k, l in enumerate(ls):
        if l.raw or l.com:
            continue
        for c in COMMENTS:
            for gap in ("", " "):
                if not gap and l.toks and l.toks[-1][1] == "/":
                    continue
                new = "".join("".join(w + t for w, t in m.toks) + m.tail + m.com + (gap + c if m is l else "") + m.eol for m in ls)
                if not variant(env, text, new, {}, a, stdin, files, "comment %r after line %d" % (c, l.first), variant="plain"):
                    return
    for c in COMMENTS:
        new, where = X.relayout(text, random.Random(1), (), only=range(len(ls)), com=c)
        if not variant(env, text, new, where, a, stdin, files, "comment %r after every line" % c):
            return


def gaps(env, i):
    """Every token boundary of every small program: one blank, one tab, many; and without blanks where tokens stay apart."""
    ps = programs()
    name, text, stdin, files = ps[i % len(ps)]
    a = base(env, text, stdin, files)
    if a is None:
        return
    p = X.pieces(text)
    pos = 0
    prev = None
    for kind, s in p:
        if prev is not None and not (prev in X.NOPAREN and s[0] == "("):
            for ws in (" ", "\t", " \t  "):
                new = text[:pos] + ws + text[pos:]
                if not variant(env, text, new, {}, a, stdin, files, "%r inserted before %r" % (ws, s[:20]), variant="plain"):
                    return
        pos += len(s)
        prev = s
    k = 0
    pos = 0
    for j, (kind, s) in enumerate(p):
        if kind == "ws" and 0 < j < len(p) - 1:
            x, y = p[j - 1], p[j + 1]
            if "raw" not in (x[0], y[0]):
                keep = x[0] != "nl" and y[0] not in ("nl", "com") and not X.removable(x[1], y[1])
                for ws in ("\t", "") if not keep else ("\t",):
                    if ws == "" and y[0] == "com" and x[1] == "/":
                        continue
                    new = text[:pos] + ws + text[pos + len(s):]
                    if not variant(env, text, new, {}, a, stdin, files, "blanks before %r replaced by %r" % (y[1][:20], ws), variant="plain"):
                        return
        pos += len(s)


def rows(env, i):
    """Every line boundary of every small program: an empty, a blank and a comment line, one and three of them; line ends."""
    ps = programs()
    name, text, stdin, files = ps[i % len(ps)]
    a = base(env, text, stdin, files)
    if a is None:
        return
    ls = X.lines(text)
    n = total(text)
    starts = []
    pos = 0
    flat = text.split("\n")
    offs = [0]
    for f in flat:
        offs.append(offs[-1] + len(f) + 1)
    for l in ls:
        for row in ("\n", "  \t\n", "// c\n", "//5/6/7\n", "\t//\n", "\n\n\n", "\n//'\n  \n", "\r\n", "//\"\r\n"):
            h = row.count("\n")
            at = offs[l.first - 1]
            new = text[:at] + row + text[at:]
            where = {x: x + (h if x >= l.first else 0) for x in range(1, n + 1)}
            if not variant(env, text, new, where, a, stdin, files, "%r before line %d" % (row, l.first), variant="plain"):
                return
    for new in ("\n".join(flat).replace("\n", "\r\n"), text.rstrip("\n"), text + "\n\n", text + "// end", text + "// end\n", text + "  \t",
                text.replace("\n", "\r\n") + "\r\n"):
        where = {x: x for x in range(1, n + 1)}
        if any(l.raw for l in ls):
            continue
        if new.endswith("end") and not text.endswith("\n"):
            continue
        if not variant(env, text, new, where, a, stdin, files, "line ends"):
            return


def mixed(env, i):
    """Random combinations of all layout changes on the corpus and the samples, valid and with token-level faults."""
    r = env.rng
    ps = programs()
    name, text, stdin, files = ps[i % len(ps)]
    pedantic = r.random() < 0.2
    if r.random() < 0.3:
        text = X.multiline(text, r)
    if r.random() < 0.5:
        text = X.faulty(text, r, r.choice((1, 1, 2, 4)))
    a = base(env, text, stdin, files, pedantic=pedantic, timeout=10, steps=20000)
    if a is None:
        return
    for _ in range(4):
        new, where = X.relayout(text, r, r.choice(SETS))
        if not variant(env, text, new, where, a, stdin, files, "layout", pedantic=pedantic, steps=20000):
            return


def generated(env, i):
    """The same on generated programs, one half with run-time errors or token-level faults."""
    r = env.rng
    g = Gen(r, size=r.choice((6, 12, 25)), files=("f1", "f2"), weights={"bad": r.choice((0, 0, 1.5)), "wfile": 1, "rfile": 1, "random": 0.5},
            pedantic_clean=r.random() < 0.2)
    text = g.program()
    stdin = "\n".join(g.stdin) + "\n"
    pedantic = r.random() < 0.2
    if r.random() < 0.4:
        text = X.multiline(text, r)
    if r.random() < 0.4:
        text = X.faulty(text, r, r.choice((1, 1, 2)))
    a = base(env, text, stdin, {}, pedantic=pedantic, steps=20000)
    if a is None:
        return
    for _ in range(3):
        new, where = X.relayout(text, r, r.choice(SETS))
        if not variant(env, text, new, where, a, stdin, {}, "layout", pedantic=pedantic, steps=20000):
            return


def predicted(env, i):
    """A re-laid-out program must do what the reference model says about it: output, files, lines of the traceback."""
    r = env.rng
    g = Gen(r, size=r.choice((6, 12)), weights={"bad": 0.7})
    text = g.program()
    if r.random() < 0.3:
        text = X.faulty(text, r)
    new, where = X.relayout(text, r, r.choice(SETS))
    p = env.predict(new, "\n".join(g.stdin) + "\n", {}, False)
    if p is None:
        return
    if p[1] is not None and p[1].kind == "syntax":
        env.differential(new, "\n".join(g.stdin) + "\n")
    else:
        env.differential(new, "\n".join(g.stdin) + "\n", lines=True)


def session(env, i):
    """REPL: the same entries with comments, blanks and carriage returns."""
    r = env.rng
    g = Gen(r, size=10, weights={"bad": 1, "input": 0, "exprstmt": 3}, routines=2, dump=r.random() < 0.5)
    text = g.program()
    kinds = [k for k in X.KINDS if k not in ("blank", "crlf", "mixed", "final", "fullcomment") and r.random() < 0.5]
    ents = []
    for e in split(text):
        t = e if isinstance(e, str) else e.text
        multi = repl.is_multi(t)
        new, _ = X.relayout(t, r, kinds + (["fullcomment"] if multi and r.random() < 0.5 else []))
        ls = new.split("\n")
        if multi and not repl.is_multi(ls[0]):  # a comment line first would end the entry
            ls = X.relayout(t, r, kinds)[0].split("\n")
        if multi:
            ls = [l for l in ls if l] if '"' not in t or True else ls
        elif r.random() < 0.2:
            ls[-1] += "\r"
        if r.random() < 0.1:
            ents.append(repl.Entry(X.comment(r)))
        if r.random() < 0.05:
            ents.append(repl.Entry(X.blanks(r, 1)))
        ne = repl.Entry("\n".join(ls))
        if not ne.valid() or ne.text[-1:] == "\r" and repl.is_multi(ne.text):
            ne = repl.Entry(t)
        ents.append(ne)
    env.session(ents, pure="prefix")


def stretched(env, i):
    """One layout element repeated n times, n around the powers of two up to 66000."""
    r = env.rng
    ps = programs()
    name, text, stdin, files = ps[i % len(ps)]
    a = base(env, text, stdin, files)
    if a is None:
        return
    ls = X.lines(text)
    n = scale.size(r, 66000, 10)
    ok = [k for k, l in enumerate(ls) if not l.raw and not l.com and l.toks]
    if not ok:
        env.discard("no plain line")
        return
    kind = i // len(ps) % 6
    k = r.choice(ok)
    new, where = [], {}
    for j, l in enumerate(ls):
        t = "".join(w + x for w, x in l.toks) + l.tail + l.com + l.eol
        if j == k:
            if kind == 0 and l.eol:
                t = r.choice(("\n", "// c\n", "  \n", "\r\n")) * n + t
                for q in range(l.first, total(text) + 2):
                    where[q] = q + n
            elif kind == 1:
                t = r.choice(" \t") * n + t.lstrip(" \t")
            elif kind == 2:
                t = t.rstrip("\r\n") + " //" + r.choice("c/ \"'") * n + l.eol
            elif kind == 3:
                q = r.randrange(len(l.toks))
                t = "".join((w + (" " * n if m == q and (w or m == 0) else "")) + x for m, (w, x) in enumerate(l.toks)) + l.tail + l.eol
            elif kind == 4:
                t = t.rstrip("\r\n") + r.choice(" \t") * n + l.eol
            elif l.eol:
                t = "//" + "x" * n + "\n" + t
                for q in range(l.first, total(text) + 2):
                    where[q] = q + 1
        new.append(t)
    variant(env, text, "".join(new), where, a, stdin, files, "layout stretched by %d" % n, timeout=20)


N = len(programs())
CHECK = Check("C10", [
    Family("single", single, N, about="every line x every comment text, glued and spaced, on samples and repository programs", chunk=1),
    Family("gaps", gaps, N, about="every token boundary widened, every blank narrowed", chunk=1),
    Family("rows", rows, N, about="blank and comment lines at every line boundary; CRLF; final newline", chunk=1),
    Family("stretched", stretched, N * 6, N * 60, about="one layout element repeated up to 66000 times", chunk=4),
    Family("mixed", mixed, 2400, 40000, about="random layout combinations, valid and faulty"),
    Family("generated", generated, 2400, 40000, about="random layouts of generated programs, valid, failing and faulty"),
    Family("predicted", predicted, 1500, 20000, about="re-laid-out programs against the reference model, with lines"),
    Family("session", session, 600, 8000, about="REPL entries with comments and blanks"),
], "A case is a pair (program, the same tokens in another layout); both are run and stdout, exit status, kinds of errors, files and mapped "
   "lines of the diagnostics must agree. It counts once per distinct pair, and only if the texts differ.",
    assumptions=["positions reported past the last source line are compared with a tolerance of two lines",
                 "message texts and columns are not compared"])
