"""C12: the REPL runs programs like file mode and survives failing entries unharmed."""
import itertools
import re

import model as M
import mutate as X
import repl
import samples
import scale
from c04 import split
from c11 import BAD
from gen import Gen
from harness import Check, Family

MARK = "@#@"


def is_error(chunk):
    return re.search(rb"^(Syntax Error on line|Error\(pedantic\) on line|Runtime Error in file|Error: File)", chunk, re.M) is not None


def transcript(env, entries, files=None, runs=None, **kw):
    """The text between the markers that follow each entry (stdout and stderr in order), and the files at the end."""
    stdin = "".join(repl.Entry(e).stdin() + 'OUTPUT "%s"\n' % MARK for e in entries)
    r = env.run(None, stdin, files, merge=True, **kw)
    if r.kind in ("budget", "timeout"):
        env.inconclusive(r.kind)
        return None
    chunks = r.out[repl.banner_end(r.out):].split(MARK.encode() + b"\n")
    env.expect(r.code == 0 and not r.san, "the session ends with %s, exit status %d" % (r.kind, r.code))
    env.expect(len(chunks) == len(entries) + 1 and chunks[-1] == b"> ", "%d entries, but %d markers were printed; at the end %r" % (len(entries), len(chunks) - 1, chunks[-1][:100]))
    return chunks[:-1], r.files


def payload(env, entry, chunk):
    """What an entry printed: the chunk without its prompts and the prompt of the marker entry."""
    p = repl.Entry(entry).prompts().encode()
    env.expect(chunk.startswith(p) and chunk.endswith(b"> ") and len(chunk) >= len(p) + 2, "%r gives %r instead of its prompts, its output and a prompt" % (entry, chunk))
    return chunk[len(p):-2]


# a statement and whether a failure of it must leave no trace (single assignment, declaration, constant, file statement)
VARS = [("DECLARE x: INTEGER", 1), ("x <- x + 1", 1), ('x <- "s"', 1), ("CONSTANT x = 5", 1), ("OUTPUT x", 0), ("x", 0), ("DECLARE x: ARRAY[1:2] OF INTEGER", 1), ("x[1] <- 3", 1), ("x[9] <- 3", 1),
        ("PROCEDURE p(BYREF y: INTEGER)\n  y <- y + 1\nENDPROCEDURE", 0), ("CALL p(x)", 0), ("x <-", 1), ("TYPE T = (u, v)", 0), ("DECLARE x: T", 1), ("x <- u", 1), ("FUNCTION x() RETURNS INTEGER\n  RETURN 7\nENDFUNCTION", 0),
        ("TYPE x\n  DECLARE n: INTEGER\nENDTYPE", 0), ("OUTPUT x()", 0), ("FOR x <- 1 TO 2\n  OUTPUT x\nNEXT x", 0), ("u <- 1 DIV 0", 1), ("DECLARE u: x", 1), ("u <- ^x", 1), ("TYPE P = ^INTEGER", 0), ("DECLARE x: P", 1), ("u.n <- 5", 1)]
VPROBE = ["x", "u", "OUTPUT x[1]", "OUTPUT x()", "CALL p(x)", "x", "u.n", "v", "x <- 9", "x", "DECLARE u: P", "u <- ^x", "u^"]
FILES = [('OPENFILE "f" FOR READ', 1), ('OPENFILE "f" FOR WRITE', 1), ('OPENFILE "f" FOR APPEND', 1), ('OPENFILE "f" FOR RANDOM', 1), ('CLOSEFILE "f"', 1), ('WRITEFILE "f", n', 1), ('WRITEFILE "f", nosuch', 1),
         ('READFILE "f", s', 1), ('READFILE "f", n', 1), ('READFILE "f", k', 1), ('OUTPUT EOF("f")', 0), ('SEEK "f", 2', 1), ('SEEK "f", 0', 1), ('SEEK "f", "s"', 1), ('PUTRECORD "f", n', 1), ('GETRECORD "f", n', 1), ('GETRECORD "f", k', 1),
         ('OPENFILE "missing" FOR READ', 1), ('OPENFILE "g" FOR WRITE', 1), ('WRITEFILE "g", 1 DIV 0', 1), ('WRITEFILE "g", "g"', 1), ("n <- n + 1", 1), ('OPENFILE "f" FOR nowhere', 1), ('PUTRECORD "f", nosuch', 1),
         ('GETRECORD "f", r', 1), ('PUTRECORD "f", r', 1)]
FSETUP = ["TYPE R\n  DECLARE a: INTEGER\n  DECLARE b: STRING\nENDTYPE", "DECLARE r: R", "DECLARE n: INTEGER", "DECLARE s: STRING", "CONSTANT k = 3", 'r.b <- "rb"']
FPROBE = ["n", "s", "k", "r.a", "r.b", 'OUTPUT EOF("f")', 'READFILE "f", s', "s", 'WRITEFILE "f", "last"', 'CLOSEFILE "f"', 'CLOSEFILE "g"', 'OPENFILE "f" FOR READ', 'READFILE "f", s', "s"]
FOLD = {"f": b"one\ntwo\n"}
ROUT = [("PROCEDURE p()\n  OUTPUT \"p1\"\nENDPROCEDURE", 0), ("PROCEDURE p(a: INTEGER)\n  c <- c + a\n  OUTPUT a DIV (a - 1)\n  d[a] <- 1\nENDPROCEDURE", 0), ("CALL p()", 0), ("CALL p(1)", 0), ("CALL p(2)", 0), ("CALL p(9)", 0), ("c <- f(2)", 0),
        ("FUNCTION f(n: INTEGER) RETURNS INTEGER\n  IF n > 3 THEN\n    RETURN 1 DIV 0\n  ENDIF\n  c <- c + 1\n  CALL p(n)\n  RETURN n * 2\nENDFUNCTION", 0), ("f(1)", 0), ("f(5)", 0), ("IF c > 0 THEN\n  c <- c * 2\n  OUTPUT nosuch\nENDIF", 0),
        ("WHILE c < 3 DO\n  c <- c + 1\n  CALL p(c)\nENDWHILE", 0), ("DECLARE e: INTEGER", 1), ("DECLARE e: STRING", 1), ("FUNCTION g(BYREF z: INTEGER) RETURNS INTEGER\n  z <- z + 1\n  RETURN d[z]\nENDFUNCTION", 0), ("g(c)", 0), ("c", 0), ("BREAK", 0),
        ("RETURN 5", 0), ("c <- d[0]", 1), ("d[c] <- c", 1)]
RSETUP = ["DECLARE c: INTEGER", "c <- 1", "DECLARE d: ARRAY[1:3] OF INTEGER"]
RPROBE = ["c", "d[1]", "d[2]", "d[3]", "e", "CALL p()", "CALL p(3)", "f(2)", "c", "g(c)", "c"]
# a small alphabet for longer histories: declarations, assignments, a call which can fail half-way, each error kind
CORE = [("DECLARE x: INTEGER", 1), ("x <- x + 1", 1), ('x <- "s"', 1), ("PROCEDURE p(BYREF y: INTEGER)\n  y <- y + 1\n  a[y] <- y\nENDPROCEDURE", 0), ("CALL p(x)", 0), ("x <-", 1), ("DECLARE a: ARRAY[1:2] OF INTEGER", 1)]
CPROBE = ["x", "OUTPUT a[1], a[2]", "CALL p(x)", "x", "DECLARE x: STRING", "OUTPUT x", "FOR x <- 1 TO 2\n  OUTPUT x\nNEXT x", "x"]
ALPHA = {"core": (CORE, [], CPROBE, {}), "vars": (VARS, [], VPROBE, {}), "files": (FILES, FSETUP, FPROBE, FOLD), "routines": (ROUT, RSETUP, RPROBE, {})}


def history(env, which, idx, with_model=True):
    alpha, setup, probe, files = ALPHA[which]
    hist = [alpha[k] for k in idx]
    ents = setup + [t for t, _ in hist] + probe
    res = transcript(env, ents, files)
    if res is None:
        return
    chunks, fs = res
    n0 = len(setup)
    kept = [k for k in range(len(ents)) if not (n0 <= k < n0 + len(hist) and hist[k - n0][1] and is_error(chunks[k]))]
    key = (which, idx)
    if len(kept) < len(ents):
        sub = [ents[k] for k in kept]
        res2 = transcript(env, sub, files)
        if res2 is None:
            return
        c2, fs2 = res2
        for k, c in zip(kept, c2):
            env.expect(chunks[k] == c, "after failing entries, %r gives %r; without them it gives %r" % (ents[k], chunks[k], c))
        env.expect(fs == fs2, "failing entries change the files: %r, without them %r" % (fs, fs2))
        env.events["failing entries dropped"] = env.events.get("failing entries dropped", 0) + len(ents) - len(kept)
        chunks, ents = c2, sub
    env.ok(key)
    # the entries up to the first failure, as a file
    m = 0
    while m < len(ents) and not is_error(chunks[m]):
        m += 1
    pre = [(e, c) for e, c in zip(ents[:m], chunks[:m])]
    # the files it leaves are compared only if nothing follows in the session
    r = env.run("\n".join(e for e, _ in pre) + "\n", b"", files)
    want = b"".join(payload(env, e, c) for e, c in pre if not bare(e))
    if not any("(" in e and bare(e) for e, _ in pre):
        env.expect(r.kind == "ok", "the entries succeed one by one, but as a file they end with %s" % r.kind)
        env.expect(r.out == want, "the entries print %r, as a file %r" % (want, r.out))
        env.ok(("file",) + key)
    if with_model:
        env.session([repl.Entry(e) for e in ents], files, pure="prefix", key=("model",) + key)


def bare(e):
    return "\n" not in e and "<-" not in e and not re.match(r"[A-Z]{4,} ", e)


def exhaustive(which, n):
    alpha = ALPHA[which][0]
    total = len(alpha) ** n

    def f(env, i):
        idx = []
        k = i * 7919 % total  # spread, if not all are run
        for _ in range(n):
            idx.append(k % len(alpha))
            k //= len(alpha)
        history(env, which, tuple(idx), with_model=i % 4 == 0)
    f.total = total
    return f


def sampled(env, i):
    r = env.rng
    which = r.choice(sorted(ALPHA))
    n = len(ALPHA[which][0])
    history(env, which, tuple(r.randrange(n) for _ in range(r.choice((3, 4, 4, 5, 5, 6, 9)))))


def texts(ents):
    return [e.text if isinstance(e, repl.Entry) else e for e in ents]


def asfile(env, i):
    """Generated programs: entered piece by piece, and as a file, both as predicted; equal output, equal files."""
    r = env.rng
    g = Gen(r, size=r.choice((10, 20, 30)), routines=r.randint(0, 3), files=("f1", "f2"), weights={"bad": 0, "wfile": 2, "rfile": 2, "random": 1, "input": 0, "exprstmt": 0})
    text = g.program()
    ents = texts(split(text))
    p = env.predict(text)
    if p is None or p[1] is not None:
        return
    f = env.run(text)
    if f.kind in ("budget", "timeout"):
        env.inconclusive(f.kind)
        return
    env.expect(f.kind == "ok", "as a file it ends with " + f.kind)
    res = transcript(env, ents)
    if res is None:
        return
    chunks, fs = res
    got = b"".join(payload(env, e, c) for e, c in zip(ents, chunks))
    env.expect(got == f.out, "entered: %r; as a file: %r" % (got[-300:], f.out[-300:]))
    env.expect(fs == f.files, "the files differ: %r and %r" % (fs, f.files))
    env.ok(text)
    env.session(ents, {}, check_files=True, key=("m", text))


def inputs(env, i):
    """Programs with INPUT: the answers follow the entry that asks."""
    r = env.rng
    g = Gen(r, size=r.choice((8, 16)), routines=0, weights=dict({"bad": 0.3, "input": 8}, **{k: 0 for k in ("if", "case", "while", "repeat", "for", "break", "continue")}))
    text = g.program()
    ents = split(text)
    # entries' inputs: as many lines as the reference consumes
    m = M.Model(b"", {}, False, 20000)
    lines = list(g.stdin)
    out = []
    for e in ents:
        t = e if isinstance(e, str) else e.text
        if "INPUT" in t or "READ " in t:
            # at top level an INPUT reads one line; loops and routines with INPUT are left to file mode
            if repl.is_multi(t):
                if re.match(r"\s*(PROCEDURE|FUNCTION)", t):
                    return
                return
            out.append(repl.Entry(t, [lines.pop(0) if lines else "5"]))
        else:
            out.append(repl.Entry(t))
    env.session(out, {}, pure="prefix")
    if printable(out):
        env.session(out, {}, pure="prefix", variant="readline")


def printable(ents):
    return re.fullmatch(r"[ -~\n]*", "".join(e if isinstance(e, str) else e.text + "".join(e.inp) for e in ents)) is not None


TYPED = ["5", "-3", "2.5", "TRUE", "x", "some words  and blanks ", "  indented", "", "\"quoted\"", "a, b; c!", "!!", "^a^b", "EXIT", "?", "> x", "1" * 90]


def terminal(env, i):
    """The build with readline (as the repository configures itself): the same sessions, with the typed lines echoed."""
    r = env.rng
    g = Gen(r, size=r.choice((8, 16)), routines=2, files=("f1",), weights={"bad": r.choice((0, 1)), "wfile": 1, "rfile": 1, "input": 0, "exprstmt": 3})
    ents = texts(split(g.program()))
    for _ in range(r.randint(1, 5)):
        k = r.randint(0, len(ents))
        w = r.randrange(5)
        v = "typed%d" % r.randrange(3)
        if w < 2:
            ents.insert(k, repl.Entry("INPUT " + v, [r.choice(TYPED)]))
        elif w == 2:
            ents.insert(k, v)
        elif w == 3:
            ents.insert(k, repl.Entry("RUNFILE in.ps", [r.choice(TYPED), r.choice(TYPED)]))
        else:
            ents.insert(k, repl.Entry("FOR loop <- 1 TO 2\n  INPUT %s\n  OUTPUT \"got \", %s\nNEXT loop" % (v, v), [r.choice(TYPED), r.choice(TYPED)]))
    if printable(ents):
        env.session(ents, {"in.ps": b"DECLARE n: INTEGER\nINPUT n\nOUTPUT n, \".\"\nINPUT s\nOUTPUT \"[\", s, \"]\"\n"}, pure="prefix", check_files=True, variant="readline")


def ends(env, i):
    """A session ended by EXIT, with further lines behind it, or inside an unfinished construct: what was entered before has the same effects,
    open files included, and nothing of the rest runs."""
    r = env.rng
    g = Gen(r, size=r.choice((4, 10)), routines=r.randint(0, 1), files=("f1", "f2"), weights={"bad": r.choice((0, 1)), "wfile": 3, "rfile": 1, "random": 1, "input": 0, "exprstmt": 2})
    ents = texts(split(g.program()))
    ents = ents[:r.randint(1, len(ents))]
    if r.random() < 0.6:
        ents += ['OPENFILE "last%d" FOR %s' % (k, r.choice(("WRITE", "APPEND"))) for k in range(r.randint(1, 3))]
        ents += ['WRITEFILE "last%d", "line %d"' % (r.randrange(3), k) for k in range(r.randint(1, 6))]
    first = env.session(ents, {}, pure="prefix", check_files=True)
    if first is None:
        return
    p, a = first
    if a.kind != "ok" and a.code not in (0, 1):
        return env.discard("abnormal end")
    stdin = repl.stdin_of(p.entries)
    after = r.choice(('OUTPUT "behind"\n', 'OPENFILE "behind" FOR WRITE\nWRITEFILE "behind", 1\nOUTPUT "behind"\n', "EXIT\n?\nOUTPUT \"behind\"\n", 'WRITEFILE "last0", "behind"\nEXIT\n', "RUNFILE behind\n", ""))
    b = env.run(None, stdin + "EXIT\n" + after, {}, collect=True)
    env.expect(b.code == a.code, "EXIT instead of the end of the input changes the exit status from %r to %r" % (a.code, b.code))
    env.expect(b.out.rstrip(b"\n") == a.out.rstrip(b"\n"), "EXIT instead of the end of the input changes the output")
    env.expect(b.files == a.files, "EXIT instead of the end of the input changes the files")
    env.ok((stdin, after))
    part = r.choice(('IF TRUE THEN\n  OUTPUT "behind"\n', 'FOR zz <- 1 TO 3\n  OUTPUT "behind"\nNEXT zz\n', 'PROCEDURE zz\n', 'WHILE TRUE\n', 'REPEAT\nOPENFILE "behind" FOR WRITE\nUNTIL TRUE\n', "TYPE zz\n"))
    c = env.run(None, stdin + part, {}, collect=True)
    env.expect(c.code == a.code, "the input ending inside a construct changes the exit status from %r to %r" % (a.code, c.code))
    env.expect(c.out.startswith(a.out.rstrip(b"\n")) and b"behind" not in c.out[len(a.out.rstrip(b"\n")):], "the input ending inside a construct changes the output")
    env.expect(c.files == a.files, "the input ending inside a construct changes the files")
    env.ok((stdin, part))


def failing(g, r, fresh):
    """A single statement which fails whatever the state of the generated program, and must leave no trace."""
    gs = list(g.globals.values())
    v = r.choice([x for x in gs if not x.dims])
    sc = [x for x in gs if not x.dims and not x.const and x.type in ("INTEGER", "REAL", "BOOLEAN", "CHAR", "DATE")]
    forms = ["%s <- nosuch_name" % fresh, "%s <- 1 DIV 0" % fresh, "%s <- nosuch_name + 1" % v.name, "DECLARE %s: INTEGER" % v.name, "CONSTANT %s = 1" % v.name,
             "DECLARE %s: NOSUCHTYPE" % fresh, "DECLARE %s: ARRAY[5:1] OF INTEGER" % fresh, 'DECLARE %s: ARRAY[1:"a"] OF INTEGER' % fresh, "%s[1] <- 5" % fresh, "%s.f <- 5" % fresh, "%s <- ^nosuch_name" % fresh,
             'OPENFILE "nosuch_file" FOR READ', 'WRITEFILE "not_open", 5', 'READFILE "not_open", %s' % fresh, 'CLOSEFILE "not_open"', 'SEEK "not_open", 1', 'GETRECORD "not_open", %s' % v.name, 'PUTRECORD "not_open", %s' % v.name,
             "%s <- (5" % fresh, "DECLARE %s" % fresh, "CONSTANT %s = " % fresh, "DECLARE : INTEGER", 'OPENFILE "x"', "%s <- 5 !" % fresh, "x <- 'abc'", 'WRITEFILE 5, "a"', "CONSTANT %s = nosuch_name" % fresh,
             "%s <- NOT 5" % fresh, "%s <- \"a\" + 1" % fresh, "DECLARE %s: ARRAY[1:3] OF NOSUCHTYPE" % fresh]
    if sc:
        x = r.choice(sc)
        forms += ['%s <- "text"' % x.name] * 3 + ["%s[1] <- 5" % x.name, "%s.n <- 5" % x.name]
    arr = [x for x in gs if x.dims]
    if arr:
        x = r.choice(arr)
        forms += ["%s[%s] <- %s" % (x.name, ", ".join(str(h + r.choice((1, 50))) for _, h in x.dims), g.literal(x.type) if x.type in g.prims else "nosuch_name"),
                  "DECLARE %s: ARRAY[1:2] OF INTEGER" % x.name, "%s[%s] <- nosuch_name" % (x.name, ", ".join(str(h) for _, h in x.dims)), "%s[TRUE] <- 5" % x.name]
    for x in gs:
        if x.const:
            forms += ["%s <- 5" % x.name] * 2
    for n, fields in g.recs.items():
        for x in gs:
            if x.type == n and not x.dims:
                forms += ["%s.nosuch <- 5" % x.name, "%s <- 5" % x.name, "%s.%s <- nosuch_name" % (x.name, fields[0][0])]
    return r.choice(forms)


def interleaved(env, i):
    """A generated session with failing single statements at random positions (or each position): the others behave as without."""
    r = env.rng
    g = Gen(r, size=r.choice((8, 14)), routines=r.randint(0, 2), files=("f1",), weights={"bad": 0.4, "wfile": 1, "rfile": 1, "random": 0.5, "input": 0, "exprstmt": 3})
    ents = texts(split(g.program()))
    first = transcript(env, ents)
    if first is None:
        return
    chunks, fs = first
    decl = max([k for k, e in enumerate(ents) if re.match(r"DECLARE|CONSTANT|TYPE", e)] + [0])
    # names of the generator exist from the last top-level declaration before the first other statement on
    start = 0
    while start < len(ents) and re.match(r"\s*(DECLARE|CONSTANT|TYPE|PROCEDURE|FUNCTION)", ents[start]):
        start += 1
    late = {v.name for v in g.globals.values()}
    seen = set(re.findall(r"\w+", "\n".join(e for e in ents[:start] if re.match(r"\s*(DECLARE|CONSTANT)", e))))
    if late - seen:
        for n in late - seen:
            del g.globals[n]
    if all(v.dims for v in g.globals.values()):
        return
    for rnd in range(3):
        mix = []
        bad = []
        density = r.choice((0.2, 0.6, 1.0))
        for k, e in enumerate(ents):
            if k >= start and r.random() < density:
                for _ in range(r.choice((1, 1, 2))):
                    bad.append(len(mix))
                    mix.append(failing(g, r, r.choice(("fresh1", "fresh2"))))
            mix.append(e)
        if any(not repl.Entry(mix[b]).valid() for b in bad) or not bad:
            continue
        res = transcript(env, mix)
        if res is None:
            return
        c2, fs2 = res
        for b in bad:
            env.expect(is_error(c2[b]), "%r does not fail" % mix[b])
        rest = [c for k, c in enumerate(c2) if k not in set(bad)]
        for e, a, b in zip(ents, chunks, rest):
            env.expect(a == b, "after failing entries, %r gives %r; without them %r" % (e[:200], b[-300:], a[-300:]))
        env.expect(fs == fs2, "failing entries change the files")
        env.ok(tuple(mix))
        env.events["failing entries interleaved"] = env.events.get("failing entries interleaved", 0) + len(bad)


def survive(env, i):
    """Failing entries of every kind (also in calls, loops, half-executed blocks) do not end the session; the state is the predicted one."""
    r = env.rng
    g = Gen(r, size=14, routines=3, weights={"bad": 3, "input": 0, "exprstmt": 2, "call": 8}, dump=True)
    ents = []
    for e in texts(split(g.program())):
        ents.append(e)
        x = r.random()
        if x < 0.15:
            b = r.choice(BAD)
            if repl.Entry(b).valid() and "INPUT" not in b:
                ents.append(b)
        elif x < 0.25:
            b = X.faulty(e, r)
            if repl.Entry(b).valid() and not re.search(r"INPUT|\bREAD\b", b):
                ents.append(b)
    env.session(ents, {}, pure="prefix", check_files=True)


ECHO = ["TYPE Col = (red, green)", "TYPE PI = ^INTEGER", "TYPE Rec\n  DECLARE n: INTEGER\n  DECLARE s: ARRAY[1:2] OF STRING\nENDTYPE", "DECLARE i: INTEGER", "DECLARE re: REAL", "DECLARE b: BOOLEAN", "DECLARE c: CHAR",
        "DECLARE s: STRING", "DECLARE d: DATE", "DECLARE e: Col", "DECLARE p: PI", "DECLARE r: Rec", "DECLARE a: ARRAY[1:2] OF CHAR", "CONSTANT k = \"const\"", "DECLARE p2: PI", "DECLARE pa: ARRAY[1:2] OF PI",
        "PROCEDURE dangle(BYREF t: PI)\n  DECLARE loc: INTEGER\n  loc <- 3\n  t <- ^loc\n  t\nENDPROCEDURE", "PROCEDURE deep(n: INTEGER)\n  IF n > 0 THEN\n    CALL deep(n - 1)\n    p2\n  ELSE\n    CALL dangle(p2)\n  ENDIF\nENDPROCEDURE",
        "FUNCTION fi() RETURNS INTEGER\n  RETURN 42\nENDFUNCTION", "FUNCTION fs(x: STRING) RETURNS STRING\n  RETURN x & x\nENDFUNCTION", "FUNCTION fe() RETURNS Col\n  RETURN green\nENDFUNCTION",
        "FUNCTION fc() RETURNS CHAR\n  OUTPUT \"side\"\n  RETURN 'q'\nENDFUNCTION"]
ECHOED = ["i", "re", "b", "c", "s", "d", "e", "p", "r.n", "r.s[1]", "a[1]", "k", "fi()", "fs(s)", "fe()", "fc()", "1", "-1", "1.0", "1.5", "TRUE", "FALSE", "'x'", '"str"', '""', "1/2/2003", "red", "i + 1", "re / 3", "1 = i",
          "NOT (e = red)", '"a" & 1', "NOT b", "2 * (3 + 4)", "LENGTH(s)", "LEFT(\"abc\", 2)", "CHR(65)", "p^", "1 DIV 0", "nosuch", "INTEGER(\"5\")", "CHAR(66)", "\"b\" > s", '"quote\\"d"', "'\\''", '"line\\nbreak"', "1000000000000",
          "12345678.9", "0.000001", "1 / 3", "100000000000000000000.0", "7 MOD 3", "^i", "-(5)", "(s)", "p", "p2", "pa[1]", "pa[2]", "p2^", "p2", "i, i", "i i"]
ECHOSET = ["i <- 7", "re <- 2.5", "b <- TRUE", "c <- 'z'", 's <- "text"', "d <- 29/2/2024", "e <- green", "p <- ^i", "r.n <- 9", 'r.s[1] <- "rs"', "a[1] <- 'A'", "i <- i + 1", "re <- re * 2", "p^ <- p^ + 1", "a[2] <- a[1]", "s <- s & c", "CALL dangle(p)", "CALL dangle(p2)", "CALL dangle(pa[1])", "CALL deep(3)", "p2 <- ^i", "pa[2] <- p2", "p <- pa[1]", "pa[1] <- ^r.n"]


def echo(env, i):
    """Echo of bare expressions of every type, before and after assignments, in blocks."""
    r = env.rng
    ents = list(ECHO)
    seq = list(ECHOED)
    if i:
        r.shuffle(seq)
    for x in seq:
        if r.random() < 0.4:
            ents.append(r.choice(ECHOSET))
        ents.append(x)
        if r.random() < 0.1:
            ents.append("IF TRUE THEN\n  %s\n  OUTPUT \"in block\"\n  %s\nENDIF" % (x, r.choice(ECHOED)))
    env.session(ents, pure="prefix" if i % 2 else True, each=True)


def runfile(env, i):
    """RUNFILE between entries: prints what the file prints as a program, and neither sees nor changes the session."""
    r = env.rng
    g = Gen(r, size=8, routines=1, files=("f1",), weights={"bad": 0.3, "wfile": 1, "rfile": 1, "input": 0, "exprstmt": 2})
    ents = texts(split(g.program()))
    progs = {}
    for k in range(2):
        w = r.random()
        if w < 0.5:
            h = Gen(r, size=10, routines=1, files=("f2",), weights={"bad": r.choice((0, 1)), "wfile": 1, "rfile": 1, "input": 0, "exprstmt": 1})
            t = h.program()
        elif w < 0.7:
            n, t = r.choice([(n, t) for n, t in samples.SAMPLES.items() if n not in ("input",)])
        elif w < 0.85:
            v = [x for x in g.globals]
            t = "OUTPUT \"in file\"\n" + "".join("%s\n" % r.choice(("%s <- 5" % x, "OUTPUT %s" % x, "DECLARE %s: STRING" % x, "PROCEDURE Q1()\nENDPROCEDURE")) for x in r.sample(v, min(3, len(v))))
        else:
            t = X.faulty(r.choice(list(samples.SAMPLES.values())), r)
            if "INPUT" in t or "READ" in t:
                t = "OUTPUT 5 +\n"
        progs[("p0.ps", "p1.ps")[k]] = t
    # names as short as a name can be: the command stops where its name begins
    progs["q"] = progs["p0.ps"]
    files = {n: t.encode("latin-1") for n, t in progs.items()}
    # what each prints as a program of its own
    mix, at = [], []
    for e in ents:
        if r.random() < 0.2:
            at.append(len(mix))
            mix.append("RUNFILE " + r.choice(("p0.ps", "p1.ps", "p1.ps", "q", "q", "z", "none.ps", "p0.ps  ", "p1.ps\t", "p0.ps \t ")))
        mix.append(e)
    env.session(mix, files, pure="prefix", check_files=True)
    if not at:
        return
    # the others behave as without the RUNFILE entries (if the programs touch no file of the session)
    base = transcript(env, ents, files)
    res = transcript(env, mix, files)
    if base is None or res is None:
        return
    if any("f1" in t or "FILE" in t for t in progs.values()):
        return
    rest = [c for k, c in enumerate(res[0]) if k not in set(at)]
    for e, a, b in zip(ents, base[0], rest):
        env.expect(a == b, "around RUNFILE, %r gives %r; without it %r" % (e[:200], b[-300:], a[-300:]))
    for k in at:
        name = mix[k][8:].rstrip()
        if name in progs:
            f = env.run(progs[name], b"", {k2: v for k2, v in files.items()}, merge=True)
            if f.kind in ("budget", "timeout"):
                return
            want = ("==> Running file '%s'\n" % name).encode() + f.out.replace(b"prog.ps", name.encode()) + b"\n==> Program exited " + (b"successfully\n" if f.code == 0 else b"with an error\n")
            got = payload(env, mix[k], res[0][k])
            env.expect(got == want, "%s printed %r, as a program it prints %r" % (mix[k], got[:400], want[:400]))
            env.ok((mix[k], progs[name]))


def openfiles(env, i):
    """Files opened by entries stay open (with their position) across failing entries, RUNFILE and constructs."""
    r = env.rng
    ents = ["DECLARE s: STRING", "DECLARE n: INTEGER", 'OPENFILE "a" FOR READ', 'OPENFILE "w" FOR WRITE', 'OPENFILE "r" FOR RANDOM']
    use = ['READFILE "a", s', "s", 'OUTPUT EOF("a")', 'WRITEFILE "w", s', 'WRITEFILE "w", n', "n <- n + 1", 'SEEK "r", n', 'PUTRECORD "r", n', 'SEEK "r", 1', 'GETRECORD "r", n',
           "FOR q <- 1 TO 2\n  WRITEFILE \"w\", q\nNEXT q", "IF NOT EOF(\"a\") THEN\n  READFILE \"a\", s\n  OUTPUT s\nENDIF", 'CLOSEFILE "w"', 'OPENFILE "w" FOR APPEND', 'OPENFILE "w" FOR READ']
    bad = ["OUTPUT nosuch", "s <- 5 +", 'READFILE "w", s', 'WRITEFILE "a", 1', 'OPENFILE "a" FOR WRITE', 'CLOSEFILE "zz"', "RUNFILE prog1", "RUNFILE nothing", "n <- \"x\"", "WHILE TRUE DO\n  WRITEFILE \"w\", \"loop\"\n  OUTPUT 1 DIV 0\nENDWHILE",
           'OPENFILE "r" FOR READ', 'GETRECORD "a", n', "RUNFILE prog2", "FUNCTION q() RETURNS INTEGER\n  WRITEFILE \"w\", \"in q\"\n  RETURN nosuch\nENDFUNCTION", "q()", "BREAK", "RETURN", 'IF 5 THEN\n  CLOSEFILE "a"\nENDIF']
    for _ in range(r.randint(8, 30)):
        ents.append(r.choice(use) if r.random() < 0.65 else r.choice(bad))
    files = {"a": b"l1\nl2\nl3\nl4\n", "r": b"", "prog1": b'OPENFILE "other" FOR WRITE\nWRITEFILE "other", 5\nOUTPUT "done"\n', "prog2": b'OUTPUT "two"\nOUTPUT EOF("a")\n'}
    del files["r"]
    env.session(ents, files, pure="prefix", check_files=True)


def scaled(env, i):
    """Long sessions and long entries: programs with one large dimension entered piece by piece."""
    r = env.rng
    f, (src, inp, files) = scale.build(r, "all", i)
    if inp:
        env.discard("takes input")
        return
    ents = split(src)
    if r.random() < 0.5:
        for _ in range(r.randint(1, 5)):
            ents.insert(r.randint(0, len(ents)), r.choice(("OUTPUT nosuch", "x <- )", "1 DIV 0", "BREAK", "\"%s\"" % ("y" * scale.size(r, 5000)), "IF 5 THEN\n  OUTPUT 1\nENDIF")))
    env.session(ents, files, pure="prefix", check_files=True, max_steps=100000, **scale.LIMITS)


EARLY = ["TYPE Col = (red, green, blue)", "TYPE PI = ^INTEGER", "TYPE Rec\n  DECLARE n: INTEGER\n  DECLARE v: ARRAY[1:3] OF STRING\n  DECLARE c: Col\nENDTYPE", "CONSTANT k = 7",
         "DECLARE g: INTEGER", "DECLARE r: Rec", "DECLARE p: PI", "p <- ^g",
         "FUNCTION f(n: INTEGER) RETURNS INTEGER\n  IF n < 0 THEN\n    RETURN 1 DIV (n + 3)\n  ENDIF\n  g <- g + 1\n  RETURN n * 2 + k\nENDFUNCTION",
         "PROCEDURE q(BYREF a: INTEGER, BYVAL x: Rec)\n  DECLARE l: Col\n  l <- green\n  a <- a + x.n\n  x.v[a MOD 3 + 1] <- \"q\"\n  OUTPUT l + a, x.c, x.v[a MOD 3 + 1]\nENDPROCEDURE"]
USES = ["OUTPUT f(g)", "CALL q(g, r)", "r.n <- r.n + 1", "r.c <- r.c + 1", "r.v[2] <- r.v[1] & \"a\"", "OUTPUT r.v[2], r.c, r.n", "p^", "p^ <- p^ - 1", "red", "r.c", "f(3)", "f(-3)", "OUTPUT f(-3)", "g <- f(f(f(-3)))", "CALL q(k, r)",
        "r.v[4] <- \"x\"", "k <- 8", "k", "OUTPUT blue - 1", "g", "p", "DECLARE f: Rec", "r.c <- 1", "CALL q(nosuch, r)", "g <- nosuch", "TYPE Col = (pink)", "FUNCTION f() RETURNS INTEGER\nRETURN 0\nENDFUNCTION", "x <-", "g <- $"]


def long(env, i):
    """Sessions of up to thousands of entries: what the first of them defined stays usable, and errors in it keep their lines."""
    r = env.rng
    n = scale.size(r, 2600, 60)
    ents, c = list(EARLY), 0
    wide = r.choice((1, 1, 3, 10))
    while len(ents) < n:
        w = r.random()
        if w < 0.35:
            ents.append(r.choice(USES))
        elif w < 0.5:
            c += 1
            ents.append("var%d <- %s" % (c, " + ".join(str(r.randint(0, 99)) for _ in range(wide))))
        elif w < 0.55:
            c += 1
            ents.append("DECLARE var%d: %s" % (c, r.choice(("INTEGER", "Rec", "Col", "PI", "STRING"))))
        elif w < 0.58:
            c += 1
            ents.append(r.choice(("FUNCTION fn%d(a: Rec) RETURNS Col\n  OUTPUT a.n + g\n  RETURN a.c\nENDFUNCTION", "TYPE Rec%d\n  DECLARE inner: Rec\nENDTYPE", "PROCEDURE pr%d()\n  CALL q(g, r)\nENDPROCEDURE")) % c)
        elif c:
            v = r.randint(max(1, c - r.choice((3, 30, 3000))), c)
            ents.append(r.choice(("var%d", "OUTPUT var%d", "var%d <- var%d", "OUTPUT fn%d(r)", "CALL pr%d()", "DECLARE rr%d: Rec", "var%d <- r", "r <- var%d", "var%d <- ^g", "OUTPUT " + " + ".join(["1"] * wide) + ", var%d")).replace("%d", str(v)))
    ents += r.sample(USES, len(USES)) + ["DECLARE last: Rec", "last <- r", "last.v[1] <- \"l\"", "CALL q(g, last)", "OUTPUT last.c + 1, r.v[1]", "g <- f(f(-3))"]
    env.session(ents, {}, pure="prefix", max_steps=100000, **scale.LIMITS)

PREFIXED = [k + s for k in ("IF", "CASE", "WHILE", "REPEAT", "FOR", "PROCEDURE", "FUNCTION", "TYPE", "RUNFILE", "EXIT") for s in ("_", "_1", "1", "s", "X", "0a", "9_")] + ["if", "type", "exit", "runfile", "Type", "FORM", "IFF"]


def renamed(text, names):
    return "".join(names.get(s, s) if k == "word" else s for k, s in X.pieces(text))


def restyled(e, r):
    """The entry with another layout: blanks and tabs before and between tokens, comments after lines and between them, lines of blanks."""
    new, _ = X.relayout(e, r, r.choice((("indent",), ("comment",), ("indent", "widen", "tabs", "comment"), ("fullcomment", "tail"), ("indent", "fullcomment", "comment"))))
    ls = [l for l in new.rstrip("\n").split("\n") if l]
    while ls and ls[0].lstrip(" \t").startswith("//"):
        ls.pop(0)
    if r.random() < 0.5:
        ls[0] = r.choice((" ", "\t", "  \t", "\t\t ")) + ls[0].lstrip(" \t")
    if r.random() < 0.5 and "//" not in ls[0]:
        ls[0] += r.choice(("// =", " // a = (b, c)", "//= // =", " // ^x = IF THEN", "\t//="))
    if len(ls) > 1 and r.random() < 0.5:
        for _ in range(r.randint(1, 3)):
            ls.insert(r.randint(1, len(ls)), r.choice((" ", "\t", "   \t", " // blank", "//")))
    new = "\n".join(ls)
    return new if repl.Entry(new).valid() and repl.is_multi(new) == repl.is_multi(e) else e


def layout(env, i):
    """Sessions whose names begin with the keywords the prompt looks for, with other layouts of their entries."""
    r = env.rng
    g = Gen(r, size=r.choice((6, 12, 20)), routines=r.randint(0, 2), files=("f1",), weights={"bad": r.choice((0, 0.5)), "wfile": 1, "rfile": 1, "input": 0, "exprstmt": 4})
    text = g.program()
    names = sorted({s for k, s in X.pieces(text) if k == "word" and re.fullmatch(r"[A-Za-z]+[0-9]+", s)})
    names = dict(zip(names, r.sample(PREFIXED, len(PREFIXED)))) if i % 3 else {}
    ents = [renamed(e, names) for e in texts(split(text))]
    if not all(repl.Entry(e).valid() for e in ents):
        env.discard("an entry is not read back as one")
        return
    style = [restyled(e, r) for e in ents]
    p = env.session(style, {}, pure="prefix", check_files=True)
    if p is None:
        return
    n = len(p[0].entries)
    a, b = transcript(env, ents[:n]), transcript(env, style[:n])
    if a is None or b is None:
        return
    for e, s, x, y in zip(ents, style, a[0], b[0]):
        env.expect(is_error(x) == is_error(y) and (is_error(x) or payload(env, e, x) == payload(env, s, y)), "%r gives %r, but with other blanks and comments, as %r, it gives %r" % (e[:200], x[-300:], s[:300], y[-300:]))
    env.expect(a[1] == b[1], "the files differ")
    env.ok(("layout",) + tuple(style))


def partial(env, i):
    """GETRECORD of records another program wrote under the same type name: a read that fails part-way changes nothing."""
    from c13 import FIELDS, changed, tdef
    r = env.rng
    inner = [r.choice(FIELDS[:6]) for _ in range(r.choice((1, 2)))]
    outer = [r.choice(FIELDS[:5] + FIELDS[7:]) for _ in range(r.choice((1, 2, 3, 4)))]
    ents = ["TYPE E = (e0, e1, e2)", "\n".join(tdef("R", inner)), "\n".join(tdef("T", outer)), "DECLARE t, keep: T", "DECLARE a: ARRAY[1:2] OF T", "DECLARE n: INTEGER"]
    val = {"INTEGER": ("7", "-9"), "STRING": ('"t"', '"#"'), "E": ("e1", "e2"), "CHAR": ("'c'", "'\\n'"), "BOOLEAN": ("TRUE", "TRUE"), "REAL": ("2.5", "-1.25"), "DATE": ("1/2/2003", "4/5/2006")}

    def leaves(p, fields):
        res = []
        for k, t in enumerate(fields):
            q = "%s.f%d" % (p, k)
            if t.startswith("ARRAY"):
                lo, hi = int(t[6]), int(t[8])
                for x in range(lo, hi + 1):
                    res += leaves("%s[%d]" % (q, x), inner) if t.endswith("R") and not t.endswith("CHAR") else [("%s[%d]" % (q, x), t.split(" OF ")[1])]
            elif t == "R":
                res += leaves(q, inner)
            else:
                res.append((q, t))
        return res
    files = {}
    for k in range(3):
        o2, i2 = (changed(r, outer), inner) if r.random() < 0.7 else (outer, changed(r, inner))
        if r.random() < 0.2:
            o2, i2 = outer, inner
        prog = ["TYPE E = (e0, e1, e2)"] + tdef("R", i2) + tdef("T", o2) + ["DECLARE t: T", "DECLARE a: ARRAY[1:2] OF T", 'OPENFILE "f" FOR RANDOM']
        for q, t in [("t.f%d" % m, t) for m, t in enumerate(o2) if t in val]:
            prog.append("%s <- %s" % (q, val[t][1]))
        prog += ['SEEK "f", 1', 'PUTRECORD "f", t', "a[1] <- t", "a[2] <- t"] + ["a[1].%s <- %s" % ("f%d" % m, val[t][0]) for m, t in enumerate(o2) if t in val][:1] + ['SEEK "f", 2', 'PUTRECORD "f", a']
        files["w%d.ps" % k] = ("\n".join(prog) + "\n").encode("latin-1")
    for p, f in (("t", outer), ("a[2]", outer)):
        ents += ["%s <- %s" % (q, val[t][0]) for q, t in leaves(p, f)]
    show = ["OUTPUT %s" % ', "|", '.join(q for q, t in leaves(p, outer)) for p in ("t", "a[1]", "a[2]")]
    for k in range(3):
        ents += ["RUNFILE w%d.ps" % k, 'OPENFILE "f" FOR RANDOM', 'GETRECORD "f", a', show[1], show[2], 'GETRECORD "f", t', show[0], 'SEEK "f", 2', 'GETRECORD "f", t', show[0], 'GETRECORD "f", a', show[1], show[2], 'GETRECORD "f", n', "n",
                 'PUTRECORD "f", t', 'GETRECORD "f", keep', "OUTPUT keep.f0" if outer[0] in val else "n", 'CLOSEFILE "f"']
    env.session(ents, files, pure=True, each=True)


fam = [Family("partial", partial, 400, 8000, about="GETRECORD of records of a type of the same name with other fields"), Family("layout", layout, 500, 8000, about="names that begin with keywords, other layouts of the entries"),
       Family("long", long, 160, 3000, about="sessions of up to 2600 entries", chunk=2), Family("scaled", scaled, 720, 5000, about="programs with one large dimension entered piece by piece", chunk=4)]
for which in ("vars", "files", "routines"):
    for n in (1, 2, 3):
        f = exhaustive(which, n)
        if n < 3:
            fam.append(Family("%s%d" % (which, n), f, f.total, about="every history of %d entries over the %s alphabet" % (n, which)))
        else:
            fam.append(Family("%s3" % which, f, f.total // 6 if which == "files" else f.total // 6, f.total, about="histories of 3 entries over the %s alphabet" % which))
CORE5 = exhaustive("core", 5)
CHECK = Check("C12", fam + [
    Family("core5", CORE5, 3000, CORE5.total, about="histories of 5 entries over a seven-entry alphabet (all in the thorough tier)"),
    Family("sampled", sampled, 1500, 60000, about="random histories of 3..9 entries"),
    Family("asfile", asfile, 500, 10000, about="generated programs entered piece by piece and as files"),
    Family("inputs", inputs, 400, 6000, about="entries with INPUT"),
    Family("terminal", terminal, 400, 6000, about="sessions with INPUT in the build with readline"),
    Family("ends", ends, 200, 4000, about="sessions ended by EXIT or inside a construct, with open files"),
    Family("interleaved", interleaved, 500, 10000, about="failing single statements between the entries of generated programs"),
    Family("survive", survive, 500, 8000, about="failing entries of all kinds, predicted state"),
    Family("echo", echo, 60, 800, about="echo of bare expressions"),
    Family("runfile", runfile, 400, 8000, about="RUNFILE between entries"),
    Family("openfiles", openfiles, 400, 8000, about="open files across failing entries"),
], "A case is a REPL session. Markers after each entry separate what it printed; sessions with and without the failing entries, and the program run from a file, must "
   "print the same and leave the same files; sessions are also compared with the reference model. It counts once per distinct session.",
    variants=("asan", "plain", "readline"),
    assumptions=["entries which fail after calls or inside blocks may keep the effects they had before the failure",
                 "the texts of diagnostics and prompts are compared between runs, not against a fixed text"])
