"""C11: syntax is checked before anything runs, and diagnostics point at the fault."""
import re

import model as M
import mutate as X
import repl
import samples
from c04 import split
from gen import Gen
import scale
from harness import Check, Family, Stop, frames_differ

SENTINEL = """OUTPUT "sentinel"
OPENFILE "new.txt" FOR WRITE
WRITEFILE "new.txt", "created"
CLOSEFILE "new.txt"
OPENFILE "old.txt" FOR APPEND
WRITEFILE "old.txt", "appended"
CLOSEFILE "old.txt"
OPENFILE "kept.txt" FOR WRITE
OPENFILE "rnd.dat" FOR RANDOM
"""
OLD = {"old.txt": b"old contents\n", "kept.txt": b"kept\n"}

# Lines which are wrong wherever a statement may stand, and wrong before their end of line has passed.
BAD = """x <-
<- 5
OUTPUT
OUTPUT 1,
OUTPUT 1 2
OUTPUT 1,, 2
OUTPUT )
OUTPUT(1)
INPUT(x)
x <- 5 +
x <- * 5
x <- (5
x <- 5)
x <- ((5)
x <- ()
x <- 5 6
x <- "a" "b"
x <- 'ab'
x <- ''
x <- '
x <- 1 == 2
x <- 5 ? 3
x <- 5 % 2
x <- @y
x <- #1
x <- !TRUE
x <- {5}
x <- 5;
x <- a $ b
x <- \\
x <- "\\q"
x <- '\\q'
x <- .5
x <- NOT
x <- 3 AND
x <- DIV 3
x <- 5 MOD
x <- -
x <- &
x <- "a" &
x <- 1 <
x <- 1 < <> 2
x <- f(
x <- f(1
x <- f(1,
x <- f(1 2)
x <- f(,)
x[1 <- 5
x[] <- 5
x[1,] <- 5
x. <- 5
x.5 <- 5
x.y. <- 5
1 <- 2
"s" <- 2
x y
x y <- 5
DECLARE x
DECLARE x INTEGER
DECLARE x:
DECLARE : INTEGER
DECLARE x,: INTEGER
DECLARE x, y
DECLARE x: 5
DECLARE 5: INTEGER
DECLARE a: ARRAY OF INTEGER
DECLARE a: ARRAY[1] OF INTEGER
DECLARE a: ARRAY[1:2] INTEGER
DECLARE a: ARRAY[1:2 OF INTEGER
DECLARE a: ARRAY[1:2] OF
DECLARE a: ARRAY[:2] OF INTEGER
DECLARE a: ARRAY[1:2,] OF INTEGER
DECLARE IF: INTEGER
CONSTANT c
CONSTANT c =
CONSTANT = 5
CONSTANT c = x
CONSTANT c <- 5
CONSTANT 5 = c
CONSTANT c = 1 + 2
CALL
CALL 5
CALL p(
CALL p(1
CALL p(1,
CALL p(1))
CALL p q
OPENFILE "f"
OPENFILE "f" FOR
OPENFILE "f" FOR x
OPENFILE FOR READ
OPENFILE "f" READ
READFILE "f"
READFILE "f",
READFILE , x
READFILE "f", 5
WRITEFILE "f"
WRITEFILE "f",
WRITEFILE , 5
WRITEFILE "f" 5
CLOSEFILE
CLOSEFILE ,
CLOSEFILE "f" "g"
SEEK "f"
SEEK "f",
SEEK "f" 1
GETRECORD "f"
GETRECORD "f",
PUTRECORD "f"
PUTRECORD "f",
INPUT
INPUT 5
INPUT x,
INPUT x y
RETURN 1 2
TYPE t =
TYPE t = (
TYPE t = ()
TYPE t = (a,)
TYPE t = (a
TYPE t = (5)
TYPE t = ^
TYPE t = ^5
TYPE t = a
TYPE 5 = (a)
IF
IF THEN
IF 5 +
WHILE
WHILE )
FOR
FOR i
FOR i <-
FOR i <- 1
FOR i <- 1 TO
FOR i <- TO 3
FOR 5 <- 1 TO 3
FOR i <- 1 TO 3 STEP
FOR i <- 1 TO 3 x
CASE
CASE OF
CASE OF 5
CASE x
REPEAT 5
PROCEDURE
PROCEDURE 5
PROCEDURE p(
PROCEDURE p(a)
PROCEDURE p(a INTEGER)
PROCEDURE p(a: )
PROCEDURE p(BYREF)
PROCEDURE p(a: INTEGER,)
FUNCTION
FUNCTION 5
FUNCTION f(
FUNCTION f(a)
FUNCTION f(a: INTEGER) RETURNS
FUNCTION f() RETURNS 5
THEN
DO
OF
TO 5
STEP 2
RETURNS INTEGER
BYREF x
BYVAL x
ENDTYPE
AND
READ
READ 5
WRITE
APPEND
RANDOM
ARRAY
& "x"
, x
. x
)
]
: 5
= 5
* 5
INTEGER
INTEGER <- 5
INTEGER 5
INTEGER(
INTEGER(5
x <- INTEGER
x <- INTEGER()
x <- ^
x <- ^5
x ^ 5
x^^ y
TRUE <- FALSE
x <- TRUE FALSE
BREAK 5
CONTINUE x
~
`
\x01
\xff
x <- 5 \xa0+ 3
x <- 1 ' ' 2 '
OUTPUT "x" OUTPUT "y"
x <- 5 y <- 6
ELSE x ELSE""".split("\n")


def total(text):
    return text.count("\n") + (0 if text.endswith("\n") or not text else 1)


def rejected(env, src, files, r, line=None, what="", stdin_left=None):
    """The verdict for a text with a syntax error: nothing ran, one diagnostic, in the text."""
    env.expect(r.kind == "syntax" and r.code == 1, "%s: outcome %s, expected a syntax error" % (what, r.kind))
    # a warning of the parser about a comparison used as a statement is no output of the program
    env.expect(re.sub(rb"(?m)^Warning on line .*$", b"", r.out).strip() == b"", "%s: something was printed: %r" % (what, r.out[:200]))
    env.expect(len(r.diags) == 1, "%s: %d diagnostics" % (what, len(r.diags)))
    env.expect(r.files == files, "%s: the files changed: %r" % (what, r.files))
    place(env, src, r.diags[0], what)
    if line is not None:
        got = r.diags[0].frames[0][1]
        env.expect(got == line, "%s: the diagnostic names line %d, the fault is in line %d" % (what, got, line))


def place(env, src, d, what=""):
    """Every position of a diagnostic lies in the text (or just behind its end)."""
    ls = src.replace("\r", "").split("\n")
    n = total(src)
    for k, (name, l, c) in enumerate(d.frames):
        if d.kind == "runtime" and k == 0 and l == 0:
            continue
        env.expect(1 <= l <= n + 2, "%s: the diagnostic names line %d of %d" % (what, l, n))
        if l <= n and '"' not in src[:0]:
            env.expect(0 <= c <= len(ls[l - 1]) + 1, "%s: the diagnostic names column %d of line %d, which has %d" % (what, c, l, len(ls[l - 1])))


def judge(env, src, what, line=None, stdin=b"", pedantic=False, variant=None):
    """Predicts with the reference model whether src has a syntax error (and where); observes it if so."""
    e, warned = M.check_syntax(src.encode("latin-1"))
    if warned:
        env.discard("warning text")
        return False
    if e is None:
        return False
    el = e.frames[0][1]
    r = env.run(src, stdin, dict(OLD), **({"variant": variant} if variant else {}))
    if line is not None and el != line:
        line = None
    rejected(env, src, OLD, r, line, what)
    env.ok(src)
    env.events["syntax errors"] = env.events.get("syntax errors", 0) + 1
    if line is not None:
        env.events["lines of syntax errors compared"] = env.events.get("lines of syntax errors compared", 0) + 1
    return True


HOSTS = [SENTINEL] + [SENTINEL + t for n, t in samples.SAMPLES.items() if M.check_syntax(t.encode("latin-1"))[0] is None] + [
    "OUTPUT 1 DIV 0\n" + SENTINEL, "INPUT x\n" + SENTINEL + "OUTPUT x\n",
    "CONSTANT c = 5\nc <- 6\n" + SENTINEL, "RETURN\n" + SENTINEL,
    "PROCEDURE a()\nOUTPUT 1\nENDPROCEDURE\nCALL a()\n" + SENTINEL + "CALL a()\n"]


def wrongline(env, i):
    """Each wrong line at a statement position of a program with side effects before and after it."""
    r = env.rng
    bad = BAD[i % len(BAD)]
    for h in r.sample(HOSTS, 6) + [HOSTS[0]]:
        ls = h.rstrip("\n").split("\n")
        where = [r.randint(0, len(ls)) for _ in range(3)] + [0, len(ls)]
        for k in where:
            new = ls[:k] + ["    " * r.randint(0, 2) + bad + r.choice(("", "", "  ", " // why"))] + ls[k:]
            if r.random() < 0.3:
                judge(env, "\n".join(new), "%r as line %d" % (bad, k + 1), k + 1, b"input\n")
            else:
                judge(env, "\n".join(new) + "\n", "%r as line %d" % (bad, k + 1), k + 1, b"input\n")


def simple(l):
    return re.match(r"\s*(x|OUTPUT|INPUT|DECLARE|CONSTANT|CALL|RETURN|OPENFILE|READFILE|WRITEFILE|CLOSEFILE|SEEK|GETRECORD|PUTRECORD|[a-z]\w*.*<-)", l)


def token(env, i):
    """Token-level faults (deleted, doubled, replaced, inserted, swapped) in every line of generated programs and of the corpus."""
    r = env.rng
    if i % 3 == 0:
        n, text, stdin, files = (X.corpus() + [(a, b, samples.STDIN, {}) for a, b in samples.SAMPLES.items()])[(i // 3) % (len(X.corpus()) + len(samples.SAMPLES))]
        if M.check_syntax(text.encode("latin-1"))[0] is not None:
            text = ""
    else:
        g = Gen(r, size=12, routines=2, files=("f1",), weights={"wfile": 1, "rfile": 1, "random": 0.5, "bad": 0.2})
        text = g.program()
    ls = (SENTINEL + text).rstrip("\n").split("\n")
    done = tries = 0
    while done < 10 and tries < 60:
        tries += 1
        k = r.randrange(len(ls))
        if not ls[k].strip() or '"' in ls[k] and ls[k].count('"') % 2:
            continue
        new = X.faulty(ls[k], r)
        if "\n" in new or new == ls[k]:
            continue
        src = "\n".join(ls[:k] + [new] + ls[k + 1:]) + "\n"
        done += judge(env, src, "line %d %r became %r" % (k + 1, ls[k].strip()[:80], new.strip()[:80]), k + 1 if simple(ls[k]) else None, b"a\nb\nc\n")


def block(env, i):
    """A line that opens, continues or closes a block is missing or doubled."""
    r = env.rng
    g = Gen(r, size=14, routines=2)
    ls = (SENTINEL + g.program()).rstrip("\n").split("\n")
    ks = [k for k, l in enumerate(ls) if re.match(r"\s*(IF|ELSE|ENDIF|WHILE|ENDWHILE|REPEAT|UNTIL|FOR|NEXT|CASE|ENDCASE|OTHERWISE|PROCEDURE|ENDPROCEDURE|FUNCTION|ENDFUNCTION|TYPE|ENDTYPE)", l)]
    r.shuffle(ks)
    for k in ks[:8]:
        w = r.randrange(4)
        if w == 0:
            new = ls[:k] + ls[k + 1:]
        elif w == 1:
            new = ls[:k + 1] + ls[k:]
        elif w == 2:
            new = ls[:k]
        else:
            new = ls[:k] + [ls[r.choice(ks)]] + ls[k + 1:]
        judge(env, "\n".join(new) + "\n", "block structure, line %d" % (k + 1))


def unterminated(env, i):
    """Errors that only the end of the text shows: open strings, open blocks, cut programs."""
    r = env.rng
    g = Gen(r, size=8, routines=1)
    text = SENTINEL + g.program()
    for _ in range(6):
        w = r.randrange(3)
        if w == 0:
            src = text[:r.randrange(len(SENTINEL), len(text))]
        elif w == 1:
            k = r.randrange(len(text))
            src = text[:k] + r.choice("\"'([") + text[k:]
        else:
            src = text + r.choice(("IF TRUE THEN", "WHILE TRUE DO\nOUTPUT 1\n", "x <- (", "x <- 1 +", 'x <- "', "x <- '", "x <- 'a", "REPEAT\n", "TYPE t\n",
                                   "TYPE t\nDECLARE x: INTEGER\n", "CASE OF x\n1: x <- 5\n", "PROCEDURE p()\n", "FOR i <- 1 TO 5\n", "FUNCTION f() RETURNS REAL\nRETURN 1",
                                   "x <-", "OUTPUT", "TYPE t = (", "DECLARE x:", "CONSTANT", "x[", "x.", "CALL", "(", '"', "'", "x <- \"\\", "x <- '\\"))
        judge(env, src, "cut text")


RUNFAULTS = [
    "OUTPUT undefined_name", "zz9 <- undefined_name + 1", "CALL nosuch(1)", "OUTPUT nosuch(2)", "zz9 <- 1 DIV 0", "zz9 <- 1 MOD 0", "zz9 <- 1 / 0", 'OUTPUT 1 + "x"',
    'OUTPUT NOT "s"', "gi <- \"text\"", "gi <- 'c' & \"d\"", "gb <- 5", "OUTPUT ga[4]", "ga[0] <- 1", "OUTPUT gm[1, 3]", "ga[1, 1] <- 2", "OUTPUT gi[1]", "gk <- 6",
    "DECLARE zz8: NOTYPE", "DECLARE gi9, gi9: INTEGER", 'READFILE "closed", zz7', 'WRITEFILE "closed", 5', 'CLOSEFILE "closed"', 'OPENFILE "missing" FOR READ',
    'SEEK "closed", 1', 'GETRECORD "closed", gi', 'PUTRECORD "closed", gi', "OUTPUT gp^", "gp^ <- 5", "OUTPUT gr.nofield", "gr.nofield <- 5", "OUTPUT gi.x", "gr.n <- TRUE & 1",
    "gc <- gr", "gr <- 5", "CALL one()", "CALL one(1, 2)", 'CALL one("s")', "OUTPUT two(TRUE & 1)", "OUTPUT two()", "OUTPUT ga", "IF 5 THEN\nENDIF", 'WHILE "s" DO\nENDWHILE',
    "REPEAT\nUNTIL 3", "FOR zz6 <- 1 TO \"s\"\nNEXT zz6", "FOR gs <- 1 TO 2\nNEXT gs", "OUTPUT INTEGER(gr)", "OUTPUT -gs", "OUTPUT gs < 1", "OUTPUT gb AND 1", "OUTPUT 5 & gr",
    "gp <- ^gs", "gp <- 5", "gi <- ga", "OUTPUT gc + 1.5", 'ga["s"] <- 1', "ga[TRUE] <- 1", "CALL gi", "OUTPUT one(1)", "gr.s[9] <- \"x\"", "OUTPUT gr.s[9]", "OUTPUT gz[1].n",
    "gz[9].n <- 5", "gz[2].q <- 5", "INPUT gk", "INPUT nosuch2[1]", "DECLARE zz5: ARRAY[5:1] OF INTEGER", "gr <- gz", "BREAK", "CONTINUE",
    # errors inside a built-in function have no position of their own
    'OUTPUT LEFT("ab", 3)', 'OUTPUT MID("ab", 0, 1)', "OUTPUT SQRT(-1)", "OUTPUT RIGHT(\"ab\", 5) & \"x\"", "OUTPUT LENGTH(5)", "OUTPUT LENGTH()", 
    "OUTPUT SETDATE(31, 2, 2020)", 'OUTPUT EOF("closed")', "OUTPUT ASC(\"\")",
]
GLOBALS = """TYPE Gt = (red, green)
TYPE Gp = ^INTEGER
TYPE Gr
    DECLARE n: INTEGER
    DECLARE s: ARRAY[1:2] OF STRING
ENDTYPE
CONSTANT gk = 5
DECLARE gi: INTEGER
DECLARE gb: BOOLEAN
DECLARE gs: STRING
DECLARE gc: Gt
DECLARE gp: Gp
DECLARE gr: Gr
DECLARE ga: ARRAY[1:3] OF INTEGER
DECLARE gm: ARRAY[1:2, 1:2] OF REAL
DECLARE gz: ARRAY[1:2] OF Gr
PROCEDURE one(x: INTEGER)
    gi <- gi + x
ENDPROCEDURE
FUNCTION two(x: INTEGER) RETURNS INTEGER
    CALL one(x)
    RETURN x + 1
ENDFUNCTION
"""


class Chain:
    """A program whose routines call each other down to a failing statement; knows the line of every call."""

    def __init__(self, r, depth, fault):
        self.r = r
        self.lines = GLOBALS.rstrip("\n").split("\n")
        self.frames = []
        self.loops = 0
        recursive = depth > 1 and r.random() < 0.2
        if recursive:
            self.recursion(depth, fault)
        else:
            self.chain(depth, fault)

    def put(self, s):
        self.lines.append(s)
        return len(self.lines)

    def pad(self):
        r = self.r
        for _ in range(r.choice((0, 0, 1, 2, 4))):
            self.put(r.choice(("", "// note", "gi <- gi + 1", "OUTPUT \"at\", gi", "CALL one(2)", "gi <- two(gi)", "IF gi < 0 THEN\n  OUTPUT 1 DIV 0\nENDIF",
                               "gs <- gs & \"x\"", "ga[2] <- two(two(1))")))
            last = self.lines.pop()
            self.lines += last.split("\n")

    def nested(self, inner, d):
        """inner() inside a few blocks which reach it."""
        r = self.r
        if d == 0:
            return inner()
        w = r.randrange(6)
        self.pad()
        if w == 0:
            self.put("IF TRUE THEN")
            res = self.nested(inner, d - 1)
            self.put("ENDIF")
        elif w == 1:
            self.put("IF gi < -1000 THEN")
            self.put("    OUTPUT 0")
            self.put("ELSE")
            res = self.nested(inner, d - 1)
            self.put("ENDIF")
        elif w == 2:
            self.put("FOR q%d <- 1 TO 2" % len(self.lines))
            self.loops += 1
            res = self.nested(inner, d - 1)
            self.loops -= 1
            self.put("NEXT")
        elif w == 3:
            self.put("WHILE TRUE DO")
            self.loops += 1
            res = self.nested(inner, d - 1)
            self.loops -= 1
            self.put("ENDWHILE")
        elif w == 4:
            self.put("REPEAT")
            self.loops += 1
            res = self.nested(inner, d - 1)
            self.loops -= 1
            self.put("UNTIL TRUE")
        else:
            self.put("CASE OF gk")
            self.put("    4: OUTPUT 4")
            self.put("    5: gi <- gi + 1")
            res = self.nested(inner, d - 1)
            self.put("ENDCASE")
        return res

    def call(self, name, fn):
        """A statement that calls; returns its line."""
        r = self.r
        if not fn:
            return self.put("%sCALL %s%s" % (" " * r.randint(0, 6), name, r.choice(("(%d)", "(two(%d))", "(1 + %d)")) % r.randint(1, 9)))
        c = "%s(%s)" % (name, r.choice(("1", "gi", "two(3)")))
        f = r.choice(("OUTPUT %s", "gi <- %s", "gi <- 1 + two(1) * %s", "ga[%s] <- 1", "OUTPUT ga[%s]", "CALL one(%s)", "OUTPUT \"a\", gi, %s, 1 DIV 0", "gi <- two(%s)", "%s",
                      "OUTPUT -(%s)", "IF %s > 0 THEN\nENDIF", "WHILE %s > 0 DO\nENDWHILE", "FOR q <- %s TO 3\nNEXT q", "FOR q <- 1 TO %s\nNEXT q", "OUTPUT NOT (%s = 1)",
                      'WRITEFILE "x", %s', "gr.n <- %s", "gr.s[%s] <- \"x\"", "OUTPUT INTEGER(%s)", "OUTPUT \"a\" & %s", "OUTPUT two(two(%s))", "OUTPUT (TRUE AND %s = 1)",
                      "REPEAT\nUNTIL %s > 0", "FOR q <- 1 TO 5 STEP %s\nNEXT q", "SEEK \"s\" & %s, 1", "INPUT ga[%s]", "OUTPUT LENGTH(\"x\" & %s)", "OUTPUT MID(\"abc\", %s, 1)",
                      "RETURN %s", "IF FALSE THEN\nELSE IF %s = 2 THEN\nENDIF", "gz[%s].n <- 5", "OUTPUT gz[1].s[%s]", "DECLARE dd: ARRAY[1:%s] OF INTEGER", "gp <- ^ga[%s]"))
        if f.startswith("RETURN") and not self.infn:
            f = "OUTPUT %s"
        ls = (f % c).split("\n")
        at = [k for k, l in enumerate(ls) if c in l][0]
        first = len(self.lines) + 1
        for l in ls:
            self.put(l)
        return first + at

    def fault(self, fault):
        if fault in ("BREAK", "CONTINUE") and self.loops:
            fault = "OUTPUT 1 DIV 0"
        first = len(self.lines) + 1
        ls = fault.split("\n")
        for l in ls:
            self.put(l)
        if len(ls) > 1:
            return None
        return first

    def chain(self, depth, fault):
        r = self.r
        fns = [r.random() < 0.5 for _ in range(depth)]
        frames = []
        # innermost first, so that every routine is defined before its caller; shuffled order is covered by "predicted"
        line = None
        for k in range(depth):
            self.pad0()
            name = "r%d" % k
            fn = self.infn = fns[k]
            self.put("FUNCTION %s(x: INTEGER) RETURNS INTEGER" % name if fn else "PROCEDURE %s(x: INTEGER)" % name)
            self.pad()
            if k == 0:
                line = self.nested(lambda: self.fault(fault), r.choice((0, 0, 1, 2)))
            else:
                line = self.nested(lambda: self.call("r%d" % (k - 1), fns[k - 1]), r.choice((0, 0, 1, 2)))
            frames.append((name, line))
            self.pad()
            if fn:
                self.put("    RETURN 1")
            self.put("ENDFUNCTION" if fn else "ENDPROCEDURE")
        self.infn = False
        self.pad()
        if depth == 0:
            line = self.nested(lambda: self.fault(fault), r.choice((0, 0, 1, 2)))
        else:
            line = self.nested(lambda: self.call("r%d" % (depth - 1), fns[-1]), r.choice((0, 0, 1, 2)))
        frames.append(("Program", line))
        self.pad()
        self.put('OUTPUT "end"')
        self.frames = frames

    def pad0(self):
        for _ in range(self.r.choice((0, 0, 1, 3))):
            self.put(self.r.choice(("", "// between")))

    def recursion(self, depth, fault):
        r = self.r
        self.infn = True
        fn = self.put("FUNCTION rec(n: INTEGER) RETURNS INTEGER")
        self.put("    IF n = 0 THEN")
        line = self.fault(fault)
        self.put("    ENDIF")
        self.put("    IF n MOD 2 = 0 THEN")
        self.pad()
        a = self.put("        RETURN 1 + rec(n - 1)")
        self.put("    ENDIF")
        self.pad()
        b = self.put("    gi <- rec(n - 1)")
        self.put("    RETURN 2")
        self.put("ENDFUNCTION")
        m = self.put("OUTPUT rec(%d)" % (depth - 1))
        frames = [("rec", line)]
        for n in range(1, depth):
            frames.append(("rec", a if n % 2 == 0 else b))
        self.frames = frames + [("Program", m)]


def inner_builtin(fault):
    return RUNFAULTS.index(fault) >= RUNFAULTS.index('OUTPUT LEFT("ab", 3)')


def runtime(env, i):
    """Each kind of run-time fault at call depth 0 to 4: the line chain, from the generator's own layout."""
    r = env.rng
    fault = RUNFAULTS[i % len(RUNFAULTS)]
    for depth in range(5):
        c = Chain(r, depth, fault)
        src = "\n".join(c.lines) + "\n"
        p = env.predict(src)
        if p is None:
            continue
        m, e = p
        if e is None:
            env.discard("the chain does not fail")
            continue
        if e.kind == "syntax":
            env.discard("the chain has a syntax error")
            continue
        res = env.differential(src, b"in\n", lines=True, names=True)
        if res is None:
            if env.failed:
                return
            continue
        o = res[2]
        d = o.diags[0]
        place(env, src, d, "run-time fault %r" % fault)
        # the model and the layout must agree before the layout is used
        fr = d.frames[1:] if inner_builtin(fault) and d.frames[0][0] not in [n for n, _ in c.frames] else d.frames
        if len(e.frames) == len(c.frames) + (len(d.frames) - len(fr)):
            want = c.frames
            got = [(n, l) for n, l, _ in fr]
            env.expect(all(w is None or g[1] == w for g, (_, w) in zip(got, want)) and [g[0] for g in got] == [w[0] for w in want],
                       "fault %r at depth %d: the traceback is %r, expected %r" % (fault, depth, got, want))
            env.ok(("chain", src))
            env.events["line chains from the layout"] = env.events.get("line chains from the layout", 0) + 1
        else:
            env.discard("another statement of the chain fails")


def everyline(env, i):
    """A failing statement inserted at every line of a generated program, one at a time."""
    r = env.rng
    g = Gen(r, size=r.choice((8, 14)), routines=r.choice((1, 2, 3)), weights={"bad": 0})
    text = g.program()
    ls = text.rstrip("\n").split("\n")
    stdin = "\n".join(g.stdin) + "\n"
    ks = list(range(len(ls) + 1))
    r.shuffle(ks)
    bad = ["OUTPUT undefined_name", "OUTPUT 1 DIV 0", "CALL nosuch(1)", 'OUTPUT LEFT("a", 5)', "zz <- 1 + TRUE", 'READFILE "closed", zz', "DECLARE zz: NOTYPE"]
    n = 0
    for k in ks:
        src = "\n".join(ls[:k] + [r.choice(bad)] + ls[k:]) + "\n"
        p = env.predict(src, stdin)
        if p is None or p[1] is None:
            continue
        m, e = p
        if e.kind == "syntax":
            continue
        res = env.differential(src, stdin, lines=True, names=True)
        if res is None:
            if env.failed:
                return
            continue
        place(env, src, res[2].diags[0], "inserted fault")
        n += 1
        if n >= 12:
            break


def session(env, i):
    """REPL: lines count from the first line of the entry; an entry with a syntax error executes nothing of itself."""
    r = env.rng
    g = Gen(r, size=8, routines=2, weights={"bad": 0.5, "input": 0}, dump=False)
    ents = []
    for e in split(g.program()):
        e = e if isinstance(e, repl.Entry) else repl.Entry(e)
        ents.append(e)
        x = r.random()
        if x < 0.15:
            t = "IF TRUE THEN\n  OUTPUT \"must not run\"\n  OPENFILE \"made\" FOR WRITE\n  %s\n%sENDIF" % (r.choice(BAD), r.choice(("", "  OUTPUT 2\n")))
            ents.append(repl.Entry(t))
        elif x < 0.3:
            ents.append(repl.Entry(r.choice(BAD)))
        elif x < 0.45:
            ents.append(repl.Entry("IF TRUE THEN\n\t//\n  %s\nENDIF" % r.choice([f for f in RUNFAULTS if "\n" not in f and "INPUT" not in f])))
        elif x < 0.6:
            ls = e.text.split("\n")
            k = r.randrange(len(ls))
            ls[k] = X.faulty(ls[k], r)
            ents.append(repl.Entry("\n".join(ls)))
    out = []
    for e in ents:
        if not e.valid() or re.search(r"INPUT|\bREAD\b", e.text):
            continue
        er, warned = M.check_syntax(e.text.encode("latin-1"))
        if warned:
            continue
        out.append(e)
    res = env.session(out, {}, pure="prefix", check_files=True)
    if res is None:
        return
    p, o = res
    errs = [(e, t.text) for e, t in zip(p.errors, p.entries) if e is not None and e.kind != "nofile"]
    for (e, t), d in zip(errs, o.diags):
        if e.kind == "syntax":
            place(env, t, d, "entry %r" % t[:200])
            one = "\n" not in t
            if one:
                env.expect(d.frames[0][1] in (1, 2), "entry %r: the diagnostic names line %d" % (t, d.frames[0][1]))
        else:
            w = frames_differ(d, e, True)
            env.expect(not w, "entry %r: %s" % (t[:300], w))
        env.ok((t, repr(e.frames)))


def runfile(env, i):
    """RUNFILE of a text with a syntax error: nothing of it runs, and no input is consumed."""
    r = env.rng
    bad = BAD[i % len(BAD)]
    ls = ("INPUT x\nOUTPUT x\n" + SENTINEL).rstrip("\n").split("\n")
    k = r.randint(2, len(ls))
    src = "\n".join(ls[:k] + [bad] + ls[k:]) + "\n"
    e, warned = M.check_syntax(src.encode("latin-1"))
    if e is None or warned:
        env.discard("not a syntax error there")
        return
    files = dict(OLD, **{"bad.ps": src.encode("latin-1")})
    res = env.session(["a <- 5", "RUNFILE bad.ps", "OUTPUT a", "a + 1"], files, check_files=True)
    if res is None:
        return
    d = res[1].diags[0]
    el = e.frames[0][1]
    env.expect(len(res[1].diags) == 1, "%d diagnostics" % len(res[1].diags))
    if el == k + 1:
        env.expect(d.frames[0][1] == k + 1, "the diagnostic names line %d, the fault is in line %d" % (d.frames[0][1], k + 1))


SKEL = {
    "if": ["IF gi = 1 THEN", "@", "ENDIF"],
    "ifelse": ["IF gi = 2 THEN", "@", "ELSE", "OUTPUT \"else\"", "ENDIF"],
    "elseif": ["IF gi = 2 THEN", "OUTPUT \"a\"", "ELSE IF gi = 1 THEN", "@", "ELSE", "OUTPUT \"else\"", "ENDIF"],
    "case": ["CASE OF gi", "1: OUTPUT \"one\"", "@", "2 TO 3: OUTPUT \"two\"", "ENDCASE"],
    "otherwise": ["CASE OF gi", "2: OUTPUT \"two\"", "OTHERWISE:", "@", "ENDCASE"],
    "while": ["WHILE gi < 3 DO", "gi <- gi + 1", "@", "ENDWHILE"],
    "repeat": ["REPEAT", "@", "gi <- gi + 1", "UNTIL gi > 2"],
    "for": ["FOR gj <- 1 TO 2", "@", "NEXT gj"],
    "procedure": ["PROCEDURE sub(n: INTEGER)", "@", "ENDPROCEDURE", "CALL sub(1)"],
    "function": ["FUNCTION fun(n: INTEGER) RETURNS INTEGER", "@", "RETURN n", "ENDFUNCTION", "OUTPUT fun(1)"],
    "procedure0": ["PROCEDURE sub()", "@", "ENDPROCEDURE", "CALL sub()"],
    "function0": ["FUNCTION fun() RETURNS INTEGER", "@", "RETURN 1", "ENDFUNCTION", "OUTPUT fun()"],
    "type": ["TYPE rec", "DECLARE f: INTEGER", "ENDTYPE", "DECLARE gr: rec"],
    "line": ["OUTPUT \"line\""],
}
CLOSERS = ["ENDIF", "ELSE", "ELSE IF TRUE THEN", "ENDCASE", "OTHERWISE: OUTPUT 0", "1: OUTPUT 0", "ENDWHILE", "UNTIL TRUE", "NEXT gj", "NEXT", "ENDPROCEDURE", "ENDFUNCTION", "ENDTYPE", "IF TRUE THEN", "CASE OF gi",
           "WHILE FALSE DO", "REPEAT", "FOR gj <- 1 TO 1", "PROCEDURE p2()", "FUNCTION f2() RETURNS REAL", "TYPE t2", "THEN", "DO", "TO", "OF", "RETURN 1", "BREAK", "CONTINUE"]
PAIRS = [(a, b) for a in SKEL for b in SKEL if a not in ("type", "line")]


def nest(a, b, tail):
    inner = SKEL[b]
    ls = []
    for l in SKEL[a]:
        ls += [x.replace("@", "OUTPUT \"body\"") for x in inner] if l == "@" else [l]
    return ["gi <- 1", "gj <- 0"] + ls + tail


def skeleton(env, i):
    """Every pair of nested constructs, with each line in turn deleted, doubled, replaced by a line of another construct or preceded by one, with each word deleted, or cut off there."""
    a, b = PAIRS[i % len(PAIRS)]
    every = i // len(PAIRS)
    ls = nest(a, b, [] if every % 2 else ["OUTPUT \"end\""])
    variants = [(ls, "as it is")] * 8
    for k in range(2, len(ls)):
        variants.append((ls[:k] + ls[k + 1:], "without line %d" % (k + 1)))
        variants.append((ls[:k + 1] + ls[k:], "line %d doubled" % (k + 1)))
        variants.append((ls[:k], "cut before line %d" % (k + 1)))
        if k + 1 < len(ls):
            variants.append((ls[:k] + [ls[k + 1], ls[k]] + ls[k + 2:], "lines %d and %d exchanged" % (k + 1, k + 2)))
        ws = re.findall(r'"[^"]*"|<-|[A-Za-z0-9]+|\S', ls[k])
        for w in range(len(ws)):
            variants.append((ls[:k] + [" ".join(ws[:w] + ws[w + 1:])] + ls[k + 1:], "line %d without %r" % (k + 1, ws[w])))
            variants.append((ls[:k] + [" ".join(ws[:w + 1])], "cut behind %r of line %d" % (ws[w], k + 1)))
            variants.append((ls[:k] + [" ".join(ws[:w + 1]), " ".join(ws[w + 1:])] + ls[k + 1:], "line %d broken behind %r" % (k + 1, ws[w])))
        for c in CLOSERS:
            variants.append((ls[:k] + [c] + ls[k + 1:], "%r for line %d" % (c, k + 1)))
            variants.append((ls[:k] + [c] + ls[k:], "%r before line %d" % (c, k + 1)))
    keep = [v for n, v in enumerate(variants) if n % 8 == every % 8] if env.tier == "quick" else variants[7:]
    for new, what in keep:
        src = "\n".join(new) + ("" if env.rng.random() < 0.2 else "\n")
        what = "%s in %s, %s" % (b, a, what)
        e, warned = M.check_syntax(src.encode("latin-1"))
        if e is not None:
            judge(env, src, what)
        elif not warned:
            env.differential(src, b"", dict(OLD), max_steps=500)


CHECK = Check("C11", [
    scale.family("C11", 480, 9600),
    Family("skeleton", skeleton, len(PAIRS) * 2, len(PAIRS) * 8, about="every pair of nested constructs with every line and word in turn deleted, doubled, exchanged, replaced or cut"),
    Family("wrongline", wrongline, len(BAD) * 2, len(BAD) * 30, about="a wrong line at statement positions of programs full of side effects"),
    Family("token", token, 900, 15000, about="token faults in every line of generated and repository programs"),
    Family("block", block, 300, 6000, about="missing and doubled block lines"),
    Family("unterminated", unterminated, 400, 8000, about="cut texts, open quotes and blocks"),
    Family("runtime", runtime, len(RUNFAULTS) * 4, len(RUNFAULTS) * 60, about="every run-time fault at call depth 0..4; line chain of the layout"),
    Family("everyline", everyline, 250, 5000, about="a failing statement at every line of generated programs"),
    Family("session", session, 500, 8000, about="REPL entries with faults"),
    Family("runfile", runfile, len(BAD), len(BAD) * 8, about="RUNFILE of a text with a syntax error"),
], "A case is a program (or session) with one injected fault. Syntax: nothing printed, no file touched, no input consumed, one diagnostic with exit 1, at the "
   "faulty line. Run time: the chain of lines of the traceback is the one computed from the layout. It counts once per distinct text.",
    assumptions=["columns are only required to lie in the named line", "a fault that the reference model sees only in a later line is not required to name its own line",
                 "positions at the end of the text may be up to two lines past it", "the innermost frame of an error inside a built-in function has no position"])
