"""C01: every input is either executed or diagnosed; the interpreter never crashes."""
import itertools
import os
import re

import mutate as X
import repl
import samples
import collide as CO
import reentrant as RE
import scale
from reentrant import CONF, CONF2
from c11 import BAD, GLOBALS, RUNFAULTS
from gen import Gen
from harness import Check, Family

GOOD = ("ok", "syntax", "runtime", "pedantic", "budget")
LIMITS = dict(steps=20000, cells=100000, string=100000, depth=300)


def variant(env):
    return "asan" if env.index % 2 == 0 else "plain"


def judge(env, r, what, key, session=False, nontrivial=True):
    """The verdict: normal end with status 0, or a printed diagnostic with status 1."""
    if r.kind == "timeout":
        if r.code == 1009:
            env.inconclusive("killed")
        else:
            env.inconclusive("timeout")
        return False
    if r.code == 1009:
        env.inconclusive("killed")
        return False
    if session:
        env.expect(r.kind in ("ok", "budget") or r.kind == "runtime" and b"line 0, column 0" in r.err, "%s: the session ends with %s, exit status %d: %r" % (what, r.kind, r.code, r.err[-300:]))
    else:
        env.expect(r.kind in GOOD, "%s: the run ends with %s, exit status %d: %r" % (what, r.kind, r.code, r.err[-300:]))
        if r.code == 0:
            env.expect(not r.diags, "%s: exit status 0 with a diagnostic" % what)
        else:
            env.expect(r.code == 1 and r.diags, "%s: exit status %d with %d diagnostics" % (what, r.code, len(r.diags)))
    env.ok(key, nontrivial=nontrivial)
    return True


def program(env, src, stdin="", files=None, what="", pedantic=False, **kw):
    opts = dict(LIMITS, variant=variant(env))
    opts.update(kw)
    r = env.run(src, stdin, files, pedantic=pedantic, collect=False, **opts)
    return judge(env, r, what, (src, stdin, sorted((files or {}).items()), pedantic)), r


def session(env, text, files=None, what="", pedantic=False, n=1, **kw):
    opts = dict(LIMITS, variant=variant(env))
    opts.update(kw)
    r = env.run(None, text, files, pedantic=pedantic, collect=False, **opts)
    ok = judge(env, r, what, (text, sorted((files or {}).items()), pedantic), session=True)
    if ok and n > 1:
        env.evals += n - 1
    return ok


# ------------------------------------------------------------------ token sequences
VOC = [v for v in X.VOCABULARY if v != "\n"]
STATES = [[], ["DECLARE x: INTEGER"], ["DECLARE x: ARRAY[0:1] OF STRING"], ["TYPE R\n  DECLARE x: INTEGER\nENDTYPE\n", "DECLARE x: R"], ["TYPE P = ^INTEGER", "DECLARE x: P"], ["TYPE E = (x, y)"],
          ["FUNCTION x(a: INTEGER) RETURNS STRING\nRETURN \"r\"\nENDFUNCTION\n"], ["PROCEDURE x()\nOUTPUT 5\nENDPROCEDURE\n"], ["CONSTANT x = 1"], ["DECLARE x: DATE"], ["DECLARE x: STRING", 'x <- "f"'],
          ["TYPE x\n  DECLARE x: INTEGER\nENDTYPE\n"], ["DECLARE x: CHAR", "DECLARE x: ARRAY[1:2] OF REAL"], ["TYPE x = ^REAL"], ["TYPE Q = (s, t)", "DECLARE x: Q"], ["DECLARE x: BOOLEAN"], ["DECLARE x: REAL"]]
FILES = {"f": b"line\n", "s": b"", "r": b"i 5\n"}
PER = 300


def tokens(n):
    total = len(VOC) ** n
    count = (total + PER - 1) // PER

    def f(env, i):
        lines = list(STATES[(i // 3 + i) % len(STATES)])
        lo = i * PER
        for k in range(lo, min(total, lo + PER)):
            seq = []
            for _ in range(n):
                seq.append(VOC[k % len(VOC)])
                k //= len(VOC)
            lines.append(" ".join(seq))
            lines.append("")
        text = "\n".join(lines) + "\n"
        session(env, text, dict(FILES), "token sequences of length %d" % n, n=min(total, lo + PER) - lo, variant="asan" if i % 5 == 0 else "plain", pedantic=i % 7 == 0)
    f.count = count
    return f


def tokenfiles(env, i):
    """Token sequences as files: up to length 3 including line breaks, each the whole program or at the end of one."""
    r = env.rng
    for _ in range(12):
        n = r.choice((1, 2, 3, 3, 3, 4, 6))
        src = " ".join(r.choice(X.VOCABULARY) for _ in range(n))
        if r.random() < 0.6:
            src = "\n".join(r.choice(STATES)) + "\n" + src
        if r.random() < 0.3:
            src += "\n"
        program(env, src, "1\n", dict(FILES), "token sequence", pedantic=r.random() < 0.15)


# ------------------------------------------------------------------ mutations
def base(r):
    x = r.random()
    if x < 0.35:
        n, t, stdin, files = r.choice(X.corpus(True))
        return t, stdin, dict(files)
    if x < 0.6:
        return r.choice(list(samples.SAMPLES.values())), samples.STDIN, {}
    g = Gen(r, size=r.choice((4, 8, 15)), routines=r.randint(0, 2), files=("f1", "f2"), weights={"bad": 0.5, "wfile": 1, "rfile": 1, "random": 1, "input": 2})
    t = g.program()
    return t, "\n".join(g.stdin) + "\n", {}


HOSTILE = ["", "\n", "9223372036854775808\n", "-9223372036854775808\n", "99999999999999999999999999\n", "1e400\n", "nan\n", "-\n", "+5\n", " 5\n", "5 \n", "\0\n", "\xff\xfe\n", "TRUE\n", "true\n", "a" * 5000 + "\n", "no newline", "1.5.5\n", "0x10\n",
           ".\n", "-.\n", "5.\n", ".5\n", "\r\n", "\t\n", "1/2/2003\n", "\"quoted\"\n", "'c'\n", "\\n\n", "%s%n\n", "1e5\n", "-0\n", "00000000000000000000000000000000001\n", "inf\n", "4.9e-324\n", "1" * 400 + "." + "2" * 400 + "\n"]


def hostile_stdin(r):
    return "".join(r.choice(HOSTILE) for _ in range(r.choice((0, 1, 2, 5, 12))))


def hostile_file(r):
    return b"".join(r.choice((b"", b"\n", b"line\n", b"\0", b"\xff" * 20, b"1" * 30 + b"\n", b"a" * 3000, b"\r\n", b"\n\n\n", bytes(r.randrange(256) for _ in range(20)), b"i 5\n", b"s 3 abc\n", b"9" * 25 + b" ", b"-1 ", b"TRUE\n"))
                    for _ in range(r.choice((0, 1, 2, 5))))


def tokenmut(env, i):
    """Programs with 1..8 token faults, hostile stdin and files, both modes of the option."""
    r = env.rng
    text, stdin, files = base(r)
    if r.random() < 0.4:
        stdin = hostile_stdin(r)
    if r.random() < 0.3:
        for n in ("f1", "f2", "t.txt", "r.dat", "f", "file.txt"):
            files[n] = hostile_file(r)
    for _ in range(3):
        t = X.faulty(text, r, r.choice((1, 1, 2, 3, 8)))
        if not program(env, t, stdin, files, "token faults", pedantic=r.random() < 0.15)[0]:
            return


def linemut(env, i):
    """Lines deleted, doubled, moved, spliced from another program, blocks cut."""
    r = env.rng
    text, stdin, files = base(r)
    other, _, _ = base(r)
    for _ in range(3):
        ls = text.split("\n")
        for _ in range(r.choice((1, 2, 4, 10))):
            k = r.randrange(len(ls) + 1)
            x = r.random()
            if x < 0.25 and ls:
                del ls[k:k + r.choice((1, 1, 3))]
            elif x < 0.45 and ls:
                ls[k:k] = [r.choice(ls)]
            elif x < 0.7:
                ol = other.split("\n")
                j = r.randrange(len(ol))
                ls[k:k] = ol[j:j + r.choice((1, 2, 6))]
            elif x < 0.85:
                ls[k:k] = r.choice(RUNFAULTS + BAD).split("\n")
            else:
                r.shuffle(ls) if r.random() < 0.1 else ls.reverse() if r.random() < 0.05 else ls.insert(k, r.choice(ls) if ls else "")
        if not program(env, "\n".join(ls)[:6000], stdin if r.random() < 0.7 else hostile_stdin(r), files, "line faults", pedantic=r.random() < 0.1)[0]:
            return


def bytemut(env, i):
    """Bytes flipped, inserted, deleted, doubled; random bytes."""
    r = env.rng
    text, stdin, files = base(r)
    for _ in range(4):
        if r.random() < 0.08:
            s = "".join(chr(r.randrange(256)) for _ in range(r.choice((1, 2, 5, 50, 2000))))
        else:
            s = text[:2048]
            for _ in range(r.choice((1, 1, 2, 4, 16))):
                k = r.randrange(len(s) + 1)
                x = r.random()
                if x < 0.25:
                    s = s[:k] + chr(r.randrange(256)) + s[k + 1:]
                elif x < 0.45:
                    s = s[:k] + s[k + r.choice((1, 1, 2, 8, 60)):]
                elif x < 0.65:
                    s = s[:k] + r.choice("\"'\\/<>-=.^[]()\n\r\t\0 0123456789aAeExX,:&*+_") + s[k:]
                elif x < 0.8:
                    j = r.randrange(len(s) + 1)
                    s = s[:k] + s[j:j + r.choice((1, 3, 20, 200))] + s[k:]
                elif x < 0.9:
                    s = s[:k]
                else:
                    s = s[:k] + r.choice(("9" * 30, "1/2/3", "'", '"', "//", "\\", "<-", "9223372036854775807", "^^", "[[[", "((((", "...", "- -", "'\\", '"\\', "1.", ".1", "99/99/99999", "0/0/0", "1/1/0", "31/2/2020")) + s[k:]
        if not program(env, s, stdin if r.random() < 0.7 else hostile_stdin(r), files, "byte faults", pedantic=r.random() < 0.1)[0]:
            return


# ------------------------------------------------------------------ type confusion
OPERANDS = ["undef", "nofn()", "proc", "proc()", "noret()", "fi()", "fs(\"a\")", "fr()", "i", "re", "b", "c", "s", "d", "e", "p", "q", "rec", "arr", "mat", "recs", "arr[1]", "mat[1, 2]", "recs[1]", "recs[1].n", "rec.n", "rec.a", "rec.a[1]", "rec.in", "rec.in.m",
            "p^", "q^", "q^.n", "q^.a[2]", "pp^", "pp^^", "^i", "^rec", "^arr", "^arr[1]", "^undef", "k", "ks", "red", "blue", "Col", "Rec", "PI", "INTEGER", "5", "-5", "9223372036854775807", "2.5", "1e5", "'x'", '"str"', '""', "TRUE", "1/2/2003", "i + 1", "s & 1",
            "(i)", "-i", "NOT b", "i = 1", "INTEGER(s)", "STRING(i)", "CHAR(i)", "REAL(\"x\")", "BOOLEAN(rec)", "DATE(s)", "arr[9]", "arr[\"s\"]", "arr[1, 1]", "mat[1]", "i[1]", "i.x", "i^", "s[1]", "rec[1]", "rec.zz", "arr.x", "arr^", "fi().x", "fi()[1]", "dead^", "dead",
            "LENGTH(s)", "LENGTH(i)", "LEFT(s, 99)", "MID(s, -1, 5)", "CHR(-1)", "ASC(\"\")", "SQRT(-1)", "RAND(0)", "INT(1e30)", "NUM_TO_STR(TRUE)", "STR_TO_NUM(\"z\")", "DAY(d)", "SETDATE(1, 1)", "EOF(\"f\")", "TODAY()", "fi", "fs()", "fs(1, 2)", "fb(i)", "fb(5)", "fb(arr[1])"]
UNSETUP = [[], CONF2]
TEMPLATES = ["@", "OUTPUT @", "OUTPUT i, @, s", "x1 <- @", "i <- @", "re <- @", "b <- @", "c <- @", "s <- @", "d <- @", "e <- @", "p <- @", "q <- @", "rec <- @", "arr <- @", "arr[1] <- @", "mat[1, 1] <- @", "recs[1] <- @", "rec.n <- @", "rec.in <- @", "p^ <- @", "q^ <- @",
             "q^.n <- @", "dead^ <- @", "@ <- 5", "@ <- \"s\"", "@ <- i", "@ <- rec", "@ <- arr", "INPUT @\n7", "OUTPUT -@", "OUTPUT NOT @", "OUTPUT (@)", "OUTPUT arr[@]", "OUTPUT mat[@, @]", "arr[@] <- 1", "OUTPUT @[1]", "OUTPUT @.n", "OUTPUT @^", "x2 <- ^@",
             "IF @ THEN\n  i <- 1\nENDIF\n", "WHILE @ DO\n  BREAK\nENDWHILE\n", "REPEAT\n  i <- i + 1\n  BREAK\nUNTIL @\n", "REPEAT\n  i <- 5\nUNTIL @ OR TRUE\n", "FOR i <- @ TO 2\n  BREAK\nNEXT i\n", "FOR i <- 1 TO @\n  BREAK\nNEXT i\n", "FOR i <- 1 TO 2 STEP @\n  BREAK\nNEXT i\n", "FOR @ <- 1 TO 2\nNEXT\n",
             "CASE OF @\n  1: i <- 2\n  'x': i <- 3\nENDCASE\n", "CASE OF i\n  @: i <- 2\n  1 TO @: i <- 3\n  @ TO 3: i <- 4\nENDCASE\n", "CASE OF s\n  @: i <- 2\n  OTHERWISE: i <- 1\nENDCASE\n", "CASE OF rec\n  @: i <- 2\nENDCASE\n", "CASE OF d\n  @: i <- 2\n  @ TO 1/2/2003: i <- 1\nENDCASE\n", "CASE OF e\n  @: i <- 2\n  red TO @: i <- 1\nENDCASE\n", "CASE OF p\n  @: i <- 2\n  @ TO @: i <- 2\nENDCASE\n",
             "CASE OF @\n  @: i <- 2\n  @ TO @: i <- 3\nENDCASE\n", "CASE OF b\n  @: i <- 2\n  @ TO TRUE: i <- 3\nENDCASE\n", "CASE OF c\n  @: i <- 2\n  'a' TO @: i <- 3\nENDCASE\n", "CASE OF re\n  @: i <- 2\n  1 TO @: i <- 3\nENDCASE\n", "CASE OF arr\n  @: i <- 2\nENDCASE\n", "CALL proc(@)", "CALL by(@, @, @)", "CALL by(i, @, rec)", "CALL by(@, s, rec)", "CALL by(i, s, @)", "CALL @", "CALL @(1)",
             "OUTPUT fs(@)", "OUTPUT fb(@)", "OUTPUT fi(@)", "RETURN @", "DECLARE n1: ARRAY[1:@] OF INTEGER", "DECLARE n2: ARRAY[@:2] OF INTEGER", "DECLARE @: INTEGER", "DECLARE n3: @", "CONSTANT n4 = @", "TYPE n5 = ^@", "TYPE @ = (n6)", "TYPE n7 = (@)", "OPENFILE @ FOR READ", "OPENFILE @ FOR WRITE", "OPENFILE @ FOR RANDOM",
             "READFILE \"f\", @", "READFILE @, s", "WRITEFILE \"w\", @", "WRITEFILE @, 1", "CLOSEFILE @", "SEEK \"r\", @", "SEEK @, 1", "GETRECORD \"r\", @", "PUTRECORD \"r\", @", "GETRECORD @, i", "PUTRECORD @, i", "OUTPUT EOF(@)", "OUTPUT INTEGER(@)", "OUTPUT REAL(@)", "OUTPUT STRING(@)", "OUTPUT CHAR(@)", "OUTPUT BOOLEAN(@)", "OUTPUT DATE(@)"]
TEMPLATES += ["OUTPUT %s(@)" % f for f in "LENGTH TO_UPPER TO_LOWER ASC CHR LCASE UCASE NUM_TO_STR STR_TO_NUM IS_NUM INT RAND DAY MONTH YEAR DAYINDEX SQRT EXP LN SIN COS TAN ASIN ACOS ATAN".split()]
TEMPLATES += ["OUTPUT %s(@, @)" % f for f in "LEFT RIGHT POW ROUND".split()] + ["OUTPUT LEFT(s, @)", "OUTPUT LEFT(@, 1)", "OUTPUT MID(@, @, @)", "OUTPUT MID(s, @, 1)", "OUTPUT SETDATE(@, @, @)"]
BUILTINS = ("LENGTH RIGHT MID LEFT TO_UPPER TO_LOWER NUM_TO_STR STR_TO_NUM IS_NUM EOF LCASE UCASE ASC CHR DAY MONTH YEAR DAYINDEX SETDATE TODAY TIME HOURS MINUTES SECONDS RAND INT POW EXP SIN COS TAN ASIN ACOS "
            "ATAN ATAN2 SQRT LOG LN").split()
TEMPLATES += ["\n".join("OUTPUT %s(%s)" % (f, a) for f in BUILTINS[k:k + 5]) for k in range(0, len(BUILTINS), 5) for a in ("", "@", "@, 1", "1, @", "@, @", "2, @, @", "@, @, @, @")]
TEMPLATES += ["OUTPUT ATAN2(@, @)", "OUTPUT POW(re, @)", "OUTPUT LOG(@, @)"]
TEMPLATES += ["OUTPUT @ %s @" % o for o in "+ - * / DIV MOD & = <> < > <= >= AND OR".split()]


def confusion(env, i):
    """Every statement form x every kind of operand, in sessions, with pointers set and unset, with files open."""
    r = env.rng
    tpl = TEMPLATES[i % len(TEMPLATES)]
    lines = []
    for l in CONF.split("\n"):
        lines.append(l)
        if l in ("ENDTYPE", "ENDPROCEDURE", "ENDFUNCTION"):
            lines.append("")
    rnd = i // len(TEMPLATES)
    lines += UNSETUP[rnd % 2] + (['OPENFILE "f" FOR READ', 'OPENFILE "w" FOR WRITE', 'OPENFILE "r" FOR RANDOM'] if rnd % 4 < 2 else [])
    k = tpl.count("@")
    n = 0
    if k == 1:
        combos = [(o,) for o in OPERANDS]
    elif k == 2:
        combos = list(itertools.product(OPERANDS, OPERANDS))
        if env.tier == "quick" or rnd:
            combos = r.sample(combos, 900)
    else:
        combos = [tuple(r.choice(OPERANDS) for _ in range(k)) for _ in range(500)]
    r.shuffle(combos)
    for c in combos:
        t = tpl
        for o in c:
            t = t.replace("@", o, 1)
        lines += t.split("\n")
        n += 1
        if r.random() < 0.02:
            lines += CONF2
    session(env, "\n".join(lines) + "\n", {"f": b"one\n2\n\n", "r": b""}, tpl, n=n, steps=1000000, cells=3000000, variant=("asan", "plain", "asan")[rnd % 3])


def confusedfiles(env, i):
    """The same as whole programs, in procedures, loops and functions; a few statements each."""
    r = env.rng
    lines = CONF.split("\n") + UNSETUP[r.random() < 0.7]
    w = r.randrange(5)
    if w == 1:
        lines += ["PROCEDURE main(i: INTEGER, BYREF s: STRING)"]
    elif w == 2:
        lines += ["FUNCTION main(BYREF i: INTEGER, s: STRING) RETURNS INTEGER"]
    elif w == 3:
        lines += ["FOR loop <- 1 TO 3"]
    for _ in range(r.choice((1, 2, 4, 8))):
        t = r.choice(TEMPLATES)
        while "@" in t:
            x = r.random()
            o = r.choice(OPERANDS)
            if x < 0.2:
                o = r.choice(("%s + %s", "%s & %s", "%s = %s", "(%s) * (%s)", "%s AND %s", "LENGTH(%s & %s)", "arr[%s + %s]", "fs(%s & %s)", "-(%s - %s)")) % (o, r.choice(OPERANDS))
            t = t.replace("@", o, 1)
        lines += t.split("\n")
    if w == 1:
        lines += ["ENDPROCEDURE", "CALL main(i, s)"]
    elif w == 2:
        lines += ["ENDFUNCTION", "OUTPUT main(i, s)", "OUTPUT main(1, s)"]
    elif w == 3:
        lines += ["NEXT"]
    program(env, "\n".join(lines) + "\n", hostile_stdin(r) if r.random() < 0.3 else "7\n8\n", {"f": hostile_file(r)}, "type confusion", pedantic=r.random() < 0.05)


# ------------------------------------------------------------------ hostile data
TYPED = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE"]


def stdin(env, i):
    """INPUT into every type of every kind of place, from hostile lines, with the end of input at every point."""
    r = env.rng
    pre = CONF.split("\n") + CONF2
    places = ["i", "re", "b", "c", "s", "d", "e", "p", "rec", "arr", "arr[2]", "mat[1, 1]", "rec.n", "rec.a[1]", "p^", "q^.n", "new1", "new2", "k", "recs[2].in.m", "q^.in.m", "pp^^", "dead^", "arr[i]"]
    body = ["INPUT " + r.choice(places) for _ in range(r.randint(1, 6))] + ["OUTPUT i, re, b, c, s, rec.n, arr[2]"]
    if r.random() < 0.5:
        body = ["WHILE TRUE DO"] + body + ["ENDWHILE"]
    data = "".join(HOSTILE[(i * 3 + j) % len(HOSTILE)] for j in range(r.choice((0, 1, 2, 3)))) + hostile_stdin(r)
    if r.random() < 0.3:
        data = data[:r.randrange(len(data) + 1)]
    program(env, "\n".join(pre + body) + "\n", data, {}, "hostile input", steps=3000)


def datafiles(env, i):
    """READ and RANDOM files of hostile contents, read into every type; appended and rewritten; odd names."""
    r = env.rng
    pre = CONF.split("\n") + CONF2
    places = ["i", "re", "b", "c", "s", "d", "e", "p", "rec", "arr", "mat", "recs", "arr[2]", "rec.n", "rec.a", "recs[1]", "p^", "q^", "new1", "k", "rec.in"]
    body = []
    if r.random() < 0.4:
        body += ['OPENFILE "f" FOR ' + r.choice(("READ", "READ", "APPEND"))]
        body += [r.choice(('READFILE "f", ' + r.choice(places), 'OUTPUT EOF("f")', 'WRITEFILE "f", s', 'WHILE NOT EOF("f") DO\n  READFILE "f", s\n  OUTPUT s, LENGTH(s)\nENDWHILE', "OUTPUT s", 'CLOSEFILE "f"', 'OPENFILE "f" FOR READ')) for _ in range(r.randint(1, 6))]
    else:
        body += ['OPENFILE "f" FOR RANDOM']
        for _ in range(r.randint(1, 6)):
            body.append(r.choice(('SEEK "f", %s' % r.choice(("1", "2", "3", "0", "-1", "99", "9223372036854775807", "i")), 'GETRECORD "f", ' + r.choice(places), 'GETRECORD "f", ' + r.choice(places), 'PUTRECORD "f", ' + r.choice(places), 'OUTPUT EOF("f")', 'CLOSEFILE "f"',
                                  'OPENFILE "f" FOR RANDOM', "OUTPUT i, re, b, c, s, d, e, rec.n, rec.a[1], rec.in.m")))
    if r.random() < 0.5:
        data = hostile_file(r)
    else:
        # a real random file, damaged
        place, data = damaged(env, r)
        if r.random() < 0.7:
            use = {"i": "OUTPUT i", "re": "OUTPUT re, INT(re)", "b": "OUTPUT b", "c": "OUTPUT c, ASC(c)", "s": "OUTPUT s, LENGTH(s)", "d": "OUTPUT d, DAYINDEX(d)", "e": "OUTPUT e, e + 1", "rec": "OUTPUT rec.n, rec.a[1], rec.in.m", "recs": "OUTPUT recs[1].n"}
            body = ['OPENFILE "f" FOR RANDOM', 'GETRECORD "f", ' + place, use.get(place, "OUTPUT arr[2], mat[1, 2], rec.a[2]"), 'PUTRECORD "f", ' + place] + body[1:]
    program(env, "\n".join(pre + body) + "\n", "", {"f": data}, "hostile file", steps=3000)


FULL = ["TYPE Full", "DECLARE e: Col", "DECLARE d: DATE", "DECLARE s: STRING", "DECLARE b: BOOLEAN", "DECLARE es: ARRAY[1:2] OF Col", "DECLARE ss: ARRAY[1:2] OF STRING", "DECLARE ds: ARRAY[1:2] OF DATE", "DECLARE rec: Rec", "ENDTYPE", "DECLARE full: Full", "DECLARE fulls: ARRAY[1:2] OF Full",
        "DECLARE es: ARRAY[1:3] OF Col", "DECLARE ds: ARRAY[1:3] OF DATE", "DECLARE ss: ARRAY[1:3] OF STRING", "DECLARE cs: ARRAY[1:3] OF CHAR"]
SAVED = {"i": "i", "re": "re", "b": "b", "c": "c", "s": "s", "d": "d", "e": "e", "rec": "rec.n, rec.a[1], rec.in.m", "arr": "arr[1], arr[3]", "mat": "mat[2, 2]", "recs": "recs[2].n, recs[2].in.m", "es": "es[1], es[3]", "ds": "ds[1], ds[3]", "ss": "ss[1], ss[3]", "cs": "cs[1], cs[3]",
         "full": "full.e, full.d, full.s, full.es[1], full.es[2], full.ss[2], full.ds[2], full.rec.in.m, full.e + 1, DAYINDEX(full.d)", "fulls": "fulls[2].e, fulls[1].es[2], fulls[2].ss[1]"}
SMALL = [b"", b"-1", b"0", b"1", b"2", b"3", b"4", b"5", b"6", b"12", b"13", b"31", b"32", b"100", b"255", b"256", b"99999", b"1000000", b"2147483647", b"2147483648", b"4294967296", b"4294967299", b"9223372036854775807", b"-9223372036854775808", b"18446744073709551615", b"18446744073709551616", b"1e9", b"1.5",
         b"nan", b"x", b"-", b"+2", b"0x1", b"00", b"7 7", b"\n"]


def numbers(env, i):
    """A saved value with every number of its record replaced by every one of a list: loaded or refused, then used and saved again."""
    place = list(SAVED)[i % len(SAVED)]
    pre = CONF.split("\n") + FULL
    if "num " + place not in _made:
        sets = ["i <- -12345", "re <- 2.5", "b <- TRUE", "c <- 'z'", 's <- "some text"', "d <- 3/4/2021", "e <- blue", 'rec.in.m <- "inner"', "rec.a[1] <- '5'", "full.e <- blue", "full.d <- d", "full.s <- s", "full.es[1] <- green", "full.es[2] <- blue", 'full.ss[1] <- "a 7 b"', "full.rec <- rec", "fulls[1] <- full",
                "fulls[2] <- full", "es[1] <- blue", "es[3] <- green", "ds[1] <- d", "ds[2] <- d", "ds[3] <- d", "full.ds[1] <- d", "full.ds[2] <- d", 'ss[1] <- "x"', 'ss[3] <- "yy 9"', "cs[1] <- '1'"]
        o = env.run("\n".join(pre + sets + ['OPENFILE "f" FOR RANDOM', 'PUTRECORD "f", ' + place, 'CLOSEFILE "f"']) + "\n", variant="plain")
        _made["num " + place] = (o.files or {}).get("f", b"")
    data = _made["num " + place]
    runs = [(m.start(), m.end()) for m in re.finditer(rb"-?[0-9]+", data)]
    if not runs:
        env.discard("no number in the record")
        return
    a, b = runs[i // len(SAVED) % len(runs)]
    n = int(data[a:b])
    lines = []
    for l in pre:
        lines += [l, ""] if l in ("ENDTYPE", "ENDPROCEDURE", "ENDFUNCTION") else [l]
    files = {}
    vals = SMALL + [b"%d" % (n + k) for k in (-2, -1, 1, 2)] + [b"%d" % (n * 10), b"%d" % (n + 2 ** 31), b"%d" % (n + 2 ** 32), b"%d" % (n - 2 ** 32), b"%d" % (n + 2 ** 64)]
    for k, v in enumerate(vals):
        f = "f%d" % k
        files[f] = data[:a] + v + data[b:]
        lines += ['OPENFILE "%s" FOR RANDOM' % f, 'GETRECORD "%s", %s' % (f, place), "OUTPUT " + SAVED[place], "OUTPUT e, e + 1, d, LENGTH(s), s", "es[2] <- e", "CASE OF e", "red: OUTPUT 1", "blue: OUTPUT 3", "OTHERWISE: OUTPUT 4", "ENDCASE", "", 'PUTRECORD "%s", %s' % (f, place), 'CLOSEFILE "%s"' % f]
    session(env, "\n".join(lines) + "\n", files, "a number of a record replaced", n=len(vals), steps=200000, cells=3000000)


_made = {}


def damaged(env, r):
    place = r.choice(("i", "re", "b", "c", "s", "d", "e", "rec", "arr", "mat", "recs", "rec.a"))
    if place not in _made:
        src = "\n".join(CONF.split("\n") + ["i <- -12345", "re <- 2.5", "b <- TRUE", "c <- 'z'", 's <- "some text"', "d <- 3/4/2021", "e <- blue", 'rec.in.m <- "inner"', 'OPENFILE "f" FOR RANDOM', 'PUTRECORD "f", ' + place, 'SEEK "f", 2', 'PUTRECORD "f", i',
                                             'CLOSEFILE "f"']) + "\n"
        o = env.run(src, variant="plain")
        _made[place] = (o.files or {}).get("f", b"")
    data = _made[place]
    runs = [(m.start(), m.end()) for m in re.finditer(rb"-?[0-9]+", data)]
    if runs and r.random() < 0.4:
        # one number replaced by one just outside of what it may be
        a, b = r.choice(runs)
        n = int(data[a:b])
        return place, data[:a] + b"%d" % r.choice((n - 1, n + 1, n + 2, -n, 0, 1, 2, 3, 4, 5, 13, 32, n * 10, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 64)) + data[b:]
    for _ in range(r.choice((0, 1, 1, 2, 5))):
        k = r.randrange(len(data) + 1)
        x = r.random()
        if x < 0.3:
            data = data[:k] + bytes([r.randrange(256)]) + data[k + 1:]
        elif x < 0.5:
            data = data[:k] + data[k + r.choice((1, 2, 9)):]
        elif x < 0.7:
            data = data[:k] + r.choice((b"9", b"-", b"\n", b" ", b"\0", b"99999999999999999999", b"4294967296", b".", b"e", b"nan", b"\xff")) + data[k:]
        elif x < 0.85:
            data = data[:k]
        else:
            data += data[k:]
    return place, data


# ------------------------------------------------------------------ functions that change what the calling statement uses
def reentrant(env, i):
    """Functions and procedures called from within every kind of statement close, reopen, replace and redirect what the statement is using."""
    r = env.rng
    lines = RE.program(r)
    files = RE.FILES
    if i % 4 == 3:
        program(env, "\n".join(lines) + "\n", RE.stdin(r), files, "changes during evaluation", steps=5000)
    else:
        # one entry per top-level statement: a failing one does not hide those after it
        session(env, "\n".join(RE.entries(lines)) + "\n", files, "changes during evaluation", n=1, steps=30000)


def collide(env, i):
    """A few names stand for many kinds of things at once."""
    ents = CO.entries(env.rng)
    if i % 4 == 3:
        program(env, "\n".join(ents) + "\n", "", {}, "colliding names", steps=5000)
    else:
        session(env, "".join(e + "\n" * (1 + repl.is_multi(e)) for e in ents), {}, "colliding names", n=1, steps=30000)


# ------------------------------------------------------------------ nesting and depth
def nests(n):
    """(name, program, stdin, expected outcome or None)"""
    res = []

    def p(name, src, want="ok"):
        res.append((name, src, want))
    p("parentheses", "OUTPUT " + "(" * n + "1" + ")" * n + "\n")
    p("minus", "OUTPUT " + "-(" * n + "1" + ")" * n + "\n")
    p("minus2", "OUTPUT " + "- " * n + "1\n", None)
    p("not", "OUTPUT " + "NOT (" * n + "TRUE" + ")" * n + "\n")
    p("not2", "OUTPUT " + "NOT " * n + "TRUE\n", None)
    p("sum", "OUTPUT " + "1 + " * n + "1\n")
    p("power", "x <- " + "(1 + " * n + "1" + ")" * n + "\nOUTPUT x\n")
    p("concat", "OUTPUT " + '"a" & ' * n + '"a"' + "\n")
    p("compare", "OUTPUT " + "1 = (" * 0 + "TRUE AND " * n + "TRUE\n")
    p("orand", "OUTPUT " + "(TRUE OR " * n + "FALSE" + ")" * n + "\n")
    p("if", "IF TRUE THEN\n" * n + "OUTPUT 1\n" + "ENDIF\n" * n)
    p("else", "IF FALSE THEN\nELSE\n" * n + "OUTPUT 1\n" + "ENDIF\n" * n)
    p("elseif", "x <- 0\nIF x = 1 THEN\n" + "ELSE IF x = 2 THEN\n" * n + "ELSE\nOUTPUT 1\nENDIF\n")
    p("while", "WHILE TRUE DO\n" * n + "OUTPUT 1\n" + "BREAK\nENDWHILE\n" * n)
    p("repeat", "REPEAT\n" * n + "OUTPUT 1\n" + "UNTIL TRUE\n" * n)
    p("for", "".join("FOR i%d <- 1 TO 1\n" % k for k in range(n)) + "OUTPUT 1\n" + "NEXT\n" * n)
    p("case", "x <- 1\n" + "CASE OF x\n1: \n" * n + "OUTPUT 1\n" + "ENDCASE\n" * n, None)
    p("otherwise", "x <- 1\n" + "CASE OF x\nOTHERWISE:\n" * n + "OUTPUT 1\n" + "ENDCASE\n" * n, None)
    p("index", "DECLARE a: ARRAY[0:1] OF INTEGER\nOUTPUT " + "a[" * n + "0" + "]" * n + "\n")
    p("assignindex", "DECLARE a: ARRAY[0:1] OF INTEGER\n" + "a[" * n + "0" + "]" * n + " <- 1\nOUTPUT a[0]\n")
    p("calls", "FUNCTION f(x: INTEGER) RETURNS INTEGER\nRETURN x\nENDFUNCTION\nOUTPUT " + "f(" * n + "1" + ")" * n + "\n")
    p("builtins", "OUTPUT " + "TO_UPPER(" * n + '"x"' + ")" * n + "\n")
    p("casts", "OUTPUT " + "INTEGER(" * n + "1" + ")" * n + "\n")
    p("deref", "TYPE P = ^INTEGER\nDECLARE p: P\nOUTPUT p" + "^" * n + "\n", None)
    p("fields", "x <- r" + ".a" * n + "\n", "runtime")
    p("openparens", "OUTPUT " + "(" * n + "\n", "syntax")
    p("openindex", "x <- " + "a[" * n + "\n", "syntax")
    p("opencalls", "x <- " + "f(" * n + "\n", "syntax")
    p("openif", "IF TRUE THEN\n" * n, "syntax")
    p("dims", "DECLARE a: ARRAY[" + ", ".join(["1:1"] * n) + "] OF INTEGER\na[" + ", ".join(["1"] * n) + "] <- 5\nOUTPUT a[" + ", ".join(["1"] * n) + "]\n")
    p("names", "DECLARE " + ", ".join("v%d" % k for k in range(n)) + ": INTEGER\nOUTPUT v%d\n" % (n - 1))
    p("params", "PROCEDURE p(" + ", ".join("v%d: INTEGER" % k for k in range(n)) + ")\nOUTPUT v%d\nENDPROCEDURE\nCALL p(" % (n - 1) + ", ".join(["1"] * n) + ")\n")
    p("outputs", "OUTPUT " + ", ".join(["1"] * n) + "\n")
    p("enum", "TYPE E = (" + ", ".join("e%d" % k for k in range(n)) + ")\nOUTPUT e%d\n" % (n - 1))
    p("records", "TYPE T0\nDECLARE v: INTEGER\nENDTYPE\n" + "".join("TYPE T%d\nDECLARE v: T%d\nENDTYPE\n" % (k, k - 1) for k in range(1, min(n, 200))) + "DECLARE r: T%d\nOUTPUT r" % (min(n, 200) - 1) + ".v" * min(n, 200) + "\n")
    p("pointers", "TYPE P0 = ^INTEGER\n" + "".join("TYPE P%d = ^P%d\n" % (k, k - 1) for k in range(1, n)) + "DECLARE x: INTEGER\n" + "".join("DECLARE p%d: P%d\n" % (k, k) for k in range(n)) + "p0 <- ^x\n" + "".join("p%d <- ^p%d\n" % (k, k - 1) for k in range(1, n))
      + "x <- 5\nOUTPUT p%d" % (n - 1) + "^" * n + "\n")
    p("lines", "\n" * n * 20 + "OUTPUT 1\n")
    p("comments", "// c\n" * n * 20 + "OUTPUT 1\n")
    p("identifier", "x" * n * 2 + " <- 1\nOUTPUT " + "x" * n * 2 + "\n")
    p("string", 'OUTPUT "' + "s" * n * 2 + '"\n')
    p("number", "OUTPUT " + "1" * n + "\n", None)
    p("real", "OUTPUT " + "1" * n + ".5\n", None)
    p("fraction", "OUTPUT 0." + "1" * n + "\n")
    p("date", "OUTPUT 1/1/" + "1" * n + "\n", None)
    p("statements", "x <- 1\n" * n + "OUTPUT x\n")
    return res


def deep(env, i):
    """Nesting 1..1000 of every construct; the plain build runs with the usual 8 MB stack."""
    k, depth = i // 3, (1000, 400, 40)[i % 3]
    name, src, want = nests(depth)[k]
    if i % 3 == 2:
        r = env.run(src, collect=False, variant="asan", timeout=20, depth=2000)
    else:
        r = env.run(src, collect=False, variant="plain", timeout=20, stack=8 << 20, depth=2000)
    if judge(env, r, "%s, nested %d deep" % (name, depth), (name, depth)) and want and r.kind != "budget":
        env.expect(r.kind == want, "%s, nested %d deep: outcome %s, expected %s: %r" % (name, depth, r.kind, want, r.err[-200:]))


N_NESTS = len(nests(1))
RECUR = {
    "procedure": ("PROCEDURE f(n: INTEGER)\n  IF n > 0 THEN\n    CALL f(n - 1)\n  ENDIF\nENDPROCEDURE\nCALL f(%d)\nOUTPUT \"done\"\n", "ok"),
    "function": ("FUNCTION f(n: INTEGER) RETURNS INTEGER\n  IF n = 0 THEN\n    RETURN 0\n  ENDIF\n  RETURN 1 + f(n - 1)\nENDFUNCTION\nOUTPUT f(%d)\n", "ok"),
    "byref": ("PROCEDURE f(BYREF n: INTEGER)\n  n <- n - 1\n  IF n > 0 THEN\n    CALL f(n)\n  ENDIF\nENDPROCEDURE\nx <- %d\nCALL f(x)\nOUTPUT x\n", "ok"),
    "strings": ("FUNCTION f(n: INTEGER, s: STRING) RETURNS STRING\n  IF n <= 0 THEN\n    RETURN s\n  ELSE\n    RETURN f(n - 1, s & \"x\") & \"y\"\n  ENDIF\nENDFUNCTION\nOUTPUT LENGTH(f(%d, \"\"))\n", "ok"),
    "record": ("TYPE R\nDECLARE n: INTEGER\nDECLARE a: ARRAY[1:5] OF STRING\nENDTYPE\nDECLARE r: R\nFUNCTION f(r: R) RETURNS INTEGER\n  IF r.n <= 0 THEN\n    RETURN 0\n  ENDIF\n  r.n <- r.n - 1\n  RETURN f(r) + 1\nENDFUNCTION\nr.n <- %d\nOUTPUT f(r)\n", "ok"),
    "mutual": ("PROCEDURE a(n: INTEGER)\n  IF n > 0 THEN\n    CALL b(n - 1)\n  ENDIF\nENDPROCEDURE\nPROCEDURE b(n: INTEGER)\n  FOR i <- 1 TO 1\n    WHILE TRUE DO\n      CALL a(n - 1)\n      BREAK\n    ENDWHILE\n  NEXT\nENDPROCEDURE\nCALL a(%d)\nOUTPUT 1\n", "ok"),
    "fault": ("FUNCTION f(n: INTEGER) RETURNS INTEGER\n  RETURN f(n - 1) + 1 DIV n\nENDFUNCTION\nFUNCTION g(n: INTEGER) RETURNS INTEGER\n  IF n = 0 THEN\n    RETURN 1 DIV n\n  ENDIF\n  RETURN 1 + g(n - 1)\nENDFUNCTION\nOUTPUT g(%d)\n", "runtime"),
    "expression": ("FUNCTION f(n: INTEGER) RETURNS INTEGER\n  CASE OF n\n    0: RETURN 1\n    OTHERWISE: RETURN (f(n - 1) * (1 + (2 - 2)) MOD 7 + 0) DIV 1\n  ENDCASE\nENDFUNCTION\nOUTPUT f(%d)\n", "ok"),
    "array": ("DECLARE a: ARRAY[0:1000] OF INTEGER\nFUNCTION f(n: INTEGER) RETURNS INTEGER\n  IF n = 0 THEN\n    RETURN 0\n  ENDIF\n  a[n] <- f(n - 1) + 1\n  RETURN a[n]\nENDFUNCTION\nOUTPUT f(%d)\n", "ok"),
    "locals": ("PROCEDURE f(n: INTEGER)\n  DECLARE a: ARRAY[1:20] OF REAL\n  DECLARE s, t: STRING\n  IF n > 0 THEN\n    s <- \"x\" & n\n    CALL f(n - 1)\n    a[1] <- LENGTH(s)\n  ENDIF\nENDPROCEDURE\nCALL f(%d)\nOUTPUT 1\n", "ok"),
    "pointer": ("TYPE P = ^INTEGER\nPROCEDURE f(p: P, n: INTEGER)\n  DECLARE x: INTEGER\n  DECLARE q: P\n  x <- p^ + 1\n  q <- ^x\n  IF n > 0 THEN\n    CALL f(q, n - 1)\n  ELSE\n    OUTPUT q^\n  ENDIF\nENDPROCEDURE\nDECLARE z: INTEGER\nDECLARE pz: P\npz <- ^z\nCALL f(pz, %d)\n", "ok"),
    "output": ("FUNCTION f(n: INTEGER) RETURNS STRING\n  OUTPUT n\n  IF n <= 0 THEN\n    RETURN \"\"\n  ENDIF\n  RETURN \"a\" & f(n - 1)\nENDFUNCTION\nOUTPUT f(%d)\n", "ok"),
}


def recursion(env, i):
    """Call depth up to 1000 (8 MB stack, plain build)."""
    name = sorted(RECUR)[i % len(RECUR)]
    src, want = RECUR[name]
    depth = (990, 500, 100)[i // len(RECUR) % 3]
    src = src % depth
    for pedantic in (False, True):
        if depth == 100:
            r = env.run(src, collect=False, variant="asan", timeout=30, depth=2000, pedantic=pedantic)
        else:
            r = env.run(src, collect=False, variant="plain", timeout=30, stack=8 << 20, depth=2000, pedantic=pedantic)
        if judge(env, r, "recursion %s, %d deep" % (name, depth), (name, depth, pedantic)) and r.kind not in ("budget", "pedantic"):
            env.expect(r.kind == want, "recursion %s, %d deep: outcome %s: %r" % (name, depth, r.kind, r.err[-200:]))


# ------------------------------------------------------------------ extremes
EDGE = ["0", "1", "-1", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "(-9223372036854775807 - 1)", "1000000", "65536", "255", "256"]


def extremes(env, i):
    """Huge and negative bounds, lengths, addresses, dates and counts."""
    r = env.rng
    if i % 2:
        t = ["DECLARE a: ARRAY[%s:%s] OF INTEGER" % (r.choice(EDGE), r.choice(EDGE)), "a[%s] <- 1" % r.choice(EDGE), "OUTPUT a[%s]" % r.choice(EDGE)]
        if r.random() < 0.4:
            t[0] = "DECLARE a: ARRAY[%s] OF %s" % (", ".join("%s:%s" % (r.choice(EDGE), r.choice(EDGE)) for _ in range(r.choice((2, 3, 5)))), r.choice(TYPED))
            t[1:] = ["a[%s] <- 1" % ", ".join(r.choice(EDGE) for _ in range(3)), "OUTPUT a[%s]" % ", ".join(r.choice(EDGE) for _ in range(2))]
        program(env, "\n".join(t) + "\n", "", {}, "extreme bounds", variant="plain")
        return
    s = ["s <- \"hello\"", "d <- 29/2/2000", "x <- 0", "c <- 'c'", "TYPE E = (a, b, c1)", "DECLARE e: E", 'OPENFILE "r" FOR RANDOM']
    forms = ["OUTPUT LEFT(s, %s)", "OUTPUT RIGHT(s, %s)", "OUTPUT MID(s, %s, %s)", "OUTPUT CHR(%s)", "OUTPUT %s DIV %s", "OUTPUT %s MOD %s", "OUTPUT %s * %s", "OUTPUT %s + %s", "OUTPUT %s - %s", "OUTPUT %s / %s", "OUTPUT -%s", "OUTPUT SETDATE(%s, %s, %s)", "OUTPUT INT(%s.5)", "OUTPUT e + %s",
             "OUTPUT e - %s", "OUTPUT SQRT(%s)", "OUTPUT POW(%s, %s)", "OUTPUT EXP(%s)", "OUTPUT ROUND(%s, %s)", "OUTPUT INTEGER(%s * 1.0)", "OUTPUT INTEGER(\"%s\")", "OUTPUT INT(%s * 1.0 * %s)", "FOR i <- %s TO %s\n  x <- x + 1\n  IF x > 5 THEN\n    BREAK\n  ENDIF\nNEXT", 'SEEK "r", %s', 'PUTRECORD "r", s', 'GETRECORD "r", s',
             "FOR i <- 1 TO 3 STEP %s\n  x <- x + 1\n  IF x > 5 THEN\n    BREAK\n  ENDIF\nNEXT", "OUTPUT CHAR(%s)", "OUTPUT DATE(%s)", "OUTPUT BOOLEAN(%s)", "OUTPUT STRING(%s)", "OUTPUT RAND(%s)", "OUTPUT DAYINDEX(SETDATE(%s, 1, %s))", "OUTPUT SETDATE(1, %s, 2000)", "OUTPUT REAL(\"%s\") * %s", "OUTPUT NUM_TO_STR(%s)",
             "OUTPUT STR_TO_NUM(\"%s%s\")", "OUTPUT 1/1/%s", "OUTPUT %s/1/2000", "OUTPUT %s.%s", "OUTPUT %s > %s.0", "OUTPUT LN(%s)", "OUTPUT TAN(%s)", "OUTPUT CHR(%s) & 'x'"]
    for _ in range(r.randint(1, 5)):
        f = r.choice(forms)
        while "%s" in f:
            f = f.replace("%s", r.choice(EDGE), 1)
        s.append(f)
        program(env, "\n".join(s) + "\n", "", {}, "extreme values")
        s.pop()


# ------------------------------------------------------------------ sessions
def sessions(env, i):
    """REPL sessions of hostile lines: mutated programs line by line, open constructs, commands, odd bytes, end of input anywhere."""
    r = env.rng
    ls = []
    for _ in range(r.randint(1, 4)):
        text, _, _ = base(r)
        if r.random() < 0.7:
            text = X.faulty(text, r, r.choice((1, 3)))
        ls += text.split("\n")[:r.choice((3, 20, 60))]
        x = r.random()
        if x < 0.3:
            ls.append("")
        elif x < 0.6:
            ls += r.choice((["?"], ["RUNFILE"], ["RUNFILE "], ["RUNFILE prog"], ["RUNFILE nofile"], ["RUNFILE \t"], ["RUNFILE  prog  "], ["RUNFILE -p"], ["RUNFILEprog"], ["EXIT "], ["IF"], ["\0"], ["\xff\xfe"], ["\r"], ["   "], ["TYPE"], ["CASE"], ["//"], ["'"], ['"'],
                            ["IF TRUE THEN", "\t", "ENDIF", ""], ["FOR", "", ""], ["TYPE x = (a)"], ["EXIT"], ["RUNFILE ."], ["RUNFILE /"], ["x" * 3000]))
        if r.random() < 0.3:
            ls += r.choice(RUNFAULTS + BAD).split("\n") + [""]
    s = "\n".join(ls) + r.choice(("\n", "", "\n\n"))
    if r.random() < 0.3:
        s = s[:r.randrange(len(s) + 1)]
    prog = base(r)[0]
    session(env, s, {"prog": X.faulty(prog, r, 2).encode("latin-1") if r.random() < 0.5 else prog.encode("latin-1"), "f1": hostile_file(r)}, "session", pedantic=r.random() < 0.2, steps=200000)


def arguments(env, i):
    """Command lines: missing, empty, odd and unreadable programs, with and without the option."""
    cases = [([], "", "ok"), (["nofile"], "", "nofile"), (["-p"], "", "ok"), (["--pedantic"], "OUTPUT 5\nBREAK\n", "ok"), (["-p", "nofile"], "", "nofile"), (["prog.ps"], "", "ok"), (["-p", "prog.ps"], "", "ok"), (["--pedantic", "prog.ps"], "", "ok"), (["empty"], "", "ok"), (["-p", "empty"], "", "ok"),
             (["binary"], "", None), (["nul"], "", None), (["crlf"], "", "ok"), (["nonl"], "", "ok"), (["long"], "", "ok"), (["."], "", None), (["prog.ps", "extra"], "", None), (["-p", "prog.ps", "extra"], "", None), (["-x"], "", None), ([""], "", None), (["-p", ""], "", None), (["prog.ps", "-p"], "", None), (["--help"], "", None)]
    args, stdin_, want = cases[i % len(cases)]
    env.R.reset()
    for n, d in {"prog.ps": b"OUTPUT 5\n", "empty": b"", "binary": bytes(range(256)), "nul": b"OUTPUT 1\0\nOUTPUT 2\n", "crlf": b"OUTPUT 1\r\n", "nonl": b"OUTPUT 1", "long": b"// " + b"x" * 100000 + b"\nOUTPUT 1\n"}.items():
        env.R.put(n, d)
    o = env.R.raw(args, stdin_.encode(), variant=("asan", "plain")[i // len(cases) % 2])
    env.note(None, stdin_.encode(), {}, {"args": args}, o)
    env.outcomes[o.kind] = env.outcomes.get(o.kind, 0) + 1
    env.expect(o.kind not in ("signal", "sanitizer", "timeout"), "%r: the run ends with %s" % (args, o.kind))
    env.expect(o.code in (0, 1), "%r: exit status %d" % (args, o.code))
    if want:
        env.expect(o.kind == want, "%r: outcome %s, expected %s" % (args, o.kind, want))
    elif o.code == 1:
        env.expect(o.err.strip() != b"" or o.out.strip() != b"", "%r: exit status 1 without a message" % args)
    env.ok((tuple(args), i // len(cases)))


def scaled(env, i):
    """Programs with one large dimension, whole and with a fault, always with the sanitizer."""
    f, (src, inp, files) = scale.build(env.rng, "all", i)
    if i % 4 == 3:
        src = X.faulty(src, env.rng, 2)
    program(env, src, inp, files, "scaled " + f.__name__, variant="asan", **scale.LIMITS)


T1, T2, T3 = tokens(1), tokens(2), tokens(3)
CHECK = Check("C01", [
    Family("tokens1", T1, T1.count * len(STATES), about="every token in every state of x", chunk=5),
    Family("tokens2", T2, T2.count, T2.count, about="every sequence of two tokens"),
    Family("tokens3", T3, T3.count, T3.count, about="every sequence of three tokens"),
    Family("tokenfiles", tokenfiles, 600, 20000, about="token sequences as files, in all states"),
    Family("tokenmut", tokenmut, 2500, 60000, about="token faults in corpus, sample and generated programs"),
    Family("linemut", linemut, 1500, 40000, about="lines moved, spliced, inserted"),
    Family("bytemut", bytemut, 2000, 50000, about="byte faults"),
    Family("confusion", confusion, len(TEMPLATES) * 2, len(TEMPLATES) * 12, about="every statement form x every kind of operand", chunk=4),
    Family("confusedfiles", confusedfiles, 3000, 80000, about="the same as programs"),
    Family("stdin", stdin, 1200, 25000, about="hostile input lines into every place"),
    Family("datafiles", datafiles, 1500, 40000, about="hostile text files and damaged random files into every place"),
    Family("numbers", numbers, 100, 17 * 60, about="every number of a saved record x a list of replacements", chunk=2),
    Family("reentrant", reentrant, 2400, 60000, about="functions called inside statements close, reopen, replace and redirect what the statement is using"),
    Family("collide", collide, 2000, 50000, about="three names stand for variables, arrays, constants, types, enum values, fields, routines, parameters at once"),
    Family("deep", deep, N_NESTS * 3, about="nesting up to 1000, 8 MB stack", chunk=2),
    Family("recursion", recursion, len(RECUR) * 3, about="call depth up to 990, 8 MB stack", chunk=2),
    Family("extremes", extremes, 1200, 25000, about="extreme bounds, values, dates"),
    Family("scaled", scaled, 720, 6000, about="one dimension large: sizes around powers of two, long chains, many declarations", chunk=4),
    Family("sessions", sessions, 1000, 25000, about="hostile REPL sessions"),
    Family("arguments", arguments, 46, about="command lines", chunk=10),
], "A case is one run (program text, input, files, option) or one entry of a session. It must end with status 0 and no diagnostic, or with a diagnostic and status 1; no signal, no sanitizer report. "
   "It counts once per distinct input.",
    assumptions=["signed 64-bit overflow wraps silently (compiled with -fwrapv in the sanitizer build)", "bounds: 20000 statements, 100000 array cells, strings of 100000 bytes, call depth 300 (990 in the depth families)",
                 "the declaration of huge arrays is exercised in the plain build only (the sanitizer aborts on allocation failure)"])
