"""C15: text files return exactly the lines that were written, and EOF is exact."""
import itertools
import re

import repl
from c17 import lit
import scale
from harness import Check, Family, Stop

INITIAL = [None, b"", b"old\n", b"old", b"\n", b"\n\n", b"\nend", b"one\ntwo\n", b"one\n\ntwo", b" \n", b"a\r\nb\r\n"]
WRITES = ["", "x", "two words", " ", "#\t//", "x\r"]
MODES = ["WRITE", "APPEND", "READ"]


def split(data):
    ls = data.split(b"\n")
    if ls[-1] == b"":
        ls.pop()
    return ls


def apply(initial, mode, lines):
    old = b"" if mode == "WRITE" or initial is None else initial
    if old and not old.endswith(b"\n") and lines:
        old += b"\n"
    return old + b"".join(l + b"\n" for l in lines)


class Script:
    def __init__(self):
        self.ents = []

    def do(self, text, out=b""):
        self.ents.append((text, out))

    def readall(self, f, data, style, n):
        """Reads the file by an EOF loop, and by single statements with EOF asked between them."""
        ls = split(data)
        self.do('OPENFILE "%s" FOR READ' % f)
        if style == 0:
            self.do('c <- 0')
            self.do('WHILE NOT EOF("%s")\n  READFILE "%s", s\n  c <- c + 1\n  OUTPUT "[", s, "]"\nENDWHILE' % (f, f), b"".join(b"[" + l + b"]\n" for l in ls))
            self.do("OUTPUT c", b"%d\n" % len(ls))
        else:
            for k, l in enumerate(ls):
                for _ in range(1 + (k + n) % 2):
                    self.do('OUTPUT EOF("%s")' % f, b"FALSE\n")
                self.do('READFILE "%s", s' % f)
                self.do('OUTPUT "[", s, "]"', b"[" + l + b"]\n")
            self.do('OUTPUT EOF("%s"), EOF("%s")' % (f, f), b"TRUETRUE\n")
        self.do('CLOSEFILE "%s"' % f)

    def run(self, env, files=None, **kw):
        p = b""
        stdin = ""
        for t, o in self.ents:
            e = repl.Entry(t)
            stdin += e.stdin()
            p += e.prompts().encode() + o
        p += b"> "
        r = env.run(None, stdin, files, **kw)
        body = r.out[repl.banner_end(r.out):]
        if body != p:
            pos = 0
            for t, o in self.ents:
                x = repl.Entry(t).prompts().encode() + o
                if body[pos:pos + len(x)] != x or body[pos + len(x):pos + len(x) + 2] != b"> ":
                    env.violation("entry %r: printed %r, expected %r" % (t, body[pos:pos + len(x) + 100], x))
                    raise Stop()
                pos += len(x)
            env.violation("the session differs")
            raise Stop()
        nerr = sum(o == b"\n" for t, o in self.ents)
        env.expect(r.code == 0 and r.kind == "ok" and len(r.diags) == nerr and all(d.kind == "runtime" for d in r.diags), "outcome %s, diagnostics %r" % (r.kind, r.diags))
        return r


def enum(env, i):
    """Exhaustive: initial content x mode x up to three written lines, read back by two styles, files compared."""
    initial = INITIAL[i % len(INITIAL)]
    mode = MODES[i // len(INITIAL) % 2]
    S = Script()
    S.do("DECLARE s: STRING")
    S.do("DECLARE c: INTEGER")
    files, expect = {}, {}
    n = 0
    for k in range(0, 4):
        for ws in itertools.product(WRITES, repeat=k):
            n += 1
            f = "f%d.txt" % n
            if initial is not None:
                files[f] = initial
            elif mode == "APPEND":
                S.do('OPENFILE "%s" FOR APPEND' % f, b"\n")
                continue
            S.do('OPENFILE "%s" FOR %s' % (f, mode))
            for w in ws:
                S.do('WRITEFILE "%s", %s' % (f, lit(w)))
            data = apply(initial, mode, [w.encode() for w in ws])
            S.do('CLOSEFILE "%s"' % f)
            S.readall(f, data, n % 2, n)
            expect[f] = data
    r = S.run(env, files)
    for f, d in expect.items():
        env.expect(r.files.get(f) == d, "file %s holds %r, expected %r" % (f, r.files.get(f), d))
        env.ok((initial, mode, f))
    env.expect(set(r.files) == set(expect) | set(files), "files are %r" % sorted(r.files))


def readback(env, i):
    """Arbitrary existing contents: every line once, in order, by both loop styles, in file mode and with a long or huge line."""
    r = env.rng
    k = r.randrange(8)
    if k == 0:
        data = bytes(r.randrange(256) for _ in range(r.randint(0, 60)))
    elif k == 1:
        data = bytes(r.choice(b"\n\n\na") for _ in range(r.randint(0, 12)))
    elif k == 2:
        data = bytes(r.choice(b"\r\n\n\x00\xff\x1a\x04 ") for _ in range(r.randint(0, 16)))
    elif k == 3:
        n = r.choice((8191, 8192, 8193, 65535, 65536, 65537, 4096, 100000))
        data = b"x" * n + r.choice((b"", b"\n", b"\ny", b"\n\n"))
    elif k == 4:
        data = b"\n".join(b"line %d" % j for j in range(r.randint(1, 600))) + r.choice((b"", b"\n"))
    elif k == 5:
        data = b"\n".join(b"y" * r.randint(0, 40) for j in range(r.randint(1, 60))) + r.choice((b"", b"\n", b"\n\n"))
    else:
        data = b"".join(r.choice((b"", b"a", b"bc", b" ", b"TRUE", b"12", b"\x1b[0m", b"//", b"\xef\xbb\xbf", b"\\n", b'"')) + b"\n" for _ in range(r.randint(0, 8)))
        if r.random() < 0.3:
            data = data[:-1]
    lines = split(data)
    body = ['  OUTPUT "[", s, "]"'] if len(data) < 3000 else ["  OUTPUT LENGTH(s), LEFT(s, 1 - INT(1 / (LENGTH(s) + 1)))"]
    src = ["DECLARE s: STRING", "DECLARE n: INTEGER", 'OPENFILE "in.txt" FOR READ']
    form = r.randrange(4)
    if form == 0:
        src += ['WHILE NOT EOF("in.txt")', '  READFILE "in.txt", s', "  n <- n + 1"] + body + ["ENDWHILE"]
    elif form == 1:
        src += ['IF NOT EOF("in.txt") THEN', "  REPEAT", '    READFILE "in.txt", s', "    n <- n + 1"] + body + ['  UNTIL EOF("in.txt")', "ENDIF"]
    elif form == 2:
        src += ["PROCEDURE one(f: STRING)", "  DECLARE s: STRING", "  READFILE f, s", "  n <- n + 1"] + body + ["ENDPROCEDURE", 'WHILE EOF("in.txt") = FALSE', '  CALL one("in.txt")', "ENDWHILE"]
    else:
        src += ["FUNCTION more() RETURNS BOOLEAN", '  RETURN NOT EOF("in" & ".txt")', "ENDFUNCTION", "WHILE more()", '  READFILE "in.txt", t', "  s <- t", "  n <- n + 1"] + body + ["ENDWHILE"]
    src += ["OUTPUT n", 'OUTPUT EOF("in.txt")', 'CLOSEFILE "in.txt"']
    if len(data) < 3000:
        exp = b"".join(b"[" + l + b"]\n" for l in lines)
    else:
        exp = b"".join(b"%d%s\n" % (len(l), l[:1]) for l in lines)
    exp += b"%d\nTRUE\n" % len(lines)
    q = env.run("\n".join(src) + "\n", files={"in.txt": data})
    env.expect(q.kind == "ok", "outcome %s for contents %r" % (q.kind, data[:200]))
    env.expect(q.out == exp, "reading %r gives %r, expected %r" % (data[:200], q.out[:400], exp[:400]))
    env.expect(q.files == {"in.txt": data}, "reading changed the file")
    env.ok((data, form))


VALUES = [("5", b"5"), ("-12", b"-12"), ("9223372036854775807", b"9223372036854775807"), ("i", b"-42"), ("TRUE", b"TRUE"), ("1 > 2", b"FALSE"), ("'q'", b"q"), ("c", b"\xe9"), ("\"text\"", b"text"),
          ('""', b""), ("s", b" spaced  out "), ("1/2/2003", b"1/2/2003"), ("d", b"29/2/2004"), ("\"a\" & 'b' & 3", b"ab3"), ("i + 1", b"-41"), ("LENGTH(s)", b"13"), ("LEFT(s, 3)", b" sp"), ("b", b"TRUE"),
          ("r.n", b"7"), ("a[2]", b"el"), ("p^", b"-42"), ("f(3)", b"9"), ("CHR(9)", b"\t"), ('"tab\\tquote\\"back\\\\slash"', b"tab\tquote\"back\\slash"), ("NOT b", b"FALSE"), ("k", b"99"), ("0", b"0"), ("-0", b"0"),
          ("'%'", b"%"), ('"%d %s"', b"%d %s"), ("CHR(0)", b"\0"), ("7 DIV 2", b"3")]


def values(env, i):
    """Each WRITEFILE adds exactly one line holding the value as text, for values of every type in every form."""
    r = env.rng
    vs = VALUES[:] if i < 2 else [r.choice(VALUES) for _ in range(r.randint(1, 40))]
    pre = ["DECLARE i: INTEGER", "i <- -42", "DECLARE c: CHAR", "c <- CHR(233)", 's <- " spaced  out "', "DECLARE d: DATE", "d <- 29/2/2004", "b <- TRUE", "TYPE T\n  DECLARE n: INTEGER\nENDTYPE", "DECLARE r: T", "r.n <- 7",
           "DECLARE a: ARRAY[1:2] OF STRING", 'a[2] <- "el"', "TYPE P = ^INTEGER", "DECLARE p: P", "p <- ^i", "FUNCTION f(x: INTEGER) RETURNS INTEGER\n  RETURN x * x\nENDFUNCTION", "CONSTANT k = 99"]
    mode = r.choice(("WRITE", "APPEND"))
    initial = b"first\n" if r.random() < 0.5 else b""
    src = pre + ['OPENFILE "o.txt" FOR ' + mode] + ['WRITEFILE "o.txt", ' + e for e, _ in vs] + ['CLOSEFILE "o.txt"', 'OPENFILE "o.txt" FOR READ', "DECLARE t: STRING", 'WHILE NOT EOF("o.txt")', '  READFILE "o.txt", t',
                                                                                                              '  OUTPUT t', "ENDWHILE"]
    exp = (initial if mode == "APPEND" else b"") + b"".join(t + b"\n" for _, t in vs)
    q = env.run("\n".join(src) + "\n", files={"o.txt": initial})
    env.expect(q.kind == "ok", "outcome %s" % q.kind)
    env.expect(q.files["o.txt"] == exp, "the file holds %r, expected %r" % (q.files["o.txt"], exp))
    env.expect(q.out == exp, "reading back gives %r, expected %r" % (q.out, exp))
    env.ok("\n".join(src), n=len(vs))


def reals(env, i):
    """REAL values are written as decimal numerals accurate to six decimals."""
    r = env.rng
    xs = []
    for _ in range(60):
        k = r.randrange(6)
        x = [lambda: r.uniform(-10, 10), lambda: r.uniform(-1e6, 1e6), lambda: float(r.randint(-10 ** 9, 10 ** 9)), lambda: r.randint(-10 ** 9, 10 ** 9) / 10 ** 6, lambda: r.uniform(-1e15, 1e15),
             lambda: r.choice((0.0, 0.5, 1e-6, 5e-7, 4e-7, -1e-6, 1e-9, 999999.9999995, 0.1, 1 / 3, 2.5, 1e20, 123456789012.25))][k]()
        xs.append(x)

    def num(x):
        t = "%.25f" % abs(x)
        return ("-" if x < 0 else "") + t
    src = ['OPENFILE "o.txt" FOR WRITE', "DECLARE x: REAL"]
    for k, x in enumerate(xs):
        src += ['WRITEFILE "o.txt", ' + num(x)] if k % 2 else ["x <- " + num(x), 'WRITEFILE "o.txt", x']
    src += ['CLOSEFILE "o.txt"']
    q = env.run("\n".join(src) + "\n")
    env.expect(q.kind == "ok", "outcome %s" % q.kind)
    ls = split(q.files["o.txt"])
    env.expect(len(ls) == len(xs), "%d lines for %d values" % (len(ls), len(xs)))
    from fractions import Fraction
    for x, l in zip(xs, ls):
        env.expect(re.match(rb"-?\d+(\.\d+)?\Z", l), "REAL written as %r" % l)
        err = abs(Fraction(l.decode()) - Fraction(x))
        env.expect(err <= Fraction(5000001, 10 ** 13) , "REAL %r written as %r" % (x, l))
        env.ok(x)


def sessions(env, i):
    """Random sessions over several text files: reopening in every mode, reading part of a file, EOF at any time."""
    r = env.rng
    names = ["a.txt", "b.txt", "c"]
    files = {}
    for n in names:
        if r.random() < 0.6:
            files[n] = r.choice(INITIAL) or b""
    ents = ["DECLARE s: STRING", "DECLARE n: INTEGER"]
    state = {}
    count = {n: len(split(d)) for n, d in files.items()}
    for _ in range(r.randint(10, 80)):
        n = r.choice(names)
        st = state.get(n)
        q = r.choice(('"%s"' % n, '"%s" & "%s"' % (n[:1], n[1:]))) if r.random() < 0.3 else '"%s"' % n
        if st is None:
            mode = r.choice(("READ", "READ", "APPEND", "APPEND", "WRITE"))
            ents.append("OPENFILE %s FOR %s" % (q, mode))
            if mode == "WRITE" or n in count:
                state[n] = [mode, 0]
                if mode == "WRITE":
                    count[n] = 0
        elif r.random() < 0.12:
            ents.append("CLOSEFILE " + q)
            del state[n]
        elif st[0] == "READ":
            if r.random() < 0.5:
                ents.append("OUTPUT EOF(%s)" % q)
            elif st[1] < count[n]:
                ents += ["READFILE %s, s" % q, 'OUTPUT "[", s, "]"']
                st[1] += 1
            elif r.random() < 0.5:
                ents += ["WHILE NOT EOF(%s)\n  READFILE %s, s\n  n <- n + 1\nENDWHILE" % (q, q), "OUTPUT n"]
        else:
            k = r.random()
            if k < 0.7:
                ents.append("WRITEFILE %s, %s" % (q, r.choice([lit(w) for w in WRITES] + [v for v, _ in VALUES[:5] if v != "i"] + ["n", "s", "7 / 2", "TRUE", "1/1/2000", "nosuch", "1 DIV 0"])))
                if not ents[-1].endswith(("nosuch", "DIV 0")):
                    count[n] += 1
            elif k < 0.85:
                ents.append("FOR k <- 1 TO 3\n  WRITEFILE %s, k\nNEXT k" % q)
                count[n] += 3
            else:
                ents.append(r.choice(("OUTPUT EOF(%s)", "READFILE %s, s", "OPENFILE %s FOR READ", "SEEK %s, 1")) % q)
    end = r.randrange(3)
    if end == 0:
        for n in list(state):
            ents.append('CLOSEFILE "%s"' % n)
    elif end == 1:
        ents.append("OUTPUT 1 DIV 0")
    env.session(ents, files, check_files=True)


def restarts(env, i):
    """Append across several runs of the interpreter, ending normally, by EXIT-less REPL end, or by a runtime error at any depth."""
    r = env.rng
    data = r.choice((None, b"", b"start\n", b"start"))
    f = "log.txt"
    for k in range(r.randint(2, 5)):
        mode = "WRITE" if data is None or r.random() < 0.15 else "APPEND"
        ws = [r.choice(WRITES + ["run %d" % k, "é", "z" * 5000]) for _ in range(r.randint(0, 5))]
        ws = [w.encode("latin-1") for w in ws]
        how = r.randrange(4)
        body = ['OPENFILE "%s" FOR %s' % (f, mode)] + ['WRITEFILE "%s", %s' % (f, lit(w.decode("latin-1"))) for w in ws]
        if how == 0:
            body.append('CLOSEFILE "%s"' % f)
        elif how == 1:
            body.append("OUTPUT 1 MOD 0")
        if r.random() < 0.4:
            src = ["PROCEDURE w()"] + body + ["ENDPROCEDURE", "PROCEDURE v(n: INTEGER)", "  IF n > 0 THEN", "    CALL v(n - 1)", "  ELSE", "    CALL w()", "  ENDIF", "ENDPROCEDURE", "CALL v(%d)" % r.randint(0, 4)]
        else:
            src = body
        q = env.run("\n".join(src) + "\n", files={f: data} if k == 0 and data is not None else None, keep=k > 0)
        env.expect(q.kind == ("runtime" if how == 1 else "ok"), "run %d: outcome %s" % (k + 1, q.kind))
        data = apply(data, mode, ws)
        env.expect(q.files.get(f) == data, "after run %d the file holds %r, expected %r" % (k + 1, q.files.get(f), data))
        env.ok(("\n".join(src), data))
    S = Script()
    S.do("DECLARE s: STRING")
    S.do("DECLARE c: INTEGER")
    S.readall(f, data, i % 2, i)
    S.readall(f, data, (i + 1) % 2, i)
    S.run(env, None, keep=True)
    env.ok(("restart", env.index))


def tails(env, i):
    """A file which ends in the middle of a line, whatever its last byte and its length: appended lines stay lines of their own."""
    r = env.rng
    names, exp, src, files = [], [], [], {}
    for k in range(16):
        b = bytes([(i * 16 + k) % 256])
        data = r.choice((b"", b"", b"x", b"old\n", b"a\nb\n", b"\r", b"\n", b"y" * r.choice((126, 127, 254, 255, 4094, 4095, 4096, 8190, 8191, 8192, 65535)))) + b
        f = "t%d" % k
        files[f] = data
        ws = [r.choice(WRITES + ["line"]) for _ in range(r.choice((0, 1, 1, 2, 3)))]
        src += ['OPENFILE "%s" FOR APPEND' % f] + ['WRITEFILE "%s", %s' % (f, lit(w)) for w in ws]
        src += ['CLOSEFILE "%s"' % f] if r.random() < 0.7 else []
        exp.append((f, apply(data, "APPEND", [w.encode("latin-1") for w in ws])))
    q = env.run("\n".join(src) + "\n", files=files)
    env.expect(q.kind == "ok", "outcome %s" % q.kind)
    for f, e in exp:
        env.expect(q.files.get(f) == e, "after appending to %r the file holds %r, expected %r" % (files[f][-20:], q.files.get(f)[-60:], e[-60:]))
    env.ok((i, "\n".join(src)), n=16)
    S = Script()
    S.do("DECLARE s: STRING")
    S.do("DECLARE c: INTEGER")
    for f, e in exp:
        S.readall(f, e, r.randrange(2), i)
    S.run(env, None, keep=True)


def bulky(env, i):
    """Lines of very different lengths (up to some 300 000 characters) among short ones, written in one or two rounds, read back with EOF."""
    r = env.rng
    def value():
        n = r.choice((9, 20, 200, r.choice((255, 256, 4095, 4096, 8191, 8192, 16384)) + r.randint(-1, 1), r.randint(1000, 70000), r.choice((32767, 65535, 65536, 131072)) + r.randint(-30, 30), 300000))
        return 'Rep(%d, "%s")' % (n, r.choice(("ab", "#", "x y", "1 ", "ab#cde", " ")))
    src = ['FUNCTION Rep(k: INTEGER, c: STRING) RETURNS STRING', "  x <- c", "  WHILE LENGTH(x) * 2 <= k DO", "    x <- x & x", "  ENDWHILE", "  RETURN x & LEFT(x, k - LENGTH(x))", "ENDFUNCTION", "DECLARE s: STRING", 'OPENFILE "a" FOR WRITE']
    lines = []
    for _ in range(r.randint(1, 8)):
        lines.append(value() if r.random() < 0.6 else r.choice(('"short"', '""', '"a, b"', "(\"\" & 7)")))
        src += ['WRITEFILE "a", ' + lines[-1]]
        if r.random() < 0.2:
            src += ['CLOSEFILE "a"', 'OPENFILE "a" FOR APPEND']
    src += ['CLOSEFILE "a"', 'OPENFILE "a" FOR READ']
    for l in lines:
        src += ['OUTPUT EOF("a")', 'READFILE "a", s', "OUTPUT s = (%s & \"\"), LENGTH(s)" % l]
    src += ['OUTPUT EOF("a")', 'CLOSEFILE "a"', 'OPENFILE "a" FOR READ', "n <- 0", 'WHILE NOT EOF("a") DO', '  READFILE "a", s', "  n <- n + LENGTH(s) + 1", "ENDWHILE", "OUTPUT n", 'CLOSEFILE "a"']
    env.differential("\n".join(src) + "\n", check_files=True, max_string=400000)


CHECK = Check("C15", [
    Family("tails", tails, 32, 1600, about="files that end in the middle of a line, every last byte"),
    Family("bulky", bulky, 40, 1500, about="lines of up to 300 000 characters among short ones", chunk=4),
    scale.family("C15", 320, 6400),
    Family("enum", enum, 2 * len(INITIAL), about="exhaustive: initial content x WRITE/APPEND x up to three lines, "
           "both reading styles", chunk=1),
    Family("readback", readback, 2000, 60000, about="arbitrary file contents read by EOF loops in file mode"),
    Family("values", values, 200, 6000, about="values of every type written as one line"),
    Family("reals", reals, 100, 3000, about="REAL numerals, compared exactly (rationals)"),
    Family("sessions", sessions, 1200, 40000, about="random sessions over several files, final contents compared"),
    Family("restarts", restarts, 400, 12000, about="appending across runs and error exits"),
], "A case is one file written and read back (or one line written), distinct by contents and operations.",
    assumptions=["a STRING containing a line break is not written as a text line; READFILE beyond the end of a file is not judged"])
