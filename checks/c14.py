"""C14: a random file is a stable, 1-based sequence of independent records (histories against a list-plus-cursor model)."""
import model as M
import repl
import scale
from harness import Check, Family, Stop
from repl import Entry

# operations of the enumerated histories; v is a counter, so that every record written is different
OPS = ["S1", "S2", "S3", "P", "G", "R", "B"]   # SEEK 1..3, PUTRECORD, GETRECORD, close and reopen, SEEK n+2 or 0 (rejected)


class Hist:
    """Builds REPL entries for one history on one file together with the outputs they must produce."""

    def __init__(self, name, ents):
        self.f, self.ents = name, ents
        self.recs, self.cur = [], 0
        self.n = 0
        self.do('OPENFILE "%s" FOR RANDOM' % name)

    def do(self, text, out=""):
        self.ents.append((text, out))

    ERR = "\n"

    def seek(self, k):
        ok = 1 <= k <= len(self.recs) + 1
        if ok:
            self.cur = k - 1
        self.do('SEEK "%s", %d' % (self.f, k), "" if ok else self.ERR)

    def put(self, val):
        self.do("x <- %d" % val)
        self.do('PUTRECORD "%s", x' % self.f)
        if self.cur == len(self.recs):
            self.recs.append(val)
        else:
            self.recs[self.cur] = val

    def get(self):
        if self.cur >= len(self.recs):
            self.do("y <- -1")
            self.do('GETRECORD "%s", y' % self.f, self.ERR)
            self.do("OUTPUT y", "-1\n")
        else:
            self.do('GETRECORD "%s", y' % self.f)
            self.do("OUTPUT y", "%d\n" % self.recs[self.cur])

    def reopen(self):
        self.do('CLOSEFILE "%s"' % self.f)
        self.do('OPENFILE "%s" FOR RANDOM' % self.f)
        self.cur = 0

    def dump(self):
        for k in range(len(self.recs)):
            self.seek(k + 1)
            self.get()
        self.seek(len(self.recs) + 2)
        self.seek(len(self.recs) + 1)
        self.get()
        self.seek(0)


def run(env, ents, key, files=None, **kw):
    stdin = "".join(t + "\n" for t, _ in ents).encode()
    r = env.run(None, stdin, files, collect=False, **kw)
    exp = "".join("> " + o for _, o in ents).encode() + b"> "
    body = r.out[repl.banner_end(r.out):]
    if body != exp:
        pos = 0
        for t, o in ents:
            x = ("> " + o).encode()
            if body[pos:pos + len(x)] != x or body[pos + len(x):pos + len(x) + 2] != b"> ":
                env.violation("entry %r: printed %r, expected %r" % (t, body[pos + 2:pos + len(x) + 60], o))
                raise Stop()
            pos += len(x)
        env.violation("the session differs")
        raise Stop()
    nerr = sum(o == Hist.ERR for _, o in ents)
    env.expect(r.code == 0 and r.kind == "ok" and len(r.diags) == nerr and all(d.kind == "runtime" for d in r.diags),
               "outcome %s, %d diagnostics, expected %d runtime errors" % (r.kind, len(r.diags), nerr))
    return r


def enumerated(env, i, depth, block):
    total = len(OPS) ** depth
    ents = [("DECLARE x, y: INTEGER", "")]
    hists = []
    for h in range(i * block, min(total, (i + 1) * block)):
        code, ops = h, []
        for _ in range(depth):
            ops.append(OPS[code % len(OPS)])
            code //= len(OPS)
        if i and ops[0] in ("B", "R"):
            continue            # equivalent to a shorter history
        H = Hist("f%d" % h, ents)
        for k, op in enumerate(ops):
            if op[0] == "S":
                H.seek(int(op[1]))
            elif op == "P":
                H.put(h * 10 + k)
            elif op == "G":
                H.get()
            elif op == "R":
                H.reopen()
            else:
                H.seek(0 if k % 3 == 0 else len(H.recs) + 2 if k % 3 == 1 else -1)
        hists.append((H, ops))
        # half of the histories are closed; the others are left to the end of the interpreter
        if h % 2:
            ents.append(('CLOSEFILE "%s"' % H.f, ""))
    if not hists:
        return
    run(env, ents, None, steps=1000000)
    # a later run of the interpreter sees the same sequences
    ents = [("DECLARE x, y: INTEGER", "")]
    for H, ops in hists:
        H.ents = ents
        H.cur = 0
        H.do('OPENFILE "%s" FOR RANDOM' % H.f)
        if H.recs:
            H.get()
        H.dump()
        H.do('CLOSEFILE "%s"' % H.f)
        env.ok((tuple(ops),))
    run(env, ents, None, keep=True, steps=1000000)


def enum5(env, i):
    enumerated(env, i, 5, 250)


def enum6(env, i):
    enumerated(env, i, 6, 250)


def enum7(env, i):
    enumerated(env, i if env.tier == "thorough" else env.rng.randrange(3294), 7, 250)


SETUP = ["TYPE Col = (red, green, blue)", "TYPE Pt\n  DECLARE a: INTEGER\n  DECLARE s: STRING\nENDTYPE",
         "TYPE Deep\n  DECLARE p: Pt\n  DECLARE r: ARRAY[1:2] OF Pt\n  DECLARE c: Col\n  DECLARE h: CHAR\nENDTYPE", "DECLARE i: INTEGER", "DECLARE r: REAL", "DECLARE b: BOOLEAN", "DECLARE c: CHAR",
         "DECLARE s: STRING", "DECLARE d: DATE", "DECLARE e: Col", "DECLARE p: Pt", "DECLARE q: Deep", "DECLARE a: ARRAY[0:2] OF INTEGER", "DECLARE t: ARRAY[1:2, 1:2] OF STRING",
         "DECLARE u: ARRAY[1:2] OF Pt"]
STRS = ['""', '"a"', '"two words"', '"line\\nbreak"', '"# 1 #"', '" "', '"\\n"', '"1 2 3"', '"\\n\\n"', '"x\\n"', '"STRING 3 abc"', '"#"', '"\\"q\\""', '"tab\\t"', '"\\\\"', '"end#"',
        'CHR(13)', 'CHR(10) & CHR(13)', 'CHR(0) & "z"', 'CHR(255) & CHR(128)', '"//"', '"INTEGER 5"']


def setvar(r, v):
    if v == "i":
        return ["i <- %d" % r.choice((0, -1, 7, 12345, -9223372036854775807, 9223372036854775807, r.randint(-99, 99)))]
    if v == "r":
        return ["r <- %s" % r.choice(("0.5", "-1.25", "3.0", "1.0 / 3", "100000000000000000000.0", "0.1", "-0.0", "123456.789"))]
    if v == "b":
        return ["b <- %s" % r.choice(("TRUE", "FALSE"))]
    if v == "c":
        return ["c <- CHR(%d)" % r.choice((10, 13, 32, 35, 65, 9, 0, 255, 34, r.randrange(256)))]
    if v == "s":
        return ["s <- " + r.choice(STRS)]
    if v == "d":
        return ["d <- SETDATE(%d, %d, %d)" % (r.randint(1, 28), r.randint(1, 12), r.randint(1, 9999))]
    if v == "e":
        return ["e <- " + r.choice(("red", "green", "blue"))]
    if v == "p":
        return ["p.a <- %d" % r.randint(-9, 9), "p.s <- " + r.choice(STRS)]
    if v == "q":
        return ["q.p.s <- " + r.choice(STRS), "q.r[%d].a <- %d" % (r.randint(1, 2), r.randint(0, 99)), "q.r[2].s <- " + r.choice(STRS), "q.c <- blue", "q.h <- CHR(%d)" % r.choice((10, 32, 35, 66))]
    if v == "a":
        return ["a[%d] <- %d" % (k, r.randint(-5, 99)) for k in range(3)]
    if v == "t":
        return ["t[%d, %d] <- %s" % (x, y, r.choice(STRS)) for x in (1, 2) for y in (1, 2)]
    return ["u[%d].a <- %d" % (r.randint(1, 2), r.randint(0, 9)), "u[%d].s <- %s" % (r.randint(1, 2), r.choice(STRS))]


SHOW = {"p": 'OUTPUT p.a, "|", p.s, "|"', "q": 'OUTPUT q.p.a, q.p.s, "|", q.r[1].a, q.r[1].s, "|", q.r[2].a, q.r[2].s, "|", q.c, q.h, "|"', "a": 'OUTPUT a[0], " ", a[1], " ", a[2]',
        "t": 'OUTPUT t[1, 1], "|", t[1, 2], "|", t[2, 1], "|", t[2, 2], "|"', "u": 'OUTPUT u[1].a, u[1].s, "|", u[2].a, u[2].s, "|"'}
RESET = {"i": "i <- 77", "r": "r <- 7.5", "b": "b <- FALSE", "c": "c <- '~'", "s": 's <- "~~"', "d": "d <- 7/7/1977", "e": "e <- red", "p": 'p.s <- "~"', "q": 'q.p.s <- "~"', "a": "a[1] <- 777",
         "t": 't[1, 2] <- "~"', "u": 'u[2].s <- "~"'}


def random_history(env, i):
    """Long histories over two files with records of mixed types, reopening, restarts (clean, EXIT and runtime-error exits)."""
    r = env.rng
    vs = r.sample(list("irbcsdepqatu"), r.randint(1, 4))
    if r.random() < 0.5:
        vs.append("i")
    fs = {}
    m = None
    runs = r.randint(1, 3)
    for run_no in range(runs):
        m2 = M.Model(b"", None, False, 60000)
        if m is not None:
            m2.fs = m.fs
        m = m2
        ents = list(SETUP)
        names = ["one.dat", "two"]
        for n in names:
            ents.append('OPENFILE "%s" FOR RANDOM' % n)
        lens = {n: len(m.fs[n].recs) if isinstance(m.fs.get(n), M.RandomFile) else 0 for n in names}
        cur = {n: 0 for n in names}
        opened = set(names)
        for _ in range(r.randint(10, 60) if env.tier == "quick" else r.randint(20, 120)):
            n = r.choice(names) if r.random() < 0.6 else names[0]
            k = r.random()
            if n not in opened:
                ents.append('OPENFILE "%s" FOR RANDOM' % n)
                opened.add(n)
                cur[n] = 0
            if k < 0.3:
                a = r.choice((1, lens[n] + 1, lens[n], r.randint(1, lens[n] + 1), r.randint(1, lens[n] + 1), 0, lens[n] + 2, -1, 1 << 40, 1 << 63 - 1) if r.random() < 0.4 else (lens[n] + 1, r.randint(1, lens[n] + 1)))
                ents.append(('SEEK "%s", %d' if r.random() < 0.5 else 'k <- "%s"|SEEK k, %d') % (n, a))
                if "|" in ents[-1]:
                    ents[-1:] = ents[-1].split("|")
                if 1 <= a <= lens[n] + 1:
                    cur[n] = a - 1
            elif k < 0.65:
                v = r.choice(vs)
                ents += setvar(r, v) + ['PUTRECORD "%s", %s' % (n, v)]
                if cur[n] == lens[n]:
                    lens[n] += 1
            elif k < 0.92:
                v = r.choice(vs)
                ents += [RESET[v], 'GETRECORD "%s", %s' % (n, v), SHOW.get(v, 'OUTPUT "[", %s, "]"' % v)]
            else:
                ents.append('CLOSEFILE "%s"' % n)
                opened.discard(n)
        for n in sorted(opened):
            # everything is read back, every record into every kind of variable
            if r.random() < 0.5:
                ents += ['CLOSEFILE "%s"' % n, 'OPENFILE "%s" FOR RANDOM' % n]
            for k in range(1, lens[n] + 1):
                ents.append('SEEK "%s", %d' % (n, k))
                for v in dict.fromkeys(vs):
                    ents += ['GETRECORD "%s", %s' % (n, v), SHOW.get(v, 'OUTPUT "[", %s, "]"' % v)]
            ents += ['SEEK "%s", %d' % (n, lens[n] + 2), 'SEEK "%s", %d' % (n, lens[n] + 1), 'GETRECORD "%s", %s' % (n, vs[0])]
        if r.random() < 0.3:
            ents.append("OUTPUT nosuch")
        try:
            p = repl.predict(ents, None, False, True, m=m, on_unspec=env.discard)
        except M.Unspec as u:
            env.discard(str(u))
            return
        for k, v in m.events.items():
            env.events[k] = env.events.get(k, 0) + v
        res = env.run(None, repl.stdin_of(p.entries), None, collect=False, keep=run_no > 0)
        w = repl.check(p, res)
        if w:
            env.violation("run %d: %s" % (run_no + 1, w))
            return
        m.close_all()
        env.ok((env.index, run_no), n=len(p.entries))


def errorexit(env, i):
    """File mode: the records written before a runtime error (in the main program or in a procedure) are there in the next run."""
    r = env.rng
    n = r.randint(1, 8)
    vals = ["%s" % r.choice(STRS) for _ in range(n)]
    src = ['OPENFILE "a.dat" FOR RANDOM', "DECLARE s: STRING", "DECLARE z: INTEGER"]
    proc = r.random() < 0.5
    body = []
    recs = []
    for k, v in enumerate(vals):
        at = r.randint(1, len(recs) + 1)
        if r.random() < 0.6:
            at = len(recs) + 1
        body += ['SEEK "a.dat", %d' % at, "s <- " + v, 'PUTRECORD "a.dat", s']
        if at > len(recs):
            recs.append(v)
        else:
            recs[at - 1] = v
    how = r.randrange(5)
    body += [["z <- 1 DIV 0"], ['SEEK "a.dat", %d' % (len(recs) + 2)], [], ['CLOSEFILE "a.dat"', 'GETRECORD "a.dat", s'], ["OUTPUT nosuch"]][how]
    if proc:
        src += ["PROCEDURE work()"] + ["  " + x for x in body] + ["ENDPROCEDURE", "CALL work()"]
    else:
        src += body
    a = env.run("\n".join(src) + "\n")
    env.expect(a.kind == ("ok" if how == 2 else "runtime"), "outcome %s" % a.kind)
    rd = ['OPENFILE "a.dat" FOR RANDOM', "DECLARE s: STRING"]
    for k in range(len(recs)):
        rd += ['SEEK "a.dat", %d' % (k + 1), 's <- "~"', 'GETRECORD "a.dat", s', "OUTPUT s = (%s & \"\"), LENGTH(s) = LENGTH(%s & \"\")" % (recs[k], recs[k])]
    rd += ['SEEK "a.dat", %d' % (len(recs) + 1), 'OUTPUT "end"', 'SEEK "a.dat", %d' % (len(recs) + 2)]
    q = env.run("\n".join(rd) + "\n", keep=True)
    env.expect(q.kind == "runtime" and q.diags[0].frames[0][1] == len(rd), "read-back: outcome %s, diagnostics %r" % (q.kind, q.diags))
    env.expect(q.out == b"TRUETRUE\n" * len(recs) + b"end\n\n", "read-back gives %r" % q.out)
    env.ok("\n".join(src))


def bulky(env, i):
    """Records of very different sizes (up to some 300 000 characters) among short ones: replacing, appending and reopening keep the others."""
    r = env.rng
    src = ["DECLARE s, t: STRING", "DECLARE v, w: ARRAY[1:4] OF STRING", 'FUNCTION Rep(k: INTEGER, c: STRING) RETURNS STRING', "  x <- c", "  WHILE LENGTH(x) * 2 <= k DO", "    x <- x & x", "  ENDWHILE",
           "  RETURN x & LEFT(x, k - LENGTH(x))", "ENDFUNCTION", 'OPENFILE "a" FOR RANDOM']
    if r.random() < 0.15:
        # many short records, some of them replaced
        n = r.choice((2047, 2048, 2049, 4095, 4096, 4097, r.randint(1300, 6000)))
        src += ["DECLARE k: INTEGER", "FOR i <- 1 TO %d" % n, '  SEEK "a", i', "  k <- i * 3", '  PUTRECORD "a", k', "NEXT i"]
        at = sorted(r.sample(range(1, n + 1), 5)) + [r.choice((1, n, n + 1))]
        for q in at:
            src += ["k <- -%d" % q, 'SEEK "a", %d' % q, 'PUTRECORD "a", k']
        src += ['CLOSEFILE "a"', 'OPENFILE "a" FOR RANDOM', "FOR i <- 1 TO %d" % max(n, at[-1]), '  SEEK "a", i', '  GETRECORD "a", k', "  IF k <> i * 3 THEN", '    OUTPUT i, " ", k', "  ENDIF", "NEXT i",
                'OUTPUT "end"', 'SEEK "a", %d' % (max(n, at[-1]) + 2)]
        return env.differential("\n".join(src) + "\n", check_files=True, max_steps=90000)
    recs = []
    def value():
        n = r.choice((9, 20, 200, r.choice((255, 256, 4095, 4096, 8191, 16384)) + r.randint(-1, 1), r.randint(1000, 70000), r.choice((32767, 65535, 65536, 131072)) + r.randint(-30, 30), 300000))
        return n, 'Rep(%d, "%s")' % (n, r.choice(("ab", "#", "x y", "1 ", "ab#cde")))
    for _ in range(r.randint(3, 10)):
        at = r.randint(1, len(recs) + 1)
        arr = r.random() < 0.3
        if arr:
            vs = [value()[1] if r.random() < 0.4 else '"q%d"' % k for k in range(4)]
            src += ["v[%d] <- %s" % (k + 1, x) for k, x in enumerate(vs)]
            new = vs
        else:
            new = value()[1]
            src += ["s <- " + new]
        src += ['SEEK "a", %d' % at, 'PUTRECORD "a", ' + ("v" if arr else "s")]
        if at > len(recs):
            recs.append(new)
        else:
            recs[at - 1] = new
        if r.random() < 0.25:
            src += ['CLOSEFILE "a"', 'OPENFILE "a" FOR RANDOM']
    read = []
    for k in r.sample(range(len(recs)), len(recs)):
        read += ['SEEK "a", %d' % (k + 1)]
        if isinstance(recs[k], list):
            read += ['GETRECORD "a", w'] + ["OUTPUT w[%d] = (%s & \"\"), LENGTH(w[%d])" % (j + 1, x, j + 1) for j, x in enumerate(recs[k])]
        else:
            read += ['t <- "~"', 'GETRECORD "a", t', "OUTPUT t = (%s & \"\"), LENGTH(t)" % recs[k]]
    src += read + ['CLOSEFILE "a"', 'OPENFILE "a" FOR RANDOM'] + read
    env.differential("\n".join(src) + "\n", check_files=True, max_string=400000)


CHECK = Check("C14", [
    Family("bulky", bulky, 60, 2000, about="records of up to 300 000 characters among short ones", chunk=4),
    scale.family("C14", 240, 6000),
    Family("enum5", enum5, 68, 68, about="exhaustive: all histories of 5 operations (SEEK 1..3, PUT, GET, close+reopen, rejected SEEK), each followed by a later run "
           "reading everything back", chunk=1),
    Family("enum6", enum6, 471, 471, about="exhaustive: all histories of 6 operations", chunk=1),
    Family("enum7", enum7, 60, 3295, about="histories of 7 operations (all in the thorough tier)", chunk=1),
    Family("random", random_history, 500, 15000, about="long histories over two files, mixed record types, up to three runs"),
    Family("errorexit", errorexit, 500, 10000, about="file mode, exit by runtime error, read back in a second process"),
], "A case is one operation history with every record read back (enumerated: distinct by operation sequence; random: by case).",
    assumptions=["GETRECORD and PUTRECORD leave the file pointer where SEEK put it; a newly opened file starts at address 1"])
