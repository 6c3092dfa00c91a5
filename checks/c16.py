"""C16: file statements obey the handle state machine and never lose data silently."""
import os

import model as M
import repl
from c17 import lit
import reentrant
import scale
from harness import Check, Family

# one operation each; F is replaced by the file name, N by a fresh number
OPS = ['OPENFILE "F" FOR READ', 'OPENFILE "F" FOR WRITE', 'OPENFILE "F" FOR APPEND', 'OPENFILE "F" FOR RANDOM', 'READFILE "F", s', 'WRITEFILE "F", "N"', 'OUTPUT EOF("F")', 'SEEK "F", 1',
       'GETRECORD "F", i', 'PUTRECORD "F", n', 'CLOSEFILE "F"']
PROBE = ['OUTPUT EOF("F")', 'SEEK "F", 2', 'GETRECORD "F", i', 'WRITEFILE "F", "probe"', 'SEEK "F", 1', 'GETRECORD "F", i', "OUTPUT i", 'PUTRECORD "F", n', 'READFILE "F", s', 'OUTPUT s',
         'OPENFILE "F" FOR APPEND', 'CLOSEFILE "F"', 'OPENFILE "F" FOR READ', 'OUTPUT EOF("F")']


def enumerated(env, h0, h1, depth, initial, key):
    ents = ["DECLARE s: STRING", "DECLARE i, n: INTEGER", "n <- 5"]
    files = {}
    names = []
    for h in range(h0, h1):
        code, ops = h, []
        for _ in range(depth):
            ops.append(OPS[code % len(OPS)])
            code //= len(OPS)
        if depth > 2 and not ops[0].startswith("OPENFILE"):
            continue                # a rejected first operation is covered by the shorter histories
        f = "f%d" % h
        if initial is not None:
            files[f] = initial
        opened = False
        for k, op in enumerate(ops):
            ents.append(op.replace("F\"", f + '"', 1).replace("N", "%d.%d" % (h, k)) if op.startswith("WRITEFILE") else op.replace("F\"", f + '"', 1))
            if op.startswith("READFILE"):
                ents.append("OUTPUT s")
            if op.startswith("PUT"):
                ents.append("n <- n + 1")
        names.append((f, ops))
        ents += [x.replace("F\"", f + '"', 1) for x in PROBE]
    if not names:
        return
    res = env.session(ents, files, pure=True, check_files=True, steps=1000000, key=(key, h0))
    if res:
        for f, ops in names:
            env.ok((tuple(ops), initial))


INIT = [None, b"", b"one\ntwo\n"]


def enum3(env, i):
    n = len(OPS) ** 3
    b = 121
    enumerated(env, i % 11 * b, i % 11 * b + b, 3, INIT[i // 11], "enum3")


def enum4(env, i):
    b = 121
    enumerated(env, i % 121 * b, i % 121 * b + b, 4, INIT[i // 121], "enum4")


def enum5(env, i):
    b = 121
    if env.tier == "quick":
        i = env.rng.randrange(3993)
    enumerated(env, i % 1331 * b, i % 1331 * b + b, 5, INIT[i // 1331], "enum5")


PAIR_INIT = [(None, None), (b"one\ntwo\n", b"uno\ndos\ntres\n"), (None, b"one\ntwo\n"), (b"one\ntwo\n", None), (b"", b"x")]


def paired(env, codes, depth, initial, key):
    """Histories over two files at once: what is done to one handle never shows in the other."""
    ents = ["DECLARE s: STRING", "DECLARE i, n: INTEGER", "n <- 5"]
    files, done = {}, []
    for h in codes:
        code, ops = h, [("A", OPS[h % 4])]
        code //= 4
        for _ in range(depth - 1):
            ops.append(("AB"[code % 2], OPS[code // 2 % len(OPS)]))
            code //= 2 * len(OPS)
        names = {"A": "a%d" % h, "B": "b%d" % h}
        for x, c in zip("AB", initial):
            if c is not None:
                files[names[x]] = c
        for k, (x, op) in enumerate(ops):
            op = op.replace('F"', names[x] + '"', 1)
            ents.append(op.replace("N", "%d.%d" % (h, k)) if op.startswith("WRITEFILE") else op)
            if op.startswith("READFILE"):
                ents.append("OUTPUT s")
            if op.startswith("PUT"):
                ents.append("n <- n + 1")
        for x in "BA":
            ents += [e.replace('F"', names[x] + '"', 1) for e in PROBE]
        done.append(tuple(ops))
    res = env.session(ents, files, pure=True, check_files=True, steps=1000000, key=(key, codes[0], initial))
    if res:
        for ops in done:
            env.ok((ops, initial))


def pairs3(env, i):
    """Every history of 3 statements over two files that begins with OPENFILE."""
    b = 44
    paired(env, range(i % 44 * b, i % 44 * b + b), 3, PAIR_INIT[i // 44], "pairs3")


def pairs4(env, i):
    b = 44
    if env.tier == "quick":
        i = env.rng.randrange(968 * 5)
    paired(env, range(i % 968 * b, i % 968 * b + b), 4, PAIR_INIT[i // 968], "pairs4")


def histories(env, i):
    """Random histories of up to 40 statements over three names; the handle state machine decides every outcome."""
    r = env.rng
    names = r.choice((["a", "b.txt", "c.dat"], ["a.txt", "A.txt", "a.TXT"], ["f", "f.", "f.f"], ["x", "x ", " x"], ["long" * 30 + "1", "long" * 30 + "2", "l"]))
    files = {n: r.choice((b"", b"l1\nl2\nl3\n", b"x")) for n in names if r.random() < 0.5}
    ents = ["DECLARE s, keep: STRING", "DECLARE i, n: INTEGER", "DECLARE r: REAL", "n <- 100", 'keep <- "kept"', "CONSTANT k = 3", "DECLARE arr: ARRAY[1:2] OF INTEGER",
            "PROCEDURE put(f: STRING, x: STRING)\n  WRITEFILE f, x\nENDPROCEDURE", "PROCEDURE op(f: STRING)\n  OPENFILE f FOR WRITE\n  WRITEFILE f, \"from op\"\nENDPROCEDURE",
            "PROCEDURE bad(f: STRING)\n  WRITEFILE f, \"before\"\n  OUTPUT 1 DIV 0\n  WRITEFILE f, \"after\"\nENDPROCEDURE", "PROCEDURE rec(f: STRING, a: INTEGER, v: INTEGER)\n  SEEK f, a\n  PUTRECORD f, v\nENDPROCEDURE",
            "FUNCTION more(f: STRING) RETURNS BOOLEAN\n  RETURN NOT EOF(f)\nENDFUNCTION"]
    for j in range(r.randint(15, 45)):
        f = r.choice(names)
        x = r.random()
        if x < 0.3:
            ents.append('OPENFILE "%s" FOR %s' % (f, r.choice(("READ", "WRITE", "APPEND", "RANDOM"))))
        elif x < 0.42:
            ents += ['WRITEFILE "%s", %s' % (f, r.choice(('"w%d"' % j, str(j), "n", "keep", "7.5", "TRUE", "nosuch", "arr", "1 DIV 0", "arr[3]")))]
        elif x < 0.5:
            ents += ['READFILE "%s", %s' % (f, r.choice(("s", "s", "s", "i", "k", "newvar"))), "OUTPUT s"]
        elif x < 0.55:
            ents.append(r.choice(('OUTPUT EOF("%s")', 'OUTPUT more("%s")')) % f)
        elif x < 0.65:
            ents.append('SEEK "%s", %s' % (f, r.choice(("1", "1", "2", "3", "0", "-1", "99", "1.0", '"1"', "n - 99"))))
        elif x < 0.73:
            ents += ['PUTRECORD "%s", %s' % (f, r.choice(("n", "n", "s", "arr", "nosuch", "r"))), "n <- n + 1"]
        elif x < 0.8:
            ents += ['GETRECORD "%s", %s' % (f, r.choice(("i", "i", "s", "arr", "k", "nosuch", "r"))), "OUTPUT i, s"]
        elif x < 0.9:
            ents.append('CLOSEFILE "%s"' % f)
        elif x < 0.96:
            ents.append(r.choice(('CALL put("%s", "by put")', 'CALL op("%s")', 'CALL bad("%s")', 'CALL rec("%s", 1, n)', 'CALL rec("%s", 2, n)')) % f)
        else:
            ents.append(r.choice(("OPENFILE 5 FOR WRITE", "OPENFILE nosuch FOR READ", "CLOSEFILE 5", "WRITEFILE 5, 5", "READFILE TRUE, s", "OUTPUT EOF(5)", "OUTPUT EOF()", 'OPENFILE "" FOR WRITE',
                                  'OPENFILE "" FOR RANDOM', 'CLOSEFILE ""', 'OPENFILE "nodir/x" FOR WRITE', 'OPENFILE "nodir/x" FOR RANDOM', 'OPENFILE "nodir/x" FOR APPEND', 'WRITEFILE "nodir/x", 1', "SEEK 1, 1",
                                  'OPENFILE "missing" FOR READ', 'OPENFILE "missing" FOR APPEND', 'CLOSEFILE "missing"')))
    env.session(ents, files, pure=True, check_files=True)


def exits(env, i):
    """File mode: several open files with unflushed data; every kind of ending; the files are compared afterwards."""
    r = env.rng
    big = r.random() < 0.3
    src, body = ["DECLARE s: STRING", "DECLARE n: INTEGER"], []
    names = ["t%d" % k for k in range(r.randint(1, 5))]
    kinds = {n: r.choice(("WRITE", "APPEND", "RANDOM")) for n in names}
    files = {n: b"old\n" for n in names if kinds[n] == "APPEND" or kinds[n] == "WRITE" and r.random() < 0.5}
    for n in names:
        body.append('OPENFILE "%s" FOR %s' % (n, kinds[n]))
    recs = {}
    for j in range(r.randint(1, 25)):
        n = r.choice(names)
        if kinds[n] == "RANDOM":
            recs[n] = recs.get(n, 0) + 1
            body += ["n <- %d" % j, 'SEEK "%s", %d' % (n, recs[n]), 'PUTRECORD "%s", n' % n]
        else:
            body.append('WRITEFILE "%s", "line %d%s"' % (n, j, "x" * (r.choice((0, 1000, 9000, 0, 1000, 9000, 70000, 140000)) if big else 0)))
    for n in names:
        if r.random() < 0.25:
            body.append('CLOSEFILE "%s"' % n)
    end = r.choice((None, "OUTPUT 1 DIV 0", "CALL nosuch()", "n <- \"text\"", 'OPENFILE "nope" FOR READ', "OUTPUT LEFT(\"a\", 2)", 'WRITEFILE "nope", 1'))
    if end:
        body.append(end)
    d = r.randint(0, 3)
    if d:
        src += ["PROCEDURE p(k: INTEGER)", "  IF k > 0 THEN", "    CALL p(k - 1)", "  ELSE"] + ["    " + x for x in body] + ["  ENDIF", "ENDPROCEDURE", "CALL p(%d)" % d]
    else:
        src += body
    res = env.differential("\n".join(src) + "\n", files=files)
    if res and recs:
        rd = ["DECLARE n: INTEGER"]
        want = []
        for n in sorted(recs):
            rd.append('OPENFILE "%s" FOR RANDOM' % n)
            for k, s in enumerate(res[0].fs[n].recs):
                rd += ['SEEK "%s", %d' % (n, k + 1), 'GETRECORD "%s", n' % n, "OUTPUT n"]
                want.append("%d\n" % s[2])
        q = env.run("\n".join(rd) + "\n", keep=True)
        env.expect(q.kind == "ok" and q.out == "".join(want).encode(), "the records read back as %r, expected %r (%s)" % (q.out, want, q.kind))
        env.ok(("records", "\n".join(src)))


MODES = ("READ", "WRITE", "APPEND", "RANDOM")


def prepare(env):
    """A directory with every kind of path that cannot be opened (some or all ways)."""
    R = env.R
    R.reset()
    d = R.dir
    os.mkdir(os.path.join(d, "adir"))
    R.put("good.txt", b"good\n")
    os.symlink("loop2", os.path.join(d, "loop1"))
    os.symlink("loop1", os.path.join(d, "loop2"))
    os.symlink("nodir/target", os.path.join(d, "dangling"))
    os.symlink("good.txt", os.path.join(d, "link"))
    for n, mode in (("secret", 0o600), ("readonly", 0o444)):
        p = os.path.join(d, n)
        with open(p, "wb") as f:
            f.write(b"protected\n")
        os.chmod(p, mode)
    os.mkdir(os.path.join(d, "rodir"))
    with open(os.path.join(d, "rodir", "f"), "wb") as f:
        f.write(b"inside\n")
    os.chmod(os.path.join(d, "rodir"), 0o755)
    os.chmod(os.path.join(d, "rodir", "f"), 0o644)
    return d


def restore(env):
    os.chmod(os.path.join(env.R.dir, "rodir"), 0o755)


# path -> the modes in which OPENFILE must fail; None: every mode
BAD = {"nodir/x": MODES, "nodir/": MODES, "adir": MODES, "adir/": MODES, ".": MODES, "..": MODES, "adir/none/x": MODES, "good.txt/x": MODES, "loop1": MODES, "missing": ("READ", "APPEND"), "dangling": MODES,
       "x" * 300: MODES, "adir/" + "y" * 256: MODES, "": MODES, "/": MODES, "link": (), "good.txt": (), "adir/../good.txt": (), "./good.txt": (), "secret": MODES, "readonly": ("WRITE", "APPEND"),
       "rodir/f": ("WRITE", "APPEND"), "rodir/new": MODES, "good.txt\0x": MODES, "\0": MODES, "missing\0": MODES}
ROOTONLY = ("secret", "readonly", "rodir/f", "rodir/new")


def paths(env, i):
    """OPENFILE of every unopenable path in every mode is reported, nothing is created, and the name is not left open."""
    bad = list(BAD)
    path, mode = bad[i // 4], MODES[i % 4]
    if path in ROOTONLY and not env.R.uid:
        env.discard("not running as root")
        return
    d = prepare(env)
    before = snapshot(d)
    p = lit(path)
    must_fail = mode in BAD[path]
    # in file mode: the program stops there
    pre = "OUTPUT \"start\"\nOPENFILE \"other.txt\" FOR WRITE\nWRITEFILE \"other.txt\", 1\n"
    r = env.run(pre + "OPENFILE %s FOR %s\nOUTPUT \"opened\"\nCLOSEFILE %s\nOUTPUT \"closed\"\n" % (p, mode, p), keep=True, collect=False)
    restore(env)
    after = snapshot(d)
    env.expect(after.pop("other.txt", None) == b"1\n", "the other open file lost its line")
    after.pop("prog.ps", None)
    if must_fail:
        env.expect(r.kind == "runtime" and r.out == b"start\n\n", "OPENFILE %r FOR %s: outcome %s, output %r" % (path, mode, r.kind, r.out))
        env.expect(after == before, "the failed OPENFILE changed files: %r" % diff(before, after))
    else:
        env.expect(r.kind == "ok" and r.out == b"start\nopened\nclosed\n", "OPENFILE %r FOR %s: outcome %s, output %r" % (path, mode, r.kind, r.out))
    env.ok((path, mode, "file"))
    # in the REPL: the failure leaves no handle behind, under any mode
    prepare(env)
    ents = ['OPENFILE "other.txt" FOR WRITE', 'WRITEFILE "other.txt", "a"', "OPENFILE %s FOR %s" % (p, mode), 'WRITEFILE "other.txt", "b"', "DECLARE s: STRING", "DECLARE n: INTEGER"]
    if must_fail:
        ents += ["OUTPUT EOF(%s)" % p, "WRITEFILE %s, 1" % p, "SEEK %s, 1" % p, "READFILE %s, s" % p, "GETRECORD %s, n" % p, "PUTRECORD %s, n" % p, "CLOSEFILE %s" % p, "OPENFILE %s FOR %s" % (p, mode)]
    else:
        ents += ["CLOSEFILE %s" % p]
    ents += ["OUTPUT \"alive\"", 'CLOSEFILE "other.txt"', 'OPENFILE "other.txt" FOR READ', 'READFILE "other.txt", s', "OUTPUT s", 'READFILE "other.txt", s', "OUTPUT s", 'OUTPUT EOF("other.txt")']
    r = env.run(None, "\n".join(ents) + "\n", keep=True, collect=False)
    restore(env)
    errs = 9 if must_fail else 0
    env.expect(r.kind == "ok" and r.code == 0 and [x.kind for x in r.diags] == ["runtime"] * errs, "session: outcome %s, %d errors, expected %d: %r" % (r.kind, len(r.diags), errs, r.err))
    env.expect(r.out.endswith(b"> alive\n> > > > a\n> > b\n> TRUE\n> "), "session output %r" % r.out[-200:])
    if must_fail:
        after = snapshot(d)
        after.pop("other.txt", None)
        env.expect({k: v for k, v in after.items() if k not in ("prog.ps",)} == before, "the failed OPENFILE changed files: %r" % diff(before, after))
    env.ok((path, mode, "repl"))


def snapshot(d):
    res = {}
    for root, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(root, n)
            k = os.path.relpath(p, d)
            if os.path.islink(p):
                res[k] = "-> " + os.readlink(p)
            elif os.path.isdir(p):
                res[k] = "dir"
            else:
                with open(p, "rb") as f:
                    res[k] = f.read()
    return res


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}


def full(env, i):
    """A device on which every write fails: the loss is reported and the exit status is not 0."""
    r = env.rng
    n = r.randint(1, 5)
    mode = ("WRITE", "APPEND")[i % 2]
    size = r.choice((1, 10, 5000, 70000))
    close = r.random() < 0.5
    body = ['OPENFILE "/dev/full" FOR %s' % mode] + ['WRITEFILE "/dev/full", %s' % r.choice(("s", "s & s", "n"))] * n
    src = ["OPENFILE \"ok.txt\" FOR WRITE", 's <- "x"', "n <- 5", "WHILE LENGTH(s) < %d" % size, "  s <- s & s", "ENDWHILE", 'WRITEFILE "ok.txt", "before"']
    if r.random() < 0.5:
        src += ["PROCEDURE go()"] + body + ["ENDPROCEDURE", "CALL go()"]
    else:
        src += body
    if close:
        src.append('CLOSEFILE "/dev/full"')
    q = env.run("\n".join(src) + "\n")
    env.expect(q.kind == "runtime" and q.code == 1 and q.diags, "writing to a full device: outcome %s" % q.kind)
    env.expect(q.files.get("ok.txt") == b"before\n", "the other file holds %r" % q.files.get("ok.txt"))
    env.ok("\n".join(src))
    # the session goes on after the error
    ents = ['OPENFILE "/dev/full" FOR %s' % mode, 'WRITEFILE "/dev/full", 1', 'OUTPUT "alive"', 'CLOSEFILE "/dev/full"', 'OUTPUT "still"', 'OPENFILE "/dev/full" FOR %s' % mode, 'WRITEFILE "/dev/full", "abc"',
            'OPENFILE "ok.txt" FOR WRITE', 'WRITEFILE "ok.txt", 7'] + ([] if close else ["CLOSEFILE \"/dev/full\""])
    q = env.run(None, "\n".join(ents) + "\n")
    env.expect(q.kind not in ("signal", "sanitizer", "bad-exit", "timeout") and len(q.diags) >= 2, "session on a full device: %s, %r" % (q.kind, q.diags))
    env.expect(b"alive" in q.out and b"still" in q.out and q.files.get("ok.txt") == b"7\n", "session on a full device prints %r" % q.out)
    env.ok(("repl", mode, close))


def limit(env, i):
    """The file size limit is reached in the middle: what was reported as written is in the file, the rest is reported."""
    r = env.rng
    cap = r.choice((4096, 8192, 10000, 5000, 20000))
    ln = r.choice((1, 50, 1000, 3000, 9000))
    count = cap // (ln + 1) + r.randint(1, 5)
    if count > 3000:
        ln = 100
        count = cap // 101 + 3
    kind = i % 3
    if kind == 0:
        src = ['OPENFILE "o.txt" FOR WRITE', 's <- "%s"' % ("x" * ln), "FOR k <- 1 TO %d" % count, '  WRITEFILE "o.txt", s', "  OUTPUT k", "NEXT k"] + (['CLOSEFILE "o.txt"'] if r.random() < 0.5 else [])
        q = env.run("\n".join(src) + "\n", fsize=cap)
        env.expect(q.kind == "runtime" and q.code == 1, "writing beyond the limit: outcome %s" % q.kind)
        done = len(q.out.split())
        data = q.files.get("o.txt", b"")
        env.expect(data.startswith((b"x" * ln + b"\n") * done), "%d lines were written without an error, but the file holds %d bytes" % (done, len(data)))
    elif kind == 1:
        src = ['OPENFILE "r.dat" FOR RANDOM', 's <- "%s"' % ("y" * ln), "FOR k <- 1 TO %d" % count, '  SEEK "r.dat", k', '  PUTRECORD "r.dat", s', "NEXT k", 'OUTPUT "put"'] + (
            ['CLOSEFILE "r.dat"', 'OUTPUT "closed"'] if r.random() < 0.5 else [])
        q = env.run("\n".join(src) + "\n", fsize=cap)
        env.expect(q.code == 1 and q.kind == "runtime", "records beyond the limit: outcome %s (exit status %d)" % (q.kind, q.code))
        env.expect(b"closed" not in q.out, "CLOSEFILE succeeded although the records were lost")
    else:
        src = ['OPENFILE "o.txt" FOR APPEND', 's <- "%s"' % ("x" * ln), "FOR k <- 1 TO %d" % count, '  WRITEFILE "o.txt", s', "NEXT k", 'OUTPUT "done"']
        q = env.run("\n".join(src) + "\n", files={"o.txt": b"z" * (cap - 10)}, fsize=cap)
        env.expect(q.kind == "runtime" and q.code == 1 and b"done" not in q.out, "appending beyond the limit: outcome %s" % q.kind)
        env.expect(q.files["o.txt"].startswith(b"z" * (cap - 10)), "the old contents are gone")
    env.ok(("\n".join(src), cap))
    # below the limit nothing is reported
    src = ["DECLARE k: INTEGER", 'OPENFILE "o.txt" FOR WRITE', 'WRITEFILE "o.txt", "%s"' % ("x" * 4000), 'OPENFILE "r.dat" FOR RANDOM', 'SEEK "r.dat", 1', 'PUTRECORD "r.dat", k']
    q = env.run("\n".join(src) + "\n", fsize=cap)
    env.expect(q.kind == "ok" and q.files["o.txt"] == b"x" * 4000 + b"\n" and q.files["r.dat"], "below the limit: outcome %s" % q.kind)
    env.ok(("below", cap, i % 3))


def readonly_random(env, i):
    """A random file that can be read but not written: reading works, the loss of a PUTRECORD is reported."""
    r = env.rng
    if not env.R.uid:
        env.discard("not running as root")
        return
    w = ['OPENFILE "r.dat" FOR RANDOM', "DECLARE n: INTEGER", "n <- 42", 'SEEK "r.dat", 1', 'PUTRECORD "r.dat", n', 'CLOSEFILE "r.dat"']
    q = env.run("\n".join(w) + "\n")
    env.expect(q.kind == "ok", "outcome %s" % q.kind)
    data = q.files["r.dat"]
    p = os.path.join(env.R.dir, "r.dat")
    os.chown(p, 0, 0)
    os.chmod(p, 0o444)
    rd = ['OPENFILE "r.dat" FOR RANDOM', "DECLARE n: INTEGER", 'SEEK "r.dat", 1', 'GETRECORD "r.dat", n', "OUTPUT n"]
    close = r.random() < 0.5
    q = env.run("\n".join(rd + ['CLOSEFILE "r.dat"'] * close) + "\n", keep=True)
    env.expect(q.kind == "ok" and q.out == b"42\n" and q.files["r.dat"] == data, "reading a read-only random file: %s %r" % (q.kind, q.out))
    env.ok(("ro-read", close))
    wr = rd + ["n <- 43", 'SEEK "r.dat", %d' % r.choice((1, 2)), 'PUTRECORD "r.dat", n', 'OUTPUT "put"']
    if r.random() < 0.3:
        wr = ["PROCEDURE z()"] + wr + ["ENDPROCEDURE", "CALL z()"]
    if close:
        wr += ['CLOSEFILE "r.dat"', 'OUTPUT "closed"']
    q = env.run("\n".join(wr) + "\n", keep=True)
    env.expect(q.code == 1 and q.kind == "runtime" and b"closed" not in q.out and q.files["r.dat"] == data, "a lost PUTRECORD: outcome %s, exit status %d, output %r" % (q.kind, q.code, q.out))
    env.ok(("ro-write", close, len(wr)))


def several(env, i):
    """Several modified random files at the end of a run or session, some of which cannot be written: each loss is reported, all others are saved."""
    r = env.rng
    if not env.R.uid:
        env.discard("not running as root")
        return
    names = r.sample(["a.dat", "b.dat", "c.dat", "d.dat", "e.dat"], r.choice((2, 3, 3, 4, 5)))
    w = ["DECLARE n: INTEGER", "n <- 42"]
    for f in names:
        w += ['OPENFILE "%s" FOR RANDOM' % f, 'PUTRECORD "%s", n' % f]
    q = env.run("\n".join(w) + "\n")
    env.expect(q.kind == "ok" and all(q.files.get(f) for f in names), "creating the files: outcome %s, files %r" % (q.kind, q.files))
    old = q.files
    lost = r.sample(names, r.choice((1, 2, 2, 3)) if len(names) > 2 else r.choice((1, 2)))
    for f in lost:
        p = os.path.join(env.R.dir, f)
        os.chown(p, 0, 0)
        os.chmod(p, 0o444)
    order = list(names)
    r.shuffle(order)
    w = ["DECLARE n: INTEGER", "n <- 43", 'OPENFILE "t.txt" FOR WRITE', 'WRITEFILE "t.txt", "kept"']
    for f in order:
        w += ['OPENFILE "%s" FOR RANDOM' % f]
    touched = order if r.random() < 0.6 else r.sample(order, r.randint(1, len(order)))
    for f in touched:
        w += ['SEEK "%s", %d' % (f, r.choice((1, 2))), 'PUTRECORD "%s", n' % f]
    closed = [f for f in order if f not in lost and r.random() < 0.3]
    w += ['CLOSEFILE "%s"' % f for f in closed]
    end = i % 5
    w += ["OUTPUT 1 DIV 0"] if end == 1 else []
    if end == 3:
        q = env.run(None, "\n".join(w) + r.choice(("\n", "\nEXIT\n", "\nOUTPUT nosuch\n", "\nFOR k <- 1 TO 2\n", "\nIF TRUE THEN\n  OUTPUT 1\n", "\n?\n")), keep=True)
    elif end == 4:
        # a program run within a session, which goes on
        q = env.run(None, "RUNFILE in.ps\nOUTPUT \"alive\"\n", files={"in.ps": ("\n".join(w) + "\n").encode()}, keep=True)
        env.expect(b"alive" in q.out, "the session ended with the program")
    else:
        q = env.run("\n".join(w) + "\n", keep=True)
    bad = [f for f in touched if f in lost]
    env.expect(q.kind in ("ok", "runtime", "repl", "bad-exit") and q.kind not in ("signal", "sanitizer"), "outcome %s" % q.kind)
    if end < 3:
        env.expect(q.code == (1 if bad or end == 1 else 0), "%d files could not be written, the exit status is %d" % (len(bad), q.code))
    text = q.out + b"\n".join(repr(d).encode("latin-1", "replace") for d in q.diags) + getattr(q, "err", b"")
    env.expect(len(q.diags) >= len(bad) + (end == 1) or all(f.encode() in text for f in bad), "%r could not be written, but the diagnostics are %r" % (bad, q.diags))
    for f in names:
        want = f in touched and f not in lost
        env.expect((q.files[f] != old[f]) == want, "%s %s" % (f, "was not saved although it can be written" if want else "has changed"))
    env.expect(q.files.get("t.txt") == b"kept\n", "the text file holds %r" % q.files.get("t.txt"))
    env.ok((tuple(order), tuple(lost), tuple(touched), tuple(closed), end))


CHECK = Check("C16", [
    Family("several", several, 250, 5000, about="several modified random files, some of which cannot be written at the end"),
    scale.family("C16", 320, 6400),
    reentrant.family(600, 15000),
    Family("enum3", enum3, 33, about="exhaustive: all histories of 3 of the 11 file statements on an absent, empty and non-empty file, with a probe sequence", chunk=1),
    Family("enum4", enum4, 363, about="exhaustive: all histories of 4 statements that begin with OPENFILE", chunk=1),
    Family("enum5", enum5, 300, 3993, about="histories of 5 statements that begin with OPENFILE (all in the thorough tier)", chunk=1),
    Family("pairs3", pairs3, 44 * 5, about="exhaustive: all histories of 3 statements over two files that begin with OPENFILE, five pairs of initial contents", chunk=1),
    Family("pairs4", pairs4, 120, 968 * 5, about="histories of 4 statements over two files that begin with OPENFILE (all in the thorough tier)", chunk=1),
    Family("histories", histories, 1500, 50000, about="random histories over three names, with statements that fail for other reasons"),
    Family("exits", exits, 600, 20000, about="every kind of ending with several open files, contents compared"),
    Family("paths", paths, 4 * len(BAD), about="unopenable paths x mode, file mode and REPL"),
    Family("full", full, 30, 300, about="a full device"),
    Family("limit", limit, 60, 600, about="the file size limit is hit part-way"),
    Family("readonly", readonly_random, 20, 200, about="read-only random file"),
], "A case is one history of file statements with final handles probed and final contents compared, or one operating-system fault.",
    assumptions=["a text file opened FOR RANDOM and a random file opened as text are not judged", "faults are injected by an unprivileged user, "
                 "RLIMIT_FSIZE and /dev/full; a crash of the machine is not modelled"])
