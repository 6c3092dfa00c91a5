"""C18: DATE values are always real calendar dates in chronological order."""
import datetime

import scale
from harness import Check, Family

YEARS = [1, 2, 3, 4, 5, 8, 99, 100, 101, 104, 200, 300, 400, 401, 500, 800, 1000, 1200, 1500, 1582, 1600, 1700, 1752, 1800, 1896, 1899, 1900, 1901, 1904, 1970,
         1996, 1999, 2000, 2001, 2003, 2004, 2020, 2023, 2024, 2025, 2038, 2096, 2100, 2200, 2300, 2400, 3000, 4000, 8000, 9999, 10000, 12000, 32767]
MLEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(m, y):
    return 29 if m == 2 and leap(y) else MLEN[m - 1]


def valid(d, m, y):
    return 1 <= m <= 12 and 1 <= d <= mlen(m, y)


def grid(env, i):
    """Every day 0..32 and month 0..13 of one year, as SETDATE or literal, with the accessors."""
    y = YEARS[i // 2] if i < 2 * len(YEARS) else env.rng.choice((env.rng.randint(1, 3000), env.rng.randint(1, 9999), env.rng.randint(1850, 2150)))
    litform = i % 2
    ents = ["DECLARE x: DATE"]
    for m in range(0, 14):
        for d in range(0, 33):
            if d not in (0, 1, 2, 10, 15, 27, 28, 29, 30, 31, 32) and (m + d + i) % 4:
                continue
            e = "%d/%d/%d" % (d, m, y) if litform else "SETDATE(%d, %d, %d)" % (d, m, y)
            if litform and (d + m) % 5 == 0:
                e = "%02d/%02d/%04d" % (d, m, y)
            ents.append("x <- " + e)
            if (d + m) % 2 or not valid(d, m, y):
                ents.append('OUTPUT x, " ", DAY(x), " ", MONTH(x), " ", YEAR(x)')
            else:
                ents.append('OUTPUT %s, " ", DAY(%s), MONTH(%s), YEAR(%s), x = %s' % (e, e, e, e, e))
    ents[1:1] = ["x <- 1/1/2000"]
    env.session(ents, pure=True, each=True)


SQUARE_YEARS = [2000, 1900, 2023, 2004, 4, 100, 400, 9999, 1, 2, 3, 999, 1000, 1582, 1600, 1700, 1999, 2001, 2024, 2100, 2400, 5, 1752, 8000]


def square(env, i):
    """Every (d, m) in [0, 300]^2 of one year: fifteen months per case, SETDATE or literal; judged directly against the calendar."""
    y = SQUARE_YEARS[i // 21]
    ms = range(i % 21 * 15, min(301, i % 21 * 15 + 15))
    forms = ("SETDATE(%d, %d, %d)", "%d/%d/%d")
    if env.tier == "quick":
        forms = (forms[i // 21 % 2],)
    for form in forms:
        ents, want = [], []
        for m in ms:
            for d in range(301):
                e = form % (d, m, y)
                if valid(d, m, y):
                    ents.append("OUTPUT %s, \" \", DAY(%s), \" \", MONTH(%s), \" \", YEAR(%s)" % (e, e, e, e))
                    want.append("%d/%d/%d %d %d %d" % (d, m, y, d, m, y))
                else:
                    ents.append("OUTPUT " + e)
                    want.append("")
        r = env.run(None, "".join(e + "\n" for e in ents))
        env.expect(r.kind in ("ok", "runtime", "syntax") and r.code == 0, "the session ends with %s" % r.kind)
        out = r.out.decode("latin-1").split("\n> ")[1:]
        env.expect(len(out) == len(ents) + 1 and len(r.diags) == want.count(""), "%d answers and %d errors to %d entries, %d of them dates" % (len(out) - 1, len(r.diags), len(ents), len(ents) - want.count("")))
        for e, o, w in zip(ents, out, want):
            env.expect(o.strip("\n") == w, "%s: got %r, expected %r" % (e, o, w or "an error"))
        env.ok((form, y, i), n=len(ents))


def everyyear(env, i):
    """Every year 1..9999 for days around the ends of January, February and December."""
    src, want, ents = [], [], []
    for y in range(1 + i * 100, min(10000, 101 + i * 100)):
        for d, m in ((29, 2), (28, 2), (1, 3), (31, 12), (30, 2)):
            for e in ("%d/%d/%d" % (d, m, y), "SETDATE(%d, %d, %d)" % (d, m, y)):
                if valid(d, m, y):
                    ents.append("OUTPUT %s, \" \", DAY(%s), \" \", MONTH(%s), \" \", YEAR(%s), \" \", DAYINDEX(%s)" % (e, e, e, e, e))
                    want.append("%d/%d/%d %d %d %d %d" % (d, m, y, d, m, y, datetime.date(y, m, d).isoweekday() % 7 + 1))
                else:
                    ents.append("OUTPUT " + e)
                    want.append("")
    r = env.run(None, "".join(e + "\n" for e in ents))
    env.expect(r.kind in ("ok", "runtime", "syntax") and r.code == 0, "the session ends with %s" % r.kind)
    out = r.out.decode("latin-1").split("\n> ")[1:]
    env.expect(len(out) == len(ents) + 1 and len(r.diags) == want.count(""), "%d answers and %d errors to %d entries, %d of them dates" % (len(out) - 1, len(r.diags), len(ents), len(ents) - want.count("")))
    for e, o, w in zip(ents, out, want):
        env.expect(o.strip("\n") == w, "%s: got %r, expected %r" % (e, o, w or "an error"))
    env.ok(i, n=len(ents))


def civil(d, m, y):
    """Days since 1/1/1970 in the proleptic Gregorian calendar, any year."""
    y -= m <= 2
    era, yoe = divmod(y, 400)
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def ancient(env, i):
    """Years below 1: the interpreter may reject them all, but what it accepts must be a calendar date, in order with every other."""
    r = env.rng
    lo = (-32767, -5000, -401, -10)[i % 4]
    years = [r.randint(lo, 0) for _ in range(24)] + [0, -1, -4, -100, -400, lo]
    ents, want = [], []
    for y in years:
        for d, m in ((29, 2), (28, 2), (30, 2), (31, 12), (31, 4), (0, 1), (1, 13), (r.randint(1, 28), r.randint(1, 12))):
            e = "SETDATE(%d, %d, %d)" % (d, m, y)
            ents.append('OUTPUT %s, " ", DAY(%s), " ", MONTH(%s), " ", YEAR(%s), " ", DAYINDEX(%s)' % (e, e, e, e, e))
            want.append("%d/%d/%d %d %d %d %d" % (d, m, y, d, m, y, (civil(d, m, y) + 4) % 7 + 1) if valid(d, m, y) else "")
    q = env.run(None, "".join(e + "\n" for e in ents))
    env.expect(q.kind in ("ok", "runtime", "syntax") and q.code == 0, "the session ends with %s" % q.kind)
    out = q.out.decode("latin-1").split("\n> ")[1:]
    env.expect(len(out) == len(ents) + 1, "%d answers to %d entries" % (len(out) - 1, len(ents)))
    got = [o.strip("\n") for o in out[:-1]]
    if not any(got):
        env.discard("years below 1 are rejected")
    for e, o, w in zip(ents, got, want):
        env.expect(o == w, "%s: got %r, expected %r" % (e, o, w or "an error"))
    ds = []
    for y in years[:14] + [r.randint(1, 50) for _ in range(8)] + [r.randint(1, 32767) for _ in range(6)] + [32767, -32767]:
        m = r.choice((1, 2, 3, 12, r.randint(1, 12)))
        ds.append((r.choice((1, mlen(m, y), r.randint(1, 28))), m, y))
    n = len(ds)
    src = ["DECLARE d: ARRAY[1:%d] OF DATE" % n]
    src += ["d[%d] <- SETDATE(%d, %d, %d)" % ((k + 1,) + t) for k, t in enumerate(ds)]
    src += ["FOR i <- 1 TO %d" % n, "FOR j <- 1 TO %d" % n,
            'OUTPUT d[i] < d[j], " ", d[i] <= d[j], " ", d[i] = d[j], " ", d[i] <> d[j], " ", d[i] > d[j], " ", d[i] >= d[j]', "NEXT j", "NEXT i"]
    q = env.run("\n".join(src) + "\n")
    env.expect(q.kind == "ok", "the program ends with %s" % q.kind)
    got = q.out.decode("latin-1").split("\n")
    tf = ("FALSE", "TRUE")
    for a in range(n):
        for b in range(n):
            x, y = civil(*ds[a]), civil(*ds[b])
            w = " ".join(tf[t] for t in (x < y, x <= y, x == y, x != y, x > y, x >= y))
            env.expect(got[a * n + b] == w, "%d/%d/%d compared with %d/%d/%d: got %r, expected %r" % (ds[a] + ds[b] + (got[a * n + b], w)))
    env.ok((i, tuple(years)), n=len(ents) + n * n)


def allpairs(env, i):
    """All ordered pairs of a 400-date sample under all six comparisons, computed by the program itself and judged by count."""
    r = env.rng
    ds = []
    while len(ds) < 400:
        p = randdate(r)
        ds += [p, near(r, p), near(r, near(r, p)), p if r.random() < 0.1 else near(r, p)]
    ds = ds[:400]
    key = [(y, m, d) for d, m, y in ds]
    lo, hi = i * 40, i * 40 + 40
    src = ["DECLARE a: ARRAY[0:399] OF DATE"] + ["a[%d] <- %s" % (k, ("%d/%d/%d", "SETDATE(%d, %d, %d)")[k % 2] % t) for k, t in enumerate(ds)]
    src += ["DECLARE s: STRING", "DECLARE x, y: DATE", "FOR i <- %d TO %d" % (lo, hi - 1), " x <- a[i]", " s <- \"\"", " FOR j <- 0 TO 399", "  y <- a[j]", "  n <- 0"]
    for k, o in enumerate(("<", "<=", "=", "<>", ">", ">=")):
        src += ["  IF x %s y THEN" % o, "   n <- n + %d" % (1 << k), "  ENDIF"]
    src += ["  s <- s & CHR(n + 48)", " NEXT j", " OUTPUT s", "NEXT i"]
    res = env.run("\n".join(src) + "\n", steps=2000000, timeout=60)
    if res.kind in ("timeout", "budget"):
        env.inconclusive(res.kind)
        return
    env.expect(res.kind == "ok", "outcome %s" % res.kind)
    rows = res.out.decode("latin-1").split("\n")
    env.expect(len(rows) == 41, "%d lines" % len(rows))
    for x, row in zip(range(lo, hi), rows):
        w = "".join(chr(48 + ((1 | 2 | 8) if key[x] < k else (2 | 4 | 32) if key[x] == k else (8 | 16 | 32))) for k in key)
        if row != w:
            j = next((j for j in range(400) if row[j:j + 1] != w[j]), None)
            env.violation("%r compared with %r: mask of < <= = <> > >= is %r, expected %r" % (ds[x], ds[j], row[j:j + 1], w[j]))
            return
        env.ok((i, x), n=400)


WIDE = ["-1", "0", "1", "12", "13", "28", "31", "32", "255", "256", "257", "258", "268", "-255", "-256", "4096", "65535", "65536", "65537", "65548", "67536", "-65535",
        "-65534", "32768", "4294967297", "4294967308", "4294969296", "-4294967295", "-4294967284", "9223372036854775807", "-9223372036854775807", "2000", "2004"]


def wide(env, i):
    """Components far outside the calendar, alone and together (values which wrap into range when narrowed)."""
    ents = ["DECLARE x: DATE", "x <- 2/3/2004", "DECLARE d, m, y: INTEGER"]
    for k, a in enumerate(WIDE):
        for d, m, y in ((a, "2", "2003"), ("3", a, "2003"), ("3", "2", a), (a, a, a), (a, "2", a), ("29", "2", a)):
            if y in ("-1", "0", "-255", "-256"):
                continue
            if (k + i) % 2:
                ents += ["x <- SETDATE(%s, %s, %s)" % (d, m, y), "OUTPUT x"]
            else:
                ents += ["d <- " + d, "m <- " + m, "y <- " + y, "OUTPUT SETDATE(d, m, y)", "x <- SETDATE(d, m, y)", "OUTPUT x"]
            if not any(c.startswith("-") for c in (d, m, y)) and i < 2:
                ents += ["OUTPUT %s/%s/%s" % (d, m, y)]
    env.session(ents, pure=True, each=True)


def weekday(env, i):
    """Every day of some years: DAYINDEX, against an independent calendar (datetime)."""
    if i < 801:
        y = 1600 + i
    else:
        y = env.rng.choice((env.rng.randint(1, 1599), env.rng.randint(2401, 9999)))
    lens = [mlen(m, y) for m in range(1, 13)]
    src = ["DECLARE n: ARRAY[1:12] OF INTEGER"] + ["n[%d] <- %d" % (m + 1, l) for m, l in enumerate(lens)]
    src += ["DECLARE x, before: DATE", "before <- 1/1/1", "FOR m <- 1 TO 12", "  FOR d <- 1 TO n[m]", "    x <- SETDATE(d, m, %d)" % y,
            "    OUTPUT x, \" \", DAYINDEX(x), before < x, x > before, x <= before, before >= x, x = before, before <> x", "    before <- x", "  NEXT d", "NEXT m"]
    r = env.run("\n".join(src) + "\n")
    env.expect(r.kind == "ok", "outcome %s" % r.kind)
    out = r.out.decode("latin-1").split("\n")
    k = 0
    for m in range(1, 13):
        for d in range(1, lens[m - 1] + 1):
            w = datetime.date(y, m, d).isoweekday() % 7 + 1
            first = (m, d, y) == (1, 1, 1)
            want = "%d/%d/%d %d%s" % (d, m, y, w, "FALSEFALSETRUETRUETRUEFALSE" if first else "TRUETRUEFALSEFALSEFALSETRUE")
            env.expect(out[k] == want, "got %r, expected %r" % (out[k], want))
            env.ok((d, m, y))
            k += 1
    env.expect(len(out) == k + 1, "%d lines, expected %d" % (len(out) - 1, k))


def randdate(r):
    k = r.random()
    y = r.choice((r.randint(1, 9999), r.randint(1900, 2100), r.choice(YEARS)))
    m = r.randint(1, 12)
    return (r.randint(1, mlen(m, y)), m, y)


def near(r, t):
    """A date close to t in one component."""
    d, m, y = t
    k = r.randrange(5)
    for _ in range(30):
        if k == 0:
            c = (d + r.choice((-1, 1)), m, y)
        elif k == 1:
            c = (d, m + r.choice((-1, 1)), y)
        elif k == 2:
            c = (d, m, y + r.choice((-1, 1)))
        elif k == 3:
            c = (r.randint(1, 31), m + r.choice((-1, 0, 1)), y + r.choice((-1, 0, 1)))
        else:
            c = (m, d, y) if d <= 12 else t
        if 1 <= c[2] <= 32767 and valid(*c):
            return c
        k = r.randrange(5)
    return t


def compare(env, i):
    """All six comparisons on pairs of dates: equal, adjacent in one component, far apart; in every operand form."""
    r = env.rng
    ents = ["DECLARE x, y: DATE", "DECLARE a: ARRAY[1:2] OF DATE", "TYPE T\n  DECLARE d: DATE\nENDTYPE", "DECLARE t: T",
            "FUNCTION id(z: DATE) RETURNS DATE\n  RETURN z\nENDFUNCTION"]
    for _ in range(40):
        p = randdate(r)
        q = r.choice((p, near(r, p), near(r, near(r, p)), randdate(r)))
        lp, lq = r.choice(("%d/%d/%d", "SETDATE(%d, %d, %d)")) % p, r.choice(("%d/%d/%d", "SETDATE(%d, %d, %d)")) % q
        ents += ["x <- " + lp, "y <- " + lq]
        f = r.randrange(5)
        if f == 1:
            ents += ["a[1] <- x", "a[2] <- y"]
        if f == 2:
            ents += ["t.d <- x"]
        A, B = [("x", "y"), ("a[1]", "a[2]"), ("t.d", "y"), ("id(x)", "id(y)"), (lp, lq)][f]
        ents += ['OUTPUT %s = %s, %s <> %s, %s < %s, %s <= %s, %s > %s, %s >= %s' % ((A, B) * 6),
                 'OUTPUT %s = %s, %s <> %s, %s < %s, %s <= %s, %s > %s, %s >= %s' % ((B, A) * 6)]
    env.session(ents, pure=True, each=True)


def misc(env, i):
    """Dates through every storage form; printing; types; TODAY."""
    r = env.rng
    p, q = randdate(r), randdate(r)
    P, Q = "%d/%d/%d" % p, "SETDATE(%d, %d, %d)" % q
    ents = ["TYPE T\n  DECLARE d: DATE\n  DECLARE e: ARRAY[0:1] OF DATE\nENDTYPE", "DECLARE t, u: T", "DECLARE x: DATE", "TYPE PD = ^DATE", "DECLARE p: PD",
            "t.d <- " + P, "t.e[1] <- " + Q, "u <- t", "OUTPUT u.d, \",\", u.e[1]", "p <- ^u.d", "p^ <- " + Q, "OUTPUT u.d, t.d, p^ = u.e[1]", "CONSTANT c = " + P,
            "OUTPUT c, DAY(c), \" \", MONTH(c), \" \", YEAR(c)", "x <- c", "OUTPUT x & \"!\"", "OUTPUT STRING(x)", "OUTPUT LENGTH(STRING(x))", "OUTPUT x + 1", "OUTPUT x - c", "x <- 5",
            "x <- \"1/1/2000\"", "OUTPUT x", "OUTPUT DAY(5)", "OUTPUT SETDATE(1, 2)", "OUTPUT SETDATE(1.0, 2, 2003)", "OUTPUT SETDATE(\"1\", 2, 2003)", "OUTPUT DAYINDEX(\"1/1/2000\")",
            "OUTPUT %d / %d / %d" % (p[0], p[1], 7), "OUTPUT %d/%d" % (q[0], q[1]), "OUTPUT x = 5", "OUTPUT x < \"1/1/2000\"", "PROCEDURE s(BYREF z: DATE)\n  z <- %s\nENDPROCEDURE" % Q, "CALL s(x)", "OUTPUT x",
            "CASE OF x\n  %s: OUTPUT \"P\"\n  %d/%d/%d: OUTPUT \"Q\"\n  OTHERWISE: OUTPUT \"N\"\nENDCASE" % ((P,) + q), "IF x = %s THEN\n  OUTPUT \"same\"\nENDIF" % Q,
            'OPENFILE "d.txt" FOR WRITE', 'WRITEFILE "d.txt", x', 'WRITEFILE "d.txt", c', 'CLOSEFILE "d.txt"', 'OPENFILE "d.txt" FOR READ', 'READFILE "d.txt", s', 'OUTPUT s', 'CLOSEFILE "d.txt"',
            "x", "c", "t.d", "u.e[1]", P, Q]
    env.session(ents, {}, pure=True, each=True)
    if i % 20 == 0:
        r2 = env.run("DECLARE t, u: DATE\nt <- TODAY()\nu <- SETDATE(DAY(t), MONTH(t), YEAR(t))\nOUTPUT DAY(t), \" \", MONTH(t), \" \", YEAR(t), \" \", DAYINDEX(u), \" \", t = u, \" \", t\n")
        env.expect(r2.kind == "ok", "TODAY: outcome %s" % r2.kind)
        f = r2.out.decode("latin-1").split()
        dd = datetime.date(int(f[2]), int(f[1]), int(f[0]))
        env.expect(f[4] == "TRUE" and int(f[3]) == dd.isoweekday() % 7 + 1 and f[5] == "%s/%s/%s" % tuple(f[:3]), "TODAY gives %r" % f)
        env.expect(abs((datetime.date.today() - dd).days) <= 1, "TODAY is %s" % dd)
        env.ok("today")


def hostile(env, i):
    """A random file holding a DATE is damaged; whatever GETRECORD then accepts must still be a calendar date."""
    r = env.rng
    p = randdate(r)
    w = ['OPENFILE "d.dat" FOR RANDOM', "DECLARE x: DATE", "x <- %d/%d/%d" % p, 'SEEK "d.dat", 1', 'PUTRECORD "d.dat", x', 'CLOSEFILE "d.dat"']
    a = env.run("\n".join(w) + "\n")
    env.expect(a.kind == "ok", "outcome %s" % a.kind)
    data = a.files.get("d.dat", b"")
    env.expect(data, "no file was written")
    for _ in range(10):
        bb = bytearray(data)
        for _ in range(r.randint(1, 3)):
            k = r.randrange(4)
            pos = r.randrange(len(bb) + 1)
            ch = r.choice(b"0123456789-+/ #\n.x")
            if k == 0 and pos < len(bb):
                bb[pos] = ch
            elif k == 1:
                bb[pos:pos] = bytes([ch])
            elif k == 2 and len(bb) > 2 and pos < len(bb):
                del bb[pos]
            else:
                digs = [j for j, c in enumerate(bb) if 48 <= c <= 57]
                if digs:
                    bb[r.choice(digs)] = r.choice(b"0123456789")
        g = ['OPENFILE "d.dat" FOR RANDOM', "DECLARE x: DATE", 'SEEK "d.dat", 1', 'GETRECORD "d.dat", x', 'OUTPUT DAY(x), " ", MONTH(x), " ", YEAR(x), " ", x']
        q = env.run("\n".join(g) + "\n", files={"d.dat": bytes(bb)})
        env.expect(q.kind in ("ok", "runtime"), "outcome %s" % q.kind)
        if q.kind == "ok":
            f = q.out.decode("latin-1").split()
            env.expect(len(f) == 4, "printed %r" % q.out)
            d, m, y = map(int, f[:3])
            env.expect(valid(d, m, y) and f[3] == "%d/%d/%d" % (d, m, y), "GETRECORD produced the date %s" % " ".join(f))
            env.events["damaged record still a date"] = env.events.get("damaged record still a date", 0) + 1
        else:
            env.events["damaged record rejected"] = env.events.get("damaged record rejected", 0) + 1
        env.ok(bytes(bb))


CHECK = Check("C18", [
    scale.family("C18", 160, 3200),
    Family("grid", grid, 2 * len(YEARS) + 100, 2 * len(YEARS) + 4000, about="day 0..32 x month 0..13 of chosen years, SETDATE and literal"),
    Family("square", square, 4 * 21, len(SQUARE_YEARS) * 21, about="every (d, m) in [0,300]^2 of 4 (thorough: 24) years", chunk=2),
    Family("everyyear", everyyear, 100, about="every year 1..9999 at the ends of months, both forms, with DAYINDEX", chunk=2),
    Family("allpairs", allpairs, 10, about="all ordered pairs of a 400-date sample, six comparisons", chunk=1),
    Family("ancient", ancient, 12, 400, about="years below 1, where they are accepted: calendar, day of the week and order"),
    Family("wide", wide, 8, about="components which wrap when narrowed"),
    Family("weekday", weekday, 1000, 6000, about="every day of 1600..2400 and of other years: DAYINDEX, printing, order"),
    Family("compare", compare, 500, 15000, about="pairs of dates under all six comparisons"),
    Family("misc", misc, 200, 5000, about="dates through every storage form, TODAY"),
    Family("hostile", hostile, 60, 2000, about="damaged DATE records"),
], "A case is one date construction, one day (weekday family) or one pair comparison whose outcome was observed, distinct by text.",
    assumptions=["years below 1 may be rejected; where they are accepted the reference calendar is proleptic Gregorian", "a DATE that was declared and never "
                 "assigned is not compared"])
