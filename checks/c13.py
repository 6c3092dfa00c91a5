"""C13: records written to a random file read back exactly: in the session, after reopening, and in a later run."""
import itertools
import struct

import model as M
from c07 import Shapes
from c17 import check_lines, lit
import scale
from harness import Check, Family, Stop


def two(env, one, later, key, n=1):
    """Runs program `one`, then program `later` in the same directory; both must behave as the reference model says."""
    fs = {}
    for k, src in enumerate((one, later)):
        if src is None:
            continue
        m = M.Model(b"", None, False, 60000)
        m.fs = fs
        e = m.run_file(src.encode("latin-1"))
        r = env.run(src, keep=k > 0, steps=400000)
        try:
            w = env.compare(m, e, r)
        except Stop:
            return None
        if w:
            env.violation("run %d: %s" % (k + 1, w), expected={"stdout": m.output()[:4000].decode("latin-1")})
            raise Stop()
        for x, c in m.events.items():
            env.events[x] = env.events.get(x, 0) + c
        fs = m.fs
    env.ok(key, n=n)


ALPHA = ["\n", " ", "#", "a", "1", "\"", "\\", "\r", "\0", "\xff", "\t", "-"]


def wordlist(tier):
    ws = [""]
    for k in (1, 2, 3):
        ws += ["".join(t) for t in itertools.product(ALPHA, repeat=k)]
    if tier == "thorough":
        ws += ["".join(t) for t in itertools.product(ALPHA, repeat=4)]
    else:
        ws += ["".join(t) for t in itertools.product("\n #1", repeat=4)]
    return ws


WORDS = {}


def strings(env, i):
    """Exhaustive short strings over an adversarial alphabet, alone, in a record between other fields, and in an array."""
    ws = WORDS.setdefault(env.tier, wordlist(env.tier))[i * 40:(i + 1) * 40]
    if not ws:
        return
    head = ["TYPE T", "  DECLARE a: INTEGER", "  DECLARE s: STRING", "  DECLARE c: CHAR", "  DECLARE q: STRING", "ENDTYPE", "DECLARE t, u: T", "DECLARE s, z: STRING", "DECLARE r, q: ARRAY[1:3] OF STRING",
            'OPENFILE "f" FOR RANDOM']
    put, get = [], []
    want = []
    n = 0
    for k, w in enumerate(ws):
        e, nx = lit(w), lit(ws[(k + 1) % len(ws)])
        form = (k + i) % 3
        n += 1
        if form == 0:
            put += ["s <- " + e, 'SEEK "f", %d' % n, 'PUTRECORD "f", s']
            get += ['SEEK "f", %d' % n, 'z <- "??"', 'GETRECORD "f", z', 'OUTPUT z = (%s & ""), LENGTH(z)' % e]
            want.append("TRUE%d" % len(w))
        elif form == 1:
            put += ["t.a <- %d" % k, "t.s <- " + e, "t.c <- CHR(%d)" % (ord(w[0]) if w else 10), "t.q <- " + nx, 'SEEK "f", %d' % n, 'PUTRECORD "f", t']
            get += ['SEEK "f", %d' % n, 'u.s <- "??"', 'GETRECORD "f", u', 'OUTPUT u.a, u.s = (%s & ""), u.c = CHR(%d), u.q = (%s & ""), LENGTH(u.s)' % (e, ord(w[0]) if w else 10, nx)]
            want.append("%dTRUETRUETRUE%d" % (k, len(w)))
        else:
            put += ["r[1] <- " + e, "r[2] <- " + nx, "r[3] <- " + e, 'SEEK "f", %d' % n, 'PUTRECORD "f", r']
            get += ['SEEK "f", %d' % n, 'q[1] <- "??"', 'GETRECORD "f", q', 'OUTPUT q[1] = (%s & ""), q[2] = (%s & ""), q[3] = q[1], LENGTH(q[1])' % (e, nx)]
            want.append("TRUETRUETRUE%d" % len(w))
    mid = ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM']
    check_lines(env, "\n".join(head + put + get + mid + get) + "\n", want * 2)
    # nothing is flushed by CLOSEFILE here: the end of the run writes the file
    check_lines(env, "\n".join(head + get) + "\n", want, keep=True)


def chars(env, i):
    """All 256 CHAR codes: alone, in a record, in an array; neighbouring fields intact."""
    codes = range(i * 32, i * 32 + 32)
    head = ["TYPE T", "  DECLARE c: CHAR", "  DECLARE n: INTEGER", "  DECLARE d: ARRAY[0:2] OF CHAR", "  DECLARE e: CHAR", "ENDTYPE", "DECLARE t, u: T", "DECLARE c, z: CHAR", "DECLARE a, b: ARRAY[1:4] OF CHAR", 'OPENFILE "f" FOR RANDOM']
    put, get, want = [], [], []
    for k, x in enumerate(codes):
        y = (x * 7 + 3) % 256
        put += ["c <- CHR(%d)" % x, 'SEEK "f", %d' % (3 * k + 1), 'PUTRECORD "f", c', "t.c <- c", "t.n <- %d" % x, "t.d[0] <- CHR(%d)" % y, "t.d[1] <- c", "t.d[2] <- CHR(10)", "t.e <- CHR(%d)" % y, 'SEEK "f", %d' % (3 * k + 2),
                'PUTRECORD "f", t', "a[1] <- c", "a[2] <- CHR(32)", "a[3] <- c", "a[4] <- CHR(%d)" % y, 'SEEK "f", %d' % (3 * k + 3), 'PUTRECORD "f", a']
        get += ['SEEK "f", %d' % (3 * k + 1), "z <- 'q'", 'GETRECORD "f", z', "OUTPUT z = CHR(%d)" % x, 'SEEK "f", %d' % (3 * k + 2), 'GETRECORD "f", u',
                "OUTPUT u.c = CHR(%d), u.n, u.d[0] = CHR(%d), u.d[1] = u.c, u.d[2] = CHR(10), u.e = u.d[0]" % (x, y), 'SEEK "f", %d' % (3 * k + 3), 'GETRECORD "f", b',
                "OUTPUT b[1] = CHR(%d), b[2] = ' ', b[3] = b[1], b[4] = CHR(%d)" % (x, y)]
        want += ["TRUE", "TRUE%dTRUETRUETRUETRUE" % x, "TRUETRUETRUETRUE"]
    mid = ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM']
    check_lines(env, "\n".join(head + put + get + mid + get) + "\n", want * 2)
    check_lines(env, "\n".join(head + get) + "\n", want, keep=True)


def reals(env, i):
    """REALs over the whole normal range, built exactly (mantissa times a power of two); compared with = in both runs."""
    r = env.rng
    xs = []
    for _ in range(24):
        k = r.random()
        if k < 0.5:
            bits = r.getrandbits(64)
            exp = (bits >> 52) & 0x7ff
            if exp in (0, 0x7ff):
                bits = bits & ~(0x7ff << 52) | r.randint(1, 2046) << 52
            xs.append(struct.unpack("<d", struct.pack("<Q", bits))[0])
        elif k < 0.8:
            xs.append(r.uniform(-1e6, 1e6))
        else:
            xs.append(r.choice((0.1, 1 / 3, 2.2250738585072014e-308, 1.7976931348623157e308, -2.2250738585072014e-308, 1e22, 1e23, 5e-7, 123456789.123456789, 9007199254740993.0, 1e-10, -1e100, 0.0, 1.0, -1.0,
                                4503599627370496.5, 0.30000000000000004, 1e15, 1e16, 1e17, 99999999999999990000.0)))
    head = ["DECLARE x, y, z: REAL", "DECLARE a, b: ARRAY[1:2] OF REAL", "TYPE T", "  DECLARE r: REAL", "  DECLARE i: INTEGER", "  DECLARE q: REAL", "ENDTYPE", "DECLARE t, u: T", 'OPENFILE "f" FOR RANDOM']

    def build(x):
        import math
        m, e = math.frexp(x)
        mi = int(abs(m) * 2 ** 53)
        e -= 53
        while mi and mi % 2 == 0:
            mi //= 2
            e += 1
        ls = ["x <- %s%d.0" % ("-" if x < 0 else "", mi)]
        if e:
            # powers of two by squaring would overflow early; doubling steps stay exact in the normal range
            big, small = divmod(abs(e), 32)
            op = "*" if e > 0 else "/"
            if big:
                ls += ["FOR k <- 1 TO %d" % big, "  x <- x %s 4294967296.0" % op, "NEXT k"]
            if small:
                ls += ["x <- x %s %d.0" % (op, 2 ** small)]
        return ls
    put, get, want = [], [], []
    for k, x in enumerate(xs):
        bld = build(x)
        put += bld + ['SEEK "f", %d' % (k + 1)]
        get += bld + ['SEEK "f", %d' % (k + 1)]
        if k % 3 == 0:
            put += ['PUTRECORD "f", x']
            get += ["y <- 7.5", 'GETRECORD "f", y', "OUTPUT x = y, x <= y AND y <= x"]
        elif k % 3 == 1:
            put += ["t.r <- x", "t.i <- %d" % k, "t.q <- -x", 'PUTRECORD "f", t']
            get += ['GETRECORD "f", u', "OUTPUT u.r = x, u.q = -x"]
        else:
            put += ["a[1] <- x", "a[2] <- x / 2", 'PUTRECORD "f", a'] if abs(x) > 1e-300 else ["a[1] <- x", "a[2] <- -x", 'PUTRECORD "f", a']
            get += ['GETRECORD "f", b', "OUTPUT b[1] = x, b[2] = x / 2" if abs(x) > 1e-300 else "OUTPUT b[1] = x, b[2] = -x"]
        want.append("TRUETRUE")
    mid = ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM']
    check_lines(env, "\n".join(head + put + get + mid + get) + "\n", want * 2)
    check_lines(env, "\n".join(head + get) + "\n", want, keep=True)


def scalars(env, i):
    """INTEGER, BOOLEAN, DATE and enumerated values at their boundaries."""
    r = env.rng
    ints = ["0", "-1", "1", "9223372036854775807", "(-9223372036854775807 - 1)", "4294967296", "-4294967297", "9007199254740993", "255", "-128"] + [str(r.randint(-10 ** 18, 10 ** 18)) for _ in range(10)]
    dates = ["1/1/1", "31/12/9999", "29/2/2000", "28/2/1900", "1/1/1970"] + ["SETDATE(%d, %d, %d)" % (r.randint(1, 28), r.randint(1, 12), r.randint(1, 9999)) for _ in range(10)]
    n = r.randint(1, 9)
    vals = ["ev%d" % k for k in range(n)]
    head = ["TYPE E = (%s)" % ", ".join(vals), "TYPE F = (other)", "DECLARE i, i2: INTEGER", "DECLARE d, d2: DATE", "DECLARE e, e2: E", "DECLARE b, b2: BOOLEAN", 'OPENFILE "f" FOR RANDOM']
    put, get = [], []
    k = 0
    for v, es in (("i", ints), ("d", dates), ("e", vals), ("b", ["TRUE", "FALSE"])):
        for e in es:
            k += 1
            put += ["%s <- %s" % (v, e), 'SEEK "f", %d' % k, 'PUTRECORD "f", %s' % v]
            get += ['SEEK "f", %d' % k, 'GETRECORD "f", %s2' % v, 'OUTPUT %s2, " ", %s2 = %s' % (v, v, e)]
    end = ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM'] + get
    two(env, "\n".join(head + put + get + end) + "\n", "\n".join(head + get) + "\n", ("scalars", env.index), n=3 * k)


def fill(env, sh, path, t):
    r = env.rng
    res = []
    for p, lt in sh.leaves(path, t):
        if lt == "STRING":
            v = lit("".join(r.choice(ALPHA + ["b", "STRING", "10 ", "\n\n"]) for _ in range(r.choice((0, 0, 1, 2, 3, 8)))) if r.random() < 0.8 else "".join(chr(r.randrange(256)) for _ in range(r.randint(0, 20))))
        elif lt == "CHAR":
            v = "CHR(%d)" % r.choice((10, 32, 35, 13, 0, 255, 34, r.randrange(256)))
        elif lt == "INTEGER":
            v = str(r.choice((0, -1, r.randint(-10 ** 18, 10 ** 18), r.randint(-9, 9))))
        elif lt == "REAL":
            x = r.choice((r.uniform(-100, 100), r.uniform(-1e-5, 1e-5), float(r.randint(-99, 99)), r.uniform(-1e17, 1e17)))
            v = ("-" if x < 0 else "") + "%.40f" % abs(x)
        elif lt == "BOOLEAN":
            v = r.choice(("TRUE", "FALSE"))
        elif lt == "DATE":
            v = "SETDATE(%d, %d, %d)" % (r.randint(1, 28), r.randint(1, 12), r.randint(1, 9999))
        else:
            v = r.choice(("red", "green", "blue"))
        res.append("%s <- %s" % (p, v))
    return res


def shapes(env, i):
    """Random record types (nested records, array fields, all field types) with adversarial contents; several records and whole
    arrays of records in one file; read into a fresh variable, an array element's sibling and after changes; second process."""
    r = env.rng
    for _ in range(20):
        sh = Shapes(r, pointers=False)
        if sh.size() <= 40:
            break
    T = sh.top
    lo = r.choice((1, 0, -1))
    head = list(sh.lines) + ["DECLARE x, y, z: %s" % T, "DECLARE a, b: ARRAY[%d:%d] OF %s" % (lo, lo + 1, T), 'OPENFILE "f" FOR RANDOM']
    put, get = [], []
    n = r.randint(1, 4)
    kinds = [r.choice("xxa") for _ in range(n)]
    for k in range(n):
        put += ['SEEK "f", %d' % (k + 1)]
        if kinds[k] == "x":
            put += fill(env, sh, "x", T) + ['PUTRECORD "f", x']
            if r.random() < 0.5:
                put += fill(env, sh, "x", T)   # a change after PUTRECORD must not reach the file
        else:
            put += fill(env, sh, "a[%d]" % lo, T) + fill(env, sh, "a[%d]" % (lo + 1), T) + ['PUTRECORD "f", a']
    order = list(range(n)) + [r.randrange(n) for _ in range(2)]
    r.shuffle(order)
    for k in order:
        get += ['SEEK "f", %d' % (k + 1)]
        if kinds[k] == "x":
            v = r.choice(("y", "z", "x"))
            get += ['GETRECORD "f", ' + v] + sh.dump(v)
            if r.random() < 0.3:
                get += ["PROCEDURE g%d(BYREF p: %s)" % (k * 1000 + len(get), T), '  GETRECORD "f", p', "ENDPROCEDURE"]
                nm = "g%d" % (k * 1000 + len(get) - 3)
                get += ["CALL %s(b[%d])" % (nm, lo)] + sh.dump("b[%d]" % lo)
        else:
            get += ['GETRECORD "f", b'] + sh.dump("b[%d]" % lo) + sh.dump("b[%d]" % (lo + 1))
    end = ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM'] + [g for g in get if not g.startswith(("PROCEDURE g", "  GETRECORD", "ENDPROCEDURE"))]
    two(env, "\n".join(head + put + get + end) + "\n", "\n".join(head + get) + "\n", (env.family.name, env.index))


TYPES = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE", "Ea", "Eb", "Ra", "Rb", "Rc", "Rd"]
TDEF = ["TYPE Ea = (a1, a2)", "TYPE Eb = (b1, b2)", "TYPE Ra", "  DECLARE n: INTEGER", "ENDTYPE", "TYPE Rb", "  DECLARE n: INTEGER", "ENDTYPE", "TYPE Rc", "  DECLARE n: INTEGER", "  DECLARE s: STRING", "ENDTYPE",
        "TYPE Rd", "  DECLARE r: Ra", "ENDTYPE"]
VALS = {"INTEGER": ["5", "0"], "REAL": ["2.5", "3.0"], "BOOLEAN": ["TRUE", "FALSE"], "CHAR": ["'a'", "'7'", "CHR(10)"], "STRING": ['"a"', '"7"', '""', '"TRUE"', '"INTEGER 5"', '"a1"', '"2 3"', '"5 "'], "DATE": ["1/2/2003"],
        "Ea": ["a1", "a2"], "Eb": ["b2"]}


def mismatch(env, i):
    """Every ordered pair of different types (scalars, records, arrays): GETRECORD is a runtime error which changes neither the
    variable nor the file; the right variable still reads it."""
    kinds = TYPES + ["ARR1 " + t for t in TYPES] + ["ARR3 " + t for t in TYPES]
    src = kinds[i % len(kinds)]
    ents = []
    import c04
    ents += c04.split("\n".join(TDEF))

    def var(k):
        return "v" + k.replace(" ", "_")
    for k in kinds:
        t = k.split()[-1]
        ents.append("DECLARE %s: %s%s" % (var(k), "" if k == t else "ARRAY[1:%s] OF " % k[3], t))

    def leaves(v, t):
        return {"Ra": [(v + ".n", "INTEGER")], "Rb": [(v + ".n", "INTEGER")], "Rc": [(v + ".n", "INTEGER"), (v + ".s", "STRING")], "Rd": [(v + ".r.n", "INTEGER")]}.get(t, [(v, t)])

    def all_leaves(k):
        t = k.split()[-1]
        return leaves(var(k), t) if k == t else [x for j in range(1, int(k[3]) + 1) for x in leaves("%s[%d]" % (var(k), j), t)]

    def show(k):
        return "OUTPUT " + ', "|", '.join(p for p, _ in all_leaves(k))
    for k in kinds:
        ents += ["%s <- %s" % (p, VALS[t][0]) for p, t in all_leaves(k)]
    ents.append('OPENFILE "f" FOR RANDOM')
    variants = VALS.get(src, ["0"]) if src in VALS else ["0"]
    for n, v in enumerate(variants):
        if src in VALS:
            ents.append("%s <- %s" % (var(src), v))
        ents += ['SEEK "f", %d' % (n + 1), 'PUTRECORD "f", ' + var(src)]
    for n in range(len(variants)):
        if n == 1:
            ents += ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM']
        ents.append('SEEK "f", %d' % (n + 1))
        for k in kinds:
            ents += ['GETRECORD "f", ' + var(k), show(k)]
        ents += ['GETRECORD "f", ' + var(src), show(src)]
    res = env.session(ents, pure=True, each=True)
    if not res:
        return
    # a later run
    ents2 = [e for e in ents if not e.startswith(("PUTRECORD",))]
    import repl
    m = M.Model(b"", None, False, 60000)
    m.fs = res[0].model.fs
    res[0].model.close_all()
    for h in m.fs.values():
        pass
    p = repl.predict(ents2, None, False, True, m=m, on_unspec=env.discard)
    r = env.run(None, repl.stdin_of(p.entries), keep=True, collect=False)
    w = repl.check(p, r)
    if w:
        env.violation("later run: " + w)
        return
    env.ok(("later", src))


def long(env, i):
    """Long strings and large arrays."""
    r = env.rng
    n = r.choice((100, 1000, 4095, 4096, 8192, 70000))
    m = r.randint(1, 300)
    head = ["DECLARE s, z, p: STRING", "DECLARE a, b: ARRAY[1:%d] OF INTEGER" % m, "DECLARE c, d: ARRAY[0:%d] OF CHAR" % m, 'OPENFILE "f" FOR RANDOM', 'p <- %s' % lit("".join(r.choice(ALPHA + ["long"]) for _ in range(9)) + "."), "WHILE LENGTH(p) < %d" % n, "  p <- p & p", "ENDWHILE"]
    put = ["s <- p", 'SEEK "f", 1', 'PUTRECORD "f", s', "FOR k <- 1 TO %d" % m, "  a[k] <- k * k - 50", "  c[k] <- CHR(k MOD 256)", "NEXT k", 'SEEK "f", 2', 'PUTRECORD "f", a', 'SEEK "f", 3', 'PUTRECORD "f", c']
    get = ['SEEK "f", 1', 'GETRECORD "f", z', "OUTPUT z = p, LENGTH(z) = LENGTH(p)", 'SEEK "f", 2', 'GETRECORD "f", b', 'SEEK "f", 3', 'GETRECORD "f", d', "bad <- 0", "FOR k <- 1 TO %d" % m, "  IF b[k] <> k * k - 50 THEN",
           "    bad <- bad + 1", "  ENDIF", "  IF d[k] <> CHR(k MOD 256) THEN", "    bad <- bad + 1", "  ENDIF", "NEXT k", "OUTPUT bad"]
    check_lines(env, "\n".join(head + put + get + ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM'] + get) + "\n", ["TRUETRUE", "0"] * 2)
    check_lines(env, "\n".join(head + get) + "\n", ["TRUETRUE", "0"], keep=True)


FIELDS = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE", "E", "R", "ARRAY[1:2] OF INTEGER", "ARRAY[0:1] OF STRING", "ARRAY[1:3] OF INTEGER", "ARRAY[1:2] OF R", "ARRAY[1:1] OF CHAR"]


def tdef(name, fields, ind=""):
    return [ind + "TYPE " + name] + ["%s  DECLARE f%d: %s" % (ind, k, t) for k, t in enumerate(fields)] + [ind + "ENDTYPE"]


def changed(r, fields):
    """Another list of fields: longer, shorter, or with another type somewhere."""
    fields = list(fields)
    x = r.randrange(6)
    if x < 2:
        fields.insert(len(fields) if x else r.randint(0, len(fields)), r.choice(FIELDS))
    elif x < 4 and len(fields) > 1:
        fields.pop(r.randrange(len(fields)) if x == 2 else -1)
    else:
        fields[r.randrange(len(fields))] = r.choice(FIELDS)
    return fields


def redefined(env, i):
    """A type of the same name with other fields is another type: in a later run, in an inner record, in a routine of its own."""
    r = env.rng
    inner = [r.choice(FIELDS[:6]) for _ in range(r.choice((1, 2)))]
    outer = [r.choice(FIELDS) for _ in range(r.choice((1, 1, 2, 3, 4)))]
    names = ["e0", "e1", "e2"][:r.choice((1, 2, 3))]
    inner2, outer2, names2 = list(inner), list(outer), list(names)
    x = r.randrange(10)
    if x < 6:
        outer2 = changed(r, outer)
    elif x < 8:
        inner2 = changed(r, inner) if r.random() < 0.8 else inner
        outer.insert(r.randint(0, len(outer)), r.choice(("R", "ARRAY[1:2] OF R")))
        outer2 = list(outer)
    elif x < 9:
        names2 = ["e0", "e1", "e2", "e3"][:r.choice((1, 2, 4))]
        outer.append("E")
        outer2 = list(outer)
    head = lambda n, i, o, ind="": [ind + "TYPE E = (%s)" % ", ".join(n)] + tdef("R", i, ind) + tdef("T", o, ind) + [ind + "DECLARE t: T"]
    put = ["t.%s <- %s" % ("f%d" % k, {"INTEGER": "7", "STRING": '"t"', "E": names[-1]}[t]) for k, t in enumerate(outer) if t in ("INTEGER", "STRING", "E")]
    show = ["OUTPUT t.f%d" % k for k, t in enumerate(outer2) if t in ("INTEGER", "STRING", "E", "BOOLEAN")]
    if i % 4 == 3 and (inner2, outer2, names2) != (inner, outer, names):
        src = ["PROCEDURE wr()"] + head(names, inner, outer, "  ") + ["  " + l for l in put] + ['  PUTRECORD "f", t', "ENDPROCEDURE"]
        src += ["PROCEDURE rd()"] + head(names2, inner2, outer2, "  ") + ['  GETRECORD "f", t'] + ["  " + l for l in show] + ["ENDPROCEDURE", 'OPENFILE "f" FOR RANDOM', "CALL wr()"]
        src += ['CLOSEFILE "f"', 'OPENFILE "f" FOR RANDOM'] if r.random() < 0.5 else []
        env.differential("\n".join(src + ["CALL rd()"]) + "\n", key=(inner, outer, names, inner2, outer2, names2))
        return
    one = head(names, inner, outer) + ['OPENFILE "f" FOR RANDOM'] + put + ['PUTRECORD "f", t', 'CLOSEFILE "f"']
    later = head(names2, inner2, outer2) + ['OPENFILE "f" FOR RANDOM', 'GETRECORD "f", t'] + show
    try:
        two(env, "\n".join(one) + "\n", "\n".join(later) + "\n", ("redefined", inner, outer, names, inner2, outer2, names2))
    except M.Unspec as u:
        env.discard("model: " + str(u))


CHECK = Check("C13", [
    Family("redefined", redefined, 400, 12000, about="types of the same name with other fields, in a later run and in another routine"),
    scale.family("C13", 480, 9600),
    Family("strings", strings, (1 + 12 + 144 + 1728 + 256) // 40 + 1, (1 + 12 + 144 + 1728 + 20736) // 40 + 1, about="exhaustive short strings over an adversarial alphabet, alone, between fields, in arrays", chunk=1),
    Family("chars", chars, 8, about="all 256 CHAR codes"),
    Family("reals", reals, 200, 6000, about="random finite normal REALs (random bit patterns), compared exactly"),
    Family("scalars", scalars, 60, 1500, about="boundaries of INTEGER, DATE, BOOLEAN, enumerations"),
    Family("shapes", shapes, 700, 25000, about="random record shapes, adversarial contents"),
    Family("mismatch", mismatch, 36, about="every ordered pair of types", chunk=1),
    Family("long", long, 40, 1000, about="long strings, large arrays"),
], "A case is one value written and read back three times (same session, reopened, second process), or one type pair; distinct by contents.",
    assumptions=["REAL zero is compared with =, subnormal numbers are not judged", "records containing pointers are not written", "array variables of another "
                 "shape with the same number of elements, and types redefined under the same name with the same field types, are not judged"])
