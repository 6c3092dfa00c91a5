"""C17: string, character, conversion and numeric built-ins meet their contracts."""
import itertools

import scale
from harness import Check, Family

IMIN, IMAX = "(-9223372036854775807 - 1)", "9223372036854775807"
HUGE = [IMIN, IMAX, "-9223372036854775807", "4294967295", "4294967296", "4294967297", "-4294967296", "2147483647", "-2147483648", "2147483648"]


def lit(s):
    """An expression denoting exactly the string s, whatever its bytes."""
    parts, cur = [], ""
    for c in s:
        if c in "\"'\\\n\r\0\t" or ord(c) < 32 or ord(c) > 126:
            if cur:
                parts.append('"%s"' % cur)
                cur = ""
            parts.append("CHR(%d)" % ord(c))
        else:
            cur += c
    if cur or not parts:
        parts.append('"%s"' % cur)
    if len(parts) == 1 and parts[0][0] == "C":
        parts.append('""')
    return parts[0] if len(parts) == 1 else "(" + " & ".join(parts) + ")"


def show(e):
    return 'OUTPUT "[", %s, "]"' % e


STR = [""] + ["".join(t) for n in (1, 2, 3) for t in itertools.product("aB7", repeat=n)] + [
    "abcd", "hello world", " lead", "trail ", "\n", "a\nb", "tab\there", "\"quoted\"", "it's", "back\\slash", "x\0y", "\xe9t\xe9", "zZ" * 20,
    "%s%d%n", "//not a comment", "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"]


def substrings(env, i):
    """LEFT, RIGHT, MID of one string at every position and length in and around it."""
    s = STR[i % len(STR)]
    form = i // len(STR)
    e = lit(s)
    ents = []
    if form == 1:
        ents.append("s <- " + e)
        e = "s"
    elif form == 2:
        ents += ["FUNCTION get() RETURNS STRING\n  RETURN %s\nENDFUNCTION" % e]
        e = "get()"
    n = len(s)
    near = list(range(-3, min(n, 14) + 4)) + ([n - 1, n, n + 1, n + 2] if n > 14 else [])
    ents.append(show("LENGTH(%s)" % e))
    for k in near + HUGE:
        ents += [show("LEFT(%s, %s)" % (e, k)), show("RIGHT(%s, %s)" % (e, k)), show("LEFT(%s, %s) & RIGHT(%s, LENGTH(%s) - %s)" % (e, k, e, e, k))]
    pos = near if form == 1 else env.rng.sample(near, min(6, len(near)))
    for a in pos:
        for b in near:
            ents.append(show("MID(%s, %s, %s)" % (e, a, b)))
        for h in HUGE:
            ents += [show("MID(%s, %s, %s)" % (e, a, h)), show("MID(%s, %s, %s)" % (e, h, a))]
    ents += [show("MID(%s, %s, %s)" % (e, x, y)) for x in HUGE[:3] for y in HUGE[:3]]
    env.session(ents, pure=True, each=True)


SMALL = ["".join(t) for n in range(5) for t in itertools.product("aZ0 .-", repeat=n)]


def small(env, i):
    """Every string up to length 4 over {a, Z, 0, blank, point, minus} with every (i, n) in [-2, length + 2]^2. The expected value is
    computed here from the statement of the property, not by the model."""
    ents, want, assign = [], [], []

    def put(e, v):
        ents.append('OUTPUT "[", %s, "]"' % e)
        want.append(v)
    for s in SMALL[i * 8:i * 8 + 8]:
        n = len(s)
        e = '"%s"' % s
        assign.append((len(ents), "s <- " + e))
        put("LENGTH(s)", str(n))
        put("TO_UPPER(s)", s.upper())
        put("TO_LOWER(s)", s.lower())
        for k in range(-2, n + 3):
            x = "s" if k % 2 else e
            ok = 0 <= k <= n
            put("LEFT(%s, %d)" % (x, k), s[:k] if ok else False)
            put("RIGHT(%s, %d)" % (x, k), s[n - k:] if ok else False)
            if ok:
                put("LEFT(s, %d) & RIGHT(s, LENGTH(s) - %d) = s" % (k, k), "TRUE")
            for a in range(-2, n + 3):
                if k == 0 and a == n + 1:
                    continue        # the empty substring just past the end
                put("MID(s, %d, %d)" % (a, k), s[a - 1:a - 1 + k] if 1 <= a <= n + (n == 0) and k >= 0 and a - 1 + k <= n else False)
    silent = dict(assign)
    stdin = "".join((silent[k] + "\n" if k in silent else "") + e + "\n" for k, e in enumerate(ents))
    r = env.run(None, stdin)
    env.expect(r.kind in ("ok", "runtime") and r.code == 0, "the session ends with %s" % r.kind)
    out = r.out.decode("latin-1").split("\n> ")[1:]
    out[0] = out[0][2:] if out[0].startswith("> ") else out[0]
    env.expect(len(out) == len(ents) + 1, "%d answers to %d entries" % (len(out) - 1, len(ents)))
    env.expect(len(r.diags) == sum(w is False for w in want), "%d errors, expected %d" % (len(r.diags), sum(w is False for w in want)))
    for k, (e, o, w) in enumerate(zip(ents, out, want)):
        o = o[2:] if o.startswith("> ") else o
        exp = "[" if w is False else "[" + w + "]"
        if o.rstrip("\n") != exp and not (w is False and o.strip("\n") in ("[", "")):
            env.violation("%s with s = %r: got %r, expected %s" % (e, SMALL[i * 8:i * 8 + 8], o, "an error" if w is False else repr(exp)))
            return
        env.ok((i, k, e))


def case(env, i):
    """TO_UPPER/TO_LOWER/LENGTH/comparison on adversarial strings."""
    ents = ["DECLARE s: STRING", "DECLARE c: CHAR"]
    for s in STR if i == 0 else ["".join(chr(env.rng.randrange(256)) for _ in range(env.rng.randint(1, 12))) for _ in range(40)]:
        e = lit(s)
        ents += ["s <- " + e, show("TO_UPPER(s)"), show("TO_LOWER(s)"), show("LENGTH(TO_UPPER(s))"), show("s"), show("TO_LOWER(TO_UPPER(%s))" % e),
                 show("TO_UPPER(%s)" % e), show("LENGTH(s)"), show("s = " + e)]
    env.session(ents, pure=True, each=True)


def chars(env, i):
    """ASC, CHR, LCASE, UCASE for every code; each also through a variable of type CHAR."""
    ents = ["DECLARE c: CHAR", "DECLARE s: STRING"]
    for n in range(i * 32, i * 32 + 32):
        c = "CHR(%d)" % n
        ents += ["c <- " + c, show("ASC(c)"), show("c"), show("LENGTH(c)"), show("LENGTH(%s & c)" % c), show("c = " + c), "s <- c", show("s"), show("LENGTH(s)")]
        if n < 128:
            ents += [show("ASC(%s)" % c), show("UCASE(c)"), show("LCASE(c)"), show("ASC(UCASE(%s))" % c), show("ASC(LCASE(c))"),
                     show("UCASE(LCASE(c)) = UCASE(c)"), show("TO_UPPER(c)"), show("TO_LOWER(%s)" % c)]
            if 32 <= n < 127 and chr(n) not in "'\\":
                ents += [show("ASC('%c')" % n), show("UCASE('%c')" % n), show("LCASE('%c')" % n), show("CHR(%d) = '%c'" % (n, n))]
    env.session(ents, pure=True, each=True)


ALPHA = "019.-a"


def numerals(env, i):
    """IS_NUM, STR_TO_NUM, REAL() and INTEGER() of every short text over digits, '.', '-' and a letter."""
    n = i // 6
    words = [w for w in ("".join(t) for t in itertools.product(ALPHA, repeat=n))] if n else [""]
    ents = ["DECLARE s: STRING"]
    for w in words[i % 6::6] if n else words:
        ents += ["s <- \"%s\"" % w, show("IS_NUM(s)"), show("STR_TO_NUM(s)"), show("REAL(s)"), show("INTEGER(s)")]
        if n < 3:
            ents += [show('IS_NUM("%s")' % w), show('STR_TO_NUM("%s")' % w), show('STR_TO_NUM("%s") = REAL("%s")' % (w, w)), show("STR_TO_NUM(s & \"\") + 0.5")]
    env.session(ents, pure=True, each=True)


def points(env, i):
    """Every text of digits and points up to length 6 (digits 0, 5 and one more): accepted numerals denote their value, exactly."""
    n = 1 + i % 6
    d = "0" + "5" + "1379"[i // 6]
    src, want = ["DECLARE s: STRING"], []
    for w in ("".join(t) for t in itertools.product(d + ".", repeat=n)):
        if w.count(".") > 1 or w == ".":
            continue
        full = ("0" if w[0] == "." else "") + w + ("0" if w[-1] == "." else "" if "." in w else ".0")
        src += ['s <- "%s"' % w, "OUTPUT IS_NUM(s), STR_TO_NUM(s) = %s, REAL(s) = %s%s" % (full, full, "" if "." in w else ', " ", INTEGER(s)')]
        want.append("TRUETRUETRUE" + ("" if "." in w else " %d" % int(w)))
    check_lines(env, "\n".join(src) + "\n", want)


def longnum(env, i):
    """Longer numerals and near-numerals; the value is compared exactly, not through its printed form."""
    r = env.rng
    ents = []
    for _ in range(25):
        d = "".join(r.choice("0123456789") for _ in range(r.randint(1, 18)))
        k = r.randint(0, len(d))
        f = d[:k] + "." + d[k:]
        # the exact real value is rebuilt by literals: both sides must be the same double
        full = (f[:-1] + ".0" if f.endswith(".") else f) if not f.startswith(".") else "0" + f
        ents += [show('IS_NUM("%s")' % d), show('INTEGER("%s")' % d), show('REAL("%s") = %s.0' % (d, d)), show('STR_TO_NUM("%s") = %s.0' % (d, d)),
                 show('IS_NUM("%s")' % f), show('STR_TO_NUM("%s") = %s' % (f, full)), show('REAL("%s") = %s' % (f, full)), show('STR_TO_NUM("%s")' % f)]
        j = r.randint(0, len(d))
        bad = d[:j] + r.choice(("x", "..", " ", ",", "-", "+", "'", "/", "\\\\", "_", "e", "%", "#", "..5", "-1", "E")) + d[j:]
        ents += [show('IS_NUM("%s")' % bad), show('STR_TO_NUM("%s")' % bad), show('REAL("%s")' % bad), show('INTEGER("%s")' % bad)]
        bad = r.choice(("abc", "12x", "x12", "1.2.3", "..", "-", "--1", "1-", "1 2", "TRUE", "one", "1,000", "$5", "1/2", "5%", "a" * 30, "1" * 17 + "z"))
        ents += [show('IS_NUM("%s")' % bad), show('STR_TO_NUM("%s")' % bad), show('REAL("%s")' % bad), show('INTEGER("%s")' % bad)]
        k = r.randint(0, len(d))
        # a zero character is a character like any other
        bad = '"%s" & CHR(0)%s' % (d[:k], r.choice(("", ' & "%s"' % d[k:], ' & "x"', ' & "." & CHR(0) & "5"', " & CHR(0)")))
        if r.random() < 0.2:
            bad = 'CHR(0) & "%s"' % d
        ents += [show('IS_NUM(%s)' % bad), show('STR_TO_NUM(%s)' % bad), show('REAL(%s)' % bad), show('INTEGER(%s)' % bad), show('LENGTH(%s)' % bad)]
    env.session(ents, pure=True, each=True)


def roundtrip(env, i):
    """NUM_TO_STR converts back to the same number; INT rounds toward minus infinity. Judged on printed facts only."""
    r = env.rng
    src, want = ["DECLARE x: REAL", "DECLARE k: INTEGER", "DECLARE s: STRING"], []
    for j in range(60):
        digits = r.choice((0, 1, 2, 3, 4, 5, 6, 6))
        mag = r.choice((1, 10, 1000, 10 ** 6, 10 ** 9, 10 ** 12))
        a, f = r.randrange(mag), r.randrange(10 ** digits) if digits else 0
        if r.random() < 0.2:
            f = r.choice((0, 1, 10 ** digits - 1)) if digits else 0
        num = "%d.%s" % (a, ("%0*d" % (digits, f)) if digits else "0")
        neg = r.random() < 0.4
        src += ["x <- %s%s" % ("-" if neg else "", num), "s <- NUM_TO_STR(x)", 'OUTPUT STR_TO_NUM(s) = x, REAL(NUM_TO_STR(x)) = x, s']
        v = float(num) * (-1 if neg else 1)
        t = ("%f" % v).rstrip("0")
        t = t[:-1] if t.endswith(".") else t
        want.append("TRUETRUE" + t)
        fl = int(v // 1)
        src += ["OUTPUT INT(x), \" \", INT(%s%s), \" \", INT(x) <= x AND x < INT(x) + 1" % ("-" if neg else "", num)]
        want.append("%d %d TRUE" % (fl, fl))
    import math
    from decimal import Decimal
    for _ in range(30):
        n = r.choice((0, 1, -1, 2, -2, 3, 10, 100, 65536, -65536, 2 ** 31, 2 ** 52 - 1, r.randint(-10 ** 6, 10 ** 6)))
        v = r.choice((math.nextafter(n, 1e300), math.nextafter(n, -1e300), n + 1e-10, n - 1e-10, n + 1e-7, n - 1e-7, n + 0.5, n - 0.5, n + 0.999999999, float(n)))
        if abs(v) < 1e-300:
            v = 1e-300 if v > 0 else -1e-300 if v < 0 else 0.0
        t = format(Decimal(abs(v)), "f")
        src += ["x <- %s%s" % ("-" if v < 0 else "", t if "." in t else t + ".0"), 'OUTPUT INT(x), " ", INT(x + 0.0)']
        want.append("%d %d" % (math.floor(v), math.floor(v)))
    for a in (0, 1, -1, 7, 10, 100, 1000000, -120, 5000000000, 900719925474099200):
        src += ["k <- %d" % a, "OUTPUT NUM_TO_STR(k), \" \", STR_TO_NUM(NUM_TO_STR(k)) = k, \" \", INT(k)", "x <- k", "OUTPUT INT(x), INT(-x), INT(x / 10)"]
        want += ["%d TRUE %d" % (a, a), "%d%d%d" % (a, -a, int((float(a) / 10) // 1))]
    check_lines(env, "\n".join(src) + "\n", want)


def check_lines(env, src, want, **kw):
    r = env.run(src, **kw)
    env.expect(r.kind == "ok", "outcome %s, expected ok" % r.kind)
    got = r.out.decode("latin-1").split("\n")
    for k, (g, w) in enumerate(zip(got, want)):
        env.expect(g == w, "output line %d: got %r, expected %r" % (k + 1, g, w))
    env.expect(len(got) == len(want) + 1, "%d output lines, expected %d" % (len(got) - 1, len(want)))
    for k, w in enumerate(want):
        env.ok((env.family.name, env.index, k))
    return r


RANDS = [0, 1, 2, 3, 10, 100, 65536, 2147483647, 4294967296, 10 ** 15, 9223372036854775807]


def rand(env, i):
    """RAND(x) stays in 0..x; many draws of one bound."""
    r = env.rng
    x = RANDS[i] if i < len(RANDS) else r.randrange(1, 10 ** r.randint(1, 18))
    n = 100000 if env.tier == "thorough" or 0 < x <= 3 else 20000
    src = ["DECLARE bad, low, same: INTEGER", "DECLARE v, last: REAL", "DECLARE x: INTEGER", "x <- %d" % x, "last <- -1.0", "FOR k <- 1 TO %d" % n, "  v <- RAND(x)",
           "  IF v < 0 OR v > x THEN", "    bad <- bad + 1", "  ENDIF", "  IF v * 2 < x THEN", "    low <- low + 1", "  ENDIF", "  IF v = last THEN", "    same <- same + 1", "  ENDIF",
           "  last <- v", "NEXT k", 'OUTPUT bad, " ", RAND(x) >= 0 AND RAND(%d) <= x, " ", low, " ", same' % x]
    res = env.run("\n".join(src) + "\n", steps=20 * n, timeout=60)
    if res.kind in ("timeout", "budget"):
        env.inconclusive(res.kind)
        return
    env.expect(res.kind == "ok", "outcome %s" % res.kind)
    f = res.out.decode("latin-1").split()
    env.expect(len(f) == 4 and f[0] == "0" and f[1] == "TRUE", "RAND(%d) leaves 0..%d (%s of %d draws)" % (x, x, f[:1], n))
    env.events["RAND draws"] = env.events.get("RAND draws", 0) + n
    if 0 < int(f[2]) < n:
        env.events["RAND arguments with draws in both halves"] = env.events.get("RAND arguments with draws in both halves", 0) + 1
    env.ok(("rand", x), n=n)


def big(env, i):
    """Long strings: positions near the end, whole-string copies, laws."""
    r = env.rng
    n = r.choice((100, 255, 256, 257, 1000, 4095, 4096, 65536, 99999))
    src = ["s <- \"\"", "p <- \"abcdefgXYZ\"", "WHILE LENGTH(s) < %d" % n, "  IF LENGTH(p) <= %d - LENGTH(s) THEN" % n, "    s <- s & p", "    p <- p & p", "  ELSE",
           "    s <- s & LEFT(p, %d - LENGTH(s))" % n, "  ENDIF", "ENDWHILE", "OUTPUT LENGTH(s)", "DECLARE k: INTEGER"]
    for _ in range(12):
        k = r.choice((0, 1, n, n - 1, r.randint(0, n)))
        src += ["k <- %d" % k, "OUTPUT LEFT(s, k) & RIGHT(s, LENGTH(s) - k) = s", "OUTPUT LENGTH(LEFT(s, k)), \" \", LENGTH(RIGHT(s, k))"]
        if k < n:
            src += ["OUTPUT MID(s, k + 1, %d - k) = RIGHT(s, %d - k), MID(s, 1, k) = LEFT(s, k), MID(s, k + 1, 1)" % (n, n)]
    src += ["OUTPUT LENGTH(TO_UPPER(s)), TO_LOWER(s) = TO_LOWER(TO_UPPER(s)), RIGHT(TO_UPPER(s), 5)"]
    last = r.choice(("MID(s, %d, 2)" % n, "MID(s, %d, 1)" % (n + 1), "LEFT(s, %d)" % (n + 1), "RIGHT(s, %d)" % (n + 1), "MID(s, 2, %d)" % n, "LEFT(s, -1)", "MID(s, 0, 3)"))
    src += ["OUTPUT " + last]
    env.differential("\n".join(src) + "\n")


TYPED = {"INTEGER": ["3", "0", "-2"], "REAL": ["2.5", "3.0"], "CHAR": ["'a'", "'7'"], "STRING": ['"abc"', '"7"', '""', '"x"'], "BOOLEAN": ["TRUE"],
         "DATE": ["1/2/2003"], "ENUM": ["ev2"], "REC": ["rec"], "ARR": ["arr"], "undefined": ["nosuch"]}
FNS = {"LENGTH": 1, "LEFT": 2, "RIGHT": 2, "MID": 3, "TO_UPPER": 1, "TO_LOWER": 1, "LCASE": 1, "UCASE": 1, "ASC": 1, "CHR": 1, "IS_NUM": 1, "STR_TO_NUM": 1,
       "NUM_TO_STR": 1, "INT": 1}


def argtypes(env, i):
    """Every built-in with every argument type and wrong argument counts."""
    fn = sorted(FNS)[i]
    ents = ["TYPE ET = (ev1, ev2)", "TYPE RT\n  DECLARE f: INTEGER\nENDTYPE", "DECLARE rec: RT", "DECLARE arr: ARRAY[1:2] OF INTEGER"]
    good = {"LEFT": ['"abc"', "2"], "RIGHT": ['"abc"', "2"], "MID": ['"abc"', "2", "1"]}.get(fn, ["1"])
    for p in range(FNS[fn]):
        for t, es in TYPED.items():
            for e in es:
                a = list(good)
                a[p] = e
                ents.append(show("%s(%s)" % (fn, ", ".join(a))))
    for n in range(0, 5):
        if n != FNS[fn]:
            ents.append(show("%s(%s)" % (fn, ", ".join((good * 4)[:n]))))
    ents += ["OUTPUT \"still here\""]
    env.session(ents, pure=True, each=True)


def compose(env, i):
    """Random compositions of the string functions."""
    r = env.rng

    def s(d):
        if d == 0 or r.random() < 0.2:
            return r.choice(('"Hello World"', "v", "w", '""', "'q'", '"aB9"', "CHR(%d)" % r.randint(32, 126)))
        k = r.randrange(9)
        if k < 2:
            return "%s(%s, %s)" % (r.choice(("LEFT", "RIGHT")), s(d - 1), n(d - 1))
        if k == 2:
            return "MID(%s, %s, %s)" % (s(d - 1), n(d - 1), n(d - 1))
        if k == 3:
            return "%s(%s)" % (r.choice(("TO_UPPER", "TO_LOWER")), s(d - 1))
        if k == 4:
            return "NUM_TO_STR(%s)" % n(d - 1)
        if k == 5:
            return "%s(%s)" % (r.choice(("UCASE", "LCASE")), r.choice(("c", "'z'", "CHR(%s + 64)" % n(0))))
        return "(%s & %s)" % (s(d - 1), s(d - 1))

    def n(d):
        if d <= 0 or r.random() < 0.4:
            return r.choice(("0", "1", "2", "3", "k", "4", "LENGTH(v)", "7"))
        k = r.randrange(5)
        if k == 0:
            return "LENGTH(%s)" % s(d - 1)
        if k == 1:
            return "(%s %s %s)" % (n(d - 1), r.choice("+-"), n(d - 1))
        if k == 2:
            return "INT(%s / 2)" % n(d - 1)
        if k == 3:
            return "ASC(%s) MOD 8" % r.choice(("c", "'k'", "UCASE(c)"))
        return "INT(STR_TO_NUM(NUM_TO_STR(%s)))" % n(d - 1)
    ents = ['v <- "The Quick brown"', 'w <- "42.5"', "DECLARE c: CHAR", "c <- 'm'", "k <- 5"]
    for _ in range(40):
        x = r.random()
        ents.append(show(s(3)) if x < 0.7 else show(n(3)) if x < 0.85 else "%s <- %s" % (r.choice("vw"), s(2)))
        if x >= 0.85:
            ents.append(show(ents[-1][0]))
    env.session(ents, pure=True, each=True)


CHECK = Check("C17", [
    scale.family("C17", 480, 9600),
    Family("substrings", substrings, 3 * len(STR), about="exhaustive positions/lengths around each string, and 64-bit extremes", chunk=1),
    Family("small", small, (len(SMALL) + 7) // 8, about="exhaustive: strings up to length 4 over six characters x every (i, n) around them", chunk=4),
    Family("case", case, 20, 400, about="case conversion over all bytes"),
    Family("chars", chars, 8, about="every character code"),
    Family("numerals", numerals, 30, 36, about="exhaustive short numerals and near-numerals (length <= 4 quick, <= 5 thorough)", chunk=1),
    Family("points", points, 24, about="every digit/point text up to length 6", chunk=1),
    Family("longnum", longnum, 150, 4000, about="random numerals to 18 digits, near-numerals"),
    Family("roundtrip", roundtrip, 120, 4000, about="NUM_TO_STR round trip, INT floor"),
    Family("rand", rand, 24, 200, about="bounds of RAND: 20000 to 100000 draws each", chunk=1),
    Family("big", big, 60, 1500, about="long strings"),
    Family("argtypes", argtypes, len(FNS), about="every argument type and count"),
    Family("compose", compose, 200, 8000, about="random compositions"),
], "A case is one built-in application whose printed result (or runtime error) was observed, distinct by entry text.",
    assumptions=["ASCII case rules; codes above 127 pass through unchanged", "not judged: numerals in forms strtod accepts beyond decimal digits and '.', "
                 "exponents excepted; RAND of a negative number; IS_NUM of '' and '.'"])
