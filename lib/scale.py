"""Programs in which one dimension is large: sizes around powers of two, long chains, many declarations, huge indices.
Narrow counters, fixed buffers and growth thresholds show here and nowhere else. Judged by the reference model."""
from harness import Family

TYPES = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING"]


def size(r, hi, lo=1):
    if r.random() < 0.65:
        c = [p + d for e in range(3, 18) for p in (1 << e,) for d in (-1, 0, 1, 2) if lo <= p + d <= hi]
        c += [hi] + [10 ** e + d for e in (1, 2, 3, 4, 5) for d in (-1, 0, 1) if lo <= 10 ** e + d <= hi]
        return r.choice(c)
    import math
    return min(hi, max(lo, int(math.exp(r.uniform(math.log(max(lo, 1)), math.log(hi))))))


BIG = sorted({s * ((1 << e) + d) for e in (7, 8, 15, 16, 31, 32, 52, 53, 62) for d in (-2, -1, 0, 1, 2) for s in (1, -1)}
             | {(1 << 63) - 1, -(1 << 63) + 1, (1 << 63) - 2, (1 << 63) - 1000})


def lit(v):
    return "-%d" % -v if v < 0 else str(v)


def P(*lines):
    return "\n".join(lines) + "\n"


# ------------------------------------------------------------------ C02

def chain(r):
    n = size(r, 900, 8)
    k = r.randrange(5)
    if k == 0:
        e = "1"
        for j in range(n):
            e += r.choice((" + ", " - ")) + str(r.randint(0, 9) * 10 ** r.randint(0, 8))
        return P("OUTPUT " + e, "x <- " + e, "OUTPUT x")
    if k == 1:
        e = "7"
        for j in range(n):
            o = r.choice((" + ", " - ", " * ", " DIV ", " MOD "))
            e += o + str(r.randint(1, 3))
        return P("OUTPUT " + e)
    if k == 2:
        e = '"<"'
        for j in range(n):
            e += " & " + r.choice(('"ab"', "'c'", '"%d"' % j, '""'))
        return P("s <- " + e, "OUTPUT s", "OUTPUT LENGTH(s)", "OUTPUT s = s & \"\", s < s & \"x\"")
    if k == 3:
        e = "TRUE"
        for j in range(n):
            e += r.choice((" AND ", " OR ")) + r.choice(("TRUE", "FALSE", "b"))
        return P("b <- TRUE", "OUTPUT " + e, "b <- FALSE", "OUTPUT " + e)
    e = "r"
    for j in range(n):
        e += r.choice((" + ", " - ", " * ")) + r.choice(("0.5", "2", "1.25", "0", "1"))
    return P("r <- 1.5", "OUTPUT " + e)


def parens(r):
    n = size(r, 150, 3)
    k = r.randrange(4)
    if k == 0:
        return P("OUTPUT 1 + " + "(" * n + "2 + 3" + ")" * n + " * 2")
    if k == 1:
        return P("x <- 5", "OUTPUT 0 " + "- (x + 1 " * n + ")" * n)
    if k == 2:
        return P("b <- TRUE", "OUTPUT " + "NOT (" * n + "b" + ")" * n)
    return P("s <- \"q\"", "OUTPUT " + "(\"a\" & " * n + "s" + ") = s & \"\"" + ")" * (n - 1) if n == 1 else "OUTPUT " + "(\"a\" & " * n + "s" + ")" * n)


def minus(r):
    n = size(r, 120, 2)
    return P("x <- 5", "OUTPUT 1 + " + "-(" * n + "x" + ")" * n, "y <- " + "-(" * n + "2.5" + ")" * n, "OUTPUT y")


def bigstr(r):
    n = size(r, 66000, 100)
    src = ["s <- \"ab#c\"", "WHILE LENGTH(s) * 2 <= %d DO" % n, "  s <- s & s", "ENDWHILE", "s <- s & LEFT(s, %d - LENGTH(s))" % n, "OUTPUT LENGTH(s)", "t <- s",
           "OUTPUT s = t, s <> t", "t <- LEFT(s, LENGTH(s) - 1) & \"z\"", "OUTPUT s = t, s <> t", "k <- %d" % r.randrange(n - 1), "t <- LEFT(s, k) & \"\\n\" & RIGHT(s, LENGTH(s) - k - 1)", "OUTPUT s = t, s <> t, LENGTH(t)", "t <- s & \"x\"", "OUTPUT s = t, t <> s, LENGTH(t)",
           "OUTPUT RIGHT(t, 3), MID(s, %d, 1)" % n]
    if n < 5000:
        src.append("OUTPUT s")
    return P(*src)


def literals(r):
    n = size(r, 20000, 30)
    k = r.randrange(3)
    if k == 0:
        s = "".join(r.choice("abc xyz0123#;%") for _ in range(n))
        return P("s <- \"%s\"" % s, "OUTPUT s", "OUTPUT LENGTH(s)")
    v = "v" + "".join(r.choice("abcxyz_09") for _ in range(min(n, 3000)))
    w = v[:-1] + ("q" if v[-1] != "q" else "r")
    return P("DECLARE %s, %s: INTEGER" % (v, w), "%s <- 5" % v, "%s <- 7" % w, "OUTPUT %s, %s, %s + %s" % (v, w, v, w), "OUTPUT %s" % (v[:31] if len(v) > 31 else v + "x"))


def manyout(r):
    n = size(r, 3000, 10)
    return P(*["OUTPUT %d + %d, \" \", %d" % (j, r.randint(0, 99999), j) for j in range(n)])


def longlist(r):
    n = size(r, 1500, 10)
    return P("x <- 1", "OUTPUT " + ", ".join(r.choice(("x", "%d" % j, "\"s%d\"" % j, "x + %d" % j, "TRUE")) for j in range(n)))


def bigints(r):
    src = []
    for _ in range(60):
        a, b = r.choice(BIG), r.choice(BIG)
        o = r.choice(("+", "-", "*", "DIV", "MOD", "=", "<", ">=", "<>", "&"))
        c = {"+": a + b, "-": a - b, "*": a * b}.get(o, 0)
        if abs(c) >= 1 << 63 or b == 0:
            continue
        if o in ("DIV", "MOD") and (a < 0 or b < 0):
            a, b = abs(a), abs(b)
        src += ["x <- %s" % lit(a), "y <- %s" % lit(b), "OUTPUT x %s y" % o, "OUTPUT (%s) %s (%s)" % (lit(a), o, lit(b))]
        # neighbours, which only a comparison of the whole 64 bits tells apart
        b = max(-(1 << 63) + 1, min((1 << 63) - 1, a + r.choice((-2, -1, 0, 1, 2, 1 << 32, -(1 << 32)))))
        src += ["y <- %s" % lit(b), "OUTPUT " + ", ".join("x %s y" % c for c in ("=", "<>", "<", "<=", ">", ">="))]
    return P(*src)


# ------------------------------------------------------------------ C03

def for_many(r):
    n = size(r, 9000, 8)
    st = r.choice((1, 1, 2, 3, -1, -3, 255, 257, 65536, 4294967296))
    a = r.choice((1, 0, -5, r.choice(BIG) // 4))
    b = a + st * n + r.choice((0, 0, 1, -1))
    return P("c <- 0", "FOR i <- %s TO %s%s" % (lit(a), lit(b), "" if st == 1 and r.random() < .5 else " STEP " + lit(st)), "  c <- c + 1", r.choice(("", "  IF c = 3 THEN", ))
             + "" if False else "  d <- i", "NEXT i", "OUTPUT c, \" \", d, \" \", i")


def for_huge(r):
    a = r.choice(BIG)
    k = r.randint(0, 6)
    st = r.choice([1, -1, 2, 7] + [b for b in BIG if b])
    b = a + st * k + r.choice((0, 1, -1, 0))
    lim = (1 << 63) - 1
    if abs(b) >= lim or abs(b + 2 * st) >= lim or abs(a) >= lim or st == 0:
        return P("FOR i <- 4294967290 TO 4294967300", "  OUTPUT i", "NEXT i", "OUTPUT i")
    return P("FOR i <- %s TO %s STEP %s" % (lit(a), lit(b), lit(st)), "  OUTPUT i", "NEXT i", "OUTPUT i")


def while_many(r):
    n = size(r, 5000, 8)
    if r.random() < .5:
        return P("c <- 0", "WHILE c < %d DO" % n, "  c <- c + 1", "  IF c = %d THEN" % r.randint(1, 2 * n), "    BREAK", "  ENDIF", "ENDWHILE", "OUTPUT c")
    return P("c <- 0", "d <- 0", "REPEAT", "  c <- c + 1", "  IF c MOD 3 = 0 THEN", "    CONTINUE", "  ENDIF", "  d <- d + 1", "UNTIL c >= %d" % n, "OUTPUT c, \" \", d")


def case_many(r):
    n = size(r, 600, 5)
    base = r.choice(BIG) // 2
    step = r.choice((1, 1, 256, 65536, 4294967296))
    src = ["DECLARE x: INTEGER"]
    ks = [r.randrange(n) for _ in range(4)] + [0, n - 1, n, -1]
    body = []
    for j in range(n):
        v = base + j * step
        if r.random() < .8:
            body.append("  %s: OUTPUT \"v%d\"" % (lit(v), j))
        else:
            body.append("  %s TO %s: OUTPUT \"r%d\"" % (lit(v), lit(v + step - 1 - (step > 1)), j))
    body.append("  OTHERWISE: OUTPUT \"none\"")
    for k in ks:
        v = base + k * step + r.choice((0, 0, 0, 1, -1))
        src += ["x <- %s" % lit(v), "CALL go()"]
    return P("DECLARE x: INTEGER", "PROCEDURE go()", "CASE OF x", *body, "ENDCASE", "ENDPROCEDURE", *src[1:])


def case_wide(r):
    """Labels and ranges which coincide with the value only modulo a power of two."""
    src = ["DECLARE x: INTEGER"]
    for _ in range(20):
        v = r.choice(BIG + [0, 1, 5, 200])
        ls = [v + d for e in (8, 16, 32) for d in ((1 << e), -(1 << e)) if abs(v + d) < 1 << 63]
        r.shuffle(ls)
        src += ["x <- " + lit(v), "CASE OF x"]
        for k, l in enumerate(ls):
            src.append("  %s: OUTPUT %d" % (lit(l), k) if r.random() < .6 else "  %s TO %s: OUTPUT %d" % (lit(l), lit(min(l + 3, (1 << 63) - 1)), k))
        src += ["  %s: OUTPUT \"yes\"" % lit(v) if r.random() < .7 else "  OTHERWISE: OUTPUT \"other\"", "ENDCASE"]
    return P(*src)


def elseif(r):
    n = size(r, 700, 4)
    src = ["PROCEDURE go(x: INTEGER)", "IF x = 0 THEN", "  OUTPUT \"zero\""]
    for j in range(1, n):
        src += ["ELSE IF x = %d THEN" % j, "  OUTPUT \"b%d\"" % j]
    if r.random() < .6:
        src += ["ELSE", "  OUTPUT \"else\""]
    src += ["ENDIF", "ENDPROCEDURE"]
    for k in (0, n - 1, n, r.randrange(n), r.randrange(n), -1, n + 65536):
        src.append("CALL go(%s)" % lit(k))
    return P(*src)


def nest(r):
    n = size(r, 90, 3)
    src, tail = [], []
    for j in range(n):
        k = r.randrange(5)
        ind = ""
        if k == 0:
            src += ["IF d%s0 THEN" % (" >= ")]
            tail.append(["OUTPUT \"e%d\"" % j, "ENDIF"])
        elif k == 1:
            src += ["IF d < 0 THEN", "OUTPUT \"never\"", "ELSE"]
            tail.append(["OUTPUT \"e%d\"" % j, "ENDIF"])
        elif k == 2:
            src += ["FOR i%d <- 1 TO 1" % j]
            tail.append((["BREAK"] if r.random() < .3 else []) + ["NEXT i%d" % j, "OUTPUT i%d" % j])
        elif k == 3:
            src += ["WHILE TRUE DO", "d <- d + 1"]
            tail.append(["BREAK", "ENDWHILE"])
        else:
            src += ["REPEAT"]
            tail.append((["CONTINUE"] if r.random() < .3 else []) + ["UNTIL TRUE", "d <- d + 1"])
    return P("d <- 0", *src, "OUTPUT \"deepest\"", *[l for t in reversed(tail) for l in t], "OUTPUT d")


def longbody(r):
    n = size(r, 1200, 20)
    src = ["c <- 0", "FOR i <- 1 TO 3"]
    at = r.randrange(n)
    for j in range(n):
        src.append("  c <- c + %d" % (j % 7))
        if j == at:
            src += ["  IF i = 2 THEN", "    " + r.choice(("CONTINUE", "BREAK", "OUTPUT c")), "  ENDIF"]
    return P(*src, "NEXT i", "OUTPUT c, \" \", i")


# ------------------------------------------------------------------ C04

def params(r):
    n = size(r, 300, 3)
    ps, args, decl = [], [], []
    mode = "BYVAL"
    ref = []
    for j in range(n):
        w = ""
        if r.random() < .2:
            mode = w = r.choice(("BYVAL", "BYREF"))
        ps.append("%s p%d: %s" % (w, j, "INTEGER"))
        ref.append(mode == "BYREF")
        args.append("g%d" % j if ref[-1] or r.random() < .4 else str(r.randint(0, 99999)))
    for j in range(n):
        decl += ["DECLARE g%d: INTEGER" % j, "g%d <- %d" % (j, j * 3)]
    body = []
    for j in {0, n - 1, r.randrange(n), r.randrange(n), r.randrange(n)}:
        body += ["  OUTPUT p%d" % j, "  p%d <- p%d + 1000" % (j, j), "  OUTPUT p%d, g%d" % (j, j)]
    tot = "  t <- " + " + ".join("p%d" % j for j in range(n))
    calls = ["CALL f(%s)" % ", ".join(args)]
    bad = r.random()
    if bad < .2:
        calls.append("CALL f(%s)" % ", ".join(args[:-1]))
    elif bad < .4:
        calls.append("CALL f(%s)" % ", ".join(args + ["1"]))
    elif bad < .5:
        calls.append("CALL f(%s)" % ", ".join(args[:-1] + ["TRUE"]))
    return P(*decl, "PROCEDURE f(%s)" % ", ".join(ps), *body, tot, "  OUTPUT t", "ENDPROCEDURE", calls[0], "s <- 0", "s <- " + " + ".join("g%d" % j for j in range(n)), "OUTPUT s", *calls[1:])


def many_procs(r):
    n = size(r, 400, 4)
    src = []
    for j in range(n):
        if j % 2:
            src += ["PROCEDURE p%d(x: INTEGER)" % j, "  OUTPUT \"p%d \", x" % j, "ENDPROCEDURE"]
        else:
            src += ["FUNCTION p%d(x: INTEGER) RETURNS INTEGER" % j, "  RETURN x + %d" % j, "ENDFUNCTION"]
    for j in [0, n - 1, n] + [r.randrange(n) for _ in range(8)]:
        src.append(("CALL p%d(%d)" if j % 2 else "OUTPUT p%d(%d)") % (j, r.randint(0, 999)))
    return P(*src)


def deep(r):
    n = size(r, 250, 5)
    k = r.randrange(4)
    if k == 0:
        return P("FUNCTION f(n: INTEGER) RETURNS INTEGER", "  DECLARE l: INTEGER", "  l <- n * 2", "  IF n = 0 THEN", "    RETURN 0", "  ENDIF", "  t <- f(n - 1)", "  IF l <> n * 2 THEN", "    OUTPUT \"lost\"", "  ENDIF",
                 "  RETURN t + l", "ENDFUNCTION", "OUTPUT f(%d)" % n)
    if k == 1:
        return P("DECLARE g: INTEGER", "PROCEDURE p(n: INTEGER, BYREF x: INTEGER)", "  x <- x + 1", "  IF n > 0 THEN", "    CALL p(n - 1, x)", "  ENDIF", "  x <- x + n", "ENDPROCEDURE", "CALL p(%d, g)" % n, "OUTPUT g")
    if k == 2:
        return P("DECLARE a: ARRAY[0:%d] OF INTEGER" % n, "PROCEDURE p(n: INTEGER, BYREF x: INTEGER)", "  DECLARE v: INTEGER", "  v <- n", "  x <- n * n", "  IF n > 0 THEN", "    CALL p(n - 1, a[n - 1])", "  ENDIF",
                 "  x <- x + v", "ENDPROCEDURE", "CALL p(%d, a[%d])" % (n, n), "s <- 0", "FOR i <- 0 TO %d" % n, "  s <- s + a[i] * (i + 1)", "NEXT i", "OUTPUT s")
    return P("TYPE T", "  DECLARE n: INTEGER", "  DECLARE s: STRING", "ENDTYPE", "FUNCTION f(t: T) RETURNS T", "  IF t.n >= %d THEN" % n, "    RETURN t", "  ENDIF", "  DECLARE u: T", "  u <- t", "  u.n <- u.n + 1", "  u.s <- u.s & \"x\"",
             "  u <- f(u)", "  IF t.n + 1 > u.n OR LENGTH(t.s) <> t.n THEN", "    OUTPUT \"changed\"", "  ENDIF", "  RETURN u", "ENDFUNCTION", "DECLARE v, w: T", "w <- f(v)", "OUTPUT w.n, LENGTH(w.s), v.n, LENGTH(v.s)")


def many_calls(r):
    n = size(r, 3000, 20)
    return P("DECLARE g: INTEGER", "PROCEDURE p(BYREF x: INTEGER, v: INTEGER)", "  DECLARE l: INTEGER", "  l <- l + v", "  x <- x + l", "ENDPROCEDURE", "FUNCTION f(x: INTEGER) RETURNS INTEGER", "  RETURN x * 2", "ENDFUNCTION",
             "FOR i <- 1 TO %d" % n, "  CALL p(g, i)", "  h <- f(g)", "NEXT i", "OUTPUT g, \" \", h")


def many_locals(r):
    n = size(r, 500, 5)
    src = ["DECLARE g%d: INTEGER" % j for j in range(n)] + ["g%d <- %d" % (j, j + 1) for j in range(n)]
    loc = sorted(r.sample(range(n), max(1, n // 2)))
    src += ["PROCEDURE p()"] + ["  DECLARE g%d: STRING" % j for j in loc] + ["  g%d <- \"s%d\"" % (j, j) for j in loc]
    probe = [r.randrange(n) for _ in range(12)] + [0, n - 1]
    src += ["  OUTPUT g%d" % j for j in probe] + ["  g%d <- %s" % (j, "\"z\"" if j in loc else "-5") for j in probe[:4]] + ["ENDPROCEDURE", "CALL p()"]
    src += ["OUTPUT g%d" % j for j in probe]
    src += ["t <- " + " + ".join("g%d" % j for j in range(n)), "OUTPUT t"]
    return P(*src)


# ------------------------------------------------------------------ C05

def many_vars(r):
    n = size(r, 800, 5)
    val = {"INTEGER": lambda: str(r.choice(BIG[:-1]) if r.random() < .3 else r.randint(-99999, 99999)), "REAL": lambda: "%d.%d" % (r.randint(0, 99), r.randint(0, 9999)), "BOOLEAN": lambda: r.choice(("TRUE", "FALSE")),
           "CHAR": lambda: "'%s'" % r.choice("abcXYZ09"), "STRING": lambda: "\"s%d\"" % r.randint(0, 99999)}
    ts = [r.choice(TYPES) for _ in range(n)]
    src = ["DECLARE v%d: %s" % (j, t) for j, t in enumerate(ts)]
    src += ["v%d <- %s" % (j, val[t]()) for j, t in enumerate(ts)]
    probe = list(range(n)) if n < 40 else [0, n - 1] + [r.randrange(n) for _ in range(30)]
    src += ["OUTPUT v%d" % j for j in probe]
    j = r.randrange(n)
    bad = r.choice([t for t in TYPES if (t, ts[j]) not in (("INTEGER", "REAL"), ("CHAR", "STRING"), ("STRING", "CHAR")) and t != ts[j]])
    src += ["OUTPUT \"before\"", "v%d <- %s" % (j, val[bad]())]
    return P(*src)


def long_input(r):
    n = size(r, 70000, 100)
    s = "".join(r.choice("abcdef 0123;#") for _ in range(n)).strip() + "e"
    z = "0" * r.choice((0, 1, 10, 30)) + str(abs(r.choice(BIG[:-2])))
    return (P("DECLARE s, t: STRING", "DECLARE i: INTEGER", "INPUT s", "INPUT i", "INPUT t", "OUTPUT LENGTH(s), \" \", i, \" \", t", "OUTPUT LEFT(s, 10), RIGHT(s, 10)", "OUTPUT s = t"), s + "\n" + z + "\n" + "tail\n")


def many_inputs(r):
    n = size(r, 2000, 5)
    ls = [r.choice(("%d" % r.randint(-9999, 9999), "x%d" % j, "1.5", "", "TRUE", "abc")) for j in range(n)]
    return (P("DECLARE s: STRING", "DECLARE i: INTEGER", "DECLARE q: REAL", "FOR k <- 1 TO %d" % n, "  CASE OF k", "    3: INPUT i", "    OTHERWISE: INPUT s", "  ENDCASE", "  IF k MOD 97 = 0 THEN", "    OUTPUT k, s", "  ENDIF", "NEXT k", "OUTPUT s, \" \", i",
              "INPUT s", "OUTPUT s"), "".join(l + "\n" for l in ls))


def wide_stores(r):
    """64-bit values through every store; a REAL only ever receives an INTEGER by value."""
    src = ["DECLARE i, j: INTEGER", "DECLARE q: REAL", "DECLARE a: ARRAY[1:2] OF INTEGER", "TYPE T", "  DECLARE n: INTEGER", "  DECLARE x: REAL", "ENDTYPE", "DECLARE t: T", "TYPE PI = ^INTEGER", "DECLARE p: PI", "p <- ^j",
           "FUNCTION f(n: INTEGER) RETURNS INTEGER", "  RETURN n", "ENDFUNCTION", "FUNCTION g(n: REAL) RETURNS REAL", "  RETURN n", "ENDFUNCTION", "PROCEDURE b(BYREF n: INTEGER, v: INTEGER)", "  n <- v", "ENDPROCEDURE"]
    inp = ""
    for _ in range(14):
        v = r.choice(BIG)
        src += ["i <- " + lit(v), "a[2] <- i", "t.n <- a[2]", "p^ <- t.n", "OUTPUT i, \" \", a[2], \" \", t.n, \" \", p^, \" \", j, \" \", f(i)", "CALL b(a[1], j)", "CALL b(t.n, a[1])", "OUTPUT a[1], \" \", t.n", "INPUT j", "OUTPUT j, p^"]
        inp += lit(r.choice(BIG)) + "\n"
        if abs(v) < 1 << 53:
            src += ["q <- i", "t.x <- q", "OUTPUT q = i, t.x = i, g(i) = i"]
    return P(*src), inp


# ------------------------------------------------------------------ C06

def array1(r):
    n = size(r, 66000, 5)
    lo = r.choice((0, 1, -5, -n // 2, -n, 100000, r.choice(BIG) // 2))
    hi = lo + n - 1
    t = r.choice(("INTEGER", "INTEGER", "BOOLEAN", "STRING", "CHAR", "REAL"))
    v = {"INTEGER": "%d", "REAL": "%d.5", "BOOLEAN": "TRUE", "CHAR": "'x'", "STRING": "\"s%d\""}[t]
    src = ["DECLARE a, b: ARRAY[%s:%s] OF %s" % (lit(lo), lit(hi), t)]
    ks = [lo, hi, lo + 1, hi - 1] + [lo + (1 << e) + d for e in (7, 8, 15, 16) for d in (-1, 0, 1) if lo + (1 << e) + d <= hi] + [r.randint(lo, hi) for _ in range(6)]
    ks = [min(hi, max(lo, k)) for k in ks]
    for c, k in enumerate(ks):
        src.append("a[%s] <- %s" % (lit(k), v % c if "%" in v else v))
    src += ["OUTPUT a[%s]" % lit(k) for k in ks]
    for k in ks:
        for e in (8, 16):
            for q in (k + (1 << e), k - (1 << e), k + 1, k - 1):
                if lo <= q <= hi and r.random() < .3:
                    src.append("OUTPUT a[%s]" % lit(q))
    if n < 1200:
        src += ["FOR i <- %s TO %s" % (lit(lo), lit(hi)), "  OUTPUT a[i]", "NEXT i"]
    if r.random() < .6:
        src += ["b <- a", "a[%s] <- b[%s]" % (lit(lo), lit(hi))] + ["OUTPUT b[%s]" % lit(k) for k in ks]
    k = r.choice(ks)
    bad = [k + s * (1 << e) for e in (8, 16, 31, 32, 33, 62) for s in (1, -1)] + [lo - 1, hi + 1, k + n, k - n, -k - 1, 1 << 62]
    bad = [q for q in bad if not lo <= q <= hi and abs(q) < 1 << 63]
    q = r.choice(bad)
    src += [r.choice(("OUTPUT a[%s]", "a[%s] <- a[" + lit(lo) + "]")) % lit(q)]
    return P(*src)


def array_n(r):
    d = r.choice((2, 2, 3, 3, 4, 5, 6))
    cap = r.choice((300, 2000, 66000))
    dims = []
    tot = 1
    for j in range(d):
        m = max(1, int((cap / tot) ** (1 / (d - j)) * r.uniform(.5, 1.6))) if j < d - 1 else max(1, cap // tot)
        m = min(m, 66000 // tot)
        lo = r.choice((0, 1, -2, 1000, -70000, r.choice(BIG) // 4))
        dims.append((lo, lo + m - 1))
        tot *= m
    if r.random() < .45:
        # one long dimension among short ones
        d = r.choice((2, 2, 3, 3, 4))
        dims, tot = [], 1
        for j in range(d - 1):
            lo, m = r.choice((0, 1, -2)), r.choice((1, 2, 2, 3))
            dims.append((lo, lo + m - 1))
            tot *= m
        lo, m = r.choice((0, 1, 1, -5, 1000)), size(r, 66000 // tot, 8)
        dims.append((lo, lo + m - 1))
    r.shuffle(dims)
    ix = lambda t: ", ".join(lit(x) for x in t)
    src = ["DECLARE a: ARRAY[%s] OF INTEGER" % ", ".join("%s:%s" % (lit(a), lit(b)) for a, b in dims)]
    pts = [tuple(r.choice((a, b, r.randint(a, b))) for a, b in dims) for _ in range(40)]
    for c, p in enumerate(pts):
        src.append("a[%s] <- %d" % (ix(p), c + 1))
    for p in pts:
        src.append("OUTPUT a[%s]" % ix(p))
        j = r.randrange(d)
        q = list(p)
        q[j] = min(dims[j][1], max(dims[j][0], q[j] + r.choice((1, -1))))
        src.append("OUTPUT a[%s]" % ix(q))
    q = list(r.choice(pts))
    j = r.randrange(d)
    q[j] = r.choice((dims[j][0] - 1, dims[j][1] + 1, q[j] + (1 << 32), q[j] + (1 << 16) * 16, q[j] - (1 << 32)))
    src.append("OUTPUT a[%s]" % ix(q) if r.random() < .5 else "a[%s] <- 1" % ix(q))
    return P(*src)


def array_wide(r):
    """The strides themselves pass 2^16: the dimensions before the last one have more than 65536 elements together."""
    dims = [(1, a) for a in r.choice(((65536, 2), (65537, 2), (70000, 2), (65535, 3), (32768, 2, 2), (256, 256, 2), (300, 220, 2), (257, 257, 2), (2, 40000, 2), (16, 16, 257, 2)))]
    dims = [(a + o, b + o) for (a, b) in dims for o in (r.choice((0, 0, -1, -300)),)]
    ix = lambda t: ", ".join(lit(x) for x in t)
    pts = []
    for p in {tuple(r.choice((a, b, r.randint(a, b))) for a, b in dims) for _ in range(12)}:
        pts += [p[:-1] + (z,) for z in range(dims[-1][0], dims[-1][1] + 1)]
    pts = list(dict.fromkeys(pts))
    src = ["DECLARE a: ARRAY[%s] OF %s" % (", ".join("%s:%s" % (lit(a), lit(b)) for a, b in dims), r.choice(("INTEGER", "REAL")))]
    src += ["a[%s] <- %d" % (ix(p), c + 1) for c, p in enumerate(pts)]
    return P(*src + ["OUTPUT a[%s]" % ix(p) for p in pts])


def array_copy(r):
    """Whole-array assignment of arrays of all magnitudes, also as a record field and with two dimensions."""
    n = r.choice((255, 256, 257, 300, 32767, 32768, 32769, 65535, 65536, 65537, 66000, 70000))
    k = r.randrange(4)
    if k == 0:
        dims, at = "1:%d" % n, lambda j: str(j)
    elif k == 1:
        dims, at = "%d:%d" % (-7, n - 8), lambda j: lit(j - 8)
    else:
        w = r.choice((2, 3, 256, 257))
        h = -(-n // w)
        dims, at, n = "1:%d, 0:%d" % (w, h - 1), lambda j: "%d, %d" % ((j - 1) % w + 1, (j - 1) // w), w * h
    js = sorted({j for j in (1, 2, n, n - 1, n // 2, r.randint(1, n), r.randint(1, n), 255, 256, 257, 32768, 32769, 65535, 65536, 65537) if 1 <= j <= n})
    t = r.choice(("INTEGER", "BOOLEAN", "STRING"))
    v = {"INTEGER": "%d", "BOOLEAN": "TRUE", "STRING": "\"s%d\""}[t]
    if k == 3 and n < 40000:
        src = ["TYPE R", "DECLARE v: ARRAY[%s] OF %s" % (dims, t), "ENDTYPE", "DECLARE a, b: R"]
        A, B, stmt = "a.v", "b.v", r.choice(("b <- a", "b.v <- a.v"))
    else:
        src = ["DECLARE a, b: ARRAY[%s] OF %s" % (dims, t)]
        A, B, stmt = "a", "b", "b <- a"
    put = ["%s[%s] <- %s" % (A, at(j), v % j if "%" in v else v) for j in js]
    out = ["OUTPUT " + ", \" \", ".join("%s[%s]" % (B, at(j)) for j in js)]
    return P(*src + put + [stmt] + out + ["%s[%s] <- %s[%s]" % (A, at(n), A, at(1))] + out)


def array_loop(r):
    n = size(r, 4000, 10)
    m = r.choice((7, 256, 257, 1000003))
    return P("DECLARE a: ARRAY[1:%d] OF INTEGER" % n, "FOR i <- 1 TO %d" % n, "  a[i] <- i * i MOD %d" % m, "NEXT i", "s <- 0", "FOR i <- %d TO 1 STEP -1" % n, "  s <- s + a[i] * i", "NEXT i", "OUTPUT s")


def array_sizes(r):
    """Whole-array assignment between arrays whose bounds coincide modulo 2^8 or 2^16 only."""
    n = r.randint(1, 300)
    lo = r.randint(-5, 5)
    d = r.choice((256, 65536, 1, 512))
    k = r.randrange(3)
    b = (lo, lo + n - 1 + d) if k == 0 else (lo + d, lo + n - 1 + d) if k == 1 else (lo + (1 << 32), lo + n - 1 + (1 << 32))
    return P("DECLARE a: ARRAY[%d:%d] OF INTEGER" % (lo, lo + n - 1), "DECLARE b: ARRAY[%d:%d] OF INTEGER" % b, "DECLARE c: ARRAY[%d:%d] OF INTEGER" % (lo, lo + n - 1), "a[%d] <- 7" % lo, "c <- a", "OUTPUT c[%d]" % lo, "OUTPUT \"now\"",
             r.choice(("b <- a", "a <- b")))


def many_arrays(r):
    n = size(r, 300, 4)
    src = ["DECLARE a%d: ARRAY[%d:%d] OF INTEGER" % (j, j % 7, j % 7 + j % 5) for j in range(n)]
    src += ["a%d[%d] <- %d" % (j, j % 7 + j % 5, j) for j in range(n)]
    src += ["OUTPUT a%d[%d], a%d[%d]" % (j, j % 7 + j % 5, j, j % 7) for j in [r.randrange(n) for _ in range(20)] + [0, n - 1]]
    j = r.randrange(n)
    src.append("OUTPUT a%d[%d]" % (j, j % 7 + j % 5 + 1))
    return P(*src)


# ------------------------------------------------------------------ C07

def many_fields(r):
    n = size(r, 400, 4)
    ts = [r.choice(TYPES) for _ in range(n)]
    val = {"INTEGER": "%d", "REAL": "%d.25", "BOOLEAN": "TRUE", "CHAR": "'q'", "STRING": "\"s%d\""}
    src = ["TYPE T"]
    for j, t in enumerate(ts):
        src.append("  DECLARE f%d: %s" % (j, t) if r.random() < .85 else "  DECLARE f%d: ARRAY[1:%d] OF %s" % (j, j % 3 + 1, t))
    arr = ["ARRAY" in l for l in src[1:]]
    src += ["ENDTYPE", "DECLARE x, y: T", "DECLARE a: ARRAY[1:2] OF T"]
    acc = lambda v, j: "%s.f%d%s" % (v, j, "[%d]" % (j % 3 + 1) if arr[j] else "")
    for j, t in enumerate(ts):
        v = val[t]
        src.append("%s <- %s" % (acc("x", j), v % j if "%" in v else v))
    src += ["y <- x", "a[2] <- y", "PROCEDURE p(z: T)"] + ["  %s <- %s" % (acc("z", j), acc("a[1]", j)) for j in {0, n - 1, n // 2}] + ["  OUTPUT %s, %s" % (acc("z", 0), acc("z", n - 1)), "ENDPROCEDURE", "CALL p(x)"]
    ks = [r.randrange(n) for _ in range(10)] + [0, n - 1, min(n - 1, 255), min(n - 1, 256)]
    for j in ks:
        src += ["OUTPUT %s, \" \", %s, \" \", %s" % (acc("x", j), acc("y", j), acc("a[2]", j)), "%s <- %s" % (acc("x", j), acc("a[1]", j)), "OUTPUT %s, \" \", %s, \" \", %s" % (acc("x", j), acc("y", j), acc("a[2]", j))]
    src.append("OUTPUT x.f%d" % n)
    return P(*src)


def deep_record(r):
    n = size(r, 40, 3)
    src = ["TYPE T0", "  DECLARE v: INTEGER", "  DECLARE w: ARRAY[0:1] OF STRING", "ENDTYPE"]
    for j in range(1, n):
        src += ["TYPE T%d" % j, "  DECLARE i: T%d" % (j - 1), "  DECLARE v: INTEGER", "ENDTYPE"]
    src += ["DECLARE x, y: T%d" % (n - 1)]
    path = lambda v, d: v + ".i" * d
    for d in range(n):
        src.append("%s.v <- %d" % (path("x", d), d + 1))
    src += ["%s.w[1] <- \"deep\"" % path("x", n - 1), "y <- x"]
    for d in range(n):
        src += ["%s.v <- %d" % (path("x", d), 1000 + d)]
    src += ["%s.w[1] <- \"new\"" % path("x", n - 1)]
    src += ["OUTPUT %s.v, \" \", %s.v" % (path("x", d), path("y", d)) for d in range(n)] + ["OUTPUT %s.w[1], %s.w[1], %s.w[0]" % (path("x", n - 1), path("y", n - 1), path("y", n - 1))]
    d = r.randrange(n)
    if d:
        src += ["%s <- %s" % (path("y", d), path("x", d)), "%s.v <- -1" % path("x", d), "OUTPUT %s.v, %s.v, %s.v" % (path("x", d), path("y", d), path("y", d - 1))]
    return P(*src)


def record_array(r):
    n = size(r, 1500, 5)
    return P("TYPE T", "  DECLARE n: INTEGER", "  DECLARE s: STRING", "  DECLARE a: ARRAY[1:2] OF INTEGER", "ENDTYPE", "DECLARE x, y: ARRAY[1:%d] OF T" % n, "FOR i <- 1 TO %d" % n, "  x[i].n <- i", "  x[i].a[2] <- i * 3", "NEXT i", "y <- x", "x[%d].n <- -1" % n,
             "x[1] <- x[%d]" % n, "s <- 0", "FOR i <- 1 TO %d" % n, "  s <- s + y[i].n * 2 + y[i].a[2] + y[i].a[1]", "NEXT i", "OUTPUT s, \" \", x[1].n, \" \", x[1].a[2], \" \", y[1].n, \" \", y[%d].n" % n, "x[1].n <- 5", "OUTPUT x[%d].n" % n)


def many_types(r):
    n = size(r, 300, 4)
    src = []
    for j in range(n):
        src += ["TYPE T%d" % j, "  DECLARE a%d: INTEGER" % j, "  DECLARE b: STRING", "ENDTYPE", "DECLARE x%d, y%d: T%d" % (j, j, j), "x%d.a%d <- %d" % (j, j, j)]
    for j in [r.randrange(n) for _ in range(10)] + [0, n - 1]:
        src += ["y%d <- x%d" % (j, j), "x%d.a%d <- -1" % (j, j), "OUTPUT y%d.a%d, x%d.a%d" % (j, j, j, j)]
    a = r.randrange(n)
    b = (a + r.choice((256, 1, 128))) % n
    src += ["x%d <- x%d" % (a, b), "OUTPUT x%d.a%d" % (a, b)]
    return P(*src)


# ------------------------------------------------------------------ C08

def many_consts(r):
    n = size(r, 700, 4)
    vs = []
    for j in range(n):
        vs.append(r.choice((lit(r.choice(BIG)), "%d.%d" % (r.randint(0, 999), r.randint(0, 999)), "TRUE", "'c'", "\"s%d\"" % j, str(j))))
    src = ["CONSTANT c%d = %s" % (j, v) for j, v in enumerate(vs)]
    src += ["DECLARE v%d: INTEGER" % j for j in range(0, n, 3)]
    src += ["OUTPUT c%d" % j for j in ([r.randrange(n) for _ in range(30)] + [0, n - 1] if n > 60 else range(n))]
    j = r.randrange(n)
    bad = r.choice(("c%d <- %s" % (j, vs[j]), "FOR c%d <- 1 TO 3\n  OUTPUT \"in\"\nNEXT c%d" % (j, j), "INPUT c%d" % j, "CONSTANT c%d = 5" % j, "DECLARE c%d: INTEGER" % j))
    return P(*src, bad, "OUTPUT c%d" % j), "1\n2\n"


def long_const(r):
    n = size(r, 20000, 50)
    s = "".join(r.choice("abc 01") for _ in range(n))
    return P("CONSTANT k = \"%s\"" % s, "PROCEDURE p(x: STRING)", "  x <- x & \"!\"", "  OUTPUT LENGTH(x), LENGTH(k)", "ENDPROCEDURE", "CALL p(k)", "t <- k", "t <- t & k", "OUTPUT LENGTH(k), \" \", LENGTH(t), k = LEFT(t, %d)" % n,
             r.choice(("k <- \"\"", "k <- k", "OUTPUT k")))


def const_deep(r):
    """A constant handed down through many BYREF activations, the deepest of which writes."""
    n = size(r, 200, 3)
    return P("CONSTANT k = 5", "PROCEDURE p(n: INTEGER, BYREF x: INTEGER)", "  IF n = 0 THEN", "    OUTPUT x", "    x <- 6", "    OUTPUT \"written\"", "  ELSE", "    CALL p(n - 1, x)", "  ENDIF", "ENDPROCEDURE", "CALL p(%d, k)" % n, "OUTPUT k")


# ------------------------------------------------------------------ C09

def many_ptrs(r):
    n = size(r, 500, 4)
    src = ["TYPE P = ^INTEGER"] + ["DECLARE v%d: INTEGER\nDECLARE p%d, q%d: P\np%d <- ^v%d" % (j, j, j, j, j) for j in range(n)]
    ks = [r.randrange(n) for _ in range(20)] + [0, n - 1]
    for j in ks:
        src += ["p%d^ <- %d" % (j, j + 5), "OUTPUT v%d" % j, "q%d <- p%d" % (j, j), "v%d <- v%d + 1" % (j, j), "OUTPUT q%d^, p%d^" % (j, j)]
    src += ["t <- " + " + ".join("p%d^" % j for j in range(n)), "OUTPUT t"]
    return P(*src)


def ptr_depth(r):
    n = size(r, 60, 2)
    src = ["TYPE P0 = ^INTEGER", "DECLARE x0, z: INTEGER", "DECLARE p0: P0", "p0 <- ^x0"]
    for j in range(1, n):
        src += ["TYPE P%d = ^P%d" % (j, j - 1), "DECLARE p%d: P%d" % (j, j), "p%d <- ^p%d" % (j, j - 1)]
    top = "p%d%s" % (n - 1, "^" * n)
    src += ["%s <- 42" % top, "OUTPUT x0, %s" % top, "x0 <- 43", "OUTPUT %s" % top, "p0 <- ^z", "z <- 9", "OUTPUT %s" % top, "%s <- %s + 1" % (top, top), "OUTPUT x0, z"]
    src += ["OUTPUT p%d%s" % (n - 1, "^" * (n + 1))]
    return P(*src)


def elem_ptrs(r):
    n = size(r, 3000, 10)
    return P("TYPE P = ^INTEGER", "DECLARE a: ARRAY[1:%d] OF INTEGER" % n, "DECLARE ps: ARRAY[1:%d] OF P" % n, "FOR i <- 1 TO %d" % n, "  ps[i] <- ^a[%d - i]" % (n + 1), "NEXT i", "FOR i <- 1 TO %d" % n, "  ps[i]^ <- i * 7", "NEXT i", "s <- 0",
             "FOR i <- 1 TO %d" % n, "  s <- s + a[i] * i", "NEXT i", "OUTPUT s, \" \", a[1], \" \", a[%d], \" \", ps[%d]^" % (n, n))


def dead_deep(r):
    """Pointers to locals of every activation of a recursion; each is dead after its own return, never before."""
    n = size(r, 150, 3)
    k = r.randint(0, n)
    j = r.randint(0, n)
    return P("TYPE P = ^INTEGER", "DECLARE ps: ARRAY[0:%d] OF P" % n, "PROCEDURE go(n: INTEGER)", "  DECLARE l: INTEGER", "  l <- n * 10", "  ps[n] <- ^l", "  IF n > 0 THEN", "    CALL go(n - 1)", "  ENDIF", "  IF n = %d THEN" % k, "    s <- 0", "    FOR i <- n TO %d" % n,
             "      ps[i]^ <- ps[i]^ + 1", "      s <- s + ps[i]^", "    NEXT i", "    OUTPUT s, l", "    OUTPUT ps[%d]^" % j, "  ENDIF", "  OUTPUT \"\"", "ENDPROCEDURE", "CALL go(%d)" % n, "OUTPUT \"back\"", "OUTPUT ps[%d]^" % r.randint(0, n))


def dead_many(r):
    """A pointer to a returned local, after many other activations have come and gone."""
    n = size(r, 1500, 3)
    return P("TYPE P = ^INTEGER", "DECLARE p, q: P", "PROCEDURE set(x: INTEGER)", "  DECLARE l: INTEGER", "  l <- x", "  p <- ^%s" % r.choice(("l", "x")), "  OUTPUT p^", "ENDPROCEDURE", "PROCEDURE other(x: INTEGER)", "  DECLARE l: INTEGER", "  l <- x + 1", "  c <- l", "ENDPROCEDURE",
             "CALL set(77)", "q <- p", "FOR i <- 1 TO %d" % n, "  CALL other(i)", "NEXT i", "OUTPUT \"now\"", r.choice(("OUTPUT p^", "q^ <- 5", "OUTPUT q^ + 1")))


# ------------------------------------------------------------------ C11

def err_line(r):
    n = size(r, 66000, 5)
    fill = r.choice(("", "// c", "  ", "x <- 1")) if n > 9000 else r.choice(("", "// c", "x <- 1", "OUTPUT 1"))
    if n > 9000 and fill == "x <- 1":
        fill = "//"
    bad = r.choice(("OUTPUT nosuch", "x <- \"s\" + 1", "OUTPUT 1 DIV 0", "CALL nosuch()", "x <- )", "OUTPUT 'ab'", "IF 5 THEN\nENDIF"))
    return P(*[fill] * n, bad, *[fill] * r.choice((0, 3, 300)))


def err_trace(r):
    n = size(r, 250, 3)
    gap = r.choice((0, 1, 40, 300))
    src = [""] * gap
    return P(*src, "FUNCTION f(n: INTEGER) RETURNS INTEGER", "  IF n = 0 THEN", "    RETURN 1 DIV 0", "  ENDIF", *[""] * gap, "  IF n MOD 2 = 0 THEN", "    RETURN f(n - 1)", "  ELSE", "    x <- f(n - 1) + 1", "    RETURN x", "  ENDIF", "ENDFUNCTION", *[""] * gap,
             "OUTPUT \"start\"", "OUTPUT f(%d)" % n)


def err_chain(r):
    n = size(r, 200, 3)
    src = ["OUTPUT 0"]
    for j in range(n):
        src += ["PROCEDURE p%d()" % j] + [""] * (j % 3) + ["  CALL p%d()" % (j + 1) if j < n - 1 else "  OUTPUT nosuch", "ENDPROCEDURE"]
    # procedures are called when all of them exist
    return P(*src, "CALL p0()")


def late_syntax(r):
    n = size(r, 9000, 5)
    return P(*["OUTPUT %d" % (j % 100) for j in range(n)], r.choice(("IF TRUE THEN", "OUTPUT )", "x <- ", "NEXT i", "@", "ENDIF")), *["OUTPUT 5"] * r.choice((0, 2)))


# ------------------------------------------------------------------ C13..C16

def rec_strings(r):
    n = size(r, 30000, 20)
    s = "".join(r.choice("ab# 1\t;") for _ in range(50))
    return P("DECLARE s, t: STRING", "s <- \"%s\"" % s, "WHILE LENGTH(s) * 2 <= %d DO" % n, "  s <- s & s", "ENDWHILE", "s <- s & LEFT(s & s, %d MOD 50)" % n, "OPENFILE \"f\" FOR RANDOM", "PUTRECORD \"f\", s", "SEEK \"f\", 2", "t <- \"next\"", "PUTRECORD \"f\", t",
             "SEEK \"f\", 1", "GETRECORD \"f\", t", "OUTPUT t = s, LENGTH(t)", "CLOSEFILE \"f\"", "OPENFILE \"f\" FOR RANDOM", "t <- \"\"", "GETRECORD \"f\", t", "OUTPUT t = s, LENGTH(t)", "SEEK \"f\", 2", "GETRECORD \"f\", t", "OUTPUT t", "CLOSEFILE \"f\"")


def rec_wide(r):
    n = size(r, 300, 4)
    ts = [r.choice(TYPES) for _ in range(n)]
    src = ["TYPE T"]
    for j, t in enumerate(ts):
        src.append("  DECLARE f%d: %s" % (j, t))
    val = {"INTEGER": lambda: lit(r.choice(BIG)), "REAL": lambda: "%d.%d" % (r.randint(0, 99), r.randint(0, 99)), "BOOLEAN": lambda: "TRUE", "CHAR": lambda: "'%s'" % r.choice("a#; "), "STRING": lambda: "\"%s\"" % "".join(r.choice("a# 1;") for _ in range(r.randint(0, 9)))}
    src += ["ENDTYPE", "DECLARE x, y, z: T"] + ["x.f%d <- %s" % (j, val[t]()) for j, t in enumerate(ts) if r.random() < .8]
    src += ["OPENFILE \"f\" FOR RANDOM", "PUTRECORD \"f\", x", "SEEK \"f\", 2", "PUTRECORD \"f\", y", "CLOSEFILE \"f\"", "OPENFILE \"f\" FOR RANDOM", "SEEK \"f\", 2", "GETRECORD \"f\", z", "OUTPUT z.f0", "SEEK \"f\", 1", "GETRECORD \"f\", z", "CLOSEFILE \"f\""]
    src += ["OUTPUT z.f%d = x.f%d, z.f%d" % (j, j, j) for j in range(n)]
    return P(*src)


def rec_enum(r):
    """Values of an enumerated type with many names, alone, in records and in arrays."""
    n = size(r, 900, 5)
    ks = [0, n - 1] + [x + d for x in (127, 128, 255, 256, 511, 512) for d in (-1, 0, 1) if x + d < n] + [r.randrange(n) for _ in range(6)]
    src = ["TYPE E = (%s)" % ", ".join("e%d" % j for j in range(n)), "TYPE R", "  DECLARE a: E", "  DECLARE b: ARRAY[1:2] OF E", "ENDTYPE", "DECLARE x, y: E", "DECLARE r, q: R", "DECLARE v, w: ARRAY[0:2] OF E", "OPENFILE \"f\" FOR RANDOM"]
    for j, k in enumerate(ks):
        src += ["x <- e%d" % k, "r.a <- x", "r.b[2] <- e%d" % ((k + 128) % n), "v[1] <- x", "SEEK \"f\", %d" % (3 * j + 1), "PUTRECORD \"f\", x", "SEEK \"f\", %d" % (3 * j + 2), "PUTRECORD \"f\", r", "SEEK \"f\", %d" % (3 * j + 3), "PUTRECORD \"f\", v"]
    src += ["CLOSEFILE \"f\"", "OPENFILE \"f\" FOR RANDOM"]
    for j, k in enumerate(ks):
        src += ["SEEK \"f\", %d" % (3 * j + 1), "GETRECORD \"f\", y", "SEEK \"f\", %d" % (3 * j + 2), "GETRECORD \"f\", q", "SEEK \"f\", %d" % (3 * j + 3), "GETRECORD \"f\", w", "OUTPUT y, \" \", q.a, \" \", q.b[1], q.b[2], \" \", w[0], w[1], w[2], y = e%d" % k]
    return P(*src)


def rec_array(r):
    n = size(r, 4000, 10)
    t, v = r.choice((("INTEGER", "i * 1000003"), ("REAL", "i + 0.5"), ("STRING", "NUM_TO_STR(i)"), ("BOOLEAN", "i MOD 3 = 0"), ("CHAR", "CHR(33 + i MOD 90)")))
    return P("DECLARE a, b: ARRAY[1:%d] OF %s" % (n, t), "FOR i <- 1 TO %d" % n, "  a[i] <- " + v, "NEXT i", "OPENFILE \"f\" FOR RANDOM", "PUTRECORD \"f\", a", "CLOSEFILE \"f\"", "OPENFILE \"f\" FOR RANDOM", "GETRECORD \"f\", b", "c <- 0", "FOR i <- 1 TO %d" % n,
             "  IF a[i] <> b[i] THEN", "    c <- c + 1", "  ENDIF", "NEXT i", "OUTPUT c, \" \", b[1], \" \", b[%d]" % n)


def rec_many(r):
    n = size(r, 1200, 5)
    src = ["DECLARE v: %s" % r.choice(("INTEGER", "STRING", "REAL"))]
    t = src[0].split()[-1]
    e = {"INTEGER": "i * 7", "STRING": "\"r\" & NUM_TO_STR(i)", "REAL": "i / 2"}[t]
    k = {"INTEGER": "-1", "STRING": "\"new#\"", "REAL": "0.25"}[t]
    src += ["OPENFILE \"f\" FOR RANDOM", "FOR i <- 1 TO %d" % n, "  v <- " + e, "  SEEK \"f\", i", "  PUTRECORD \"f\", v", "NEXT i"]
    for _ in range(r.randint(1, 6)):
        j = r.choice((1, n, r.randint(1, n), min(n, 256), min(n, 255), max(1, n - 1)))
        src += ["SEEK \"f\", %d" % j, "v <- " + k, "PUTRECORD \"f\", v"]
        if r.random() < .5:
            src += ["CLOSEFILE \"f\"", "OPENFILE \"f\" FOR RANDOM"]
    src += ["FOR i <- 1 TO %d" % n, "  SEEK \"f\", i", "  GETRECORD \"f\", v", "  IF v <> %s THEN" % e, "    OUTPUT i, v", "  ENDIF", "NEXT i"]
    q = r.choice((n + 1, n + 2, 0, -1, n + 256, n + 65536, 1 + (1 << 16), 1 + (1 << 32), 1 - (1 << 32), (1 << 63) - 1))
    src += ["OUTPUT \"end\"", "SEEK \"f\", %s" % lit(q), "OUTPUT \"sought\"", r.choice(("GETRECORD \"f\", v", "PUTRECORD \"f\", v"))]
    return P(*src)


def txt_many(r):
    n = size(r, 4000, 5)
    m = r.randint(0, 50)
    return P("OPENFILE \"f\" FOR WRITE", "FOR i <- 1 TO %d" % n, "  WRITEFILE \"f\", %s" % r.choice(("i", "\"line \" & NUM_TO_STR(i)", "i MOD 2 = 0", "\"\"", "i * 123456789")), "NEXT i", "CLOSEFILE \"f\"", "OPENFILE \"f\" FOR APPEND", "FOR i <- 1 TO %d" % m,
             "  WRITEFILE \"f\", \"more\"", "NEXT i", "CLOSEFILE \"f\"", "OPENFILE \"f\" FOR READ", "c <- 0", "DECLARE s: STRING", "WHILE NOT EOF(\"f\")", "  READFILE \"f\", s", "  c <- c + 1", "  IF c MOD 200 = 1 THEN", "    OUTPUT s", "  ENDIF", "ENDWHILE",
             "OUTPUT c, s")


def txt_long(r):
    n = size(r, 66000, 50)
    body = "".join(r.choice("abc ;#01") for _ in range(60))
    text = (body * (n // 60 + 1))[:n]
    nl = r.choice(("\n", ""))
    return (P("DECLARE s, t: STRING", "OPENFILE \"g\" FOR READ", "READFILE \"g\", s", "OUTPUT LENGTH(s)", "OUTPUT EOF(\"g\")", "READFILE \"g\", t", "OUTPUT LENGTH(t), EOF(\"g\")", "OPENFILE \"f\" FOR WRITE", "WRITEFILE \"f\", s", "WRITEFILE \"f\", t & s", "CLOSEFILE \"f\"",
              "OPENFILE \"f\" FOR READ", "READFILE \"f\", t", "OUTPUT s = t, EOF(\"f\")", "READFILE \"f\", t", "OUTPUT LENGTH(t), RIGHT(t, 5), EOF(\"f\")"), "", {"g": (text + "\n" + text[:r.choice((1, 10, n // 2 + 1))] + nl).encode()})


def handles(r):
    n = size(r, 200, 3)
    src = []
    name = lambda j: "f%d" % j if n < 150 or j % 3 else "f" * 60 + "%d" % j
    modes = [r.choice(("WRITE", "WRITE", "RANDOM", "APPEND")) for _ in range(n)]
    files = {}
    for j in range(n):
        if modes[j] == "APPEND":
            files[name(j)] = b"old\n"
        src.append("OPENFILE \"%s\" FOR %s" % (name(j), modes[j]))
    for j in range(n):
        src.append("WRITEFILE \"%s\", %d" % (name(j), j) if modes[j] != "RANDOM" else "v <- %d\nPUTRECORD \"%s\", v" % (j, name(j)))
    order = list(range(n))
    r.shuffle(order)
    keep = r.randint(0, n)
    for j in order[keep:]:
        src.append("CLOSEFILE \"%s\"" % name(j))
    for j in r.sample(order, min(n, 10)):
        if order.index(j) >= keep:
            if modes[j] != "RANDOM":
                src += ["OPENFILE \"%s\" FOR READ" % name(j), "READFILE \"%s\", s" % name(j), "OUTPUT s, EOF(\"%s\")" % name(j)]
        elif modes[j] != "RANDOM":
            src += ["WRITEFILE \"%s\", \"again\"" % name(j)]
    j = r.choice(order)
    src += ["OUTPUT \"end\"", r.choice(("OPENFILE \"%s\" FOR WRITE", "CLOSEFILE \"%s\"", "WRITEFILE \"%s\", 5", "READFILE \"%s\", s")) % name(j), "CLOSEFILE \"%s\"" % name(j)]
    return P(*src), "", files


def bigwrite(r):
    """Much data in one open file, some of it unflushed when the run ends."""
    n = size(r, 400, 5)
    return P("s <- \"0123456789abcdef\"", "WHILE LENGTH(s) < %d DO" % r.choice((16, 500, 4000)), "  s <- s & s", "ENDWHILE", "OPENFILE \"f\" FOR WRITE", "OPENFILE \"g\" FOR WRITE", "FOR i <- 1 TO %d" % n, "  WRITEFILE \"f\", s & NUM_TO_STR(i)", "  WRITEFILE \"g\", i", "NEXT i",
             *r.choice((["CLOSEFILE \"f\""], [], ["OUTPUT nosuch"], ["CLOSEFILE \"g\"", "x <- 1 DIV 0"])))


# ------------------------------------------------------------------ C17, C18, C19

def strings(r):
    n = size(r, 66000, 50)
    ks = [0, 1, n - 1, n] + [k for e in (7, 8, 15, 16) for k in ((1 << e) - 1, 1 << e, (1 << e) + 1) if k <= n] + [r.randint(0, n) for _ in range(4)]
    src = ["DECLARE s, t: STRING", "s <- \"aB3 zQ_9.\"", "WHILE LENGTH(s) * 2 <= %d DO" % n, "  s <- s & s", "ENDWHILE", "s <- s & LEFT(s, %d - LENGTH(s))" % n, "OUTPUT LENGTH(s)", "t <- TO_UPPER(s)", "OUTPUT LENGTH(t), RIGHT(t, 9), t = s", "t <- TO_LOWER(s)",
           "OUTPUT LENGTH(t), LEFT(t, 9), RIGHT(t, 9)"]
    for k in ks:
        src += ["OUTPUT LEFT(s, %d) & RIGHT(s, %d) = s, LENGTH(LEFT(s, %d)), LENGTH(RIGHT(s, %d))" % (k, n - k, k, k)]
        if k < n:
            m = r.choice((1, n - k, max(1, (n - k) // 2)))
            src += ["t <- MID(s, %d, %d)" % (k + 1, m), "OUTPUT LENGTH(t), LEFT(t, 1), RIGHT(t, 1), MID(s, %d, 1)" % (k + m)]
    q = r.choice([n + 1, -1, n + 256, n + 65536, 1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 62, (1 << 63) - 1])
    m = r.choice((1, n, (1 << 63) - 1, (1 << 32) + 1, -1))
    src += ["OUTPUT \"end\"", r.choice(("OUTPUT LENGTH(LEFT(s, %s))" % lit(q), "OUTPUT LENGTH(RIGHT(s, %s))" % lit(q), "OUTPUT LENGTH(MID(s, %s, 1))" % lit(q if q > n else n + 1), "OUTPUT LENGTH(MID(s, 2, %s))" % lit(m if m > n - 1 or m < 0 else n)))]
    return P(*src)


def digits(r):
    n = size(r, 600, 10)
    src = []
    for _ in range(6):
        v = abs(r.choice(BIG[:-2]))
        z = "0" * r.choice((n, n // 2, 3))
        src += ["OUTPUT INTEGER(\"%s%d\"), IS_NUM(\"%s%d\"), STR_TO_NUM(\"%s7\")" % (z, v, z, v, z), "OUTPUT REAL(\"%s2.5%s\"), STR_TO_NUM(\"1.5%s\"), IS_NUM(\"1.%s1\"), IS_NUM(\"%s1.x\")" % (z, z, z, z, z), "OUTPUT STR_TO_NUM(\"%sx\"), IS_NUM(\"%s..%s\")" % (z, z, z)]
        src += ["OUTPUT NUM_TO_STR(%d), STR_TO_NUM(NUM_TO_STR(%d)) = %d" % ((r.randint(0, 10 ** 9),) + (r.randint(0, 10 ** 6),) * 2)]
    return P(*src)


def bytes_(r):
    return P("FOR i <- 0 TO 127", "  IF ASC(CHR(i)) <> i THEN", "    OUTPUT i", "  ENDIF", "NEXT i", "OUTPUT ASC('%s')" % r.choice("azAZ09 ~"), "OUTPUT CHR(%s)" % lit(r.choice([-1, 256, 65 + 256, 65 + 65536, 65 + (1 << 32), -191, (1 << 63) - 1])))


def dates(r):
    n = size(r, 400, 5)
    y = r.choice((1, 99, 1582, 1752, 1900, 2000, 9999, 32000)) + r.randint(0, 300)
    src = ["DECLARE a: ARRAY[0:%d] OF DATE" % n, "FOR i <- 0 TO %d" % n, "  a[i] <- SETDATE(1 + i MOD 28, 1 + i DIV 28 MOD 12, %d + i DIV 336)" % y, "NEXT i", "c <- 0", "FOR i <- 1 TO %d" % n, "  IF a[i - 1] < a[i] AND a[i] > a[i - 1] AND a[i] <> a[i - 1] AND DAY(a[i]) = 1 + i MOD 28 THEN",
           "    c <- c + 1", "  ENDIF", "NEXT i", "OUTPUT c, \" \", a[0], \" \", a[%d]" % n, "OUTPUT MONTH(a[%d]), YEAR(a[%d]), DAYINDEX(a[%d])" % (n, n, n)]
    d, m, yy = 5, 6, 2000
    k = r.choice((256, 65536, 1 << 32, -256, -65536, 1 << 62))
    w = r.randrange(3)
    v = [d, m, yy]
    v[w] += k
    if not (w == 2 and -32768 <= v[2] < 1 or v[2] < 32768 and w == 2 and v[2] >= 1):
        src += ["OUTPUT SETDATE(%s)" % ", ".join(lit(x) for x in v)]
    return P(*src)


def enum_big(r):
    n = size(r, 900, 5)
    src = ["TYPE E = (%s)" % ", ".join("e%d" % j for j in range(n)), "TYPE F = (%s)" % ", ".join("f%d" % j for j in range(n)), "DECLARE x, y: E", "DECLARE z: F"]
    ks = [0, n - 1] + [p + d for p in (127, 128, 255, 256, 511) for d in (-1, 0, 1) if p + d < n] + [r.randrange(n) for _ in range(10)]
    for k in ks:
        src += ["x <- e%d" % k, "OUTPUT x, x + 1, x - 1, e%d = x, e%d = x" % (k, (k + 256) % n)]
        q = r.choice(BIG + [n, -n, n - 1, 256, -256, 65536 * n])
        src += ["k <- %s" % lit(q), "OUTPUT x + k, x - k"]
    src += ["x <- e0", "c <- 0", "FOR i <- 1 TO %d" % n, "  x <- x + 1", "  IF x = e0 THEN", "    c <- i", "  ENDIF", "NEXT i", "OUTPUT c, x", "x <- f%d" % r.randrange(n)]
    return P(*src)


def many_enums(r):
    n = size(r, 400, 4)
    src = []
    for j in range(n):
        src += ["TYPE E%d = (a%d, b%d, c%d)" % (j, j, j, j), "DECLARE x%d, y%d: E%d" % (j, j, j), "x%d <- %s%d" % (j, "abc"[j % 3], j)]
    for j in [r.randrange(n) for _ in range(15)] + [0, n - 1]:
        src += ["y%d <- x%d + 1" % (j, j), "OUTPUT x%d, y%d, x%d = y%d" % (j, j, j, j)]
    a = r.randrange(n)
    b = (a + r.choice((256, 1, 128, 2))) % n
    src += ["OUTPUT \"end\"", r.choice(("x%d <- y%d" % (a, b), "OUTPUT x%d = y%d" % (a, b) if False else "x%d <- a%d" % (a, b)))]
    return P(*src)


MIX = {
    "C01": None,
    "C02": [chain, parens, minus, bigstr, literals, manyout, longlist, bigints],
    "C03": [for_many, for_huge, while_many, case_many, case_wide, elseif, nest, longbody],
    "C04": [params, many_procs, deep, many_calls, many_locals],
    "C05": [many_vars, long_input, many_inputs, wide_stores],
    "C06": [array1, array_n, array_wide, array_copy, array_loop, array_sizes, many_arrays],
    "C07": [many_fields, deep_record, record_array, many_types],
    "C08": [many_consts, long_const, const_deep],
    "C09": [many_ptrs, ptr_depth, elem_ptrs, dead_deep, dead_many],
    "C11": [err_line, err_trace, err_chain, late_syntax],
    "C13": [rec_strings, rec_wide, rec_enum, rec_array],
    "C14": [rec_many],
    "C15": [txt_many, txt_long],
    "C16": [handles, bigwrite],
    "C17": [strings, digits, bytes_],
    "C18": [dates],
    "C19": [enum_big, many_enums],
}
ALL = [f for k, v in MIX.items() if v for f in v]


def build(r, pid, i):
    fs = MIX.get(pid) or ALL
    f = fs[i % len(fs)]
    x = f(r)
    if isinstance(x, str):
        x = (x,)
    return f, tuple(x) + ("", {})[len(x) - 1:] if len(x) < 3 else x


LIMITS = dict(steps=600000, cells=2000000, string=4000000, timeout=20)


def run(pid, pedantic=False):
    def scale(env, i):
        f, (src, stdin, files) = build(env.rng, pid, i)
        env.events["scaled: " + f.__name__] = env.events.get("scaled: " + f.__name__, 0) + 1
        env.differential(src, stdin, files, lines=pid == "C11", max_steps=100000, **LIMITS)
    return scale


def family(pid, quick, thorough):
    return Family("scale", run(pid), quick, thorough, about="one dimension large: sizes around powers of two, long chains, many declarations, huge indices", chunk=4)
