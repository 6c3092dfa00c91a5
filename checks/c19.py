"""C19: enumerated values keep their type and cycle through their declared order."""
import collide
import scale
from harness import Check, Family
from repl import Entry

NAMES = ["red", "Green", "b", "yellow_1", "v5", "lAst", "q", "zz9", "k2", "m", "n0", "oo"]
KS = list(range(-40, 41)) + [99, 100, 127, 128, 255, 256, 1000, 2147483647, -2147483648, 2147483648, 4294967295, 4294967296, -4294967297, 10 ** 12 + 7,
                             9223372036854775807, -9223372036854775807, None]


def lit(k):
    return "(-9223372036854775807 - 1)" if k is None else str(k) if k >= 0 else "-%d" % -k


def arith(env, i):
    """One declared size and one start: every k, both operators, through variable/name/element/field/call operands."""
    n = 1 + i % 8 if i < 64 else env.rng.randint(9, 12)
    pos = (i // 8) % n if i < 64 else env.rng.randrange(n)
    vals = NAMES[:n]
    name = vals[pos]
    ents = ["TYPE Other = (x1, x2, x3)", "TYPE E = (%s)" % ", ".join(vals), "DECLARE v, w: E", "DECLARE a: ARRAY[1:3] OF E", "TYPE T\n  DECLARE f: E\nENDTYPE", "DECLARE t: T",
            "TYPE PE = ^E", "DECLARE p: PE", "FUNCTION get() RETURNS E\n  RETURN %s\nENDFUNCTION" % name, "FUNCTION by(e: E, k: INTEGER) RETURNS E\n  RETURN e + k\nENDFUNCTION",
            "DECLARE k: INTEGER", "v <- " + name, "a[2] <- v", "t.f <- a[2]", "p <- ^t.f", "OUTPUT v", "OUTPUT " + name, name]
    ops = [name, "v", "a[2]", "t.f", "p^", "get()"]
    for j, k in enumerate(KS):
        x = ops[(j + i) % len(ops)]
        y = ops[(j + i + 1) % len(ops)]
        ks = lit(k)
        ents += ["k <- " + ks, "OUTPUT %s + k" % x, "OUTPUT %s - k" % y, "OUTPUT k + %s" % y, "w <- %s %s (%s)" % (x, "+-"[j % 2], ks), "OUTPUT w",
                 "OUTPUT %s + %s = %s, %s + %s <> %s" % (x, "k", name, y, "k", name)]
        if k is not None and abs(k) < 50:
            ents += ["%s + %s" % (x, ks), "w + %s - %s" % (ks, ks), "OUTPUT w + k - k = w", "OUTPUT by(w, k)"]
    ents += ["OUTPUT v + 1.0", "OUTPUT v + TRUE", "OUTPUT v + \"1\"", "OUTPUT v + v", "OUTPUT v * 2", "OUTPUT v / 1", "OUTPUT v DIV 1", "OUTPUT v MOD 2", "OUTPUT -v", "OUTPUT v AND TRUE",
             "OUTPUT NOT v", "OUTPUT v < w", "OUTPUT v >= v", "OUTPUT v & \"\"", "OUTPUT v & 1", "OUTPUT v = 1", "OUTPUT 0 = v", "OUTPUT v", "OUTPUT INTEGER(v)", "OUTPUT STRING(v)",
             "v <- 0", "v <- \"%s\"" % name, "v <- 'b'", "v <- E", "OUTPUT v",
             "INPUT " + name, "OUTPUT " + name, name + " <- 1", name + " <- v", "DECLARE %s: INTEGER" % name, "OUTPUT " + name, "INPUT E", "DECLARE fresh: E", "fresh <- " + name, "OUTPUT fresh", "%s[1] <- 2" % name, name + ".n <- 2", "OUTPUT %s + 1" % name]
    env.session(ents, pure=True, each=True)


def equality(env, i):
    """= and <> over every pair of positions of one type, in several operand forms."""
    n = 1 + i % 9
    vals = NAMES[:n]
    ents = ["TYPE E = (%s)" % ", ".join(vals), "DECLARE v, w: E", "DECLARE a: ARRAY[0:%d] OF E" % n]
    for k, x in enumerate(vals):
        ents += ["a[%d] <- %s" % (k, x), "OUTPUT a[%d]" % k]
    for x in range(n):
        for y in range(n):
            ents += ["v <- " + vals[x], "w <- a[%d]" % y, "OUTPUT v = w, v <> w, %s = w, v <> %s, a[%d] = %s, %s = %s" % (vals[x], vals[y], x, vals[y], vals[x], vals[y])]
    ents += ["OUTPUT a[%d]" % n, "DECLARE fresh: E", "OUTPUT fresh", "OUTPUT fresh = " + vals[0]]
    env.session(ents, pure=True, each=True)


# store channels between enumerated types: each entry list is run for (target type, source expression)
SETUP = """TYPE Ea = (a1, a2, a3)
TYPE Eb = (b1, b2, b3)
TYPE Ec = (c1)
TYPE Ed = (d1, d2, d3, d4, d5)"""
TYPES = {"Ea": ["a1", "a2", "a3"], "Eb": ["b1", "b2", "b3"], "Ec": ["c1"], "Ed": ["d1", "d2", "d3", "d4", "d5"]}


def channels(env, i):
    """Every ordered pair of types through every store channel; the target is shown after every attempt."""
    ts = list(TYPES)
    t = ts[i % 4]
    s = ts[i // 4 % 4]
    r = env.rng
    ents = SETUP.split("\n")
    for x in ts:
        ents += ["DECLARE v%s, w%s: %s" % (x, x, x), "DECLARE ar%s: ARRAY[1:3] OF %s" % (x, x), "TYPE R%s\n  DECLARE f: %s\n  DECLARE g: ARRAY[1:2] OF %s\nENDTYPE" % (x, x, x), "DECLARE r%s, q%s: R%s" % (x, x, x),
                 "TYPE P%s = ^%s" % (x, x), "DECLARE p%s: P%s" % (x, x), "p%s <- ^w%s" % (x, x),
                 "FUNCTION f%s() RETURNS %s\n  RETURN v%s\nENDFUNCTION" % (x, x, x), "PROCEDURE s%s(x: %s)\n  OUTPUT x\nENDPROCEDURE" % (x, x),
                 "PROCEDURE b%s(BYREF x: %s)\n  OUTPUT x\n  x <- x + 1\n  OUTPUT x\nENDPROCEDURE" % (x, x)]
        k = r.randrange(len(TYPES[x]))
        ents += ["v%s <- %s" % (x, TYPES[x][k]), "w%s <- %s" % (x, TYPES[x][-1]), "ar%s[2] <- %s" % (x, TYPES[x][k]), "r%s.f <- %s" % (x, TYPES[x][k]), "r%s.g[1] <- %s" % (x, TYPES[x][-1])]
    srcs = [TYPES[s][-1], "v" + s, "ar%s[2]" % s, "r%s.f" % s, "r%s.g[1]" % s, "p%s^" % s, "f%s()" % s, "%s + 1" % TYPES[s][0], "v%s - 1" % s, "w%s + 0" % s]
    if s != t:
        srcs += ["0", "1", "\"%s\"" % TYPES[t][0], "TRUE", "1.0", "s", "1/1/2000"]
    show = "OUTPUT v%s, \" \", w%s, \" \", ar%s[1], ar%s[2], ar%s[3], \" \", r%s.f, r%s.g[1], r%s.g[2]" % ((t,) * 8)
    for e in srcs:
        for lv in ("v" + t, "ar%s[2]" % t, "ar%s[3]" % t, "r%s.f" % t, "r%s.g[2]" % t, "p%s^" % t):
            ents += ["%s <- %s" % (lv, e), show]
        ents += ["CALL s%s(%s)" % (t, e), "CALL b%s(%s)" % (t, e), show, "FUNCTION g%d() RETURNS %s\n  RETURN %s\nENDFUNCTION" % (len(ents), t, e)]
        ents += ["OUTPUT g%d()" % (len(ents) - 1), "g%d() + 1" % (len(ents) - 1), "v%s <- g%d()" % (t, len(ents) - 1), show]
        ents += ["PROCEDURE h%d(BYREF x: %s)\n  DECLARE l: %s\n  l <- %s\n  OUTPUT l\n  x <- %s\nENDPROCEDURE" % (len(ents), t, t, e, e)]
        ents += ["CALL h%d(w%s)" % (len(ents) - 1, t), show]
    ents += ["ar%s <- ar%s" % (t, s), show, "r%s <- r%s" % (t, s), show, "p%s <- ^v%s" % (t, s), "OUTPUT p%s^" % t, "p%s <- p%s" % (t, s), "OUTPUT p%s^" % t,
             "p%s <- ^ar%s[2]" % (t, s), "p%s <- ^r%s.f" % (t, s), "OUTPUT p%s^" % t, "FOR v%s <- %s TO %s\n  OUTPUT 1\nNEXT v%s" % (t, TYPES[s][0], TYPES[s][-1], t), show,
             "READFILE \"x.txt\", v%s" % t, "n%s <- v%s" % (t, t), "n%s <- v%s" % (t, s), "OUTPUT n" + t, show]
    # random files
    ents += ['OPENFILE "r.dat" FOR RANDOM', 'SEEK "r.dat", 1', 'PUTRECORD "r.dat", v%s' % s, 'SEEK "r.dat", 1', 'GETRECORD "r.dat", w%s' % t, show, 'SEEK "r.dat", 1',
             'GETRECORD "r.dat", ar%s[1]' % t, show, 'SEEK "r.dat", 2', 'PUTRECORD "r.dat", ar%s' % s, 'SEEK "r.dat", 2', 'GETRECORD "r.dat", ar%s' % t, show,
             'SEEK "r.dat", 3', 'PUTRECORD "r.dat", r%s' % s, 'SEEK "r.dat", 3', 'GETRECORD "r.dat", r%s' % t, show, 'CLOSEFILE "r.dat"']
    env.session(ents, {}, pure=True, each=True)


def local_types(env, i):
    """Types declared inside procedures: their values stay usable through every call, recursion and nesting, and never mix with a
    global type of the same size."""
    r = env.rng
    n = r.randint(1, 6)
    glob = ["g%d" % k for k in range(r.randint(1, 5))]
    src = ["TYPE G = (%s)" % ", ".join(glob), "DECLARE gv: G", "gv <- " + glob[-1]]
    for p in range(r.randint(1, 3)):
        loc = ["%s%d" % ("abc"[p], k) for k in range(n)]
        tn = "L" if r.random() < 0.5 else "L%d" % p
        if r.random() < 0.4:
            # some names are declared by the global type as well, at another position
            for g in r.sample(glob, min(len(glob), r.randint(1, 2))):
                loc[r.randrange(n)] = g
            loc = list(dict.fromkeys(loc))
        src += ["PROCEDURE p%d(k: INTEGER)" % p, "  TYPE %s = (%s)" % (tn, ", ".join(loc)), "  DECLARE x, y: %s" % tn, "  DECLARE z: G", "  x <- " + r.choice(loc), "  OUTPUT x, x + k, x - k",
                "  y <- x + k", "  z <- gv + k", "  OUTPUT y, z, y = x, z = gv"]
        if r.random() < 0.5:
            src += ["  IF k > 0 THEN", "    CALL p%d(k - 1)" % p, "  ENDIF", "  OUTPUT x, y, z"]
        if r.random() < 0.4:
            src += ["  DECLARE m: ARRAY[1:2] OF %s" % tn, "  m[2] <- y + 1", "  OUTPUT m[1], m[2]"]
        if r.random() < 0.3:
            src += ["  gv <- gv + 1"]
        if r.random() < 0.3:
            src += ["  " + r.choice(("z <- x", "x <- z", "x <- gv", "gv <- x", "x <- g0", "z <- " + loc[0]))]
        if p and r.random() < 0.3:
            src += ["  CALL p%d(k)" % (p - 1)]
        src += ["  OUTPUT x, y, z, gv", "ENDPROCEDURE"]
    ents = []
    import c04
    ents += c04.split("\n".join(src))
    for _ in range(r.randint(2, 6)):
        ents += ["CALL p%d(%d)" % (r.randrange(3), r.randint(-2, 3)), "OUTPUT gv, gv + 1, gv = g0"]
    ents += ["OUTPUT a0", "DECLARE w: L", "OUTPUT gv"]
    env.session(ents, pure=True, each=True)


def many(env, i):
    """Several global types in every declaration order: names always denote the value of the type which declares them."""
    r = env.rng
    k = r.randint(2, 6)
    sizes = [r.randint(1, 6) for _ in range(k)]
    order = list(range(k))
    r.shuffle(order)
    src = []
    for t in order:
        src.append("TYPE T%d = (%s)" % (t, ", ".join("t%dv%d" % (t, j) for j in range(sizes[t]))))
        if r.random() < 0.5:
            src.append("TYPE R%d\n  DECLARE f: T%d\n  DECLARE h: ARRAY[0:1] OF T%d\nENDTYPE" % (t, t, r.choice(order[:order.index(t) + 1])))
            src.append("DECLARE r%d: R%d" % (t, t))
        src.append("DECLARE x%d, y%d: T%d" % (t, t, t))
    for _ in range(40):
        a, b = r.randrange(k), r.randrange(k)
        if r.random() < 0.6:
            b = a
        j = r.randrange(sizes[b])
        c = r.randrange(7)
        if c < 2:
            src.append("x%d <- t%dv%d%s" % (a, b, j, r.choice(("", " + %d" % r.randint(-9, 9), " - %d" % r.randint(0, 9)))))
        elif c == 2:
            src.append("y%d <- x%d" % (a, b))
        elif c == 3:
            src.append("r%d.f <- x%d" % (a, b))
        elif c == 4:
            src.append("r%d.h[%d] <- y%d + %d" % (a, r.randrange(2), b, r.randint(-5, 5)))
        elif c == 5:
            src.append("x%d <- r%d.f" % (a, b))
        else:
            src.append("CASE OF x%d\n  t%dv%d: OUTPUT \"is\"\n  OTHERWISE: OUTPUT \"not\"\nENDCASE" % (a, a, r.randrange(sizes[a])))
        src += ["OUTPUT x%d, y%d, x%d, y%d" % (a, a, b, b), "OUTPUT x%d = t%dv%d, y%d + 1 = x%d" % (a, a, r.randrange(sizes[a]), a, a)]
    env.session(src, pure=True, each=True)


CHECK = Check("C19", [
    scale.family("C19", 320, 6400),
    collide.family(1000, 30000),
    Family("arith", arith, 80, 400, about="every size 1..8 x start x k in -40..40 and 64-bit k x operand form", chunk=1),
    Family("equality", equality, 9, 18, about="every pair of positions"),
    Family("channels", channels, 16, 160, about="every pair of types x store channel, incl. BYREF, RETURN, whole arrays/records, pointers, random files"),
    Family("local_types", local_types, 400, 15000, about="types declared in procedures, recursion, same-name types"),
    Family("many", many, 400, 15000, about="several global types, random stores"),
], "A case is one REPL entry (an arithmetic result, a comparison, a store attempt and the state after it), distinct by (text, accepted).")
