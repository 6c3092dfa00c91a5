"""C02: expressions evaluate to the documented value and type."""
import itertools
import random

import model as M
import mutate as X
from gen import Gen
import scale
from harness import Check, Family

OPS = ["+", "-", "*", "/", "DIV", "MOD", "&", "=", "<>", "<", "<=", ">", ">=", "AND", "OR"]
PREC = {"AND": 1, "OR": 1, "=": 2, "<>": 2, "<": 2, "<=": 2, ">": 2, ">=": 2, "&": 3, "+": 4, "-": 4, "*": 5, "/": 5,
        "DIV": 5, "MOD": 5}

# operands by type, so that for every pair of operators some triple is accepted
POOL = {
    "INTEGER": ["7", "2", "0", "12", "-3"], "REAL": ["2.5", "0.5", "-1.25", "8.0"], "BOOLEAN": ["TRUE", "FALSE"],
    "CHAR": ["'b'", "'7'"], "STRING": ['"ab"', '""', '"7"'], "DATE": ["5/3/2020", "6/3/2020"],
}


def triples(o1, o2):
    res = []
    T = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE"]
    for ts in itertools.product(T, repeat=3):
        res.append(ts)
    return res


PAIRS = [(a, b) for a in OPS for b in OPS if {a, b} != {"AND", "OR"}]


def pairs(env, i):
    """Two operators without parentheses equal the documented grouping, for every typed operand triple."""
    a, b = PAIRS[i % len(PAIRS)]
    left = PREC[a] >= PREC[b]
    ents, both = [], []
    for ts in triples(a, b):
        x, y, z = (env.rng.choice(POOL[t]) for t in ts)
        for n1, n2 in ((0, 0), (1, 0), (0, 1)) if ts[0] == "BOOLEAN" or ts[1] == "BOOLEAN" else ((0, 0),):
            # NOT takes the whole comparison to its right, so it is combined with a logical operator only
            if n1 and PREC[a] != 1 or n2 and PREC[a] != 1:
                continue
            xx, yy = ("NOT " + x if n1 else x), ("NOT " + y if n2 else y)
            if n2 and PREC[b] > 1:
                grouped = "%s %s (NOT (%s %s %s))" % (xx, a, y, b, z)
            elif n1 and left:
                grouped = "((NOT %s) %s %s) %s %s" % (x, a, yy, b, z)
            elif left:
                grouped = "(%s %s %s) %s %s" % (xx, a, "(%s)" % yy if n2 else yy, b, z)
            else:
                grouped = "%s %s (%s %s %s)" % ("(%s)" % xx if n1 else xx, a, yy, b, z)
            both.append(("%s %s %s %s %s" % (xx, a, yy, b, z), grouped))
    # keep all accepted ones and some of the rejected ones
    good, bad = [], []
    for e in both:
        m = M.Model()
        try:
            err = m.entry(e[1])
        except M.Unspec:
            env.discard("model: open")
            continue
        (good if err is None else bad).append(e)
    env.rng.shuffle(bad)
    tight = {u: X.relayout(u, env.rng, ("tight",))[0].rstrip("\n") for u, g in good}
    for u, g in good + bad[:30]:
        ents += [u, g]
        if u in tight:
            ents.append(tight[u])
    res = env.session(ents, pure=True, each=True)
    if res:
        # independent of the model: the two prints of one expression agree
        p, r = res
        by = {e.text: c for e, c in zip(p.entries, p.chunks)}
        for u, g in good:
            if u in by and g in by and by[u] != by[g]:
                env.violation("%r gives %r but %r gives %r" % (u, by[u], g, by[g]))
                return
            if u in by and tight[u] in by and by[u] != by[tight[u]]:
                env.violation("%r gives %r but %r gives %r" % (u, by[u], tight[u], by[tight[u]]))
                return


SETUP = ["DECLARE vi: INTEGER", "vi <- 6", "DECLARE vr: REAL", "vr <- 2.5", "DECLARE vb: BOOLEAN", "vb <- TRUE",
         "DECLARE vc: CHAR", "vc <- 'c'", "DECLARE vs: STRING", 'vs <- "st"', "DECLARE vd: DATE", "vd <- 5/3/2020",
         "TYPE Col = (red, green, blue)", "DECLARE ve: Col", "ve <- green", "TYPE Oth = (one, two)", "DECLARE vo: Oth",
         "TYPE PI = ^INTEGER", "DECLARE vp: PI", "vp <- ^vi", "TYPE Rec\n    DECLARE f: INTEGER\nENDTYPE",
         "DECLARE vx: Rec", "DECLARE va: ARRAY[1:3] OF INTEGER", "CONSTANT kc = 4"]
OPERANDS = ["3", "0", "-4", "vi", "kc", "va[2]", "vx.f", "vp^", "2.5", "0.0", "vr", "TRUE", "vb", "(1 < 2)", "'x'", "vc",
            '"ab"', '"x"', "vs", "5/3/2020", "vd", "ve", "red", "vo", "vp", "vx", "va"]


def table(env, i):
    """Acceptance and result of every operator on every pair of operand types."""
    op = (OPS + ["neg", "not"])[i % 17]
    ents = []
    for a in OPERANDS:
        if op in ("neg", "not"):
            ents.append(("-" if op == "neg" else "NOT ") + a)
            continue
        for b in OPERANDS:
            if op == "=" and a[0].isalpha():
                # as a statement of its own this prints a warning
                ents.append("OUTPUT %s = %s" % (a, b))
            elif a == "5/3/2020" or b == "5/3/2020":
                ents.append("(%s) %s (%s)" % (a, op, b))
            else:
                ents.append("%s %s %s" % (a, op, b))
            if op in ("DIV", "MOD"):
                ents.append("%s(%s, %s)" % (op, a, b))
    env.session(SETUP + ents, pure=True, each=True)


def wrap(x):
    return M.wrap(x)


BOUNDARY = [0, 1, -1, 2, -2, 3, 7, 10, -10, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32, 2 ** 52, 2 ** 53 - 1, 2 ** 53,
            2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62, -2 ** 62, 2 ** 63 - 2, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 63, 10 ** 18,
            999999999999999999, 123456789012345678]


def ilit(x):
    if x == -2 ** 63:
        return "(-%d - 1)" % (2 ** 63 - 1)
    return str(x) if x >= 0 else "(-%d)" % -x


def check_laws(env, out, pairs_):
    rows = out.decode().split("\n")
    env.expect(len(rows) == len(pairs_) + 1, "%d lines printed, expected %d" % (len(rows) - 1, len(pairs_)))
    for (a, bb), row in zip(pairs_, rows):
        try:
            q, m, q2, m2 = (int(x) for x in row.split(" "))
        except ValueError:
            env.violation("a = %d, b = %d: DIV/MOD print %r, not four INTEGERs" % (a, bb, row))
            return
        if wrap(q * bb + m) != a or not abs(m) < abs(bb) or (q, m) != (q2, m2) or (q * bb + m != a and (a, bb) != (-2 ** 63, -1)):
            env.violation("a = %d, b = %d: a DIV b = %d, a MOD b = %d (function form %d, %d)" % (a, bb, q, m, q2, m2))
            return
    env.ok(pairs_[0], n=len(pairs_))


def laws(env, i):
    """DIV and MOD on every pair in [-40,40]^2 and on boundary values."""
    if i < 81:
        a = i - 40
        src = ("a <- %s\nFOR b <- -40 TO 40\n IF b <> 0 THEN\n  OUTPUT a DIV b, \" \", a MOD b, \" \", DIV(a, b), \" \", MOD(a, b)\n"
               " ENDIF\nNEXT b\n" % ilit(a))
        ps = [(a, x) for x in range(-40, 41) if x]
    else:
        vals = BOUNDARY if i < 81 + len(BOUNDARY) else [env.rng.choice(BOUNDARY) + env.rng.randint(-3, 3) for _ in range(20)]
        vals = [wrap(v) for v in vals]
        a = BOUNDARY[i - 81] if i < 81 + len(BOUNDARY) else wrap(env.rng.getrandbits(64))
        vals += [wrap(env.rng.getrandbits(64)) >> env.rng.randint(0, 60) for _ in range(20)]
        ps = [(a, v) for v in vals if v]
        src = "a <- %s\n" % ilit(a) + "".join(
            "b <- %s\nOUTPUT a DIV b, \" \", a MOD b, \" \", DIV(a, b), \" \", MOD(a, b)\n" % ilit(v) for _, v in ps)
    r = env.run(src)
    env.expect(r.kind == "ok", "outcome %s" % r.kind)
    check_laws(env, r.out, ps)


def reallaws(env, i):
    """a = (a DIV b)*b + (a MOD b) and |a MOD b| < |b| when an operand is a REAL, whatever the signs (up to the rounding of doubles)."""
    r = env.rng
    src, ps = ["DECLARE a, b: REAL", "DECLARE k: INTEGER"], []

    def num():
        j = r.randrange(5)
        if j == 0:
            x = r.randint(-60, 60)
        elif j == 1:
            x = r.randint(-480, 480) / 8
        elif j == 2:
            x = r.randint(-999, 999) / 10 ** r.randint(1, 3)
        elif j == 3:
            x = r.choice((0.1, 0.5, 1.0, 2.5, 3.0, 1e6, 1e-3, 7, 1, 2, 100, 12345.678)) * r.choice((1, -1))
        else:
            x = r.uniform(-1, 1) * 10 ** r.randint(-3, 7)
        return x, ilit(x) if isinstance(x, int) else dec(x)
    while len(ps) < 40:
        (a, sa), (b, sb) = num(), num()
        if b == 0 or isinstance(a, int) and isinstance(b, int):
            continue
        form = r.randrange(3)
        if form == 1 and isinstance(a, float):
            src.append("a <- %s" % sa)
            sa = "a"
        if form == 1 and isinstance(b, float):
            src.append("b <- %s" % sb)
            sb = "b"
        q, m = ("(%s DIV %s)", "(%s MOD %s)") if r.random() < 0.7 else ("DIV(%s, %s)", "MOD(%s, %s)")
        q, m = q % (sa, sb), m % (sa, sb)
        # only an INTEGER can be stored in k
        src += ["k <- %s" % q, "OUTPUT k, \" \", %s, \" \", k * %s + %s - %s" % (m, sb, m, sa)]
        ps.append((a, b))
    o = env.run("\n".join(src) + "\n")
    env.expect(o.kind == "ok", "outcome %s" % o.kind)
    rows = o.out.decode().split("\n")[:-1]
    env.expect(len(rows) == len(ps), "%d lines printed, expected %d" % (len(rows), len(ps)))
    for (a, b), row in zip(ps, rows):
        q, m, e = row.split(" ")
        eps = 1e-9 * (abs(a) + abs(b))
        if not (abs(float(e)) <= 1e-13 * (abs(a) + abs(b)) and abs(float(m)) <= abs(b) + eps and abs(int(q) * b + float(m) - a) <= eps + 1e-8 * abs(float(m))):
            env.violation("a = %r, b = %r: a DIV b = %s, a MOD b = %s, (a DIV b)*b + (a MOD b) - a = %s" % (a, b, q, m, e))
            return
    env.ok(src, n=len(ps))


def dec(x):
    """An exact decimal literal of a finite double."""
    from decimal import Decimal
    s = format(Decimal(abs(x)), "f")
    if "." not in s:
        s += ".0"
    return ("(-%s)" % s) if x < 0 else s


def exact(env, i):
    """INTEGER arithmetic is exact on 64 bits; REAL and mixed arithmetic is IEEE double, bit for bit."""
    r = env.rng
    ents, want = [], []

    def num():
        if r.random() < 0.5:
            x = r.choice((1, 2, 3, 7, 10, 2 ** 31, 2 ** 53 + 1, 2 ** 62 - 1, r.getrandbits(62))) >> r.choice((0, 0, 0, 5, 30, 50))
            x = -x if r.random() < 0.3 else x
            return x, ilit(x)
        x = r.choice((0.1, 0.5, 2.5, 1e15, 123456.789, r.random(), r.random() * 10 ** r.randint(-8, 12), float(r.randint(0, 50))))
        x = -x if r.random() < 0.3 else x
        return x, dec(x)
    for _ in range(30):
        (x, xs), (y, ys) = num(), num()
        op = r.choice(("+", "-", "*", "/", "+", "-", "*", "<", "=", ">=", "<>"))
        both = isinstance(x, int) and isinstance(y, int)
        fx, fy = (x, y) if both else (float(x), float(y))
        if op == "/":
            if y == 0:
                continue
            v = float(x) / float(y)
        elif op in "+-*":
            v = fx + fy if op == "+" else fx - fy if op == "-" else fx * fy
            if both and not M.IMIN < v <= M.IMAX:
                continue
        else:
            v = {"<": fx < fy, "=": fx == fy, ">=": fx >= fy, "<>": fx != fy}[op]
        e = "%s %s %s" % (xs, op, ys)
        if isinstance(v, bool):
            ents.append("OUTPUT %s" % e)
            want.append("TRUE" if v else "FALSE")
        elif isinstance(v, int):
            ents.append("OUTPUT %s" % e)
            want.append(str(v))
        else:
            # the quotient of the check is exact, so any difference in the last bit shows
            ents.append("q <- %s" % e if False else "OUTPUT (%s) = %s, \" \", (%s) - %s" % (e, dec(v), e, dec(v)))
            want.append("TRUE 0.0")
    src = "\n".join(ents) + "\n"
    o = env.run(src)
    env.expect(o.kind == "ok", "outcome %s" % o.kind)
    got = o.out.decode().split("\n")[:-1]
    for e, g, w in zip(ents, got, want):
        if g.replace("-0.0", "0.0") != w:
            env.violation("%s prints %r, expected %r" % (e, g, w))
            return
    env.expect(len(got) == len(want), "%d lines, expected %d" % (len(got), len(want)))
    env.ok(src, n=len(want))


def near(env, i):
    """Comparisons of REALs that differ in the last bits, or by little, and of INTEGERs and REALs around 2^53."""
    import math
    r = env.rng
    ents, want = ["DECLARE x, y: REAL", "DECLARE k: INTEGER"], []
    for _ in range(12):
        x = r.choice((0.1, 1.0, 2.5, 1e-10, 3e-9, 1e9, 123456.789, 1e15, 0.0, r.random(), r.uniform(-1e6, 1e6), float(r.randint(-9, 9))))
        y = r.choice((x, math.nextafter(x, 1e300), math.nextafter(x, -1e300), x + 1e-10, x + 1e-7, x * (1 + 1e-12), x * (1 - 1e-6), -x))
        ents += ["x <- %s" % dec(x), "y <- %s" % dec(y), "OUTPUT " + ", ".join("x %s y" % o for o in ("=", "<>", "<", "<=", ">", ">="))]
        want.append("".join("TRUE" if v else "FALSE" for v in (x == y, x != y, x < y, x <= y, x > y, x >= y)))
        k = r.choice((0, 1, 7, 2 ** 31, 2 ** 52 - 1, r.randint(-100, 100)))
        z = r.choice((float(k), math.nextafter(float(k), 1e300), math.nextafter(float(k), -1e300), k + 1e-10, k - 1e-8))
        ents += ["k <- %s" % ilit(k), "y <- %s" % dec(z), "OUTPUT " + ", ".join("k %s y, y %s k" % (o, o) for o in ("=", "<>", "<", "<=", ">", ">="))]
        want.append("".join("TRUE" if v else "FALSE" for v in (k == z, z == k, k != z, z != k, k < z, z < k, k <= z, z <= k, k > z, z > k, k >= z, z >= k)))
        a = r.choice((0, 9, 2 ** 15, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 2, 2 ** 62, 2 ** 63 - 3, r.getrandbits(62), 10 ** 18)) * r.choice((1, 1, -1))
        b = a + r.choice((-2, -1, 0, 1, 2))
        ents += ["k <- %s" % ilit(a), "OUTPUT " + ", ".join("k %s %s" % (o, ilit(b)) for o in ("=", "<>", "<", "<=", ">", ">="))]
        want.append("".join("TRUE" if v else "FALSE" for v in (a == b, a != b, a < b, a <= b, a > b, a >= b)))
    src = "\n".join(ents) + "\n"
    o = env.run(src)
    env.expect(o.kind == "ok", "outcome %s" % o.kind)
    got = o.out.decode().split("\n")[:-1]
    env.expect(got == want, "comparisons print %r, expected %r" % (got, want))
    env.ok(src, n=len(want))


def longtext(env, i):
    """Texts around powers of two: joined, compared with texts that differ in one place only, and cut up again."""
    r = env.rng
    n = (1 << (3 + i // 5 % 14)) + (i % 5) - 2
    base = r.choice(("a", "ab", "abc#", "0123456789", " "))
    src = ['s <- "%s"' % base, "WHILE LENGTH(s) * 2 <= %d DO" % n, "  s <- s & s", "ENDWHILE", "WHILE LENGTH(s) < %d DO" % n, "  k <- %d - LENGTH(s)" % n, "  IF k > LENGTH(s) THEN", "    k <- LENGTH(s)", "  ENDIF", "  s <- s & LEFT(s, k)", "ENDWHILE",
           "OUTPUT LENGTH(s)", "t <- s", "OUTPUT s = t, s <> t, s & \"\" = t, \"\" & s = t"]
    if n < len(base):
        return
    for k in sorted({0, n - 1, n // 2} | {x for x in ((1 << e) + d for e in range(3, 17) for d in (-1, 0)) if x < n and r.random() < 0.3}):
        src += ["t <- LEFT(s, %d) & \"Z\" & RIGHT(s, %d)" % (k, n - k - 1), "OUTPUT %d, \" \", s = t, s <> t, LENGTH(t), MID(t, %d, 1), MID(s, %d, 1)" % (k, k + 1, k + 1)]
    src += ["t <- s & s", "OUTPUT LENGTH(t), LEFT(t, %d) = RIGHT(t, %d), t = s, s & s = t" % (n, n), "t <- s & \"!\"", "OUTPUT LENGTH(t), t = s, RIGHT(t, 1), s & '!' = t", "CASE OF t", "  s: OUTPUT \"shorter\"", "  s & \"?\": OUTPUT \"other\"", "  s & \"!\": OUTPUT \"same\"",
            "  OTHERWISE: OUTPUT \"none\"", "ENDCASE"]
    M.Model.max_string = 400000
    try:
        env.differential("\n".join(src) + "\n", max_steps=100000, steps=600000, string=4000000, timeout=20)
    finally:
        M.Model.max_string = 50000


def trees(env, i):
    """Random well-typed trees up to depth 6, in minimal and redundant printing; the REPL echo shows value and type."""
    r = env.rng
    state = r.getrandbits(64)
    for red in (0.0, 0.5):
        g = Gen(random.Random(state), redundant=red, records=0, enums=1, pointers=0, arrays=1, routines=0, scalars=8,
                maxdepth=r.choice((2, 3, 4, 5, 6)), size=0, calls_in_expr=False, dump=False)
        g.program()
        lines, pre, i0 = g.lines, [], 0
        pre = list(lines)
        del g.lines[:]
        ents = list(pre)
        for v in list(g.globals.values()):
            if v.type in g.prims and not v.dims and not v.const:
                ents.append("%s <- %s" % (v.name, g.literal(v.type)))
        for _ in range(12):
            t = g.scalar_type()
            e = g.expr(t)
            if len(e) > 1500:
                continue
            ents.append(e if not (e[0].isalpha() and " = " in e) else "(%s)" % e)
            if i % 3 == 2:
                # the same tokens with nothing in between
                ents[-1] = X.relayout(ents[-1], r, ("tight",))[0].rstrip("\n")
        env.session(ents, pure=True)


VALUES = {
    "INTEGER": ["7 - 2 * 3", "-2 + 9 - 1", "2 * (vi - 5)", "17 MOD 5 + 1", "vi - 9 DIV 2", "va[1 + 1] + 3", "1 + LENGTH(vs & \"x\")", "MOD(vi + 3, 2 + 2)", "- va[2] + 1", "vx.f + 2", "vp^ - 3 - 1"],
    "REAL": ["7 / 2 - 1", "vr * 2 + 0.5", "-vr + 4.0", "2 * vr / 4", "vi / 4 / 2"],
    "BOOLEAN": ["1 < 2 AND vi = 6", "NOT vb OR vi > 2", "NOT vi = 6", "2 + 3 * 2 > 4 AND NOT FALSE", "vs & \"x\" = \"stx\"", "vb AND NOT vb", "red < green AND ve <> red", "vi - 1 <= 5 OR vb"],
    "STRING": ['"a" & "b" & vs', 'vs & 1 + 2', '"" & vb', 'vc & vs & "z"', 'LEFT(vs & "abc", 1 + 1) & MID("hello", 1 + 1, 5 - 3)', '"x" & (vi = 6)'],
    "ENUM": ["red + 1", "green - 1 + 2", "1 + red", "ve + vi - 5", "2 * 2 + red"],
    "CHAR": ["CHR(60 + 5)", "TO_UPPER(vc)", "va2[1 + 1]"],
    "DATE": ["SETDATE(2 + 3, 1 + 1, 2000 + 20)", "vd"],
}
PLACES = {
    "INTEGER": ["(@)", "-(@)", "MOD(100, @)", "MOD(@, 7)", "DIV(100, @)", "DIV(@, 1 + 1)", "INTEGER(@)", "REAL(@)", "STRING(@)", "BOOLEAN(@)", "CHAR(@)", "va[@ - @ + 1]", "vm[@ - @ + 1, @ - @ + 2]", "idi(@)", "two(@, @)",
                "CHR(60 + @)", "LEFT(\"abcdefgh\", @)", "MID(\"abcdefgh\", 1, @)", "RIGHT(\"abcdefgh\", @)", "DAYINDEX(SETDATE(@, @, 2000 + @))", "OUTPUT @", "OUTPUT 1, @, \".\", @", "vi2 <- @\nvi2", "va[2] <- @\nva[2]",
                "va[@ - @ + 3] <- 8\nva[3]", "DECLARE vq$: ARRAY[@:@ + 2] OF INTEGER\nvq$[@] <- 5\nvq$[@ + 3]", "IF @ = @ THEN\n  OUTPUT \"yes\"\nENDIF", "FOR k$ <- @ TO @ + 2\n  OUTPUT k$\nNEXT k$", "FOR k$ <- 1 TO @\n  OUTPUT k$\nNEXT",
                "FOR k$ <- 1 TO 40 STEP @ * @ + 1\n  OUTPUT k$\nNEXT", "CALL show(@, 2)", "CALL show(1, @)", "vi3 <- 6\nCASE OF vi3\n  @: OUTPUT \"hit\"\n  OTHERWISE: OUTPUT \"miss\"\nENDCASE",
                "vi3 <- 6\nCASE OF vi3\n  @ TO @ + 3: OUTPUT \"hit\"\n  OTHERWISE: OUTPUT \"miss\"\nENDCASE", "WRITEFILE \"f\", @", "SEEK \"r\", @", "va[@]", "@ > 3", "vx.f <- @\nvx.f", "vp^ <- @\nvi\nvi <- 6", "OUTPUT idi(@) + idi(@)", "POW(@, 1 + 1)", "IS_NUM(\"\" & (@))"],
    "REAL": ["(@)", "-(@)", "INT(@)", "INTEGER(@)", "STRING(@)", "OUTPUT @", "vr2 <- @\nvr2", "idr(@)", "ROUND(@, 1)", "SQRT(@ + 1.0)", "IF @ > 1.0 THEN\n  OUTPUT \"yes\"\nELSE\n  OUTPUT \"no\"\nENDIF", "WRITEFILE \"f\", @", "POW(@, 2)", "@ <= 2.0",
             "FOR k$ <- 1 TO @\n  OUTPUT k$\nNEXT"],
    "BOOLEAN": ["(@)", "NOT (@)", "INTEGER(@)", "STRING(@)", "OUTPUT @", "OUTPUT 1, @, @", "vb2 <- @\nvb2", "idb(@)", "IF @ THEN\n  OUTPUT \"yes\"\nELSE\n  OUTPUT \"no\"\nENDIF", "IF FALSE THEN\n  OUTPUT 0\nELSE IF @ THEN\n  OUTPUT \"yes\"\nELSE\n  OUTPUT \"no\"\nENDIF",
                "n$ <- 0\nWHILE n$ < 2 AND (@) DO\n  n$ <- n$ + 1\nENDWHILE\nn$", "n$ <- 0\nREPEAT\n  n$ <- n$ + 1\n  IF n$ > 3 THEN\n    BREAK\n  ENDIF\nUNTIL @\nn$", "WRITEFILE \"f\", @", "(@) = TRUE",
                "n$ <- 0\nWHILE @ DO\n  n$ <- n$ + 1\n  IF n$ > 1 THEN\n    BREAK\n  ENDIF\nENDWHILE\nn$", "CALL shows(@)", "\"\" & (@)"],
    "STRING": ["(@)", "LENGTH(@)", "STRING(@)", "CHAR(@)", "INTEGER(@)", "OUTPUT @", "OUTPUT @, @", "vs2 <- @\nvs2", "ids(@)", "IF @ = @ THEN\n  OUTPUT \"yes\"\nENDIF", "RIGHT(@, 2)", "LEFT(@, 1)", "MID(@, 1, 1)", "TO_UPPER(@)", "STR_TO_NUM(@)", "IS_NUM(@)", "WRITEFILE \"f\", @", "CALL shows(@)", "@ & \"!\"",
               "OPENFILE @ FOR WRITE\nWRITEFILE @, @\nCLOSEFILE @\nOPENFILE @ FOR READ\nREADFILE @, vs3\nvs3\nEOF(@)\nCLOSEFILE @", "vs3 <- \"abst\"\nCASE OF vs3\n  @: OUTPUT \"hit\"\n  OTHERWISE: OUTPUT \"miss\"\nENDCASE"],
    "ENUM": ["(@)", "OUTPUT @", "ve2 <- @\nve2", "ide(@)", "@ = green", "@ > red", "CASE OF ve\n  @: OUTPUT \"hit\"\n  OTHERWISE: OUTPUT \"miss\"\nENDCASE", "@ + 1", "1 + (@)"],
    "CHAR": ["(@)", "OUTPUT @", "vc2 <- @\nvc2", "ASC(@)", "STRING(@)", "@ & @", "@ = 'A'", "CALL shows(@)", "INTEGER(@)", "WRITEFILE \"f\", @"],
    "DATE": ["(@)", "OUTPUT @", "vd2 <- @\nvd2", "DAY(@)", "MONTH(@)", "YEAR(@)", "DAYINDEX(@)", "@ < TODAY()", "WRITEFILE \"f\", @", "@ = vd", "\"\" & (@)"],
}
FRAME = ["DECLARE vm: ARRAY[1:2, 1:3] OF INTEGER", "DECLARE va2: ARRAY[1:2] OF CHAR", "va2[2] <- 'q'", "vm[1, 2] <- 12", "va[2] <- 3", "va[3] <- -3", "vx.f <- 4",
         "FUNCTION idi(n: INTEGER) RETURNS INTEGER\n  RETURN 2 * n - n\nENDFUNCTION", "FUNCTION idr(n: REAL) RETURNS REAL\n  RETURN n + n - n\nENDFUNCTION", "FUNCTION idb(n: BOOLEAN) RETURNS BOOLEAN\n  RETURN n AND TRUE OR n\nENDFUNCTION",
         "FUNCTION ids(n: STRING) RETURNS STRING\n  RETURN n & \"\"\nENDFUNCTION", "FUNCTION ide(n: Col) RETURNS Col\n  RETURN n + 3\nENDFUNCTION", "FUNCTION two(n: INTEGER, m: INTEGER) RETURNS INTEGER\n  RETURN n * 100 + m\nENDFUNCTION",
         "PROCEDURE show(n: INTEGER, m: INTEGER)\n  OUTPUT n, \" \", m\nENDPROCEDURE", "PROCEDURE shows(n: STRING)\n  OUTPUT n\nENDPROCEDURE", "DECLARE ve2: Col", "OPENFILE \"f\" FOR WRITE", "OPENFILE \"r\" FOR RANDOM",
         "PUTRECORD \"r\", vi", "SEEK \"r\", 2", "PUTRECORD \"r\", vr"]
POSITIONS = [(t, k) for t in VALUES for k in range(len(PLACES[t]))]


def contexts(env, i):
    """Every place of the language which takes an expression takes a whole one: with operators, without parentheses."""
    t, k = POSITIONS[i % len(POSITIONS)]
    r = env.rng
    ents, n = SETUP + FRAME, 0
    vals = list(VALUES[t])
    for _ in range(4 + i // len(POSITIONS)):
        # and others composed of two
        op = {"INTEGER": "+-*", "REAL": "+-*", "BOOLEAN": ("AND", "OR"), "STRING": "&"}.get(t)
        if op:
            vals.append("%s %s %s" % (r.choice(VALUES[t]), r.choice(op), r.choice(VALUES[t])))
    for e in vals:
        n += 1
        text = PLACES[t][k].replace("@", e).replace("$", "abcdefghijklmnopqrstuvwxyz"[n % 26])
        ents = ents + parts(text)
    env.session(ents, pure=True, each=True, check_files=True)


def parts(text):
    """The entries of a text of several statements."""
    res, cur, depth = [], [], 0
    for l in text.split("\n"):
        w = l.strip().split(" ")[0]
        if w in ("IF", "WHILE", "REPEAT", "FOR", "CASE"):
            depth += 1
        cur.append(l)
        if w in ("ENDIF", "ENDWHILE", "UNTIL", "NEXT", "ENDCASE"):
            depth -= 1
        if not depth:
            res.append("\n".join(cur))
            cur = []
    return res


def mistyped(env, i):
    """Random trees whose operands need not fit: acceptance and error kinds."""
    r = env.rng

    def tree(d):
        if d == 0 or r.random() < 0.2:
            return r.choice(OPERANDS[:-3])
        x = r.random()
        if x < 0.08:
            return "(-%s)" % paren(tree(d - 1))
        if x < 0.16:
            return "(NOT %s)" % paren(tree(d - 1))
        return "(%s %s %s)" % (paren(tree(d - 1)), r.choice(OPS), paren(tree(d - 1)))

    def paren(s):
        return s if s[0] == "(" else "(%s)" % s
    env.session(SETUP + [r.choice(("", "OUTPUT ")) + tree(r.randint(1, 4)) for _ in range(40)], pure=True)


def program(env, i):
    """Expressions inside programs: operands from variables, elements, fields and calls, used in every context."""
    r = env.rng
    g = Gen(r, redundant=r.choice((0, 0.15, 0.4)), maxdepth=r.randint(2, 5), size=12, routines=r.randint(0, 2), pointers=0,
            records=1, weights={"bad": 0.3, "output": 25, "assign": 15, "break": 0, "continue": 0})
    env.differential(g.program(), "\n".join(g.stdin) + "\n")


CHECK = Check("C02", [
    scale.family("C02", 960, 16000),
    Family("pairs", pairs, len(PAIRS), len(PAIRS) * 6, about="every ordered pair of binary operators over typed operand "
           "triples, unparenthesised against the documented grouping"),
    Family("table", table, 17, 17 * 4, about="every operator x operand type x operand type", chunk=1),
    Family("laws", laws, 81 + len(BOUNDARY) + 60, 81 + len(BOUNDARY) + 4000, about="DIV/MOD laws"),
    Family("longtext", longtext, 70, 1400, about="texts of every length around 2^3..2^16 joined, compared and cut"),
    Family("reallaws", reallaws, 60, 4000, about="DIV/MOD laws with REAL operands of every sign"),
    Family("exact", exact, 1500, 20000, about="64-bit exactness and bit-exact REAL results"),
    Family("near", near, 400, 5000, about="comparisons of nearly equal numbers"),
    Family("trees", trees, 4000, 60000, about="random trees, two printings"),
    Family("contexts", contexts, len(POSITIONS), len(POSITIONS) * 40, about="every place which takes an expression x expressions with operators"),
    Family("mistyped", mistyped, 1200, 15000, about="trees with unacceptable operands"),
    Family("program", program, 4000, 60000, about="expressions in whole programs"),
], "A case is an expression (or a program of expressions) whose value, type and error outcome are predicted by the "
   "reference model or by Python integers/doubles; it counts once per distinct text, and only if it was judged.",
    assumptions=["REAL is IEEE-754 double; signed overflow wraps", "rounding direction of DIV/MOD with negative inexact "
                 "operands is not judged beyond the laws", "evaluation of the right operand of FALSE AND x is not judged"])
