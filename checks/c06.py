"""C06: arrays are bounds-checked total maps with independent elements."""
import c07
import itertools

import c04
import repl
from gen import Gen
import reentrant
import places
import scale
from harness import Check, Family, first_diff

B = [(l, u) for l in range(-3, 5) for u in range(l, 5)]
SHAPES = [(x,) for x in B] + list(itertools.product(B, repeat=2))
SHAPES3 = list(itertools.product(B, repeat=3))
TYPES = {
    "INTEGER": ("{e}", "{x}", lambda v: str(v)),
    "STRING": ('"s" & ({e})', "{x}", lambda v: "s%d" % v),
    "REAL": ("({e}) / 2", "{x}", None),
    "CHAR": ("CHR(33 + ({e}) MOD 90)", "{x}", lambda v: chr(33 + v % 90)),
    "BOOLEAN": ("({e}) MOD 2 = 0", "{x}", lambda v: "TRUE" if v % 2 == 0 else "FALSE"),
    "DATE": ("SETDATE(1, 1, 1 + ({e}))", "{x}", lambda v: "1/1/%d" % (1 + v)),
    "Col": ("red + ({e})", "{x}", lambda v: ("red", "green", "blue")[v % 3]),
    "Rec": (None, "{x}.n", lambda v: str(v)),
    "Ptr": (None, "{x}^", None),
}
DEFAULT = {"INTEGER": "0", "STRING": "", "REAL": "0.0", "CHAR": "\0", "BOOLEAN": "FALSE", "DATE": "0/0/0", "Col": "red", "Rec": "0"}


def shape_case(env, dims, t):
    """Fill, read back, probe one step outside, read back again."""
    r = env.rng
    n = len(dims)
    vs = ["i", "j", "k"][:n]
    sizes = [u - l + 1 for l, u in dims]
    # the value written: a linear position from 1, computed in an order of its own
    e, mul = "1", 1
    for v, (l, u), s in zip(vs, dims, sizes):
        e += " + (%s - (%d)) * %d" % (v, l, mul)
        mul *= s
    cells = list(itertools.product(*[range(l, u + 1) for l, u in dims]))

    def val(c):
        x, m = 1, 1
        for a, (l, u), s in zip(c, dims, sizes):
            x += (a - l) * m
            m *= s
        return x

    def loops(body):
        s, ind = [], ""
        order = list(range(n))
        heads = [(vs[q], dims[q]) for q in order]
        for v, (l, u) in heads:
            s.append("%sFOR %s <- %d TO %d" % (ind, v, l, u))
            ind += " "
        s.append(ind + body)
        for v, _ in reversed(heads):
            ind = ind[1:]
            s.append("%sNEXT %s" % (ind, v))
        return "\n".join(s)
    w, rd, f = TYPES[t]
    ref = "a[%s]" % ", ".join(vs)
    bounds = ", ".join("%d:%d" % d for d in dims)
    exp = []
    ents = []

    def add(text, out):
        ents.append(repl.Entry(text))
        exp.append(out)
    add("TYPE Col = (red, green, blue)", "")
    add("TYPE Rec\n DECLARE n: INTEGER\nENDTYPE", "")
    add("TYPE Ptr = ^INTEGER", "")
    add("DECLARE b: ARRAY[%s] OF %s" % (bounds, t), "")
    add("DECLARE a: ARRAY[%s] OF %s" % (bounds, t), "")
    add("DECLARE z: ARRAY[%s] OF %s" % (bounds, t), "")
    out = {"REAL": lambda v: ("%.6g" % (v / 2)) if v % 2 else "%d.0" % (v // 2)}.get(t, f)
    if t == "Ptr":
        add("DECLARE c: ARRAY[1:%d] OF INTEGER" % mul, "")
        add("FOR i <- 1 TO %d\n c[i] <- i * 3\nNEXT i" % mul, "")
        out = lambda v: str(v * 3)
    else:
        add(loops("OUTPUT " + rd.format(x=ref)), (DEFAULT[t] + "\n") * len(cells))
    add(loops({"Rec": "%s.n <- %s" % (ref, e), "Ptr": "%s <- ^c[%s]" % (ref, e)}.get(t) or "%s <- %s" % (ref, w.format(e=e))), "")
    whole = "".join(out(val(c)) + "\n" for c in cells)
    add(loops("OUTPUT " + rd.format(x=ref)), whole)
    box = [c for c in itertools.product(*[range(l - 1, u + 2) for l, u in dims])
           if any(not l <= x <= u for x, (l, u) in zip(c, dims))]
    if len(box) > 60 and env.tier == "quick":
        box = r.sample(box, 60)
    for c in box:
        x = "a[%s]" % ", ".join(map(str, c))
        if r.random() < 0.5:
            add("OUTPUT " + rd.format(x=x), None)
        else:
            add("%s <- %s" % (x, {"Rec": "a[%s]" % ", ".join(str(l) for l, _ in dims), "Ptr": "a[%s]" % ", ".join(str(l) for l, _ in dims)}.get(
                t) or w.format(e="7")), None)
    for k in {n - 1, n + 1} - {0}:
        add("OUTPUT " + rd.format(x="a[%s]" % ", ".join([str(dims[0][0])] * k)), None)
    add("a[%s] <- 1" % ", ".join(["1.0"] + [str(l) for l, _ in dims[1:]]), None)
    add(loops("OUTPUT " + rd.format(x=ref)), whole)
    # an independent copy
    add("b <- a", "")
    last = ", ".join(str(u) for _, u in dims)
    if t in ("Rec", "Ptr"):
        add("b[%s]%s <- 7" % (last, ".n" if t == "Rec" else "^"), "")
        new = "7"
    else:
        add("b[%s] <- %s" % (last, w.format(e="0")), "")
        new = out(0)
    if t == "Ptr":
        whole = whole[:len(whole) - len(out(val(cells[-1]))) - 1] + "7\n"
    add(loops("OUTPUT " + rd.format(x=ref)), whole)
    add(loops("OUTPUT " + rd.format(x="b" + ref[1:])), "".join(out(val(c)) + "\n" for c in cells[:-1]) + new + "\n")
    if t not in ("Ptr",):
        add(loops("OUTPUT " + rd.format(x="z" + ref[1:])), (DEFAULT[t] + "\n") * len(cells))
    res = env.run(None, repl.stdin_of(ents), collect=False, cells=10 ** 7, steps=10 ** 7)
    p = repl.Predicted()
    p.entries, p.chunks = ents, ["\n" if x is None else x for x in exp]
    p.errors = [None if x is not None else KIND for x in exp]
    w = repl.check(p, res)
    if w:
        env.violation("%s of %s: %s" % (bounds, t, w))
        return
    env.events["cells"] = env.events.get("cells", 0) + 5 * len(cells)
    env.events["probes outside"] = env.events.get("probes outside", 0) + len(box)
    env.ok((dims, t))


class KIND:
    kind = "runtime"


def shapes12(env, i):
    t = list(TYPES)[(i * 7 + i // len(SHAPES)) % len(TYPES)]
    shape_case(env, SHAPES[i % len(SHAPES)], t)


def shapes3(env, i):
    if env.tier == "quick":
        i = (i * 37 + 11) % len(SHAPES3)
    t = list(TYPES)[0 if i % 3 else (i // 3) % len(TYPES)]
    shape_case(env, SHAPES3[i], t)


ELEM = {"INTEGER": ["1", "-5", "42"], "STRING": ['"p"', '"qq"', '""'], "REAL": ["1.5", "-2.25"], "CHAR": ["'u'", "'v'"], "Rec": ["rc"],
        "BOOLEAN": ["TRUE", "FALSE"], "DATE": ["1/2/2003"], "Col": ["green", "blue"]}


def history(env, i):
    """Several arrays: element writes, whole-array assignment (also of incompatible arrays), bad indices, elements passed by
    reference, arrays inside records and as locals; the whole state is shown as it evolves."""
    r = env.rng
    t = r.choice(list(ELEM))
    t2 = t if r.random() < 0.6 else r.choice(list(ELEM))
    k = r.choice((1, 1, 2, 2, 3))
    d1 = tuple((lo, lo + r.randint(0, 2)) for lo in (r.randint(-2, 2) for _ in range(k)))
    d2 = d1
    if r.random() < 0.35:
        d2 = [list(x) for x in d1]
        d2[r.randrange(k)][r.randrange(2)] += r.choice((1, -1))
        d2 = tuple((min(a, b), max(a, b)) for a, b in d2)
        if r.random() < 0.3:
            d2 = d1[::-1]
    bs = lambda d: ", ".join("%s:%s" % (("%d + 0" % a if r.random() < 0.1 else a), b) for a, b in d)
    ents = c04.split("""TYPE Col = (red, green, blue)
TYPE Rec
  DECLARE n: INTEGER
  DECLARE s: ARRAY[1:2] OF STRING
ENDTYPE
DECLARE rc, rd: Rec
rc.n <- 5
rc.s[2] <- "five"
ix <- 1""")
    arrs = []
    for name, tt, d in (("a", t, d1), ("b", t2, d2), ("c", t, d1)):
        ents.append("DECLARE %s: ARRAY[%s] OF %s" % (name, bs(d), tt))
        arrs.append((name, tt, d))
    ents += ["TYPE Box\n  DECLARE v: ARRAY[%s] OF %s\n  DECLARE w: ARRAY[%s] OF %s\nENDTYPE" % (bs(d1), t, bs(d2), t2),
             "DECLARE x, y: Box", "DECLARE bx: ARRAY[0:1] OF Box"]
    arrs += [("x.v", t, d1), ("x.w", t2, d2), ("y.v", t, d1), ("bx[1].v", t, d1), ("bx[0].w", t2, d2)]
    ents.append("PROCEDURE put(BYREF e: %s, v: %s)\n  e <- v\nENDPROCEDURE" % (t, t))
    ents.append("PROCEDURE loc(v: %s)\n  DECLARE a: ARRAY[%s] OF %s\n  DECLARE q: ARRAY[%s] OF %s\n  a[%s] <- v\n  q <- a\n  c <- q\n  a <- b\n"
                "ENDPROCEDURE" % (t, bs(d1), t, bs(d1), t, ", ".join(str(l) for l, _ in d1)))

    def show(name, tt, d):
        cs = list(itertools.product(*[range(l, u + 1) for l, u in d]))
        f = (lambda x: 'STRING(%s.n), %s.s[1], %s.s[2]' % (x, x, x)) if tt == "Rec" else (lambda x: x)
        return "OUTPUT " + ', "|", '.join(f("%s[%s]" % (name, ", ".join(map(str, c)))) for c in cs)

    def idx(d):
        x = r.random()
        v = [str(r.randint(l, u)) for l, u in d]
        if x < 0.55:
            pass
        elif x < 0.7:
            q = r.randrange(len(d))
            v[q] = str(r.choice((d[q][0] - 1, d[q][1] + 1, d[q][1] + 7, 9223372036854775807, 4294967296 + d[q][0], 0)))
        elif x < 0.76:
            v[r.randrange(len(d))] = r.choice(("1.0", '"1"', "TRUE", "'1'", "red", "nosuch", "rc", "1/2/2003", "a", "rc.n", "ix"))
        elif x < 0.82:
            v = v[:-1] if len(v) > 1 and r.random() < 0.5 else v + ["1"]
        elif x < 0.92:
            q = r.randrange(len(d))
            v[q] = r.choice(("ix", "ix + 1", "LENGTH(rc.s[2]) - 3", "rc.n - 4", "-ix", "ix * 0 + %d" % d[q][0], "(%d)" % d[q][1]))
        return ", ".join(v)
    for _ in range(r.randint(12, 30)):
        name, tt, d = r.choice(arrs)
        x = r.random()
        if x < 0.5:
            ents.append("%s[%s] <- %s" % (name, idx(d), r.choice(ELEM[tt if r.random() < 0.93 else r.choice(list(ELEM))])))
        elif x < 0.58:
            n2, _, e2 = r.choice(arrs)
            ents.append("%s[%s] <- %s[%s]" % (name, idx(d), n2, idx(e2)))
        elif x < 0.74:
            n2 = r.choice(arrs)[0]
            ents.append("%s <- %s" % (name, n2 if r.random() < 0.95 else r.choice(("5", "rc", "nosuch", "x"))))
        elif x < 0.79:
            ents.append("OUTPUT %s[%s]%s" % (name, idx(d), ".n" if tt == "Rec" else ""))
        elif x < 0.85:
            ents.append("CALL put(%s[%s], %s)" % (name, idx(d), r.choice(ELEM[t])))
        elif x < 0.88:
            ents.append("CALL loc(%s)" % r.choice(ELEM[t]))
        elif x < 0.92:
            ents.append(r.choice(("x <- y", "y <- x", "bx[1] <- x", "bx[0] <- y", "x <- bx[1]", "bx[1] <- bx[0]")))
        elif x < 0.95:
            ents.append("ix <- %d" % r.randint(-2, 3))
        else:
            ents.append(r.choice(("rc.n <- rc.n + 1", 'rc.s[1] <- "n"', "rc <- rd", "rd <- rc")))
        ents.append(show(name, tt, d))
        if r.random() < 0.3:
            q = r.choice(arrs)
            ents.append(show(*q))
    for q in arrs:
        ents.append(show(*q))
    env.session(ents, pure=False)


def loops(env, i):
    """The same element designator evaluated again and again with changing indices, through pointers, parameters and fields."""
    r = env.rng
    n = r.randint(2, 5)
    src = ["TYPE PI = ^INTEGER", "TYPE Rec", "  DECLARE v: ARRAY[0:%d] OF INTEGER" % n, "  DECLARE k: INTEGER", "ENDTYPE", "TYPE PR = ^Rec",
           "DECLARE a, b: ARRAY[0:%d] OF INTEGER" % n, "DECLARE m: ARRAY[0:%d, 0:2] OF INTEGER" % n, "DECLARE rs: ARRAY[0:2] OF Rec",
           "DECLARE r1, r2: Rec", "DECLARE pr: PR", "DECLARE pi: PI", "DECLARE s, t: INTEGER", "pr <- ^r1"]
    des = ["a[{i}]", "b[{i}]", "m[{i}, {j}]", "rs[{j}].v[{i}]", "r1.v[{i}]", "pr^.v[{i}]", "a[b[{i}] MOD %d]" % (n + 1), "rs[{j}].k", "pr^.k",
           "m[r1.v[{i}] MOD %d, {j}]" % (n + 1), "a[pr^.v[{i}] MOD %d]" % (n + 1)]
    tick = i % 3 == 0     # indices with side effects
    ii = lambda: "c()" if tick and r.random() < 0.3 else r.choice(("i", "i", "%d - i" % n, "(i + t) MOD %d" % (n + 1), "(i * i) MOD %d" % (n + 1), str(r.randint(0, n))))
    jj = lambda: "c()" if tick and r.random() < 0.4 else r.choice(("j", "j", "2 - j", "(i + j) MOD 3", "t MOD 3", str(r.randint(0, 2))))
    d = lambda: r.choice(des).format(i=ii(), j=jj())
    ops = lambda: r.choice((
        "%s <- %s + 1" % (d(), d()), "s <- s + " + d(), "%s <- i * 3 + j" % d(), "pr <- ^rs[%s]" % jj(), "pi <- ^" + r.choice(des).format(i=ii(), j=jj()),
        "CALL add(%s, %s)" % (d(), d()), "t <- (t + 1) MOD 6", "IF s MOD 2 = 0 THEN\n %s <- %s\nELSE\n %s <- 1\nENDIF" % (d(), d(), d()),
        "a <- b", "a <- rs[%s].v" % jj(), "rs[%s].v <- a" % jj(), "rs[%s].v <- rs[%s].v" % (jj(), jj()), "b <- pr^.v", "rs[%s] <- rs[%s]" % (jj(), jj()), "pr <- ^r2", "s <- g(i, j)", "OUTPUT " + d(), "%s <- g(i, j)" % d()))
    if tick:
        src += ["FUNCTION c() RETURNS INTEGER", " t <- (t + 1) MOD 3", " RETURN t", "ENDFUNCTION"]
    src += ["PROCEDURE add(BYREF x: INTEGER, y: INTEGER)", " x <- x + y", " t <- (t + 1) MOD 6", " x <- x + 1", "ENDPROCEDURE"]
    src += ["FUNCTION g(i: INTEGER, j: INTEGER) RETURNS INTEGER"] + [" " + ops().replace("\n", "\n ") for _ in range(0)] + [
        " DECLARE q: ARRAY[0:%d] OF INTEGER" % n, " q[i] <- %s" % d(), " q[(i + 1) MOD %d] <- j" % (n + 1), " %s <- q[i]" % d(),
        " RETURN q[i] + q[%d - i]" % n, "ENDFUNCTION"]
    for _ in range(r.randint(1, 3)):
        src += ["FOR i <- 0 TO %d" % n, "FOR j <- 0 TO 2"] + [ops() for _ in range(r.randint(2, 6))] + ["NEXT j", "NEXT i"]
    src += ["FOR i <- 0 TO %d" % n, ' OUTPUT a[i], " ", b[i], " ", m[i, 0], " ", m[i, 1], " ", m[i, 2], " ", r1.v[i], " ", r2.v[i], " ", rs[0].v[i], " ", '
            'rs[1].v[i], " ", rs[2].v[i]', "NEXT i", 'OUTPUT s, " ", t, " ", r1.k, " ", r2.k, " ", rs[0].k, " ", rs[1].k, " ", rs[2].k', "OUTPUT pi^"]
    env.differential("\n".join(src) + "\n")


def declare(env, i):
    """Bounds: expressions, reversed, non-INTEGER, single-cell, huge indices; declared twice; hiding a global; assigned whole."""
    r = env.rng
    b = ["1:3", "-2:0", "5:5", "3:1", "1.0:2", "1:2.5", '"1":2', "TRUE:FALSE", "n:n + 2", "n - 1:2 * n", "-n:n", "f(1):f(3)", "0:2, 1:2", "2:1, 1:2", "1:2, 2:1",
         "n DIV 0:3", "k:3", "'a':'c'", "-3:-1", "1:1, 1:1, 1:1", "nosuch:2", "0:0"]
    x = b[i % len(b)]
    t = r.choice(("INTEGER", "STRING", "NoType", "Rec"))
    src = "n <- 2\nFUNCTION f(x: INTEGER) RETURNS INTEGER\n OUTPUT \"f\", x\n RETURN x\nENDFUNCTION\nTYPE Rec\n DECLARE k: INTEGER\nENDTYPE\nOUTPUT \"s\"\n"
    src += "DECLARE a, b: ARRAY[%s] OF %s\nOUTPUT \"declared\"\n" % (x, t)
    src += r.choice(("a <- b\nOUTPUT \"ok\"\n", "DECLARE a: ARRAY[1:2] OF INTEGER\n", "OUTPUT a[1]\n", "OUTPUT a\n", "a <- 5\n", "n <- a\n",
                     "OUTPUT a[%s]\n" % r.randint(-3, 4), "DECLARE c: ARRAY[%s] OF %s\nc <- a\nOUTPUT 1\n" % (r.choice(b), t),
                     "PROCEDURE q(x: ARRAY)\nENDPROCEDURE\n", "OUTPUT 1, a[1, 1]\n"))
    env.differential(src, key=src)


VALUES = ["0", "2", "-3", "2.0", "2.1", "-2.5", "TRUE", "FALSE", "'b'", '"2"', '""', "Mar", "d", "p", "rec", "arr", "nosuch", "n", "n + TRUE", "2 * 1.5"]


def typed(env, i):
    """Bounds and indices of every type: every pair of bounds, then every value as an index of every dimension, read and written."""
    a, b = VALUES[i % len(VALUES)], VALUES[i // len(VALUES) % len(VALUES)]
    head = ("TYPE Season = (Jan, Feb, Mar)\nTYPE IP = ^INTEGER\nTYPE Rec\n DECLARE k: INTEGER\nENDTYPE\nDECLARE d: DATE\nDECLARE p: IP\nDECLARE rec: Rec\n"
            "DECLARE arr: ARRAY[0:1] OF INTEGER\nn <- 1\nd <- 03/01/1970\np <- ^n\n")
    dims = env.rng.choice(("{b}", "{b}, 0:1", "0:1, {b}")).format(b="%s:%s" % (a, b))
    env.differential(head + 'OUTPUT "s"\nDECLARE q: ARRAY[%s] OF INTEGER\nOUTPUT "declared"\nDECLARE w: ARRAY[%s] OF INTEGER\nw <- q\nOUTPUT "same"\n' % (dims, dims))
    box = head + "DECLARE q: ARRAY[-3:3] OF INTEGER\nDECLARE m: ARRAY[-3:3, -3:3] OF INTEGER\nFOR i <- -3 TO 3\n q[i] <- i * 10\n FOR j <- -3 TO 3\n  m[i, j] <- i * 10 + j\n NEXT j\nNEXT i\n"
    use = env.rng.choice(("OUTPUT q[%s], m[%s, %s]\n" % (a, a, b), "q[%s] <- 77\nOUTPUT q[2], q[1]\n" % a, "m[%s, %s] <- 78\nOUTPUT m[2, 2]\n" % (a, b),
                          "INPUT q[%s]\nOUTPUT q[2]\n" % b, "OUTPUT m[%s, q[%s]]\n" % (a, b), "FOR q[%s] <- 1 TO 2\n OUTPUT q[2], q[0]\nNEXT q[%s]\n" % (a, a)))
    env.differential(box + use + "FOR i <- -3 TO 3\n OUTPUT q[i], m[i, 2], m[2, i]\nNEXT i\n", "5\n")


def program(env, i):
    r = env.rng
    g = Gen(r, size=r.randint(8, 20), arrays=4, scalars=3, routines=r.randint(0, 2), maxdepth=2,
            weights={"element": 25, "arrassign": 12, "field": 5, "bad": 0.2})
    env.differential(g.program(), "\n".join(g.stdin) + "\n", nontrivial=lambda m, e: m.events.get("index", 0) > 0)


CHECK = Check("C06", [
    places.family("array", 300, 10000),
    scale.family("C06", 800, 16000),
    reentrant.family(600, 15000),
    Family("shapes12", shapes12, len(SHAPES), len(SHAPES) * len(TYPES), about="every 1-D and 2-D array with bounds in [-3,4]: default, fill, "
           "read all, probe the surrounding box, read all, copy, read both (exhaustive over bounds)"),
    Family("shapes3", shapes3, 2400, len(SHAPES3), about="3-D arrays with bounds in [-3,4] (thorough: all 46656)"),
    Family("history", history, 2500, 80000, about="write / whole-array-assign / bad-index histories with state dumps"),
    Family("loops", loops, 2500, 80000, about="element designators re-evaluated with changing indices"),
    Family("declare", declare, 22 * 20, 22 * 200, about="declarations"),
    Family("typed", typed, len(VALUES) ** 2, len(VALUES) ** 2 * 6, about="every pair of values of every type as bounds and as indices"),
    Family("layouts", c07.layouts, 300, 10000, about="arrays of records whose own arrays took their bounds from variables: assigned whole if all bounds agree, refused otherwise"),
    Family("program", program, 2500, 80000, about="generated programs"),
], "A shape case is one array type (bounds, element type) written completely, read back, probed outside and copied; other cases are "
   "histories/programs distinct by text whose full output is predicted.",
    assumptions=["an array variable with the same name as a scalar in one scope is not judged"])
