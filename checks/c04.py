"""C04: BYVAL isolates, BYREF aliases, locals belong to one activation."""
import itertools

from gen import Gen
import reentrant
import places
import scale
from harness import Check, Family

MODES = [m for n in range(1, 5) for m in itertools.product(("", "BYVAL ", "BYREF "), repeat=n)]
TYPES = {"INTEGER": ("1", "7"), "REAL": ("1.5", "7.25"), "STRING": ('"one"', '"two"'), "CHAR": ("'p'", "'q'"),
         "BOOLEAN": ("FALSE", "TRUE"), "DATE": ("1/1/2000", "2/3/2004"), "Col": ("red", "blue"), "Rec": ("r1", "r2"),
         "Ptr": ("q1", "q2")}
PRE = """TYPE Col = (red, green, blue)
TYPE Rec
  DECLARE n: INTEGER
  DECLARE a: ARRAY[1:2] OF STRING
ENDTYPE
TYPE Ptr = ^INTEGER
DECLARE r1, r2: Rec
r1.n <- 11
r1.a[1] <- "r1"
r2.n <- 22
r2.a[2] <- "r2"
DECLARE t1, t2: INTEGER
t1 <- 101
t2 <- 202
DECLARE q1, q2: Ptr
q1 <- ^t1
q2 <- ^t2
"""


def show(x, t):
    if t == "Rec":
        return 'OUTPUT %s.n, " ", %s.a[1], " ", %s.a[2]' % (x, x, x)
    if t == "Ptr":
        return "OUTPUT %s^" % x
    return "OUTPUT " + x


def modes(env, i):
    """Every list of up to four parameters with every combination of written and inherited modes."""
    r = env.rng
    ms = MODES[i % len(MODES)]
    fn = r.random() < 0.3
    ts = [r.choice(list(TYPES)) for _ in ms]
    shared = [False] * len(ms)  # "a, b: T" gives one type to several parameters
    if i // len(MODES) % 3 == 2:
        for k in range(len(ms) - 1, 0, -1):
            if r.random() < 0.5:
                ts[k - 1], shared[k - 1] = ts[k], True
    src = [PRE]
    for k, t in enumerate(ts):
        src += ["DECLARE g%d: %s" % (k, t), "g%d <- %s" % (k, TYPES[t][0])]
    head = ", ".join("%sp%d" % (m, k) + ("" if shared[k] else ": " + t) for k, (m, t) in enumerate(zip(ms, ts)))
    src.append("%s work(%s)%s" % ("FUNCTION" if fn else "PROCEDURE", head, " RETURNS INTEGER" if fn else ""))
    for k, t in enumerate(ts):
        src += ["  " + show("p%d" % k, t), "  p%d <- %s" % (k, TYPES[t][1]), "  " + show("p%d" % k, t), "  " + show("g%d" % k, t)]
        if r.random() < 0.3:
            src += ["  g%d <- %s" % (k, TYPES[t][0]), "  " + show("p%d" % k, t)]
    if fn:
        src.append("  RETURN 5")
    src.append("END" + ("FUNCTION" if fn else "PROCEDURE"))
    call = "work(%s)" % ", ".join("g%d" % k for k in range(len(ts)))
    for _ in range(r.choice((1, 2))):
        src.append("OUTPUT " + call if fn else "CALL " + call)
        for k, t in enumerate(ts):
            src.append(show("g%d" % k, t))
    env.differential("\n".join(src) + "\n", key=(i % len(MODES), ts))


TARGETS = ["g", "a[1]", "a[2]", "a[ix]", "m[ix, 2]", "rc.n", "rc.ns[1]", "rs[ix].n", "rc.in.n", "pt^", "pr^.n", "g", "loc", "la[2]", "lr.n"]


def targets(env, i):
    """A BYREF parameter is the designated variable, element, field or pointer target itself; chains of BYREF."""
    r = env.rng
    chain = r.randint(0, 3)
    n = r.randint(1, 3)
    src = ["""TYPE Inner
  DECLARE n: INTEGER
ENDTYPE
TYPE Rec
  DECLARE n: INTEGER
  DECLARE in: Inner
  DECLARE ns: ARRAY[1:2] OF INTEGER
ENDTYPE
TYPE PI = ^INTEGER
TYPE PR = ^Rec
DECLARE g, ix, t: INTEGER
DECLARE a: ARRAY[1:3] OF INTEGER
DECLARE m: ARRAY[1:3, 1:2] OF INTEGER
DECLARE rc: Rec
DECLARE rs: ARRAY[1:3] OF Rec
DECLARE pt: PI
DECLARE pr: PR
pt <- ^t
pr <- ^rs[3]
ix <- 2"""]
    ps = ", ".join("%sx%d: INTEGER" % ("BYREF " if k == 0 or r.random() < 0.4 else "", k) for k in range(n))
    ops = ["x{k} <- x{k} + 10", "g <- g + 1", "ix <- ix MOD 3 + 1", "OUTPUT x{k}", "a[1] <- a[1] + 3", "t <- t + 5", "rc.n <- x{k}",
           "pt <- ^a[2]", "pr <- ^rc", "x{k} <- x{j} * 2", "rs[2].n <- 77", "FOR x{k} <- 1 TO 3\n  NEXT x{k}", "rc <- rs[2]",
           "OUTPUT a[ix]"]

    def body(extra=()):
        b = []
        for _ in range(r.randint(1, 5)):
            b.append("  " + r.choice(ops).format(k=r.randrange(n), j=r.randrange(n)))
        return b
    src += ["PROCEDURE c0(%s)" % ps] + body() + ["ENDPROCEDURE"]
    for c in range(chain):
        perm = list(range(n))
        if r.random() < 0.4:
            r.shuffle(perm)
        src += ["PROCEDURE c%d(%s)" % (c + 1, ps)] + body() + ["  CALL c%d(%s)" % (c, ", ".join("x%d" % k for k in perm))] + body() + ["ENDPROCEDURE"]
    dump = ['OUTPUT g, " ", ix, " ", t, " ", a[1], " ", a[2], " ", a[3]', 'OUTPUT m[1,2], " ", m[2,2], " ", m[3,2], " ", m[2,1]',
            'OUTPUT rc.n, " ", rc.ns[1], " ", rc.ns[2], " ", rc.in.n', 'OUTPUT rs[1].n, " ", rs[2].n, " ", rs[3].n']
    src += ["PROCEDURE main(k: INTEGER)", "  DECLARE loc: INTEGER", "  DECLARE la: ARRAY[1:2] OF INTEGER", "  DECLARE lr: Rec", "  loc <- k"]
    for _ in range(r.randint(1, 3)):
        src.append("  CALL c%d(%s)" % (chain, ", ".join(r.choice(TARGETS) for _ in range(n))))
        src += ["  " + d for d in dump] + ['  OUTPUT loc, " ", la[1], " ", la[2], " ", lr.n']
    src += ["ENDPROCEDURE", "FOR q <- 1 TO %d" % r.randint(1, 2), "  CALL main(q)", "NEXT q"] + dump
    env.differential("\n".join(src) + "\n")


NAMES = ["a", "b", "c"]


def scopes(env, i):
    """Few names, many roles: the same name is a global, local, parameter, array, constant or undefined, depending on which
    branches an activation has executed. Runs as a REPL session so that failing calls do not end it."""
    r = env.rng

    def exp():
        x = r.random()
        if x < 0.45:
            return r.choice(NAMES)
        if x < 0.6:
            return "%s[%d]" % (r.choice(NAMES), r.randint(0, 2))
        if x < 0.75:
            return str(r.randint(0, 9))
        if x < 0.85:
            return '"s%d"' % r.randint(0, 3)
        return "%s & %s" % (r.choice(NAMES), r.choice(("1", '"z"', r.choice(NAMES))))

    def simple(loc):
        x = r.random()
        n = r.choice(NAMES)
        if x < 0.3:
            return ["OUTPUT " + exp()]
        if x < 0.52:
            return ["%s <- %s" % (n, exp())]
        if x < 0.6:
            return ["%s[%d] <- %s" % (n, r.randint(0, 2), exp())]
        if x < 0.72:
            return ["DECLARE %s: %s" % (n, r.choice(("INTEGER", "INTEGER", "STRING", "ARRAY[0:1] OF INTEGER")))]
        if x < 0.76:
            return ["CONSTANT %s = %d" % (n, r.randint(10, 20))]
        if x < 0.82:
            return ["FOR %s <- 1 TO 2" % n, "  OUTPUT %s" % n, "NEXT %s" % n]
        if loc is not None:
            return call(loc)
        return ["OUTPUT " + exp()]

    nproc = r.randint(2, 4)
    par = [[(("BYREF " if r.random() < 0.4 else ""), r.choice(NAMES), r.choice(("INTEGER", "INTEGER", "STRING")))
            for _ in range(r.randint(0, 2))] for _ in range(nproc)]
    for p in par:
        if len(p) == 2 and p[0][1] == p[1][1]:
            p.pop()

    def call(below):
        c = [k for k in range(nproc) if k < below]
        if not c:
            return ["OUTPUT " + exp()]
        k = r.choice(c)
        return ["CALL p%d(%s)" % (k, ", ".join(r.choice(NAMES) if r.random() < 0.6 else exp() for _ in par[k]))]

    ents = ["t <- 0"]
    for k in range(nproc):
        b = ["PROCEDURE p%d(%s)" % (k, ", ".join("%s%s: %s" % x for x in par[k]))]
        b.append("  t <- t + 1")
        for _ in range(r.randint(2, 5)):
            s = simple(k)
            if r.random() < 0.45:
                s = ["IF t MOD %d = %d THEN" % ((lambda m: (m, r.randrange(m)))(r.randint(2, 3)))] + ["  " + y for y in s] + ["ENDIF"]
            b += ["  " + y for y in s]
        b.append("ENDPROCEDURE")
        ents.append("\n".join(b))
    for _ in range(r.randint(6, 16)):
        x = r.random()
        if x < 0.7:
            ents.append(call(nproc)[0])
        else:
            s = simple(None)
            ents.append("\n".join(s))
    for n in NAMES:
        ents.append("OUTPUT " + n)
    env.session(ents, pure=False)


def recursion(env, i):
    """Recursive activations up to depth 50 keep their own parameters, locals, arrays and records."""
    r = env.rng
    d = r.choice((1, 2, 5, 10, 30, 50))
    mut = r.random() < 0.5
    t = r.choice(("INTEGER", "STRING", "REAL"))
    ref = r.random() < 0.5
    val = {"INTEGER": "n * 3", "STRING": '"s" & n', "REAL": "n / 2"}[t]
    src = ["""TYPE Rec
  DECLARE n: INTEGER
  DECLARE a: ARRAY[1:2] OF INTEGER
ENDTYPE
DECLARE total, v: INTEGER
DECLARE arr: ARRAY[1:2] OF INTEGER
v <- 1000"""]
    names = ["down", "up"] if mut else ["down", "down"]
    for k, me in enumerate(sorted(set(names))):
        other = names[1 - names.index(me)] if mut else me
        src.append("""FUNCTION %s(n: INTEGER, %sx: INTEGER) RETURNS INTEGER
  DECLARE loc: %s
  DECLARE arr: ARRAY[1:2] OF INTEGER
  DECLARE rec: Rec
  loc <- %s
  arr[1] <- n
  rec.n <- n
  rec.a[2] <- n * n
  x <- x + 1
  total <- total + 1%s
  IF n > 0 THEN
    arr[2] <- %s(n - 1, %s)
  ENDIF
  OUTPUT n, " ", loc, " ", arr[1], " ", arr[2], " ", rec.n, " ", rec.a[2], " ", x, " ", v
  RETURN arr[1] + n
ENDFUNCTION""" % (me, "BYREF " if ref else "", t, val,
                  "\n  IF n MOD 3 = 0 THEN\n    DECLARE v: INTEGER\n    v <- n\n  ENDIF" if r.random() < 0.5 else "",
                  other, r.choice(("x", "x", "rec.n" if r.random() < 0.3 else "arr[1]"))))
    src.append("OUTPUT down(%d, v)" % d)
    src.append('OUTPUT total, " ", v, " ", arr[1]')
    if r.random() < 0.3:
        src.append("OUTPUT loc")
    env.differential("\n".join(src) + "\n", max_steps=50000)


DECLS = PRE + """DECLARE vi: INTEGER
DECLARE vr: REAL
DECLARE vs: STRING
DECLARE vc: CHAR
DECLARE vb: BOOLEAN
DECLARE vd: DATE
DECLARE ve: Col
DECLARE va: ARRAY[1:3] OF INTEGER
CONSTANT ki = 5
FUNCTION fi(x: INTEGER) RETURNS INTEGER
  RETURN x
ENDFUNCTION
"""
ARGS = ["vi", "va[1]", "r1.n", "q1^", "ki", "7", "-vi", "vi + 1", "(vi)", "fi(2)", "fi(vi)", "vr", "2.5", "vs", '"text"', '"c"', "vc",
        "'c'", "vb", "TRUE", "vd", "1/2/2000", "ve", "green", "r1", "q1", "va", "undefined", "va[9]", "r1.zz", "vi.n", "INTEGER(\"3\")",
        "r1.a[1]", "r1.a", "fi(1, 2)", "nosuch(1)"]
PARAMS = ["INTEGER", "REAL", "STRING", "CHAR", "BOOLEAN", "DATE", "Col", "Rec", "Ptr"]


def arguments(env, i):
    """Every argument form for every parameter type and mode: accepted with the right value, or a runtime error."""
    t = PARAMS[i % len(PARAMS)]
    byref = (i // len(PARAMS)) % 2
    fn = (i // len(PARAMS) // 2) % 2
    ents = []
    from repl import Entry
    for line in DECLS.split("\n"):
        pass
    ents = split(DECLS)
    new = {"INTEGER": "77", "REAL": "7.5", "STRING": '"new"', "CHAR": "'n'", "BOOLEAN": "NOT x", "DATE": "9/9/1999", "Col": "blue",
           "Rec": "r2", "Ptr": "q2"}[t]
    body = "%s go(%sx: %s)%s\n  %s\n  x <- %s\n%sEND%s" % (
        "FUNCTION" if fn else "PROCEDURE", "BYREF " if byref else "", t, " RETURNS INTEGER" if fn else "", show("x", t), new,
        "  RETURN 1\n" if fn else "", "FUNCTION" if fn else "PROCEDURE")
    ents.append(body)
    dump = ['OUTPUT vi, " ", vr, " ", vs, " ", vc, " ", vb, " ", vd, " ", ve, " ", ki, " ", va[1], " ", r1.n, " ", r1.a[1], " ", t1, " ", q1^']
    for a in ARGS:
        ents.append("OUTPUT go(%s)" % a if fn else "CALL go(%s)" % a)
        ents += dump
    env.session(ents, pure=True, each=True)


def split(text):
    """Program text with one construct per entry (blocks end with a line starting with END or NEXT/UNTIL)."""
    import repl
    res, cur = [], None
    depth = 0
    for l in text.split("\n"):
        if not l.strip():
            continue
        if cur is None:
            if repl.is_multi(l):
                cur = [l]
            else:
                res.append(l)
        else:
            cur.append(l)
            if not l.startswith(" ") and (l.startswith("END") or l.startswith("NEXT") or l.startswith("UNTIL")):
                res.append("\n".join(cur))
                cur = None
    return res


def counts(env, i):
    """Argument counts 0..5 for routines with 0..4 parameters; RETURN outside a function; functions without RETURN; undefined
    routines; a procedure called as a function and the reverse."""
    r = env.rng
    n, k, kind = i % 5, (i // 5) % 6, (i // 30) % 6
    ps = ", ".join("%sx%d: INTEGER" % (r.choice(("", "BYREF ", "BYVAL ")), j) for j in range(n))
    args = ", ".join(r.choice(("v", "w")) for j in range(k))
    fn = kind % 2 == 0
    pre = "v <- 3\nw <- 4\n"
    if kind < 2:
        src = pre + "%s go(%s)%s\n  OUTPUT \"in\"\n%sEND%s\nOUTPUT \"before\"\n%s go(%s)\nOUTPUT v, w\n" % (
            "FUNCTION" if fn else "PROCEDURE", ps, " RETURNS INTEGER" if fn else "", "  RETURN 1\n" if fn else "",
            "FUNCTION" if fn else "PROCEDURE", "OUTPUT" if fn else "CALL", args)
    elif kind == 2:
        src = pre + "PROCEDURE go(%s)\n  OUTPUT \"in\"\n  IF %s THEN\n    RETURN 5\n  ENDIF\n  OUTPUT \"on\"\nENDPROCEDURE\nCALL go(%s)\nOUTPUT v\n" % (
            ps, r.choice(("TRUE", "FALSE", "v = 3")), ", ".join(["v"] * n))
    elif kind == 3:
        src = pre + "FUNCTION go(%s) RETURNS INTEGER\n  IF v = %d THEN\n    RETURN v\n  ENDIF\n  OUTPUT \"end\"\nENDFUNCTION\nOUTPUT go(%s)\n" % (
            ps, k, ", ".join(["v"] * n))
    elif kind == 4:
        src = pre + "PROCEDURE go(%s)\nENDPROCEDURE\nOUTPUT \"x\"\n%s go(%s)\n" % (ps, "OUTPUT" if k % 2 else "CALL", ", ".join(["v"] * n))
    else:
        src = pre + "FUNCTION go(%s) RETURNS INTEGER\n  RETURN 8\n  OUTPUT \"not reached\"\nENDFUNCTION\nOUTPUT \"x\"\n%s go(%s)\nRETURN %d\nOUTPUT \"y\"\n" % (
            ps, "OUTPUT" if k % 3 else "CALL", ", ".join(["v"] * n), k)
    env.differential(src, key=(n, k, kind, ps))


def returns(env, i):
    """The value of a call is that of the RETURN executed: RETURN inside nested loops and selections, early and late, with the
    documented conversions, and functions of every result type."""
    r = env.rng
    t = r.choice(list(TYPES))
    srct = r.choice(list(TYPES)) if r.random() < 0.3 else t
    v = lambda: r.choice(TYPES[srct] if r.random() < 0.5 else TYPES[t])
    loop = r.choice((["FOR i <- 1 TO 4"], ["i <- 0", "WHILE i < 4", "  i <- i + 1"], ["i <- 0", "REPEAT", "  i <- i + 1"]))
    end = {"F": "NEXT i", "W": "ENDWHILE", "R": "UNTIL i >= 4"}[loop[-1].strip()[0] if len(loop) == 1 else loop[1][0]]
    body = ["  " + l for l in loop] + ["    FOR j <- 1 TO 3", "      IF i * 10 + j = k THEN", "        RETURN " + v(), "      ENDIF",
                                       "      CASE OF j", "        2: IF i = k THEN", "             RETURN " + v(), "           ENDIF",
                                       "      ENDCASE", "    NEXT j"] + ["  " + end, "  OUTPUT \"tail\""]
    if r.random() < 0.85:
        body.append("  RETURN " + v())
    src = [PRE + "FUNCTION go(k: INTEGER) RETURNS %s" % t] + body + ["ENDFUNCTION", "DECLARE x: %s" % t]
    for k in r.sample([0, 1, 2, 3, 4, 5, 11, 12, 13, 21, 33, 42, 43, 44], 5):
        src += ["x <- go(%d)" % k, show("x", t)]
    env.differential("\n".join(src) + "\n")


def program(env, i):
    r = env.rng
    g = Gen(r, size=r.randint(6, 18), routines=r.randint(2, 6), depth=2, maxdepth=2, shadow=0.5, arrays=2, records=1,
            weights={"call": 14, "bad": 0.05, "output": 8})
    env.differential(g.program(), "\n".join(g.stdin) + "\n", nontrivial=lambda m, e: m.events.get("call", 0) > 0)


def hiding(env, i):
    """The same statement runs before and after a local declaration hides the global name it uses, in activations with any number of
    other locals (declared, implicit, arrays, parameters, iterators), in loops, in recursion and in the REPL."""
    r = env.rng
    kinds = {"s": ("INTEGER", ["g <- g + 1", "OUTPUT g", "CALL inc(g)", "p <- ^g", "p^ <- p^ + 5", "OUTPUT p^", "FOR g <- 1 TO 2\n    OUTPUT g\n  NEXT g", "OUTPUT f(g)", "gx <- g"]),
             "a": ("ARRAY[1:3] OF INTEGER", ["h[k] <- h[k] + 1", "OUTPUT h[1], h[k]", "CALL inc(h[k])", "p <- ^h[k]", "p^ <- p^ + 5", "OUTPUT f(h[2])", "h[h[3] MOD 3 + 1] <- 3", "hx <- h", "OUTPUT hx[k]"]),
             "r": ("Rec", ["m.n <- m.n + 1", "OUTPUT m.n, m.v[k]", "CALL inc(m.v[k])", "m.v[2] <- m.n", "p <- ^m.n", "mx <- m", "OUTPUT mx.n", "CALL incr(m)", "OUTPUT f(m.v[1])"]),
             "p": ("PI", ["q <- ^gx", "q^ <- q^ + 1", "OUTPUT q^", "q <- ^hx[2]", "OUTPUT f(q^)", "qx <- q", "OUTPUT qx^"])}
    head = ["TYPE PI = ^INTEGER", "TYPE Rec", "  DECLARE n: INTEGER", "  DECLARE v: ARRAY[1:3] OF INTEGER", "ENDTYPE", "DECLARE g, gx: INTEGER", "DECLARE h, hx: ARRAY[1:3] OF INTEGER", "DECLARE m, mx: Rec", "DECLARE p, q, qx: PI",
            "p <- ^gx", "q <- ^gx", "qx <- ^gx",
            "PROCEDURE inc(BYREF z: INTEGER)", "  z <- z + 10", "ENDPROCEDURE", "PROCEDURE incr(BYREF z: Rec)", "  z.n <- z.n + 100", "  z.v[3] <- z.n", "ENDPROCEDURE",
            "FUNCTION f(z: INTEGER) RETURNS INTEGER", "  g <- g + 1", "  h[1] <- h[1] + z", "  RETURN g + z", "ENDFUNCTION"]
    used = r.sample(sorted(kinds), r.randint(1, 4))
    n = r.choice((0, 1, 2, 3, 4, 6, 9, 17))
    locs = []
    for j in range(n):
        locs.append(r.choice(("DECLARE l%d: INTEGER", "DECLARE l%d: ARRAY[1:2] OF STRING", "l%d <- 5", "DECLARE l%d: Rec", "CONSTANT l%d = 3", "FOR l%d <- 1 TO 1\n  NEXT")) % j)
        if locs[-1].endswith("NEXT"):
            locs[-1] += " l%d" % j
    params = ["a%d: %s" % (j, r.choice(("INTEGER", "Rec", "STRING"))) for j in range(r.choice((0, 0, 1, 2, 5)))]
    body = ["FOR k <- 1 TO %d" % r.choice((2, 3))]
    at = r.choice((1, 2, 2, 3))
    stm = [s for u in used for s in r.sample(kinds[u][1], r.randint(1, len(kinds[u][1])))]
    r.shuffle(stm)
    hide = ["IF k = %d THEN" % at] + ["  DECLARE %s: %s" % ({"s": "g", "a": "h", "r": "m", "p": "q"}[u], kinds[u][0]) for u in r.sample(used, r.randint(1, len(used)))] + ["ENDIF"]
    k = r.randint(0, len(stm))
    body += ["  " + l for l in stm[:k]] + ["  " + l for l in hide] + ["  " + l for l in stm[k:]] + ["NEXT k"]
    if r.random() < 0.3:
        # the locals are added while the loop runs
        late = ["  IF k = %d THEN\n    %s\n  ENDIF" % (r.choice((1, 2)), l.replace("\n", "\n  ")) for l in locs if not l.startswith("FOR")]
        body[1:1] = late
        locs = []
    show = "OUTPUT g, \" \", gx, \" \", h[1], \" \", h[2], \" \", h[3], \" \", hx[1], \" \", m.n, \" \", m.v[1], \" \", m.v[2], \" \", m.v[3], \" \", mx.n, \" \", qx^"
    rec = r.random() < 0.3
    sig = ", ".join((["d: INTEGER"] if rec else []) + params)
    pre = [("a%d" % j, {"I": "5", "R": "m", "S": '"s"'}[x.split(": ")[1][0]]) for j, x in enumerate(params)]
    call = lambda d: "CALL sub(%s)" % ", ".join(([d] if rec else []) + [v for _, v in pre])
    src = head + ["PROCEDURE sub(%s)" % sig] + ["  " + l.replace("\n", "\n  ") for l in locs]
    if rec:
        cut = r.randint(0, 1)
        inner = ["IF d > 0 THEN", "  %s" % "CALL sub(%s)" % ", ".join(["d - 1"] + [v for _, v in pre]), "ENDIF"]
        src += ["  " + l.replace("\n", "\n  ") for l in (inner + body if cut else body + inner)]
    else:
        src += ["  " + l.replace("\n", "\n  ") for l in body]
    src += ["ENDPROCEDURE"]
    for _ in range(r.choice((1, 2))):
        src += [call(r.choice(("0", "1", "2"))), show]
    text = "\n".join(src) + "\n"
    if i % 3:
        env.differential(text, nontrivial=lambda m, e: m.events.get("call", 0) > 0)
    else:
        env.session(split(text), {}, pure="prefix")


CHECK = Check("C04", [
    Family("hiding", hiding, 1500, 40000, about="a local declared while the statements that use its global namesake are being repeated"),
    places.family("param", 300, 10000),
    scale.family("C04", 600, 12000),
    reentrant.family(400, 10000),
    Family("modes", modes, len(MODES) * 12, len(MODES) * 300, about="all mode lists of length 1-4 x random types"),
    Family("targets", targets, 2500, 80000, about="BYREF of variables, elements, fields, pointer targets, through chains"),
    Family("scopes", scopes, 3500, 120000, about="name resolution with conditional local declarations, REPL sessions"),
    Family("recursion", recursion, 400, 10000, about="recursion to depth 50, self and mutual"),
    Family("arguments", arguments, len(PARAMS) * 4, about="every argument form x parameter type x mode x routine kind"),
    Family("counts", counts, 180 * 3, 180 * 20, about="argument counts and misuse of RETURN and CALL"),
    Family("returns", returns, 800, 20000, about="RETURN out of nested constructs"),
    Family("program", program, 3500, 120000, about="generated programs heavy in calls"),
], "A case is a program or session with calls, whose full trace and error outcome are predicted by the reference model; distinct by "
   "text; programs count only if a call was executed.",
    assumptions=["arguments are evaluated left to right", "INTEGER arithmetic in generated programs wraps"])
