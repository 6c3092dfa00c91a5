"""C07: records are values: every copy is deep and independent."""
import c04
from gen import Gen, PRIMS
import reentrant
import places
import scale
from harness import Check, Family


class Shapes:
    """Random record type definitions with up to three levels, all scalar field types, arrays and arrays of records."""

    def __init__(self, r, pointers=True, levels=3, enum=True):
        self.r = r
        self.types = {}       # name -> [(field, type, dims)]
        self.lines = ["TYPE Col = (red, green, blue)"] if enum else []
        self.scal = list(PRIMS) + (["Col"] if enum else [])
        if pointers:
            self.lines += ["TYPE PI = ^INTEGER", "DECLARE tgt0, tgt1, tgt2: INTEGER", "tgt0 <- 500", "tgt1 <- 501", "tgt2 <- 502"]
            self.scal.append("PI")
        self.n = 0
        below = []
        for lev in range(r.randint(1, levels)):
            name = "Rec%d" % lev
            fs = []
            for _ in range(r.randint(1, 4)):
                t = r.choice(self.scal) if not below or r.random() < 0.5 else r.choice(below)
                dims = None
                if r.random() < 0.35:
                    k = r.choice((1, 1, 2, 3))
                    dims = tuple((lo, lo + (r.randint(0, 2 if t in self.scal else 1) if k < 3 else r.choice((0, 1, 1)))) for lo in (r.choice((1, 0, -1, 2)) for _ in range(k)))
                fs.append(("f%d%s" % (lev, "abcdefgh"[len(fs)]), t, dims))
            self.types[name] = fs
            below.append(name)
            self.lines.append("TYPE " + name)
            for f, t, d in fs:
                self.lines.append("  DECLARE %s: %s%s" % (f, "ARRAY[%s] OF " % ", ".join("%d:%d" % x for x in d) if d else "", t))
            self.lines.append("ENDTYPE")
        self.top = below[-1]

    def leaves(self, path, t):
        if t in self.types:
            res = []
            for f, ft, d in self.types[t]:
                for c in cells(d):
                    res += self.leaves("%s.%s%s" % (path, f, c), ft)
            return res
        return [(path, t)]

    def size(self):
        return len(self.leaves("", self.top))

    def nodes(self, path, t):
        """Every designator inside a variable of type t that is itself a record or a whole array: (path, type, dims)."""
        res = []
        if t in self.types:
            res.append((path, t, None))
            for f, ft, d in self.types[t]:
                if d:
                    res.append(("%s.%s" % (path, f), ft, d))
                for c in cells(d):
                    res += self.nodes("%s.%s%s" % (path, f, c), ft)
        return res

    def value(self, t, k):
        return {"INTEGER": str(k + 1), "REAL": "%d.25" % (k + 1), "BOOLEAN": "TRUE" if k % 2 else "FALSE", "CHAR": "CHR(%d)" % (65 + k % 26),
                "STRING": '"s%d"' % k, "DATE": "SETDATE(%d, %d, %d)" % (1 + k % 28, 1 + k % 12, 2000 + k), "Col": ("red", "green", "blue")[k % 3],
                "PI": None}[t]

    def set(self, path, t, k):
        return "%s <- ^tgt%d" % (path, k % 3) if t == "PI" else "%s <- %s" % (path, self.value(t, k))

    def dump(self, path, t=None, unset=False):
        """Statements which show every leaf."""
        ls = []
        for p, lt in self.leaves(path, t or self.top):
            if lt == "PI":
                if not unset:
                    ls.append("OUTPUT %s^" % p)
            else:
                ls.append("OUTPUT %s" % p)
        if len(ls) > 40:
            return ls
        # several on one line
        res, cur = [], []
        for l in ls:
            cur.append(l[7:])
            if len(cur) == 5:
                res.append("OUTPUT " + ', "|", '.join(cur))
                cur = []
        if cur:
            res.append("OUTPUT " + ', "|", '.join(cur))
        return res


def cells(dims):
    if not dims:
        return [""]
    res = [[]]
    for lo, hi in dims:
        res = [c + [str(k)] for c in res for k in range(lo, hi + 1)]
    return ["[%s]" % ", ".join(c) for c in res]


CHANNELS = ["assign", "byval", "function", "array", "element", "nested", "byref", "deref", "self", "localcopy", "first", "chain"]


def channel(env, i):
    """One record shape, one copy channel: defaults, fill, copy, change every leaf of one side, then of the other."""
    r = env.rng
    ch = CHANNELS[i % len(CHANNELS)]
    for _ in range(20):
        sh = Shapes(r, pointers=r.random() < 0.5)
        if sh.size() <= 60:
            break
    T = sh.top
    src = list(sh.lines) + ["TYPE Hold", "  DECLARE in: %s" % T, "  DECLARE n: INTEGER", "  DECLARE ins: ARRAY[1:2] OF %s" % T, "ENDTYPE",
                            "TYPE PT = ^%s" % T, "DECLARE s, d: %s" % T, "DECLARE as, ad: ARRAY[1:2] OF %s" % T, "DECLARE h, g: Hold", "DECLARE p: PT"]
    fill = lambda path, k: [sh.set(q, t, k + j) for j, (q, t) in enumerate(sh.leaves(path, T))]
    src += sh.dump("d", unset=True)
    a, bb = "s", "d"
    if ch == "assign":
        src += fill("s", 1) + fill("d", 40) + ["d <- s"]
    elif ch == "byval":
        src += fill("s", 1)
        src += ["PROCEDURE go(x: %s)" % T] + ["  " + l for l in sh.dump("x") + fill("x", 20) + sh.dump("x") + sh.dump("s") + fill("s", 60) + sh.dump("x")] + [
            "  d <- x", "ENDPROCEDURE", "CALL go(s)"]
    elif ch == "function":
        src += fill("s", 1)
        src += ["FUNCTION go(x: %s) RETURNS %s" % (T, T), "  DECLARE l: %s" % T, "  l <- x"] + ["  " + l for l in fill("x", 30)] + [
            "  s <- x", "  RETURN %s" % r.choice(("l", "x", "s")), "ENDFUNCTION", "d <- go(s)"]
        if r.random() < 0.5:
            src += sh.dump("s") + ["as[1] <- go(d)", "as[2] <- go(as[1])"] + sh.dump("as[1]") + sh.dump("as[2]")
    elif ch == "array":
        a, bb = "as[2]", "ad[2]"
        src += fill("as[1]", 1) + fill("as[2]", 33) + fill("ad[1]", 5) + fill("ad[2]", 9) + ["ad <- as"] + sh.dump("ad[1]")
    elif ch == "element":
        a, bb = r.choice((("as[1]", "as[2]"), ("s", "as[1]"), ("as[2]", "d"), ("h.ins[1]", "as[2]"), ("as[1]", "h.ins[2]")))
        src += fill(a, 1) + fill(bb, 35) + ["%s <- %s" % (bb, a)]
    elif ch == "nested":
        a, bb = r.choice((("s", "h.in"), ("h.in", "d"), ("h.in", "g.in"), ("h.ins[1]", "h.in"), ("h.in", "h.ins[2]")))
        src += fill(a, 1) + fill(bb, 35) + ["%s <- %s" % (bb, a)]
    elif ch == "byref":
        src += fill("s", 1) + fill("d", 30) + ["PROCEDURE go(BYREF x: %s, y: %s)" % (T, T), "  x <- y"] + ["  " + l for l in fill("y", 50) + sh.dump("x")] + [
            "ENDPROCEDURE", "CALL go(d, s)"]
    elif ch == "deref":
        src += fill("s", 1) + fill("d", 30) + ["p <- ^d", "p^ <- s"] + sh.dump("p^") + ["p <- ^s", "h.in <- p^"] + sh.dump("h.in")
    elif ch == "self":
        src += fill("s", 1) + ["s <- s", "as[1] <- s", "as[1] <- as[1]", "as <- as", "d <- as[1]"] + sh.dump("as[1]")
    elif ch == "localcopy":
        src += fill("s", 1) + ["PROCEDURE go(n: INTEGER)", "  DECLARE l: %s" % T] + ["  " + x for x in sh.dump("l", unset=True)] + ["  l <- s"] + [
            "  " + x for x in fill("l", 22)] + ["  IF n > 0 THEN", "    CALL go(n - 1)", "  ENDIF", "  d <- l"] + ["  " + x for x in sh.dump("l") + fill("l", 77)] + [
            "ENDPROCEDURE", "CALL go(%d)" % r.randint(0, 2)]
    elif ch == "first":
        bb = "fresh"
        src += fill("s", 1) + ["fresh <- s"]
    else:
        src += fill("s", 1) + ["h.in <- s", "h.ins[1] <- h.in", "g <- h", "as[1] <- g.ins[1]", "d <- as[1]"] + fill("h.in", 50) + fill("g.ins[1]", 60) + sh.dump("as[1]")
    src += sh.dump(a) + sh.dump(bb)
    la, lb = fill(a, 100), fill(bb, 200)
    if r.random() < 0.3:
        r.shuffle(la)
    src += la + sh.dump(a) + sh.dump(bb) + lb + sh.dump(a) + sh.dump(bb)
    env.differential("\n".join(src) + "\n", max_steps=40000)


def history(env, i):
    """REPL histories of record operations (also failing ones) over variables, elements, fields, pointers and calls."""
    r = env.rng
    for _ in range(20):
        sh = Shapes(r, pointers=r.random() < 0.4, levels=3)
        if sh.size() <= 24:
            break
    T = sh.top
    ents = c04.split("\n".join(sh.lines) + "\nTYPE Twin\n" + "\n".join(
        "  DECLARE %s: %s%s" % (f, "ARRAY[%s] OF " % ", ".join("%d:%d" % x for x in d) if d else "", t) for f, t, d in sh.types[T]) + "\nENDTYPE\n"
        "TYPE PT = ^%s\nDECLARE s, d: %s\nDECLARE as, ad: ARRAY[1:2] OF %s\nDECLARE tw: Twin\nDECLARE p: PT\np <- ^as[1]\n"
        "FUNCTION id(x: %s) RETURNS %s\n  RETURN x\nENDFUNCTION\nPROCEDURE swap(BYREF x: %s, BYREF y: %s)\n  DECLARE t: %s\n  t <- x\n  x <- y\n  y <- t\n"
        "ENDPROCEDURE\n" % ((T,) * 8))
    roots = ["s", "d", "as[1]", "as[2]", "ad[1]", "ad[2]", "p^"]
    k = 1
    for root in roots[:-1]:
        for q, t in sh.leaves(root, T):
            if t == "PI":
                ents.append(sh.set(q, t, k))
            elif r.random() < 0.3:
                ents.append(sh.set(q, t, k))
            k += 1
    whole = [root for root in roots]
    nodes = [n for root in roots for n in sh.nodes(root, T)]
    lv = [l for root in roots for l in sh.leaves(root, T)]
    lvt = [l for l in sh.leaves("tw", T)]
    for _ in range(r.randint(8, 20)):
        x = r.random()
        if x < 0.25:
            q, t = r.choice(lv)
            k += 1
            ents.append(sh.set(q, t, k))
        elif x < 0.33:
            q, t = r.choice(lv)
            q2, t2 = r.choice(lv)
            ents.append("%s <- %s" % (q, q2))
        elif x < 0.6:
            a = r.choice(nodes)
            c = [n for n in nodes if n[1] == a[1] and n[2] == a[2]]
            ents.append("%s <- %s" % (a[0], r.choice(c)[0]))
        elif x < 0.66:
            ents.append("%s <- %s" % (r.choice(nodes)[0], r.choice(nodes)[0]))
        elif x < 0.72:
            ents.append("%s <- id(%s)" % (r.choice(whole), r.choice(whole)))
        elif x < 0.78:
            ents.append("CALL swap(%s, %s)" % (r.choice(whole), r.choice(whole)))
        elif x < 0.82:
            ents.append(r.choice(("as <- ad", "ad <- as", "p <- ^s", "p <- ^ad[2]", "s <- tw", "tw <- s")))
        elif x < 0.88:
            q, t = r.choice(lv + lvt)
            f = r.choice(("zz", "f0a", "f1a", "s", "n"))
            ents.append(r.choice(("OUTPUT %s.%s", "%s.%s <- 1")) % (q.rsplit(".", 1)[0] if "." in q and not q.endswith("]") else q, f))
        else:
            q, t = r.choice(lvt)
            ents.append(sh.set(q, t, k) if t != "PI" else "OUTPUT 1")
        if r.random() < 0.5:
            ents += sh.dump(r.choice(roots))
    for root in roots[:-1]:
        ents += sh.dump(root)
    ents += sh.dump("tw", unset=True)
    env.session(ents, pure=False)


def layouts(env, i):
    """Records of one type whose array fields took their bounds from a variable: copied if all bounds agree, refused otherwise."""
    r = env.rng
    nf = r.choice((1, 2, 3, 3, 4, 5))
    dyn = set(r.sample(range(nf), r.choice((0, 1, 1, 1, min(2, nf)))))
    bounds = lambda f: r.choice(("1:n", "n:4", "0:n, 1:2", "1:2, 1:n", "1:2, n:5, 0:1", "n:n", "-n:n", "1:n DIV 2 + 1")) if f in dyn else r.choice(("1:2", "0:1, 1:2", "3:3"))
    fs = []
    inner = r.random() < 0.5
    for f in range(nf):
        if r.random() < 0.4:
            fs.append("  DECLARE s%d: %s" % (f, r.choice(("INTEGER", "STRING"))))
        fs.append("  DECLARE a%d: ARRAY[%s] OF %s" % (f, bounds(f), r.choice(("INTEGER", "STRING", "CHAR") + (("In",) if inner else ()))))
    if inner:
        fs.insert(r.randint(0, len(fs)), "  DECLARE in: In")
    if inner and r.random() < 0.3:
        fs.insert(r.randint(0, len(fs)), "  DECLARE ins: ARRAY[1:2] OF In")
    src = ["DECLARE n: INTEGER", "n <- 2"]
    if inner:
        src += ["TYPE In", "  DECLARE k: INTEGER"] + ["  DECLARE w%d: ARRAY[%s] OF INTEGER" % (k, r.choice(("1:2", "1:2", "1:n", "n:3"))) for k in range(r.choice((1, 2, 3)))] + ["ENDTYPE"]
    src += ["TYPE R"] + fs + ["ENDTYPE", "TYPE PR = ^R", "TYPE Big", "  DECLARE one: R", "  DECLARE two: ARRAY[1:2] OF R", "ENDTYPE", "DECLARE p, p2: PR",
                              "PROCEDURE val(x: R)", "  OUTPUT \"val\"", "ENDPROCEDURE", "PROCEDURE ref(BYREF x: R, BYREF z: R)", "  OUTPUT \"ref\"", "  x <- z", "  OUTPUT \"copied\"", "ENDPROCEDURE",
                              "FUNCTION mk(k: INTEGER) RETURNS R", "  DECLARE loc: R", "  RETURN loc", "ENDFUNCTION", "FUNCTION same(BYREF x: R) RETURNS R", "  RETURN x", "ENDFUNCTION"]
    names = []
    for k in range(r.choice((2, 3))):
        src += ["DECLARE x%d: R" % k, "DECLARE b%d: Big" % k, "DECLARE v%d: ARRAY[1:2] OF R" % k] + (["n <- %d" % r.choice((1, 2, 3, 2))] if r.random() < 0.8 else [])
        names += ["x%d" % k, "b%d.one" % k, "b%d.two[2]" % k, "v%d[1]" % k]
    src += ["p <- ^x0", "p2 <- ^%s" % r.choice(names)]
    names += ["p^", "p2^"]
    ents = []
    for k in range(14):
        a, b = r.choice(names), r.choice(names)
        w = r.randrange(10)
        if w < 4:
            t = "%s <- %s" % (a, b)
        elif w == 4:
            t = "CALL val(%s)" % a
        elif w == 5:
            t = "CALL ref(%s, %s)" % (a, b)
        elif w == 6:
            t = "%s <- mk(1)" % a
        elif w == 7:
            t = "%s <- same(%s)" % (a, b)
        elif w == 8:
            t = "b%d %s b%d" % (r.randrange(2), "<-", r.randrange(2))
        else:
            t = "v%d <- v%d" % (r.randrange(2), r.randrange(2))
        ents += [t, 'OUTPUT "after"']
        if r.random() < 0.15:
            ents.append("n <- %d" % r.choice((1, 2, 3)))
    import reentrant as RE
    pre = [e[:-1] if e.endswith("\n") else e for e in RE.entries(src)]
    env.session(pre + ents, pure=True)


LOCAL = [
    # a record type of a procedure, alone, next to a global type of the same name, in several activations
    """PROCEDURE q(n: INTEGER)
  TYPE Loc
    DECLARE a: INTEGER
    DECLARE b: ARRAY[1:{d}] OF STRING
  ENDTYPE
  DECLARE x, y: Loc
  x.a <- n
  x.b[{d}] <- "v" & n
  y <- x
  x.a <- 99
  IF n > 0 THEN
    CALL q(n - 1)
  ENDIF
  OUTPUT x.a, " ", x.b[{d}], " ", y.a, " ", y.b[{d}], " ", y.b[1]
ENDPROCEDURE
CALL q({n})
CALL q(0)
""",
    """TYPE Loc
  DECLARE g: STRING
ENDTYPE
DECLARE gl: Loc
PROCEDURE q
  TYPE Loc
    DECLARE a: INTEGER
    DECLARE n: ARRAY[1:{d}] OF REAL
  ENDTYPE
  TYPE Out
    DECLARE l: Loc
    DECLARE ls: ARRAY[0:1] OF Loc
  ENDTYPE
  DECLARE x, y: Out
  x.l.a <- {n}
  x.ls[1].n[{d}] <- 2.5
  y <- x
  y.l <- x.ls[1]
  OUTPUT x.l.a, " ", y.l.a, " ", y.l.n[{d}], " ", y.ls[1].n[{d}], " ", x.l.n[1]
  {bad}
ENDPROCEDURE
gl.g <- "glob"
CALL q()
CALL q()
OUTPUT gl.g
OUTPUT gl.a
""",
    """DECLARE n: INTEGER
n <- {d}
TYPE Dyn
  DECLARE v: ARRAY[1:n] OF INTEGER
  DECLARE m: INTEGER
ENDTYPE
DECLARE x: Dyn
x.v[n] <- 5
x.m <- 3
n <- {n} + 1
DECLARE y: Dyn
OUTPUT y.m
y.v[n] <- 7
OUTPUT x.v[{d}], " ", y.v[{n} + 1]
y <- x
OUTPUT y.v[1], " ", y.m
""",
    """TYPE A
  DECLARE v: INTEGER
ENDTYPE
TYPE B
  DECLARE v: INTEGER
ENDTYPE
DECLARE a, a2: A
DECLARE b: B
PROCEDURE byval(x: A)
  x.v <- x.v + 1
  OUTPUT "in ", x.v
ENDPROCEDURE
FUNCTION mk(k: INTEGER) RETURNS A
  DECLARE r: A
  r.v <- k
  RETURN r
ENDFUNCTION
a.v <- {n}
b.v <- {d}
CALL byval(a)
a2 <- mk({n} * 2)
OUTPUT a.v, " ", a2.v, " ", b.v
{bad2}
OUTPUT "after"
""",
    """TYPE Inner
  DECLARE k: INTEGER
ENDTYPE
TYPE Outer
  DECLARE in: Inner
  DECLARE k: INTEGER
  DECLARE same: INTEGER
ENDTYPE
DECLARE same, other: INTEGER
DECLARE k: ARRAY[1:2] OF INTEGER
same <- 8
DECLARE o: Outer
o.same <- {n}
o.k <- {d}
o.in.k <- 4
OUTPUT o.same, " ", same, " ", o.k, " ", o.in.k, " ", k[1]
OUTPUT o.{field}
""",
]


def local(env, i):
    r = env.rng
    src = LOCAL[i % len(LOCAL)]
    src = src.replace("{d}", str(r.randint(1, 3))).replace("{n}", str(r.randint(0, 3)))
    src = src.replace("{bad}", r.choice(("OUTPUT 1", "gl <- x.l", "x.l <- gl", "OUTPUT x.l.g", "gl.g <- \"c\"", "x.ls[1].a <- \"s\"")))
    src = src.replace("{bad2}", r.choice(("a <- b", "CALL byval(b)", "b <- mk(1)", "a <- 5", "a.v <- b", "a.v <- b.v", "CALL byval(mk(3))", "OUTPUT mk(3).v",
                                          "a.v <- 1.5", "OUTPUT a = a2", "OUTPUT a", "a <- mk(2)")))
    src = src.replace("{field}", r.choice(("other", "in", "zz", "in.same", "same.k", "in.k", "k[1]", "in.other", "Inner")))
    env.differential(src, key=src)


def program(env, i):
    r = env.rng
    g = Gen(r, size=r.randint(8, 20), records=3, arrays=3, scalars=7, routines=r.randint(1, 4), maxdepth=2, reclevel=3,
            weights={"recassign": 14, "field": 14, "element": 8, "arrassign": 5, "call": 8, "bad": 0.1})
    env.differential(g.program(), "\n".join(g.stdin) + "\n", nontrivial=lambda m, e: m.events.get("record_assign", 0) + m.events.get("byval", 0) > 0)


CHECK = Check("C07", [
    Family("layouts", layouts, 500, 15000, about="records of one type with bounds taken from variables: whole copies of all kinds"),
    places.family("record", 300, 10000),
    scale.family("C07", 480, 9600),
    reentrant.family(600, 15000),
    Family("channel", channel, len(CHANNELS) * 220, len(CHANNELS) * 6000, about="random record shapes x every copy channel, all leaves of either side "
           "changed afterwards and both dumped"),
    Family("history", history, 2500, 80000, about="random record histories in the REPL"),
    Family("local", local, 400, 5000, about="local record types, types of the same name, dynamic bounds, wrong fields"),
    Family("program", program, 2500, 80000, about="generated programs heavy in records"),
], "A case is a program or session about one family of record shapes, distinct by text, with every leaf of source and copy shown after "
   "every mutation and compared with the reference model.",
    assumptions=["comparison of records with = is not judged", "assignment between records whose array fields have different bounds is an error"])
