"""C03: selection and loop statements execute exactly the documented control flow."""
import itertools

from gen import Gen
import scale
from harness import Check, Family

STEPS = [None, 1, -1, 2, -2, 3, -3, 4, -4]


def cube(env, i):
    """FOR over every (start, stop, step) of a cube; the printed iterator values are checked against range()."""
    r = env.rng
    start, form = i % 9 - 4, i // 9
    src, want = [], []
    for stop in range(-4, 5):
        for step in STEPS:
            st = 1 if step is None else step
            seq = list(range(start, stop + (1 if st > 0 else -1), st))
            end = start + st * len(seq)
            it = r.choice(("i", "j", "k"))
            a, z, s = str(start), str(stop), None if step is None else str(step)
            body = []
            if form == 1:    # bounds read variables that the body changes
                src += ["a <- %d" % start, "z <- %d" % stop, "s <- %d" % st]
                a, z, s = "a", "z", "s"
                body = ["  z <- z + 1", "  a <- 100", "  s <- s * 5"]
            elif form == 2:  # bounds are calls, evaluated once, in order
                src += []
                a, z, s = "V(%d)" % start, "V(%d)" % stop, "V(%d)" % st
                want.append("v%d\nv%d\nv%d\n" % (start, stop, st))
            elif form == 3:
                a, z, s = "%d + 1 - 1" % start, "2 * %d DIV 2" % stop if stop >= 0 else str(stop), "(%d)" % st
            elif form == 4:  # bounds use the old value of the iterator
                old = r.choice((0, 7, -5, 100))
                src.append("%s <- %d" % (it, old))
                a, z, s = r.choice((a, "%s + %d" % (it, start - old))), "%s - (%d)" % (it, old - stop), r.choice((s, "%s + 1 - (%d)" % (it, old + 1 - st)))
            elif form == 5:  # bounds read elements and fields that the body changes, the iterator is local
                src += ["b[1] <- %d" % start, "b[2] <- %d" % stop, "b[3] <- %d" % st]
                a, z, s = "b[1]", "b[2]", "b[1 + 2]"
                body = ["  FOR k9 <- 1 TO 3", "    b[k9] <- %d" % r.randint(-9, 9), "  NEXT k9"]
            src.append("FOR %s <- %s TO %s%s" % (it, a, z, "" if s is None else " STEP " + s))
            src += body
            src.append("  OUTPUT %s" % it)
            src.append("NEXT" + (" " + it if r.random() < 0.7 else ""))
            src.append('OUTPUT "end ", ' + it)
            want.append("".join("%d\n" % x for x in seq) + "end %d\n" % end)
    pre = "FUNCTION V(x: INTEGER) RETURNS INTEGER\n OUTPUT \"v\", x\n RETURN x\nENDFUNCTION\n" if form == 2 else ""
    if form == 5:
        src = ["DECLARE b: ARRAY[1:3] OF INTEGER", r.choice(("PROCEDURE loops()", "PROCEDURE loops(i: INTEGER)", "PROCEDURE loops(BYREF i: INTEGER)"))] + src + ["ENDPROCEDURE"]
        src.append("CALL loops()" if src[1].endswith("()") else "g <- 5\nCALL loops(g)")
    src = pre + "\n".join(src) + "\n"
    o = env.run(src)
    env.expect(o.kind == "ok", "outcome %s" % o.kind)
    exp = "".join(want).encode()
    if o.out != exp:
        from harness import first_diff
        env.violation("iteration sequence: " + first_diff(o.out, exp))
        return
    env.ok(src, n=9 * len(STEPS))


# ---- skeletons: every condition, bound and statement leaves a trace

class Skel:
    def __init__(self, r, depth):
        self.r, self.maxd, self.L, self.ids, self.ind = r, depth, [], 0, 0
        self.loops = 0
        self.iters = 0
        self.infn = False

    def put(self, s):
        self.L.append("  " * self.ind + s)

    def id(self):
        self.ids += 1
        return self.ids

    def cond(self):
        r = self.r
        x = r.random()
        if x < 0.75:
            return "T(%d, %d)" % (self.id(), r.randint(1, 5))
        if x < 0.85:
            return "NOT T(%d, %d)" % (self.id(), r.randint(1, 5))
        return "(T(%d, %d) AND n > %d)" % (self.id(), r.randint(1, 5), r.randint(0, 30))

    def block(self, d):
        self.ind += 1
        for _ in range(self.r.randint(1, 3)):
            self.stmt(d)
        self.ind -= 1

    def stmt(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.2:
            self.put("OUTPUT %d" % self.id())
        elif k < 0.36:
            self.put("IF %s THEN" % self.cond())
            self.block(d - 1)
            for _ in range(r.choice((0, 0, 1, 2, 3))):
                self.put("ELSE IF %s THEN" % self.cond())
                self.block(d - 1)
            if r.random() < 0.5:
                self.put("ELSE")
                self.block(d - 1)
            self.put("ENDIF")
        elif k < 0.5:
            self.put("sel <- (n * %d + %d) MOD 7" % (r.randint(1, 6), r.randint(0, 6)))
            self.put("CASE OF sel")
            self.ind += 1
            for _ in range(r.randint(1, 5)):
                a = r.randint(-1, 6)
                lab = str(a) if r.random() < 0.5 else "%d TO %d" % (a, a + r.randint(-1, 4))
                if r.random() < 0.2:
                    lab = "W(%d, %d)" % (self.id(), a)
                if r.random() < 0.4:
                    self.put("%s: OUTPUT %d" % (lab, self.id()))
                    self.ind += 1
                    for _ in range(r.choice((0, 0, 1))):
                        self.stmt(d - 1)
                    self.ind -= 1
                else:
                    self.put(lab + " :")
                    self.block(d - 1)
            if r.random() < 0.6:
                self.put("OTHERWISE: OUTPUT %d" % self.id() if r.random() < 0.5 else "OTHERWISE:")
                if self.L[-1].endswith(":"):
                    self.block(d - 1)
            self.ind -= 1
            self.put("ENDCASE")
        elif k < 0.62:
            self.put("WHILE %s AND fuel > 0%s" % (self.cond(), r.choice((" DO", ""))))
            self.ind += 1
            self.put("fuel <- fuel - 1")
            self.ind -= 1
            self.loop(d)
            self.put("ENDWHILE")
        elif k < 0.74:
            self.put("REPEAT")
            self.ind += 1
            self.put("fuel <- fuel - 1")
            self.ind -= 1
            self.loop(d)
            self.put("UNTIL %s OR fuel <= 0" % self.cond())
        elif k < 0.88:
            self.iters += 1
            it = "i%d" % self.iters
            a, st = r.randint(-2, 3), r.choice((None, None, 1, 2, -1, -2))
            z = a + (st or 1) * r.randint(-1, 3)
            f = (lambda x: "V(%d, %d)" % (self.id(), x)) if r.random() < 0.4 else str
            if r.random() < 0.15:
                old = r.randint(-9, 9)
                self.put("%s <- %d" % (it, old))
                f = lambda x: "%s + %d" % (it, x - old)
            self.put("FOR %s <- %s TO %s%s" % (it, f(a), f(z), "" if st is None else " STEP " + f(st)))
            self.ind += 1
            self.put("OUTPUT %d, \" \", %s" % (self.id(), it))
            self.ind -= 1
            self.loop(d)
            self.put("NEXT " + it)
            self.put("OUTPUT \"after \", " + it)
        elif self.loops and k < 0.97:
            w = r.choice(("BREAK", "CONTINUE"))
            if r.random() < 0.8:
                self.put("IF %s THEN" % self.cond())
                self.put("  " + w)
                self.put("ENDIF")
            else:
                self.put("OUTPUT %d" % self.id())
                self.put(w)
                if r.random() < 0.7:
                    self.put("OUTPUT \"never\"")
        elif self.infn:
            self.put("IF %s THEN" % self.cond())
            self.put("  RETURN %d" % self.id())
            self.put("ENDIF")
        else:
            self.put("OUTPUT G(%d)" % r.randint(0, 5))

    def loop(self, d):
        self.loops += 1
        self.block(d - 1)
        self.loops -= 1

    def program(self):
        r = self.r
        L = """n <- 0
fuel <- %d
sel <- 0
FUNCTION T(id: INTEGER, m: INTEGER) RETURNS BOOLEAN
  n <- n + 1
  OUTPUT "t", id
  RETURN (n * m + id) MOD 3 <> %d
ENDFUNCTION
FUNCTION V(id: INTEGER, x: INTEGER) RETURNS INTEGER
  OUTPUT "v", id
  RETURN x
ENDFUNCTION
FUNCTION W(id: INTEGER, x: INTEGER) RETURNS INTEGER
  OUTPUT "w", id
  RETURN x
ENDFUNCTION""" % (r.randint(3, 25), r.randint(0, 2))
        self.put("FUNCTION G(x: INTEGER) RETURNS INTEGER")
        self.infn, self.ind = True, 1
        for _ in range(2):
            self.stmt(min(2, self.maxd))
        self.put("RETURN x")
        self.infn, self.ind = False, 0
        self.put("ENDFUNCTION")
        for _ in range(r.randint(2, 4)):
            self.stmt(self.maxd)
        self.put("OUTPUT \"n=\", n, \" fuel=\", fuel")
        return L + "\n" + "\n".join(self.L) + "\n"


def skeleton(env, i):
    s = Skel(env.rng, env.rng.randint(2, 5))
    env.differential(s.program(), nontrivial=lambda m, e: m.events.get("iteration", 0) + m.events.get("branch", 0) > 0)


CASES = {
    "INTEGER": ["-3", "-1", "0", "1", "2", "3", "5", "9007199254740993", "9007199254740992", "4294967297", "257", "65537", "-9223372036854775807"],
    "REAL": ["-1.5", "-1.0", "0.0", "0.5", "1.0", "2.0", "2.25", "3.0", "2.0000001", "16777217.0", "16777216.0", "1000000000000.5", "1000000000000.25"],
    "CHAR": ["'a'", "'b'", "'A'", "'1'", "' '"], "STRING": ['""', '"a"', '"ab"', '"A"', '"1"', '"b"', '"ba"', '"a "', '" a"', '"abcdefghijklmnopqrstuvwxyz"', '"abcdefghijklmnopqrstuvwxyZ"'],
    "BOOLEAN": ["TRUE", "FALSE"], "DATE": ["1/1/2000", "2/1/2000", "1/2/2000", "1/1/2001", "2/1/2001", "1/2/2001", "1/1/1999", "2/2/2000", "1/1/2256", "17/1/2000", "1/12/2000"], "Col": ["red", "green", "blue"],
}


def case(env, i):
    """CASE: the first matching clause, and no other, for every value of the selector's domain."""
    r = env.rng
    t = list(CASES)[i % len(CASES)]
    clauses = []
    for k in range(r.randint(1, 6)):
        dom = CASES[t]
        if t in ("INTEGER", "REAL") and r.random() < 0.5:
            dom = CASES[r.choice((t, t, "INTEGER", "REAL"))]
            a, b = r.choice(dom), r.choice(dom)
            if r.random() < 0.2:
                a = "(%s + 0)" % a
            lab = "%s TO %s" % (a, b)
        elif r.random() < 0.1:
            lab = r.choice(CASES[r.choice([x for x in CASES if x != "Col"])])
        else:
            lab = r.choice(dom)
        clauses.append((lab, k))
    src = ["TYPE Col = (red, green, blue)"] if t == "Col" else []
    src.append("DECLARE v: " + t)
    # half of the cases state one CASE in a procedure, which every value of the domain reaches as an argument
    once = r.random() < 0.5
    if once:
        src += ["PROCEDURE choose(%sv: %s)" % (r.choice(("", "BYREF ", "BYVAL ")), t)]
    for val in (None,) if once else CASES[t]:
        src += ["CASE OF v"] if once else ["v <- " + val, "CASE OF v"]
        for lab, k in clauses:
            if r.random() < 0.5:
                src.append("  %s: OUTPUT %d" % (lab, k))
            else:
                src += ["  %s:" % lab, "    OUTPUT %d" % k, "    OUTPUT v"]
        if r.random() < 0.5:
            src.append("  OTHERWISE: OUTPUT \"none\"")
        src += ["ENDCASE", 'OUTPUT "-"']
    if once:
        src.append("ENDPROCEDURE")
        for val in CASES[t]:
            src += ["v <- " + val, "CALL choose(v)"]
    env.differential("\n".join(src) + "\n")


NONBOOL = ["0", "1", "1.5", "'T'", '"TRUE"', '"x"', "1/1/2000", "red", "vi", "vs", "rec", "ptr", "1 + 1", "LENGTH(\"\")", "fi(2)"]
FORMS = {
    "if": "IF {c} THEN\n  OUTPUT 1\nELSE\n  OUTPUT 2\nENDIF\n",
    "elseif": "IF FALSE THEN\n  OUTPUT 1\nELSE IF {c} THEN\n  OUTPUT 2\nELSE\n  OUTPUT 3\nENDIF\n",
    "while": "WHILE {c} DO\n  OUTPUT 1\n  BREAK\nENDWHILE\n",
    "repeat": "REPEAT\n  OUTPUT 1\nUNTIL {c}\n",
    "not taken": "IF TRUE THEN\n  OUTPUT 1\nELSE IF {c} THEN\n  OUTPUT 2\nENDIF\n",
    "nested": "FOR i <- 1 TO 2\n  OUTPUT i\n  IF i = 2 THEN\n    WHILE {c}\n      BREAK\n    ENDWHILE\n  ENDIF\nNEXT i\n",
    "proc": "PROCEDURE q\n  REPEAT\n    OUTPUT 1\n  UNTIL {c}\nENDPROCEDURE\nCALL q()\n",
    "continue": "k <- 0\nREPEAT\n  k <- k + 1\n  CONTINUE\n  OUTPUT 1\nUNTIL {c}\n",
}
PRE = ("TYPE Col = (red, green)\nTYPE R\n  DECLARE b: BOOLEAN\nENDTYPE\nTYPE P = ^BOOLEAN\nDECLARE rec: R\nDECLARE ptr: P\n"
       "DECLARE vi: INTEGER\nDECLARE vs: STRING\nDECLARE bo: BOOLEAN\nptr <- ^bo\n"
       "FUNCTION fi(x: INTEGER) RETURNS INTEGER\n  RETURN x\nENDFUNCTION\nOUTPUT \"start\"\n")


def conditions(env, i):
    """A condition that is not BOOLEAN is a runtime error in every place where a condition stands."""
    f = list(FORMS)[i % len(FORMS)]
    c = (NONBOOL + ["TRUE", "NOT FALSE", "bo", "rec.b", "ptr^"])[i // len(FORMS)]
    if f in ("repeat", "proc", "continue") and c in ("bo", "rec.b", "ptr^"):
        c = "NOT " + c
    env.differential(PRE + FORMS[f].format(c=c) + 'OUTPUT "end"\n', key=(f, c))


OPERANDS = ["0", "2", "-1", "1.0", "2.0", "2.5", "TRUE", "FALSE", "'2'", "'b'", '"2"', '"b"', '""', "02/01/1970", "red", "blue", "hot", "rec", "ptr", "qtr", "arr", "arr[1]", "vi", "vr",
            "ptr^", "fi(2)", "nosuch", "vi + 0.0", "rec.n", "1 DIV 0"]
SELECTORS = ["vi", "vr", "vb", "vc", "vs", "vd", "ve", "vf", "rec", "ptr", "qtr", "arr", "nosuch", "rec.n", "arr[1]", "ptr^", "vi + 0", "fi(2)", "K"]
TYPED = ("TYPE Col = (red, green, blue)\nTYPE Tmp = (cold, warm, hot)\nTYPE R\n  DECLARE n: INTEGER\nENDTYPE\nTYPE P = ^INTEGER\nTYPE Q = ^REAL\nDECLARE rec: R\n"
         "DECLARE ptr: P\nDECLARE qtr: Q\nDECLARE arr: ARRAY[0:2] OF INTEGER\nDECLARE vi: INTEGER\nDECLARE vr: REAL\nDECLARE vb: BOOLEAN\nDECLARE vc: CHAR\nDECLARE vs: STRING\n"
         "DECLARE vd: DATE\nDECLARE ve: Col\nDECLARE vf: Tmp\nCONSTANT K = 2\nvi <- 2\nvr <- 2.0\nvb <- TRUE\nvc <- 'b'\nvs <- \"b\"\nvd <- 02/01/1970\nve <- blue\nvf <- hot\n"
         "ptr <- ^vi\nqtr <- ^vr\nrec.n <- 2\narr[1] <- 2\nFUNCTION fi(x: INTEGER) RETURNS INTEGER\n  OUTPUT \"f\"\n  RETURN x\nENDFUNCTION\nOUTPUT \"start\"\n")


def mistyped(env, i):
    """FOR and CASE over every operand: iterator, start, stop and step of every type; every selector against every label and range."""
    r = env.rng
    n = len(OPERANDS)
    if i < 4 * n:
        x, k = OPERANDS[i // 4], i % 4
        f = ["vi", "1", "3", "1"]
        f[k] = x
        if k != 0:
            f[0] = r.choice(("vi", "fresh", "rec.n", "vi"))
        env.differential(TYPED + "FOR %s <- %s TO %s STEP %s\n  OUTPUT \"b\", %s\nNEXT %s\nOUTPUT \"after\", %s\n" % (f[0], f[1], f[2], f[3], f[0], f[0], f[0]), key=("for", i))
        env.differential(TYPED + "FOR %s <- %s TO %s\n  OUTPUT \"b\", %s\nNEXT %s\nOUTPUT \"after\", %s\n" % (f[0], f[1], f[2], f[0], f[0], f[0]), key=("for-", i))
        return
    i -= 4 * n
    sel, x = SELECTORS[i % len(SELECTORS)], OPERANDS[i // len(SELECTORS)]
    y = r.choice(OPERANDS)
    for lab in (x, "%s TO %s" % (x, r.choice(("2", "3", "2.5"))), "%s TO %s" % (r.choice(("0", "1", "1.5")), x), "%s TO %s" % (x, y)):
        env.differential(TYPED + "CASE OF %s\n  %s: OUTPUT 1\n  %s: OUTPUT 2\n  OTHERWISE: OUTPUT 3\nENDCASE\nOUTPUT \"end\"\n" % (sel, lab, x), key=(sel, lab, x))


def outside(env, i):
    """BREAK and CONTINUE outside any loop (also inside a procedure called from one)."""
    w = ("BREAK", "CONTINUE")[i % 2]
    forms = ["OUTPUT 1\n{w}\nOUTPUT 2\n", "IF TRUE THEN\n  {w}\nENDIF\nOUTPUT 2\n",
             "PROCEDURE q\n  OUTPUT 1\n  {w}\nENDPROCEDURE\nFOR i <- 1 TO 3\n  CALL q()\n  OUTPUT i\nNEXT i\n",
             "FUNCTION f() RETURNS INTEGER\n  {w}\n  RETURN 1\nENDFUNCTION\nk <- 0\nWHILE k < 3\n  k <- k + 1\n  OUTPUT f()\nENDWHILE\n",
             "PROCEDURE q\n  FOR j <- 1 TO 3\n    {w}\n    OUTPUT 9\n  NEXT j\n  OUTPUT 5\nENDPROCEDURE\nFOR i <- 1 TO 3\n  CALL q()\n  OUTPUT i\nNEXT i\n",
             "FOR i <- 1 TO 3\n  CASE OF i\n    2: {w}\n    OTHERWISE: OUTPUT i\n  ENDCASE\n  OUTPUT \"x\"\nNEXT i\nOUTPUT i\n",
             "FOR i <- 1 TO 2\n  FOR j <- 1 TO 3\n    IF j = 2 THEN\n      {w}\n    ENDIF\n    OUTPUT i, j\n  NEXT j\n  OUTPUT \"o\"\nNEXT i\n",
             "FOR i <- 1 TO 2\n  k <- 0\n  REPEAT\n    k <- k + 1\n    IF k = 2 THEN\n      {w}\n    ENDIF\n    OUTPUT i, k\n  UNTIL k >= 3\n  OUTPUT \"o\"\nNEXT i\n",
             "FOR i <- 1 TO 2\n  k <- 0\n  WHILE k < 3\n    k <- k + 1\n    IF k = 2 THEN\n      {w}\n    ENDIF\n    OUTPUT i, k\n  ENDWHILE\n  OUTPUT \"o\"\nNEXT i\n"]
    env.differential(forms[i // 2].format(w=w), key=i)


def program(env, i):
    r = env.rng
    g = Gen(r, size=r.randint(6, 20), depth=4, records=0, pointers=0, arrays=1, routines=r.randint(0, 2), maxdepth=2,
            weights={"if": 8, "case": 8, "while": 6, "repeat": 6, "for": 8, "break": 5, "continue": 5, "bad": 0.05})
    env.differential(g.program(), "\n".join(g.stdin) + "\n")


CHECK = Check("C03", [
    scale.family("C03", 960, 16000),
    Family("cube", cube, 54, about="FOR over (start, stop, step) in [-4,4]^3, bounds as literals, as uses of the iterator, as elements that the body changes, as variables changed in the "
           "body, as calls and as expressions (exhaustive)", chunk=1),
    Family("skeleton", skeleton, 6000, 200000, about="nested control statements whose conditions, bounds and labels leave a trace"),
    Family("case", case, 1400, 40000, about="CASE clauses against every value of a small domain of each selector type"),
    Family("conditions", conditions, len(FORMS) * 20, about="non-BOOLEAN and BOOLEAN conditions in every position"),
    Family("mistyped", mistyped, len(OPERANDS) * (4 + len(SELECTORS)), about="FOR with every operand in every position; CASE with every selector against every label and range"),
    Family("outside", outside, 18, about="BREAK/CONTINUE inside and outside loops, across calls"),
    Family("program", program, 3000, 100000, about="generated programs heavy in control statements"),
], "A case is a program whose complete statement trace (OUTPUT) is predicted; distinct by text; non-trivial if at least one "
   "branch or iteration was executed.",
    assumptions=["step 0, writes to the iterator inside the loop, iterator overflow and CHAR ranges are not judged"])
