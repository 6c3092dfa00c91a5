"""Programs whose functions close, reopen, replace and redirect what the statement that calls them is using."""
from harness import Family

CONF = """TYPE Col = (red, green, blue)
TYPE PI = ^INTEGER
TYPE In
    DECLARE m: STRING
ENDTYPE
TYPE Rec
    DECLARE n: INTEGER
    DECLARE a: ARRAY[1:2] OF CHAR
    DECLARE in: In
ENDTYPE
TYPE PR = ^Rec
TYPE PP = ^PI
DECLARE i: INTEGER
DECLARE re: REAL
DECLARE b: BOOLEAN
DECLARE c: CHAR
DECLARE s: STRING
DECLARE d: DATE
DECLARE e: Col
DECLARE p, dead: PI
DECLARE q: PR
DECLARE pp: PP
DECLARE rec: Rec
DECLARE arr: ARRAY[1:3] OF INTEGER
DECLARE mat: ARRAY[1:2, 0:2] OF REAL
DECLARE recs: ARRAY[1:2] OF Rec
CONSTANT k = 3
CONSTANT ks = "f"
PROCEDURE proc()
    i <- i + 1
ENDPROCEDURE
PROCEDURE kill()
    DECLARE loc: INTEGER
    dead <- ^loc
ENDPROCEDURE
PROCEDURE by(BYREF x: INTEGER, BYVAL y: STRING, z: Rec)
    x <- 1
ENDPROCEDURE
FUNCTION noret() RETURNS INTEGER
ENDFUNCTION
FUNCTION fi() RETURNS INTEGER
    RETURN 2
ENDFUNCTION
FUNCTION fs(x: STRING) RETURNS STRING
    RETURN x & x
ENDFUNCTION
FUNCTION fr() RETURNS Rec
    RETURN rec
ENDFUNCTION
FUNCTION fb(BYREF x: INTEGER) RETURNS INTEGER
    x <- x + 1
    RETURN x
ENDFUNCTION
""".rstrip("\n")
CONF2 = ["i <- 1", "p <- ^i", "q <- ^rec", "pp <- ^p", "CALL kill()", 's <- "f"']

RE_PRE = CONF.split("\n") + """DECLARE rec2: Rec
DECLARE recs2: ARRAY[1:2] OF Rec
DECLARE arr2: ARRAY[1:3] OF INTEGER
DECLARE mat2: ARRAY[1:2, 0:2] OF REAL
DECLARE ptrs: ARRAY[1:3] OF PI
DECLARE strs, strs2: ARRAY[1:3] OF STRING
DECLARE once: ARRAY[1:99] OF BOOLEAN
DECLARE tick: INTEGER
tick <- 0
DECLARE name: STRING
name <- "f" """.split("\n") + CONF2
# statements that end, move or replace something
EFFECTS = [
    'CLOSEFILE "f"', 'CLOSEFILE "w"', 'CLOSEFILE "r"', 'CLOSEFILE name', 'OPENFILE "w" FOR WRITE', 'CLOSEFILE "w"\nOPENFILE "w" FOR READ', 'CLOSEFILE "w"\nOPENFILE "w" FOR APPEND', 'CLOSEFILE "r"\nOPENFILE "r" FOR RANDOM', 'CLOSEFILE "f"\nOPENFILE "f" FOR READ', 'OPENFILE "x1" FOR WRITE\nOPENFILE "x2" FOR WRITE',
    'READFILE "f", s', 'WRITEFILE "w", s', 'SEEK "r", 1', 'SEEK "r", 2', 'PUTRECORD "r", rec', 'GETRECORD "r", rec', 'GETRECORD "r", recs', 'PUTRECORD "r", recs', 'PUTRECORD "r", i', 'GETRECORD "r", i', 'GETRECORD "r", arr', 'PUTRECORD "r", arr', 'GETRECORD "r", s',
    "rec <- rec2", "rec2 <- rec", "recs[1] <- recs[2]", "recs <- recs2", "recs2 <- recs", "arr <- arr2", "arr2 <- arr", "mat <- mat2", "rec.a <- rec2.a", "rec.in <- rec2.in", "recs[2].in <- recs[1].in", "strs <- strs2", "strs2 <- strs", "q^ <- rec2", "q^ <- recs[1]", "rec <- q^",
    "q <- ^rec2", "q <- ^recs[1]", "q <- ^rec", "p <- ^i", "p <- ^tick", "pp <- ^p", "p <- ^arr[2]", "p <- ^rec.n", "pp <- ^ptrs[2]", "ptrs[1] <- p", "CALL kill()", "p <- dead", "p <- ^own", "pp^ <- ^i", "s <- s & s", 's <- ""', 's <- "' + "z" * 100 + '"', "rec.in.m <- s & s",
    'strs[1] <- strs[1] & "' + "y" * 40 + '"', "strs[2] <- s", "name <- name & \"\"", 'name <- "w"', 'name <- "r"', "i <- 3", "i <- 1", "i <- 2", "rec.n <- 1", "arr[1] <- 2", "arr[i] <- tick", "new1 <- s", "newrec <- rec", "newarr <- 5", "INPUT s", "INPUT i", "INPUT rec.in.m", "e <- blue", "own <- i",
    "CALL by(i, s, rec)", "CALL by(arr[2], rec.in.m, recs[1])", "OUTPUT s", "OUTPUT rec.in.m, strs[1]", "CALL redo()", "DECLARE made: ARRAY[1:3] OF Rec\nrec2 <- made[2]", "i <- i DIV 0", "FOR i <- 1 TO 2\nOUTPUT i\nNEXT", "FOR own <- 1 TO 3\np <- ^own\nNEXT",
]
# functions: @E are effects
RE_FUNCS = """PROCEDURE redo()
@E
ENDPROCEDURE
FUNCTION ei() RETURNS INTEGER
DECLARE own: INTEGER
own <- 2
tick <- tick + 1
IF tick > 40 THEN
RETURN 1
ENDIF
@E
@N
RETURN @i
ENDFUNCTION
FUNCTION es() RETURNS STRING
DECLARE own: INTEGER
tick <- tick + 1
IF tick > 40 THEN
RETURN "w"
ENDIF
@E
@N
RETURN @s
ENDFUNCTION
FUNCTION er() RETURNS Rec
DECLARE own: INTEGER
@E
RETURN @r
ENDFUNCTION
FUNCTION ep() RETURNS PI
DECLARE own: INTEGER
@E
RETURN @p
ENDFUNCTION
FUNCTION eq() RETURNS PR
DECLARE own: INTEGER
@E
RETURN q
ENDFUNCTION
FUNCTION eby(BYREF x: INTEGER, y: STRING) RETURNS INTEGER
DECLARE own: INTEGER
@E
x <- @i
@E
RETURN x
ENDFUNCTION
PROCEDURE pby(BYREF x: INTEGER, BYREF y: STRING, BYREF z: Rec)
DECLARE own: INTEGER
@E
x <- @i
y <- y & "!"
@E
z.n <- x
@E
z <- rec2
OUTPUT x, y, z.n, z.in.m
ENDPROCEDURE""".split("\n")
RE_I = ["ei()", "ei()", "ei()", "eby(i, es())", "eby(arr[ei()], s)", "eby(rec.n, s)", "eby(q^.n, s)", "eby(p^, s)", "eby(recs[ei()].n, es())", "arr[ei()]", "recs[ei()].n", "(i + ei())", "LENGTH(es())", "arr[i]"]
RE_S = ["es()", "es()", "es()", "(s & es())", "(name & es() & s)", "LEFT(es(), 1)", "MID(s, ei(), ei())", "strs[ei()]", "recs[ei()].in.m", "rec.in.m", "name", '"w"', '"f"', '"r"']
RE_L = ["arr[@i]", "recs[@i].n", "recs[@i].in.m", "recs[@i].a[@i]", "strs[@i]", "mat[@i, @i]", "q^.n", "q^.in.m", "q^.a[@i]", "p^", "pp^^", "ptrs[@i]^", "rec.a[@i]", "s", "rec.in.m", "recs[@i]", "rec", "recs", "arr", "recs[@i].in", "i", "q^", "own"]
RE_STMTS = [
    "@l <- @i", "@l <- @s", "@l <- @l", "@l <- @r", "@l <- @l", "WRITEFILE @s, @s", 'WRITEFILE "w", @i', 'WRITEFILE "w", @s', 'WRITEFILE "f", @s & @s', 'SEEK "r", @i', "SEEK @s, @i", "READFILE @s, s", "GETRECORD @s, rec", "PUTRECORD @s, rec", "GETRECORD @s, recs", "PUTRECORD @s, arr", "CLOSEFILE @s", "OPENFILE @s FOR READ",
    "OPENFILE @s FOR WRITE", "OPENFILE @s FOR RANDOM", "OUTPUT EOF(@s)", "OUTPUT s, @s, name, @i, strs[1]", "OUTPUT @l, @i, @l", "OUTPUT @l, @s, @l", "INPUT @l", "FOR i <- @i TO @i STEP @i\nIF tick > 40 THEN\nBREAK\nENDIF\nNEXT i", "FOR i <- 1 TO @i\nOUTPUT @l\nNEXT", "WHILE @i < 3 AND tick < 30 DO\nOUTPUT tick\nENDWHILE",
    "REPEAT\nOUTPUT @l\nUNTIL @i > 1 OR tick > 30", "CASE OF i\n@i: OUTPUT 1\n@i TO @i: OUTPUT 2\nOTHERWISE: OUTPUT 3\nENDCASE", "CASE OF s\n@s: OUTPUT 1\n@s: OUTPUT 2\nENDCASE", "CASE OF rec\nrec: OUTPUT 1\nENDCASE", "CALL pby(@l, @l, @l)", "CALL pby(i, s, rec)", "CALL pby(arr[@i], strs[@i], recs[@i])",
    "CALL pby(q^.n, q^.in.m, q^)", "CALL pby(rec.n, rec.in.m, rec)", "CALL pby(recs[@i].n, recs[@i].in.m, recs[@i])", "CALL by(@l, @s, @r)", "p <- ^@l", "q <- ^@l", "pp <- ^ptrs[@i]", "p <- ep()", "q <- eq()", "rec <- er()", "recs[@i] <- er()", "q^ <- er()", "rec.in <- recs[@i].in", "DECLARE dyn@d: ARRAY[1:@i] OF INTEGER",
    "DECLARE dyn@d: ARRAY[1:@i, 0:@i] OF Rec", "s <- @s & s & @s", "i <- i + @i * i - @i", "b <- @s = s", "b <- @i > i AND @i < i", "b <- recs[@i].n = q^.n", "IF @s = s THEN\nOUTPUT 1\nELSE IF @s <> s THEN\nOUTPUT 2\nENDIF", "s <- STRING(@i)", "OUTPUT eby(@l, @s)", "p^ <- @i", "pp^^ <- @i", "q^.n <- @i", "q^.in.m <- @s", "recs <- recs2", "recs[@i].a <- rec.a",
    "recs[@i].a <- q^.a", "q^.a <- recs[@i].a", "RETURN @i",
]


def fill(r, t, eff, depth=0):
    """Replaces the @x of a template; nested expressions end after two levels."""
    while "@" in t:
        k = t.index("@")
        x = t[k + 1]
        if x == "i":
            o = r.choice(RE_I if depth < 2 else ("1", "2", "i", "3"))
        elif x == "s":
            o = r.choice(RE_S if depth < 2 else ("s", '"w"', "name", "strs[1]"))
        elif x == "l":
            o = fill(r, r.choice(RE_L), eff, depth + 1)
        elif x == "r":
            o = r.choice(("rec", "rec2", "recs[1]", "recs[2]", "q^") + (("er()",) if depth < 1 else ()))
        elif x == "p":
            o = r.choice(("p", "pp^", "dead", "ptrs[1]"))
        elif x == "d":
            o = str(r.randrange(10 ** 6))
        elif x == "E":
            o = "\n".join(eff(r) for _ in range(r.choice((0, 1, 1, 2, 3))))
        elif x == "N":
            o = "" if r.random() < 0.6 else "\n".join("IF tick < 12 THEN\n%s\nENDIF" % fill(r, r.choice([t for t in RE_STMTS[:-1] if "INPUT" not in t]), eff, depth + 1) for _ in range(r.choice((1, 2))))
        else:
            raise AssertionError(t)
        t = t[:k] + o + t[k + 2:]
    return t


def program(r, inputs=True):
    done = set()

    def eff(r):
        x = r.choice(EFFECTS)
        while not inputs and "INPUT" in x:
            x = r.choice(EFFECTS)
        if "FILE" in x and x not in done and r.random() < 0.8:
            # once only
            done.add(x)
            return "IF NOT once[%d] THEN\nonce[%d] <- TRUE\n%s\nENDIF" % (len(done), len(done), x)
        return x if r.random() < 0.7 else "IF tick %s %d THEN\n%s\nENDIF" % (r.choice("<=>"), r.randint(1, 8), x)

    lines = list(RE_PRE)
    depth = r.choice((1, 1, 2))
    for l in RE_FUNCS:
        lines += [x for x in fill(r, l, eff, depth).split("\n") if x]
    if r.random() < 0.8:
        for n, m in (("f", r.choice(("READ", "READ", "WRITE"))), ("w", r.choice(("WRITE", "APPEND"))), ("r", "RANDOM")):
            if r.random() < 0.8:
                lines.append('OPENFILE "%s" FOR %s' % (n, m))
    body = []
    for _ in range(r.choice((2, 4, 8, 15))):
        x = r.choice(RE_STMTS)
        while not inputs and "INPUT" in x:
            x = r.choice(RE_STMTS)
        body += ["tick <- 0"] * (r.random() < 0.5) + fill(r, x, eff).split("\n")
    w = r.randrange(4)
    if w == 0:
        lines += ["FUNCTION main() RETURNS INTEGER", "DECLARE own: INTEGER"] + body + ["RETURN 0", "ENDFUNCTION", "OUTPUT main()", "OUTPUT main()"]
    elif w == 1:
        lines += ["PROCEDURE main(BYREF i: INTEGER, BYREF rec: Rec, BYREF s: STRING)", "DECLARE own: INTEGER"] + [b for b in body if not b.startswith("RETURN")] + ["ENDPROCEDURE", "CALL main(arr[1], recs[2], strs[3])", "CALL main(q^.n, q^, q^.in.m)", "CALL main(i, rec, s)"]
    else:
        lines += ["DECLARE own: INTEGER"] + [b for b in body if not b.startswith("RETURN")]
    return lines


FILES = {"f": b"one\n2\nthree\n", "w": b"old\n"}


def stdin(r):
    return "".join(r.choice(("1\n", "2\n", "text\n", "3\n")) for _ in range(r.choice((0, 5, 20))))


def entries(lines):
    """The REPL entries of a program's lines: multi-line ones with the empty line that ends them."""
    ents, block, cur = [], 0, []
    for l in lines:
        w = l.split(" ")[0].strip()
        if l.startswith("TYPE ") and "=" not in l or w in ("FUNCTION", "PROCEDURE", "IF", "WHILE", "FOR", "REPEAT", "CASE"):
            block += 1
        cur.append(l)
        if w in ("ENDTYPE", "ENDFUNCTION", "ENDPROCEDURE", "ENDIF", "ENDWHILE", "NEXT", "UNTIL", "ENDCASE"):
            block -= 1
            if block == 0:
                cur.append("")
        if block == 0:
            ents.append("\n".join(cur))
            cur = []
    return ents + cur


def case(env, i):
    """Every effect and every later statement as the reference model predicts: in file mode up to the first error, in the REPL beyond it."""
    r = env.rng
    if i % 2:
        env.differential("\n".join(program(r)) + "\n", stdin(r), FILES, max_steps=6000)
        return
    ents = [e[:-1] if e.endswith("\n") else e for e in entries(program(r, False))]
    ents += ["OUTPUT i, re, s, name, tick, rec.n, rec.in.m, rec.a[1], rec.a[2], rec2.n, rec2.in.m", "OUTPUT arr[1], arr[2], arr[3], arr2[1], arr2[2], arr2[3], strs[1], strs[2], strs2[1]", "OUTPUT recs[1].n, recs[1].in.m, recs[2].n, recs[2].in.m, recs2[1].n, recs2[2].in.m",
             "OUTPUT mat[1, 1], mat[2, 2]", "OUTPUT p^", "OUTPUT q^.n", "OUTPUT pp^^", "OUTPUT ptrs[1]^", "OUTPUT dead^", 'CLOSEFILE "f"', 'CLOSEFILE "w"', 'CLOSEFILE "r"']
    env.session(ents, FILES, pure="prefix", check_files=True, max_steps=20000)


def family(quick, thorough):
    return Family("reentrant", case, quick, thorough, about="functions called inside statements close, reopen, replace and redirect what the statement is using")
