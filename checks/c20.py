"""C20: --pedantic only rejects; it never changes the meaning of an accepted program."""
import re

import model as M
import mutate as X
import repl
import samples
import scale
from c04 import split
from c11 import BAD, GLOBALS, RUNFAULTS, SENTINEL, OLD
from gen import Gen
from harness import Check, Family

FLAGS = ("-p", "--pedantic")


def raw(env, src, stdin, files, flag, **kw):
    """A run with the option spelled out."""
    env.R.reset()
    for k, v in files.items():
        env.R.put(k, v)
    env.R.put("prog.ps", src.encode("latin-1"))
    args = ([flag] if flag else []) + ["prog.ps"]
    kw.setdefault("variant", env.auto())
    r = env.R.raw(args, stdin.encode("latin-1"), **kw)
    r.files = env.R.listing(skip=("prog.ps",))
    env.note(src.encode("latin-1"), stdin.encode("latin-1"), files, dict(kw, args=args), r)
    env.outcomes[r.kind] = env.outcomes.get(r.kind, 0) + 1
    return r


def identical(env, src, stdin, files, what=""):
    """Byte for byte the same with and without the option."""
    a = raw(env, src, stdin, files, None)
    if a.kind in ("budget", "timeout"):
        env.inconclusive(a.kind)
        return None
    for flag in FLAGS if env.index % 3 == 0 else (FLAGS[env.index % 2],):
        b = raw(env, src, stdin, files, flag)
        for n in ("out", "err", "code", "files"):
            x, y = getattr(a, n), getattr(b, n)
            env.expect(x == y, "%sthe %s differs with %s: %r, without: %r" % (what, {"out": "output", "err": "diagnostic", "code": "exit status", "files": "files"}[n], flag, y, x))
        env.ok((src, stdin, flag))
    env.events["identical runs"] = env.events.get("identical runs", 0) + 1
    return a


def uses(text):
    """Whether the text contains one of the rejected constructs (other than undeclared variables)."""
    toks = [s for k, s in X.pieces(text) if k not in ("ws", "com")]
    for a, b in zip(toks, toks[1:] + [""]):
        if a in ("BREAK", "CONTINUE") or a == "ELSE" and b == "IF" or a in ("INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE") and b == "(":
            return True
    return False


def clean(env, i):
    """Generated programs of the accepted subset: equal with and without the option, and as predicted with it."""
    r = env.rng
    g = Gen(r, pedantic_clean=True, size=r.choice((8, 15, 30)), routines=r.randint(0, 3), files=("f1", "f2"),
            weights={"bad": r.choice((0, 0, 0.6)), "wfile": 1, "rfile": 1, "random": 0.5, "input": 2})
    text = g.program()
    stdin = "\n".join(g.stdin) + "\n"
    p = env.predict(text, stdin, {}, True)
    if p is None:
        return
    if p[1] is not None and p[1].kind == "pedantic":
        env.discard("not clean")
        return
    a = identical(env, text, stdin, {})
    if a is None:
        return
    env.differential(text, stdin, {}, pedantic=True)


def faulty(env, i):
    """Programs with token-level faults: equal with and without the option as long as no rejected construct is in them."""
    r = env.rng
    if i % 2:
        g = Gen(r, pedantic_clean=True, size=10, routines=1, files=("f1",))
        text, stdin, files = X.faulty(g.program(), r, r.choice((1, 2))), "\n".join(g.stdin) + "\n", {}
    else:
        _, text, stdin, files = r.choice(X.corpus() + [(a, b, samples.STDIN, {}) for a, b in samples.SAMPLES.items()])
        if r.random() < 0.8:
            text = X.faulty(text, r, r.choice((1, 2)))
    if uses(text):
        env.discard("uses a rejected construct")
        return
    p = env.predict(text, stdin, files, True)
    if p is None:
        return
    if p[1] is not None and p[1].kind == "pedantic":
        env.differential(text, stdin, files, pedantic=True, lines=True)
        return
    identical(env, text, stdin, files)


def errors(env, i):
    """Every syntax error and every run-time error line: the same diagnostic in both modes."""
    r = env.rng
    bad = (BAD + RUNFAULTS)[i % (len(BAD) + len(RUNFAULTS))]
    pre = GLOBALS + "DECLARE x, y, a, b, zz9, zz8, zz7, zz6, zz5, i: INTEGER\nDECLARE n: STRING\n" + "x <- 3\nOUTPUT x\n"
    text = pre + bad + "\nOUTPUT \"after\"\n"
    if uses(text):
        env.discard("uses a rejected construct")
        return
    if M.check_syntax(text.encode("latin-1"), True)[0] is not None and M.check_syntax(text.encode("latin-1"), True)[0].kind == "pedantic":
        env.discard("uses a rejected construct")
        return
    p = env.predict(text, "in\n", {}, True)
    if p is not None and p[1] is not None and p[1].kind == "pedantic":
        env.discard("undeclared variable")
        return
    identical(env, text, "in\n", {})


# construct, how it is recognised, statement lines (%d: a fresh number)
STATIC = [
    ("BREAK", ["BREAK"]), ("CONTINUE", ["CONTINUE"]), ("BREAK", ["WHILE FALSE DO", "    BREAK", "ENDWHILE"]),
    ("CONTINUE", ["FOR pq <- 1 TO 2", "    CONTINUE", "NEXT pq"]), ("BREAK", ["REPEAT", "    IF FALSE THEN", "        BREAK", "    ENDIF", "UNTIL TRUE"]),
    ("BREAK", ["IF FALSE THEN", "    BREAK", "ENDIF"]), ("BREAK", ["CASE OF pk", "    1: BREAK", "ENDCASE"]), ("CONTINUE", ["CASE OF pk", "    99: OUTPUT 1", "    OTHERWISE: CONTINUE", "ENDCASE"]),
    ("ELSE IF", ["IF FALSE THEN", "    OUTPUT 1", "ELSE IF FALSE THEN", "    OUTPUT 2", "ENDIF"]),
    ("ELSE IF", ["IF TRUE THEN", "ELSE   IF TRUE", "THEN", "    OUTPUT 2", "ELSE", "ENDIF"]),
    ("ELSE IF", ["IF FALSE THEN", "    IF FALSE THEN", "    ELSE IF TRUE THEN", "    ENDIF", "ENDIF"]),
    ("cast", ["OUTPUT INTEGER(\"5\")"]), ("cast", ["OUTPUT REAL(5)"]), ("cast", ["OUTPUT STRING(5)"]), ("cast", ["OUTPUT CHAR(65)"]), ("cast", ["OUTPUT BOOLEAN(1)"]),
    ("cast", ["pi <- INTEGER(2.5)"]), ("cast", ["pi <- 1 + INTEGER(TRUE)"]), ("cast", ["IF FALSE THEN", "    OUTPUT INTEGER(1)", "ENDIF"]), ("cast", ["WHILE INTEGER(\"0\") = 1 DO", "ENDWHILE"]),
    ("cast", ["pa[INTEGER(\"1\")] <- 1"]), ("cast", ["CALL pp(INTEGER(\"1\"))"]), ("cast", ["OUTPUT LENGTH(STRING(5))"]), ("cast", ["INTEGER(5)"]), ("cast", ["OUTPUT \"a\" & STRING (5)"]),
    ("cast", ["OUTPUT -INTEGER(5)"]), ("cast", ["OUTPUT NOT BOOLEAN(1)"]), ("cast", ["OUTPUT (INTEGER(5))"]), ("cast", ["FOR pq <- INTEGER(1) TO 2", "NEXT pq"]), ("cast", ["OUTPUT INTEGER(REAL(5))"]),
]
# recognised when executed
DYNAMIC = [["und%d <- 5"], ["und%d <- \"s\" & 5"], ["INPUT und%d"], ["READ und%d"], ["IF TRUE THEN", "    und%d <- 1", "ENDIF"], ["FOR pq <- 1 TO 3", "    OUTPUT \"round\", pq", "    und%d <- pq", "NEXT pq"],
           ["CALL setund()"], ["OUTPUT fund(1)"], ["und%d <- pf(2)"], ["und%d <- 5 DIV 1"], ["CASE OF pk", "    5: und%d <- 5", "    OTHERWISE: OUTPUT 3", "ENDCASE"], ["WHILE TRUE DO", "    INPUT und%d", "ENDWHILE"],
           ["REPEAT", "    pi <- pi + 1", "    und%d <- pi", "UNTIL TRUE"], ["CALL inund()"], ["CALL pp(fund(2))"], ["pa[fund(1)] <- 5"], ["DECLARE dd%d: INTEGER", "dd%d <- 5", "CALL setdd()"]]
SETUP = """DECLARE pi, pk, pq: INTEGER
DECLARE pa: ARRAY[1:3] OF INTEGER
pk <- 5
PROCEDURE pp(x: INTEGER)
    OUTPUT "pp", x
ENDPROCEDURE
FUNCTION pf(x: INTEGER) RETURNS INTEGER
    OUTPUT "pf"
    RETURN x
ENDFUNCTION
PROCEDURE setund()
    OUTPUT "in setund"
    und0 <- 1
    OUTPUT "not here"
ENDPROCEDURE
PROCEDURE inund()
    INPUT und1
    OUTPUT "not here"
ENDPROCEDURE
FUNCTION fund(x: INTEGER) RETURNS INTEGER
    OUTPUT "in fund"
    und2 <- x
    RETURN und2
ENDFUNCTION
PROCEDURE setdd()
    DECLARE dd: INTEGER
    dd <- 5
    ddx <- 6
ENDPROCEDURE
"""


def host(r):
    g = Gen(r, pedantic_clean=True, size=r.choice((6, 12)), routines=1, weights={"bad": 0, "input": 0})
    return g.program().rstrip("\n").split("\n")


def positions(ls):
    """Line numbers at which a statement may be inserted at the top level (after them) or inside a block."""
    res, depth = [len(ls)], 0
    return res + list(range(len(ls)))


def static(env, i):
    """One construct the lexer or parser recognises, anywhere: rejected before anything executes."""
    r = env.rng
    name, stmt = STATIC[i % len(STATIC)]
    pre = SENTINEL.rstrip("\n").split("\n") + SETUP.rstrip("\n").split("\n")
    ls = host(r)
    for k in r.sample(range(len(ls) + 1), min(6, len(ls) + 1)):
        body = ls[:k] + stmt + ls[k:]
        src = "\n".join(pre + body) + "\n"
        e, warned = M.check_syntax(src.encode("latin-1"), True)
        e2, _ = M.check_syntax(src.encode("latin-1"), False)
        if e2 is not None or warned:
            continue  # not a place for a statement
        env.expect(e is not None and e.kind == "pedantic", "harness: the reference accepts %r" % stmt)
        for flag in FLAGS:
            o = raw(env, src, "in\n", dict(OLD), flag)
            env.expect(o.kind == "pedantic" and o.code == 1, "%s is not rejected with %s: outcome %s, exit status %d" % (name, flag, o.kind, o.code))
            env.expect(o.out.strip() == b"", "something was executed before %s was rejected: %r" % (name, o.out[:100]))
            env.expect(o.files == OLD, "files were touched before %s was rejected: %r" % (name, sorted(o.files)))
            env.expect(len(o.diags) == 1, "%d diagnostics" % len(o.diags))
            env.expect(o.diags[0].frames[0][1] == e.frames[0][1], "%s in line %d is reported at line %d" % (name, e.frames[0][1], o.diags[0].frames[0][1]))
            named(env, name, o)
            env.ok((src, flag))
        env.events["rejected " + name] = env.events.get("rejected " + name, 0) + 1
        a = raw(env, src, "in\n", dict(OLD), None)
        env.expect(a.kind in ("ok", "runtime", "budget"), "without the option: outcome %s" % a.kind)


WORDS = {"BREAK": rb"BREAK", "CONTINUE": rb"CONTINUE", "ELSE IF": rb"ELSE IF", "cast": rb"(?i)cast|<type>|conver|\(value\)"}


def named(env, name, o):
    """The diagnostic names the construct."""
    if name in WORDS:
        env.expect(re.search(WORDS[name], o.err), "the diagnostic does not name %s: %r" % (name, o.err[:300]))


def dynamic(env, i):
    """One assignment or INPUT to an undeclared variable, anywhere: the prefix is executed, nothing after it."""
    r = env.rng
    stmt = DYNAMIC[i % len(DYNAMIC)]
    ls = host(r)
    pre = SETUP.rstrip("\n").split("\n") + ['OPENFILE "log" FOR WRITE', 'WRITEFILE "log", "before"']
    stmt = [s.replace("%d", "7") for s in stmt]
    for k in r.sample(range(len(ls) + 1), min(6, len(ls) + 1)):
        src = "\n".join(pre + ls[:k] + ["pi <- 1"] + stmt + ['WRITEFILE "log", "after"', 'OUTPUT "after the construct"'] + ls[k:]) + "\n"
        if M.check_syntax(src.encode("latin-1"), True)[0] is not None:
            continue
        p = env.predict(src, "5\n6\n", {}, True)
        if p is None:
            continue
        m, e = p
        if e is None or e.kind != "pedantic":
            # not reached, or something else fails first: then both modes agree
            q = env.predict(src, "5\n6\n", {}, False)
            if q is not None and not any("und" in l or "ddx" in l for l in ls):
                identical(env, src, "5\n6\n", {})
            continue
        for flag in FLAGS:
            o = raw(env, src, "5\n6\n", {}, flag)
            w = env.compare(m, e, o, lines=True)
            env.expect(not w, "%r with %s: %s" % (stmt, flag, w))
            env.expect(b"after the construct" not in o.out, "something is executed after the construct")
            env.ok((src, flag))
        env.events["undeclared rejected"] = env.events.get("undeclared rejected", 0) + 1
        a = raw(env, src, "5\n6\n", {}, None)
        env.expect(a.kind != "pedantic", "a pedantic error without the option")
        # what was executed before is the same
        cut = o.out.rstrip(b"\n")
        env.expect(a.out.startswith(cut), "the output before the construct differs without the option")


def undeclared(env, i):
    """Ordinary generated programs (casts, undeclared variables, ELSE IF, BREAK): whatever the option rejects is predicted."""
    r = env.rng
    g = Gen(r, size=r.choice((6, 12, 20)), casts=r.random() < 0.3, weights={"break": r.choice((0, 0, 1)), "continue": 0, "implicit": 3, "bad": 0.2, "input": 2})
    text = g.program()
    stdin = "\n".join(g.stdin) + "\n"
    res = env.differential(text, stdin, {}, pedantic=True, lines=True)
    if res is None:
        return
    m, e, o = res
    if e is None or e.kind != "pedantic":
        identical(env, text, stdin, {})


ALLOWED = """FOR it <- 1 TO 3
    OUTPUT it
NEXT it
OUTPUT it
OPENFILE "f" FOR WRITE
WRITEFILE "f", "some text"
CLOSEFILE "f"
OPENFILE "f" FOR READ
READFILE "f", line
OUTPUT line
CLOSEFILE "f"
line <- "again"
it <- 7
OUTPUT it, line
"""


def mixedmode(env, i):
    """Corner cases of the accepted subset, alone and combined; REPL sessions in both modes."""
    r = env.rng
    if i == 0:
        identical(env, ALLOWED, "", {})
        for t in ("", "\n", "// BREAK\n", 'OUTPUT "BREAK CONTINUE ELSE IF INTEGER(5)"\n', "DECLARE BREAKER: INTEGER\nBREAKER <- 1\nOUTPUT BREAKER\n",
                  "IF FALSE THEN\nELSE\n  IF TRUE THEN\n    OUTPUT 1\n  ENDIF\nENDIF\n", "IF FALSE THEN\n  OUTPUT 0\nELSE\nIF TRUE THEN\nOUTPUT 2\nENDIF\nENDIF\n",
                  "DECLARE x: INTEGER\nx <- 5 // x <- INTEGER(5)\nOUTPUT x\n", "CONSTANT c = 5\nc <- 6\n", "OUTPUT nope\n", "OUTPUT 5.\n", "DECLARE a: ARRAY[1:2] OF INTEGER\nINPUT a[1]\nOUTPUT a[1]\n",
                  "TYPE R\nDECLARE n: INTEGER\nENDTYPE\nDECLARE v: R\nINPUT v.n\nv.n <- v.n + 1\nOUTPUT v.n\n", "TYPE P = ^INTEGER\nDECLARE p: P\nDECLARE t: INTEGER\np <- ^t\np^ <- 4\nINPUT p^\nOUTPUT t\n",
                  "PROCEDURE q(BYREF x: INTEGER)\nx <- 9\nINPUT x\nENDPROCEDURE\nDECLARE z: INTEGER\nCALL q(z)\nOUTPUT z\n", "nope[1] <- 5\n", "nope.x <- 5\n", "INPUT nope[1]\n", "nope^ <- 5\n",
                  "DECLARE ELSEIF: INTEGER\nELSEIF <- 1\nOUTPUT ELSEIF\n", "DECLARE a: ARRAY[1:2] OF STRING\nOPENFILE \"f\" FOR WRITE\nWRITEFILE \"f\", 1\nCLOSEFILE \"f\"\nOPENFILE \"f\" FOR READ\nREADFILE \"f\", a[1]\nOUTPUT a[1]\n",
                  "DECLARE x: INTEGER\nx <- 1.5\n", "DECLARE r: REAL\nr <- 1\nOUTPUT r\n", "DECLARE i: INTEGER\ni <- 2.0\nOUTPUT i\n", "DECLARE s: STRING\ns <- 'c'\nOUTPUT s\n", "CALL nope()\n", "OUTPUT nope()\n",
                  "FUNCTION f() RETURNS INTEGER\nENDFUNCTION\nOUTPUT f()\n", "RETURN 5\n", "OUTPUT \"a\"\nOUTPUT \"b\" & 5 & TRUE & 1/2/2020\n", "DECLARE x: NOPE\n", "DECLARE x: INTEGER\nDECLARE x: INTEGER\n"):
            identical(env, t, "4\n5\n", {}, "%r: " % t)
        return
    if i == 1:
        # the option must be recognised only where it is an option
        src = "OUTPUT 5\n"
        for args, kind in ((["-p", "prog.ps"], "ok"), (["--pedantic", "prog.ps"], "ok")):
            env.R.reset()
            env.R.put("prog.ps", src.encode())
            o = env.R.raw(args)
            env.note(src.encode(), b"", {}, {"args": args}, o)
            env.expect(o.kind == kind and o.out == b"5\n", "%s: %s %r" % (args, o.kind, o.out))
            env.ok(tuple(args))
        return
    g = Gen(r, pedantic_clean=True, size=8, routines=1, weights={"bad": 0.6, "input": 0}, dump=False)
    ents = []
    for e in split(g.program()):
        e = e if isinstance(e, repl.Entry) else repl.Entry(e)
        ents.append(e)
        x = r.random()
        if x < 0.12:
            ents.append(repl.Entry(r.choice(["nova%d <- 5", "OUTPUT INTEGER(5)", "BREAK", "CONTINUE", "IF TRUE THEN\n  nova%d <- 1\nENDIF", "IF FALSE THEN\nELSE IF TRUE THEN\n  OUTPUT 1\nENDIF",
                                             "WHILE TRUE DO\n  OUTPUT 1\n  BREAK\nENDWHILE"]).replace("%d", str(r.randint(0, 3)))))
        elif x < 0.2:
            ents.append(repl.Entry("OUTPUT nova%d" % r.randint(0, 3)))
    env.session(ents, {}, pedantic=True, pure="prefix")


def scaled(env, i):
    """Large programs: identical in both modes if every variable is declared, and as predicted with the option."""
    f, (src, inp, files) = scale.build(env.rng, "all", i)
    if not uses(src):
        names = sorted(set(re.findall(r"^[ \t]*([a-z]) <-", src, re.M)))
        known = {x.strip() for d in re.findall(r"(?:DECLARE|BYREF|BYVAL|[(,]) *([a-zA-Z0-9_, ]+):", src) for x in d.split(",")}
        decl = "".join("DECLARE %s: INTEGER\n" % n for n in names if n not in known)
        if i % 3:
            src = decl + src
    env.differential(src, inp, files, pedantic=True, max_steps=100000, **scale.LIMITS)


CHECK = Check("C20", [
    Family("scaled", scaled, 720, 5000, about="programs with one large dimension under the option, predicted", chunk=4),
    Family("clean", clean, 1500, 25000, about="accepted generated programs: byte-identical in both modes and as predicted"),
    Family("faulty", faulty, 2000, 30000, about="corpus and generated programs with token faults: same diagnostics"),
    Family("errors", errors, len(BAD) + len(RUNFAULTS), about="every error line in both modes", chunk=20),
    Family("static", static, len(STATIC) * 8, len(STATIC) * 120, about="one construct of the lexer/parser at any position: nothing executes"),
    Family("dynamic", dynamic, len(DYNAMIC) * 10, len(DYNAMIC) * 150, about="one undeclared assignment/INPUT at any position: exactly the prefix executes"),
    Family("undeclared", undeclared, 1200, 20000, about="ordinary programs under the option, predicted"),
    Family("mixedmode", mixedmode, 400, 6000, about="corner cases, REPL sessions under the option", chunk=10),
], "A case is a program run with and without the option. Accepted programs: stdout, stderr, exit status and files equal byte for byte. Programs with one rejected construct: "
   "a pedantic error with exit 1 naming it and its line, and exactly the predicted prefix executed. It counts once per distinct (text, option).",
    assumptions=["FOR and READFILE may introduce their variable with the option as without it", "the message is only searched for the name of the construct"])
