"""C08: a CONSTANT never changes after its definition."""
from gen import Gen
import scale
from harness import Check, Family
from repl import Entry

# type -> (constant literals, a different literal of the same type, values of other types)
LITS = {
    "INTEGER": ["7", "0", "-3", "9223372036854775807", "1"], "REAL": ["2.5", "0.0", "-1.25", "3.0"], "BOOLEAN": ["TRUE", "FALSE"],
    "CHAR": ["'k'", "' '", "'7'"], "STRING": ['"abc"', '""', '"x"', '"7"'],
}
OTHER = {"INTEGER": "5", "REAL": "6.5", "BOOLEAN": "1 > 2", "CHAR": "'z'", "STRING": '"other"'}
LINES = {"INTEGER": "12", "REAL": "1.5", "BOOLEAN": "TRUE", "CHAR": "q", "STRING": "typed"}


def attempts(t, c="c", via=""):
    """Every statement form that would write to the constant: (entry text or Entry, reads it makes possible)."""
    o = OTHER[t]
    a = ["%s <- %s" % (c, o), "%s <- %s" % (c, c), "%s <- v" % c, "FOR %s <- 1 TO 3\n  OUTPUT \"body\"\nNEXT %s" % (c, c), Entry("INPUT " + c, []),
         'READFILE "in.txt", ' + c, 'GETRECORD "r.dat", ' + c, "CALL byref(%s)" % c, "CALL byref2(%s)" % c, "CALL byrefloop(%s)" % c if t == "INTEGER" else "CALL byrefagain(%s)" % c, "CALL byrefin(%s)" % c,
         "CALL byrefget(%s)" % c, "CALL byrefread(%s)" % c, "OUTPUT fbyref(%s)" % c, "p <- ^%s" % c, "p^ <- " + o, "p^ <- p^", "q <- p", "q^ <- " + o, "CALL byref(p^)", "CALL viapointer()",
         "INPUT p^", "pp <- ^p", "pp^ <- ^%s" % c, "pp^^ <- " + o, "rp.f <- ^%s" % c, "rp.f^ <- " + o, "ap[1] <- ^%s" % c, "ap[1]^ <- " + o, "CALL byref(rp.f^)",
         "CONSTANT %s = %s" % (c, o if t != "BOOLEAN" else "TRUE"), "DECLARE %s: %s" % (c, t), "DECLARE %s: INTEGER" % c, "DECLARE z, %s: %s" % (c, t),
         "PROCEDURE inside()\n  %s <- %s\nENDPROCEDURE" % (c, o), "CALL inside()", "PROCEDURE inside2()\n  INPUT %s\nENDPROCEDURE" % c, "CALL inside2()",
         "PROCEDURE inside3()\n  FOR %s <- 1 TO 2\n    OUTPUT \"b\"\n  NEXT %s\nENDPROCEDURE" % (c, c), "CALL inside3()",
         "FUNCTION inside4() RETURNS INTEGER\n  %s <- %s\n  RETURN 1\nENDFUNCTION" % (c, o), "OUTPUT inside4()", "PROCEDURE inside5()\n  GETRECORD \"r.dat\", %s\nENDPROCEDURE" % c, "CALL inside5()",
         "PROCEDURE inside6()\n  READFILE \"in.txt\", %s\nENDPROCEDURE" % c, "CALL inside6()", "IF TRUE THEN\n  %s <- %s\nENDIF" % (c, o), "WHILE TRUE\n  %s <- %s\nENDWHILE" % (c, o),
         "REPEAT\n  OUTPUT \"r\"\n  %s <- %s\nUNTIL TRUE" % (c, o), "CASE OF 1\n  1: %s <- %s\nENDCASE" % (c, o), "%s[1] <- %s" % (c, o), "%s.f <- %s" % (c, o), "%s^ <- %s" % (c, o),
         "PROCEDURE own(%s: %s)\n  %s <- %s\n  OUTPUT %s\nENDPROCEDURE" % (c, t, c, o, c), "CALL own(%s)" % o, "CALL own(%s)" % c,
         "PROCEDURE ownref(BYREF %s: %s)\n  %s <- %s\n  OUTPUT %s\nENDPROCEDURE" % (c, t, c, o, c), "CALL ownref(v)", "CALL ownref(%s)" % c,
         "PROCEDURE local()\n  DECLARE %s: %s\n  %s <- %s\n  OUTPUT %s\nENDPROCEDURE" % (c, t, c, o, c), "CALL local()",
         "PROCEDURE localc()\n  CONSTANT %s = %s\n  OUTPUT %s\n  %s <- %s\nENDPROCEDURE" % (c, "TRUE" if t == "BOOLEAN" else o, c, c, o), "CALL localc()", "CALL localc()"]
    return a


def setup(t, lit):
    rp = ["TYPE P = ^%s" % t, "TYPE PP = ^P", "TYPE RP\n  DECLARE f: P\nENDTYPE", "DECLARE p, q: P", "DECLARE pp: PP", "DECLARE rp: RP", "DECLARE ap: ARRAY[1:2] OF P", "DECLARE v: %s" % t,
          "v <- " + OTHER[t], "CONSTANT c = " + lit, "CONSTANT d = " + lit,
          "PROCEDURE byref(BYREF x: %s)\n  OUTPUT \"in \", x\n  x <- %s\n  OUTPUT \"written\"\nENDPROCEDURE" % (t, OTHER[t]),
          "PROCEDURE byref2(BYREF y: %s)\n  CALL byref(y)\nENDPROCEDURE" % t,
          "PROCEDURE byrefloop(BYREF x: %s)\n  FOR x <- 1 TO 2\n    OUTPUT \"b\"\n  NEXT x\nENDPROCEDURE" % t,
          "PROCEDURE byrefagain(BYREF x: %s)\n  DECLARE lp: P\n  lp <- ^x\n  OUTPUT \"lp\"\n  lp^ <- %s\nENDPROCEDURE" % (t, OTHER[t]),
          "PROCEDURE byrefin(BYREF x: %s)\n  INPUT x\nENDPROCEDURE" % t,
          "PROCEDURE byrefget(BYREF x: %s)\n  GETRECORD \"r.dat\", x\nENDPROCEDURE" % t,
          "PROCEDURE byrefread(BYREF x: %s)\n  READFILE \"in.txt\", x\nENDPROCEDURE" % t,
          "FUNCTION fbyref(BYREF x: %s) RETURNS INTEGER\n  x <- %s\n  RETURN 1\nENDFUNCTION" % (t, OTHER[t]),
          "PROCEDURE viapointer()\n  p <- ^c\n  OUTPUT p^\n  p^ <- %s\nENDPROCEDURE" % OTHER[t],
          'OPENFILE "in.txt" FOR READ', 'OPENFILE "r.dat" FOR RANDOM', 'SEEK "r.dat", 1', 'PUTRECORD "r.dat", v', 'SEEK "r.dat", 1']
    return rp


FILES = {"in.txt": b"line one\nline two\nline three\n"}


def forms(env, i):
    """REPL: one constant of every type and literal, every write form; the constant is read back after each."""
    ts = [(t, l) for t in LITS for l in LITS[t]]
    t, lit = ts[i % len(ts)]
    ents = setup(t, lit)
    reads = ["OUTPUT c", "OUTPUT c = %s, d = c" % lit]
    ents += reads
    for a in attempts(t):
        ents += [a] + reads
    ents += ["OUTPUT v, \" \", p^ & \"\"", "c", "d"]
    res = env.session(ents, dict(FILES), each=True, pure=True)
    if res and sum(e is not None for e in res[0].errors) < 30:
        env.violation("internal: only %d of the write forms are errors" % sum(e is not None for e in res[0].errors))


def infile(env, i):
    """File mode: the program stops at the write, and what was printed before it is right; INPUT has a line ready."""
    ts = [(t, l) for t in LITS for l in LITS[t]]
    t, lit = ts[i % len(ts)]
    base = [e for e in setup(t, lit)]
    at = attempts(t)
    for k, a in enumerate(at):
        text = a.text if isinstance(a, Entry) else a
        pre = []
        if text in ("p^ <- " + OTHER[t], "p^ <- p^", "CALL byref(p^)", "INPUT p^"):
            pre = ["p <- ^c"]
        elif text in ("q <- p", "q^ <- " + OTHER[t]):
            pre = ["p <- ^c", "q <- p"]
        elif text.startswith("pp"):
            pre = ["p <- ^v", "pp <- ^p", "pp^ <- ^c"]
        elif "rp.f" in text:
            pre = ["rp.f <- ^c"]
        elif "ap[1]" in text:
            pre = ["ap[1] <- ^c"]
        elif k and text.startswith(("CALL inside", "OUTPUT inside", "CALL own", "CALL local")):
            j = k
            while not (at[j].text if isinstance(at[j], Entry) else at[j]).startswith(("PROCEDURE", "FUNCTION")):
                j -= 1
            pre = [at[j].text if isinstance(at[j], Entry) else at[j]]
        src = "\n".join(base + pre + ["OUTPUT c", text, "OUTPUT \"after \", c", "OUTPUT d"]) + "\n"
        # the line is offered to INPUT, and is not consumed by anything else
        if env.differential(src, LINES[t] + "\nrest\n", dict(FILES), lines=True, key=(t, lit, text)) is None and env.viol:
            return


def locals_(env, i):
    """Constants inside procedures and functions: one per activation, unaffected by recursion; globals seen from inside."""
    r = env.rng
    ts = r.sample(list(LITS), 3)
    src = []
    for k, t in enumerate(ts):
        src += ["CONSTANT G%d = %s" % (k, r.choice(LITS[t]))]
    src += ["DECLARE n: INTEGER"]
    for k, t in enumerate(ts):
        nm = r.choice(("K", "K", "G%d" % k, "n%d" % k))
        lit = r.choice(LITS[t])
        src += ["PROCEDURE p%d(x: INTEGER%s)" % (k, r.choice(("", ", BYREF b: %s" % t)))]
        byref = "BYREF" in src[-1]
        src += ["  CONSTANT %s = %s" % (nm, lit), "  OUTPUT x, \" \", %s, \" \", G%d" % (nm, r.randrange(3))]
        if byref:
            src += ["  OUTPUT b"] + r.choice(([], ["  IF x = %d THEN" % r.randint(0, 2), "    b <- %s" % r.choice((OTHER[t], nm, "b")), "  ENDIF"]))
        arg = r.choice(("b", nm, "G%d" % k)) if byref else None
        src += ["  IF x > 0 THEN", "    CALL p%d(x - 1%s)" % (k, ", " + arg if byref else ""), "  ENDIF"]
        bad = r.random()
        if bad < 0.3:
            src += ["  IF x = %d THEN" % r.randint(0, 2), "    %s <- %s" % (r.choice((nm, "G%d" % k)), OTHER[t]), "  ENDIF"]
        src += ["  OUTPUT %s" % nm, "ENDPROCEDURE", "DECLARE v%d: %s" % (k, t)]
    import c04
    ents = c04.split("\n".join(src))
    for _ in range(6):
        k = r.randrange(3)
        t = ts[k]
        byref = any(l.startswith("PROCEDURE p%d(x: INTEGER, BYREF" % k) for l in src)
        ents += ["CALL p%d(%d%s)" % (k, r.randint(0, 3), ", " + r.choice(("v%d" % k, "G%d" % k)) if byref else ""), "OUTPUT G0, \" \", G1, \" \", G2", "OUTPUT v%d" % k]
    ents += ["K", "OUTPUT K", "G0", "G1", "G2"]
    env.session(ents, pure=True, each=True)


def program(env, i):
    r = env.rng
    g = Gen(r, size=r.randint(6, 20), routines=r.randint(1, 4), constants=r.randint(3, 6), maxdepth=2, weights={"const": 4, "for": 6, "assign": 14, "call": 8, "ptr": 5, "bad": 0.5})
    p = g.program()
    consts = [v.name for v in g.globals.values() if v.const]
    if consts:
        ls = p.rstrip("\n").split("\n")
        # a write to a constant at a random top-level point, and reads of all constants at the end
        c = r.choice(consts)
        v = g.globals[c]
        w = r.choice(["%s <- %s" % (c, c), "INPUT " + c, "FOR %s <- 1 TO 2\nNEXT %s" % (c, c), 'CONSTANT %s = 1' % c, "DECLARE %s: INTEGER" % c] + ["%s <- %s" % (c, OTHER.get(v.type, "1"))] * 3)
        at = len(ls) if r.random() < 0.6 else r.choice([k for k, l in enumerate(ls) if l.startswith("OUTPUT")] or [len(ls)])
        ls[at:at] = ["OUTPUT " + ", ".join(consts), w]
        p = "\n".join(ls + ["OUTPUT " + x for x in consts]) + "\n"
    env.differential(p, "\n".join(g.stdin + ["5", "6"]) + "\n")


CHECK = Check("C08", [
    scale.family("C08", 360, 7200),
    Family("forms", forms, 19, 38, about="every literal kind x every write form in the REPL, constant re-read after each", chunk=1),
    Family("infile", infile, 19, 38, about="every literal kind x every write form in file mode, with the traceback line", chunk=1),
    Family("locals", locals_, 500, 15000, about="constants in activations, BYREF chains"),
    Family("program", program, 2500, 80000, about="generated programs with a planted write to a constant"),
], "A case is one write attempt with the constant read before and after, distinct by (text, accepted), or a program distinct by text.",
    assumptions=["constants are defined from literals (the grammar allows nothing else)"])
