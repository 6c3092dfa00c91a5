"""C09: pointers alias exactly their live target; dead or unset pointers are diagnosed. Every session runs in both builds."""
import c04
from gen import Gen
import reentrant
import repl
import places
import scale
from harness import Check, Family

TYPES = {"INTEGER": lambda k: str(k), "REAL": lambda k: "%d.5" % k, "STRING": lambda k: '"s%d"' % k, "CHAR": lambda k: "CHR(%d)" % (65 + k % 26), "BOOLEAN": lambda k: "TRUE" if k % 2 else "FALSE",
         "DATE": lambda k: "SETDATE(%d, %d, 2001)" % (1 + k % 28, 1 + k % 12), "Col": lambda k: ("red", "green", "blue")[k % 3]}


def both(env, ents, key=None, files=None, each=True):
    """The session must go as predicted in the sanitizer build and in the plain build."""
    for v in ("asan", "plain"):
        if env.session(ents, files, pure=True, variant=v, each=each and v == "plain", key=(key, v)) is None:
            return None
    return True


def common(t, val):
    """Declarations shared by the sessions for target type t."""
    return ["TYPE Col = (red, green, blue)", "TYPE P = ^%s" % t, "TYPE PP = ^P", "TYPE Rec\n  DECLARE f: %s\n  DECLARE g: ARRAY[1:2] OF %s\n  DECLARE lp: P\nENDTYPE" % (t, t), "TYPE PR = ^Rec",
            "DECLARE v, w: %s" % t, "DECLARE a: ARRAY[1:3] OF %s" % t, "DECLARE r, r2: Rec", "DECLARE rs: ARRAY[0:1] OF Rec", "DECLARE p, q: P", "DECLARE pp: PP", "DECLARE ps: ARRAY[1:2] OF P", "DECLARE pr: PR",
            "v <- " + val(1), "w <- " + val(2), "a[1] <- " + val(3), "a[2] <- " + val(4), "a[3] <- " + val(5), "r.f <- " + val(6), "r.g[2] <- " + val(7), "rs[1].f <- " + val(8), "rs[1].g[1] <- " + val(9)]


LV = ["v", "w", "a[1]", "a[3]", "r.f", "r.g[2]", "rs[1].f", "rs[1].g[1]", "rs[0].g[2]"]


def aliasing(env, i):
    """Every kind of target and pointer holder: reads see the current value, writes reach exactly the target; copies alias too."""
    t = list(TYPES)[i % len(TYPES)]
    val = TYPES[t]
    r = env.rng
    tg = LV[i // len(TYPES) % len(LV)]
    ents = common(t, val)
    show = ["OUTPUT v, \" \", w, \" \", a[1], a[2], a[3], \" \", r.f, r.g[1], r.g[2], \" \", rs[0].f, rs[0].g[2], rs[1].f, rs[1].g[1]"]
    ents += show
    ents += ["PROCEDURE set(x: P)\n  x^ <- %s\nENDPROCEDURE" % val(20), "PROCEDURE point(BYREF x: P, BYREF y: %s)\n  x <- ^y\n  x^ <- %s\nENDPROCEDURE" % (t, val(21)),
             "FUNCTION same(x: P) RETURNS P\n  RETURN x\nENDFUNCTION", "FUNCTION get(x: P) RETURNS %s\n  RETURN x^\nENDFUNCTION" % t, "PROCEDURE ref(BYREF x: %s)\n  x <- %s\n  OUTPUT p^\nENDPROCEDURE" % (t, val(22)),
             "PROCEDURE setr(x: Rec)\n  x.lp^ <- %s\n  x.f <- %s\nENDPROCEDURE" % (val(23), val(24))]
    k = 30
    for h in ("p", "ps[2]", "r.lp", "rs[0].lp"):
        ents += ["%s <- ^%s" % (h, tg), "OUTPUT %s^" % h, "%s^ <- %s" % (h, val(k))] + show + ["%s <- %s" % (tg, val(k + 1)), "OUTPUT %s^" % h]
        ents += ["q <- " + h, "OUTPUT q^", "q^ <- " + val(k + 2), "OUTPUT %s^, %s" % (h, tg)] + show
        ents += ["CALL set(%s)" % h] + show + ["q <- same(%s)" % h, "q^ <- " + val(k + 3), "OUTPUT get(%s), get(q)" % h] + show
        ents += ["CALL ref(%s^)" % h, "CALL ref(%s)" % tg] + show
        # the other holder points elsewhere: both stay apart
        other = LV[(LV.index(tg) + 1 + k) % len(LV)]
        ents += ["q <- ^%s" % other, "q^ <- " + val(k + 4), "OUTPUT %s^, q^" % h] + show + ["%s^ <- q^" % h, "OUTPUT %s^, q^" % h, "q^ <- " + val(k + 5), "OUTPUT %s^, q^" % h] + show
        ents += ["CALL point(%s, %s)" % (h, other), "OUTPUT %s^" % h] + show + ["pp <- ^%s" % h, "OUTPUT pp^^", "pp^^ <- " + val(k + 6), "OUTPUT %s^" % h] + show
        ents += ["pp^ <- ^%s" % tg, "OUTPUT %s^" % h, "%s^ <- %s" % (h, val(k + 7)), "OUTPUT pp^^"] + show
        k += 9
    ents += ["r.lp <- ^%s" % tg, "r2 <- r", "r2.lp^ <- " + val(70)] + show + ["r2.f <- " + val(71), "OUTPUT r.f, r2.f", "r.lp <- ^w", "OUTPUT r2.lp^, r.lp^", "CALL setr(r2)", "OUTPUT r2.f"] + show
    ents += ["pr <- ^r", "OUTPUT pr^.f", "pr^.f <- " + val(72), "pr^.g[1] <- " + val(73), "q <- ^pr^.f", "q^ <- " + val(74), "pr^.lp <- ^v", "pr^.lp^ <- " + val(75), "OUTPUT r.lp^"] + show
    ents += ["pr <- ^rs[1]", "OUTPUT pr^.f", "pr^.f <- " + val(76), "rs[0] <- pr^", "rs[0].f <- " + val(77)] + show + ["pr^ <- r", "OUTPUT rs[1].f"] + show
    both(env, ents)


def unset(env, i):
    """Pointers that were never set, in every holder and every use; then set and used."""
    t = list(TYPES)[i % len(TYPES)]
    val = TYPES[t]
    ents = common(t, val)
    ents += ["PROCEDURE set(x: P)\n  OUTPUT \"in\"\n  x^ <- %s\nENDPROCEDURE" % val(20), "PROCEDURE ref(BYREF x: %s)\n  OUTPUT x\nENDPROCEDURE" % t, "PROCEDURE local()\n  DECLARE lp: P\n  DECLARE lr: Rec\n  OUTPUT \"l\"\n  %s\nENDPROCEDURE" % (
        ("OUTPUT lp^", "lp^ <- v", "OUTPUT lr.lp^", "lp <- p", "lr.lp^ <- v", "OUTPUT lr.lp^")[i // len(TYPES) % 6]), "CALL local()", "FUNCTION none() RETURNS P\n  DECLARE lp: P\n  RETURN lp\nENDFUNCTION"]
    for h in ("p", "q", "ps[1]", "ps[2]", "r.lp", "rs[1].lp", "none()"):
        ents += ["OUTPUT %s^" % h, "%s^ <- %s" % (h, val(3)), "v <- %s^" % h, "OUTPUT v", "CALL set(%s)" % h, "CALL ref(%s^)" % h, "INPUT %s^" % h, "OUTPUT %s^ = v" % h, "q <- " + h, "OUTPUT q^", "IF %s^ = %s^ THEN\n  OUTPUT 1\nENDIF" % (h, h), "q <- ^%s^" % h, "OUTPUT %s^.f" % h]
    ents = [e for e in ents if "none()^" not in e]
    ents += ["OUTPUT pr^.f", "pr^.f <- v", "OUTPUT pp^^", "pp <- ^p", "OUTPUT pp^^", "pp^^ <- v", "pp^ <- ^v", "OUTPUT pp^^", "OUTPUT p^", "r2 <- r", "OUTPUT r2.lp^", "OUTPUT v, w, a[1], r.f"]
    both(env, ents)


def wrapped(env, i):
    """A target long dead: exactly as many activations later as would make a narrow activation counter repeat itself."""
    r = env.rng
    kind = i % 6
    e = 3 + i // 6 % 12
    ents = ["TYPE P = ^INTEGER", "TYPE Q = ^STRING", "TYPE R\n  DECLARE n: INTEGER\n  DECLARE a: ARRAY[1:2] OF INTEGER\nENDTYPE", "DECLARE p, q: P", "DECLARE g, n: INTEGER", "g <- 5"]
    tgt = ("l", "x", "a[2]", "rec.n", "rec.a[1]", "l")[kind]
    ents += ["PROCEDURE set(x: INTEGER)\n  DECLARE l: INTEGER\n  DECLARE a: ARRAY[1:3] OF INTEGER\n  DECLARE rec: R\n  %s <- 77\n  p <- ^%s\n  OUTPUT p^\nENDPROCEDURE" % (tgt, tgt),
             "PROCEDURE nop(k: INTEGER)\n  n <- n + k\nENDPROCEDURE", "FUNCTION one() RETURNS INTEGER\n  RETURN 1\nENDFUNCTION",
             "PROCEDURE use(v: INTEGER)\n  DECLARE l: INTEGER\n  l <- v\n  OUTPUT \"in\"\n  %s\n  OUTPUT \"out\"\nENDPROCEDURE" % ("OUTPUT p^" if kind < 4 else "p^ <- 9"),
             "PROCEDURE deep(v: INTEGER)\n  IF v > 0 THEN\n    CALL deep(v - 1)\n  ELSE\n    CALL use(v)\n  ENDIF\nENDPROCEDURE"]
    for rep in range(2):
        d = (1 << e) + r.choice((-9, -6, -3, -3, -3, -3))
        ents += ["CALL set(%d)" % rep]
        if d > 0:
            ents.append("FOR j <- 1 TO %d\n  %s\nNEXT j" % (d, ("CALL nop(j)", "n <- n + one()")[r.randrange(2)]))
        ents += ["CALL use(%d)" % j for j in range(r.choice((4, 8)))]
        ents += ["CALL deep(3)", "OUTPUT g, n", "p <- ^g", "CALL deep(2)", "OUTPUT g"]
    env.session(ents, pure=True, max_steps=200000, steps=1000000)


def dead(env, i):
    """A target whose activation has returned: every use is an error and touches nothing else, also after new activations have reused
    the storage; a target in an activation that is still running stays usable."""
    r = env.rng
    t = r.choice(list(TYPES))
    val = TYPES[t]
    ents = common(t, val)
    depth = r.randint(0, 3)
    # make(d): sets the global pointer to something of its own, optionally deeper in the call tree
    decl = ["  DECLARE l, m: %s" % t, "  DECLARE la: ARRAY[1:2] OF %s" % t, "  DECLARE lr: Rec", "  DECLARE lp: P", "  l <- " + val(r.randint(0, 9)), "  la[2] <- " + val(r.randint(0, 9)), "  lr.f <- " + val(5), "  lr.g[1] <- " + val(6)]
    tgs = r.sample(["l", "la[2]", "lr.f", "lr.g[1]", "x", "m", "b"], 3)
    holders = r.sample(["p", "q", "ps[1]", "ps[2]", "r.lp", "rs[1].lp"], 3)
    body = decl + ["  %s <- ^%s" % (h, x) for h, x in zip(holders, tgs)] + ["  OUTPUT %s^" % h for h in holders] + ["  %s^ <- %s" % (holders[0], val(11)), "  OUTPUT %s" % tgs[0]]
    if r.random() < 0.5:
        body += ["  lp <- ^l", "  lr.lp <- lp", "  r <- lr"]
    if r.random() < 0.6:
        body += ["  IF d > 0 THEN", "    CALL make(d - 1, %s, l)" % r.choice(("l", "x", "v")), "  ENDIF", "  OUTPUT l, \" \", la[2], \" \", x"]
        if r.random() < 0.5:
            body += ["  OUTPUT %s^" % r.choice(holders)]
    if r.random() < 0.3:
        body += ["  IF d = %d THEN" % r.randint(0, 2), "    l <- 1 / 0", "  ENDIF"]
    proc = ["PROCEDURE make(d: INTEGER, x: %s, BYREF b: %s)" % (t, t)] + body + ["ENDPROCEDURE"]
    ents.append("\n".join(proc))
    ents += ["PROCEDURE reuse(n: INTEGER, s: %s)\n  DECLARE l, m: %s\n  DECLARE la: ARRAY[1:2] OF %s\n  DECLARE lr: Rec\n  l <- %s\n  m <- %s\n  la[1] <- l\n  la[2] <- m\n  lr.f <- l\n  lr.g[1] <- m\n  IF n > 0 THEN\n    CALL reuse(n - 1, l)\n  ENDIF\n  OUTPUT l, m, la[1], la[2], lr.f, lr.g[1], s\nENDPROCEDURE" % (
        t, t, t, val(12), val(13)),
             "FUNCTION give(x: %s) RETURNS P\n  DECLARE l: %s\n  DECLARE lp: P\n  l <- x\n  lp <- ^%s\n  OUTPUT lp^\n  RETURN lp\nENDFUNCTION" % (t, t, r.choice(("l", "x", "v", "a[2]"))),
             "FUNCTION look(x: P) RETURNS BOOLEAN\n  DECLARE y: %s\n  y <- x^\n  OUTPUT y\n  RETURN TRUE\nENDFUNCTION" % t]
    show = ["OUTPUT v, \" \", w, \" \", a[1], a[2], a[3], \" \", r.f, r.g[1], r.g[2], \" \", rs[1].f"]
    for _ in range(r.randint(1, 4)):
        ents.append("CALL make(%d, %s, %s)" % (r.randint(0, depth), r.choice(("v", val(4))), r.choice(("v", "w", "a[1]", "r.f"))))
        for _ in range(r.randint(2, 9)):
            h = r.choice(holders + ["p", "r.lp"])
            k = r.randrange(12)
            ents += [["OUTPUT %s^" % h], ["%s^ <- %s" % (h, val(14))], ["CALL reuse(%d, v)" % r.randint(0, 2), "OUTPUT %s^" % h], ["q <- %s" % h, "OUTPUT q^"], ["OUTPUT look(%s)" % h], ["v <- %s^" % h],
                     ["%s <- ^%s" % (h, r.choice(LV)), "OUTPUT %s^" % h, "%s^ <- %s" % (h, val(15))], ["p <- give(%s)" % val(16), "OUTPUT p^", "p^ <- " + val(17)], ["q <- ^%s^" % h, "OUTPUT q^"], ["CALL make(0, %s^, v)" % h],
                     ["CALL make(0, v, %s^)" % h], ["pp <- ^%s" % h, "OUTPUT pp^^", "pp^^ <- v"]][k]
        ents += show
    both(env, ents)


def implicit(env, i):
    """A local variable that nothing declares (an assignment, INPUT, READFILE or FOR brings it into being) dies with its activation too."""
    r = env.rng
    how = ("assign", "input", "readfile", "for", "parameter", "copy")[i % 6]
    t = {"input": "STRING", "readfile": "STRING", "for": "INTEGER"}.get(how) or list(TYPES)[i // 6 % len(TYPES)]
    val = TYPES[t]
    ents = ["TYPE Col = (red, green, blue)", "TYPE P = ^%s" % t, "TYPE R\n  DECLARE lp: P\nENDTYPE", "DECLARE p, q: P", "DECLARE ps: ARRAY[1:2] OF P", "DECLARE r: R", "DECLARE v: %s" % t, "v <- " + val(1)]
    if i % 2 and how in ("assign", "for", "copy"):
        ents += ["t <- " + val(2)]                       # ... in the one session with a global variable that came about alike
    h = ("p", "q", "ps[2]", "r.lp")[i // 2 % 4]
    make = {"assign": ["  x <- " + val(7)], "input": ["  INPUT x"], "readfile": ['  OPENFILE "in.txt" FOR READ', '  READFILE "in.txt", x', '  CLOSEFILE "in.txt"'], "for": ["  FOR x <- 1 TO %d" % r.randint(1, 3), "    y <- x", "  NEXT x"],
            "parameter": ["  y <- x"], "copy": ["  y <- v", "  x <- y"]}[how]
    use = ["  %s <- ^x" % h, "  OUTPUT %s^" % h, "  %s^ <- %s" % (h, val(8)), "  OUTPUT x"]
    late = r.choice((0, 1, 2))
    if late == 1:                                        # inside a branch or a loop
        make = ["  IF d >= 0 THEN"] + ["  " + m for m in make] + ["  ENDIF"]
    elif late == 2 and how != "for":
        make = ["  REPEAT"] + ["  " + m for m in make] + ["  UNTIL TRUE"]
    rec = ["  IF d > 0 THEN", "    %s(d - 1%s)", "    OUTPUT x", "    OUTPUT %s^" % h, "  ENDIF"] if r.random() < 0.5 else []
    extra = ", v" if how == "parameter" else ""
    par = "d: INTEGER" + (", x: %s" % t if how == "parameter" else "")
    if i // 6 % 3 == 0:
        body = ["FUNCTION make(%s) RETURNS INTEGER" % par] + make + use + [m % ("z <- make", extra) if "%s" in m else m for m in rec] + ["  RETURN d", "ENDFUNCTION"]
        call = "OUTPUT make(%%d%s)" % extra
    else:
        body = ["PROCEDURE make(%s)" % par] + make + use + [m % ("CALL make", extra) if "%s" in m else m for m in rec] + ["ENDPROCEDURE"]
        call = "CALL make(%%d%s)" % extra
    ents += ["\n".join(body), "PROCEDURE other(x: %s)\n  y <- x\n  z <- y\n  OUTPUT y\n  %s\nENDPROCEDURE" % (t, r.choice(("OUTPUT z", "OUTPUT %s^" % h, "%s^ <- z" % h, "w <- z\n  OUTPUT %s^" % h)))]
    for _ in range(3):
        d = r.randint(0, 2)
        lines = ["typed %d" % k for k in range(d + 1 if rec else 1)] if how == "input" else []
        ents.append(repl.Entry(call % d, lines))
        for k in r.sample(range(6), r.randint(2, 5)):
            ents += [["OUTPUT %s^" % h], ["%s^ <- %s" % (h, val(9))], ["q <- %s" % h, "OUTPUT q^"], ["CALL other(v)"], ["v <- %s^" % h, "OUTPUT v"], ["q <- ^%s^" % h]][k]
    ents += ["OUTPUT v", "%s <- ^v" % h, "OUTPUT %s^" % h]
    both(env, ents, files={"in.txt": b"one\ntwo\n"})


def active(env, i):
    """Recursion: pointers into the activations below the running one are live, those into returned ones are not."""
    r = env.rng
    t = r.choice(list(TYPES))
    val = TYPES[t]
    n = r.randint(1, 5)
    ents = common(t, val)
    ents += ["DECLARE at: ARRAY[0:9] OF P"]
    use = ["    OUTPUT at[n + %d]^" % r.randint(0, 2), "    at[n + %d]^ <- %s" % (r.randint(0, 2), val(r.randint(0, 50)))]
    after = r.choice((["  OUTPUT at[n]^, l"], ["  OUTPUT at[n - 1]^"], ["  IF n = %d THEN" % r.randint(0, n), "    OUTPUT at[n - 1]^", "  ENDIF"], ["  at[n] <- ^%s" % r.choice(LV), "  OUTPUT at[n]^"]))
    ents.append("\n".join(["PROCEDURE rec(n: INTEGER, BYREF up: %s)" % t, "  DECLARE l: %s" % t, "  l <- %s" % val(r.randint(0, 9)), "  at[n] <- ^%s" % r.choice(("l", "l", "up")), "  OUTPUT at[n]^", "  IF n < %d THEN" % n] + (use if r.random() < 0.6 else use[:1])[:0] +
                          ["    up <- %s" % val(r.randint(0, 9)) if r.random() < 0.5 else "    OUTPUT up", "  ENDIF", "  IF n > 0 THEN", "    CALL rec(n - 1, %s)" % r.choice(("l", "up", "at[n]^"))] + use + ["  ENDIF"] + after + ["ENDPROCEDURE"]))
    for start in range(0, n + 1):
        ents += ["CALL rec(%d, %s)" % (start, r.choice(LV))]
        ents += ["OUTPUT at[%d]^" % r.randint(0, n), "at[%d]^ <- %s" % (r.randint(0, n), val(3)), "OUTPUT v, \" \", w, \" \", a[1], a[2], a[3], \" \", r.f, r.g[1], r.g[2]"]
    both(env, ents)


def typecheck(env, i):
    """^v is accepted exactly for a target of the declared type, whatever the holder."""
    ts = list(TYPES) + ["Rec", "Rec2", "PI", "PS", "E2"]
    a = ts[i % len(ts)]
    ents = c04.split("TYPE Col = (red, green, blue)\nTYPE E2 = (x, y, z)\nTYPE PI = ^INTEGER\nTYPE PS = ^STRING\nTYPE Rec\n  DECLARE n: INTEGER\nENDTYPE\nTYPE Rec2\n  DECLARE n: INTEGER\nENDTYPE")
    for t in ts:
        ents += ["TYPE To%s = ^%s" % (t, t), "TYPE Also%s = ^%s" % (t, t), "DECLARE v%s: %s" % (t, t), "DECLARE a%s: ARRAY[1:2] OF %s" % (t, t), "TYPE H%s\n  DECLARE f: %s\n  DECLARE p: To%s\nENDTYPE" % (t, t, t), "DECLARE h%s: H%s" % (t, t), "DECLARE p%s: To%s" % (t, t), "DECLARE q%s: Also%s" % (t, t),
                 "PROCEDURE s%s(x: To%s)\n  OUTPUT \"ok\"\nENDPROCEDURE" % (t, t), "FUNCTION f%s() RETURNS To%s\n  RETURN p%s\nENDFUNCTION" % (t, t, t)]
        if t in TYPES:
            ents += ["v%s <- %s" % (t, TYPES[t](3)), "a%s[1] <- %s" % (t, TYPES[t](4)), "h%s.f <- %s" % (t, TYPES[t](5))]
    for t in ts:
        for hold in ("p" + a, "h%s.p" % a):
            for tg in ("v%s", "a%s[1]", "a%s[2]", "h%s.f", "a%s", "a%s[3]", "nosuch%s", "5", "red"):
                tg = tg % t if "%s" in tg else tg
                ents.append("%s <- ^%s" % (hold, tg))
            ents.append("%s <- p%s" % (hold, t))
        ents += ["p%s <- ^v%s" % (a, t), "p%s <- q%s" % (a, t), "q%s <- p%s" % (a, t), "p%s <- f%s()" % (a, t), "CALL s%s(p%s)" % (a, t), "CALL s%s(q%s)" % (a, t), "v%s <- ^v%s" % (t, a), "a%s[1] <- ^v%s" % (t, a), "v%s <- p%s" % (t, a), "p%s <- v%s" % (a, t), "p%s <- %s" % (a, TYPES[t](1) if t in TYPES else "v" + t)]
        if t in TYPES and a in TYPES:
            ents += ["p%s <- ^v%s" % (a, a), "p%s^ <- v%s" % (a, t), "OUTPUT p%s^, v%s" % (a, a)]
    ents += ["OUTPUT v%s" % t for t in TYPES]
    both(env, ents)


def errors(env, i):
    """Activations that end through a runtime error (REPL): their locals are dead afterwards; later activations reuse the storage."""
    r = env.rng
    t = r.choice(list(TYPES))
    val = TYPES[t]
    ents = common(t, val)
    ents += ["PROCEDURE boom(n: INTEGER)\n  DECLARE l: %s\n  DECLARE la: ARRAY[1:4] OF %s\n  l <- %s\n  %s\n  OUTPUT p^\n  IF n > 0 THEN\n    CALL boom(n - 1)\n  ENDIF\n  OUTPUT 1 DIV 0\nENDPROCEDURE" % (t, t, val(3), r.choice(("p <- ^l", "p <- ^la[2]", "p <- ^l\n  ps[1] <- p"))),
             "FUNCTION fboom() RETURNS INTEGER\n  DECLARE l: %s\n  l <- %s\n  q <- ^l\n  OUTPUT q^\n  CALL boom(1)\n  RETURN 1\nENDFUNCTION" % (t, val(4)),
             "PROCEDURE fill(n: INTEGER)\n  DECLARE l1, l2, l3: %s\n  DECLARE la: ARRAY[1:4] OF %s\n  l1 <- %s\n  l2 <- %s\n  la[2] <- l1\n  IF n > 0 THEN\n    CALL fill(n - 1)\n  ENDIF\n  OUTPUT l1, l2, l3, la[2]\nENDPROCEDURE" % (t, t, val(7), val(8))]
    for _ in range(r.randint(2, 6)):
        ents += [r.choice(("CALL boom(0)", "CALL boom(2)", "OUTPUT fboom()", "v <- fboom()"))]
        for _ in range(r.randint(1, 5)):
            h = r.choice(("p", "q", "ps[1]"))
            ents += r.choice((["OUTPUT %s^" % h], ["%s^ <- %s" % (h, val(9))], ["CALL fill(%d)" % r.randint(0, 2), "OUTPUT %s^" % h], ["q <- %s" % h, "OUTPUT q^"], ["%s <- ^v" % h, "%s^ <- %s" % (h, val(10))]))
        ents += ["OUTPUT v, w, a[1], a[2], r.f"]
    both(env, ents)


def filemode(env, i):
    """Generated programs with many pointers; both builds."""
    r = env.rng
    g = Gen(r, size=r.randint(8, 20), routines=r.randint(1, 4), pointers=r.randint(2, 4), maxdepth=2, weights={"ptr": 14, "deref": 12, "call": 9, "bad": 0.5, "localdecl": 4})
    p = g.program()
    st = "\n".join(g.stdin) + "\n"
    for v in ("asan", "plain"):
        if env.differential(p, st, variant=v, lines=True) is None:
            return


CHECK = Check("C09", [
    places.family("pointer", 300, 10000),
    scale.family("C09", 600, 12000),
    reentrant.family(400, 10000),
    Family("aliasing", aliasing, len(TYPES) * len(LV), about="target type x target kind, every holder and copy channel", chunk=1),
    Family("unset", unset, 6 * len(TYPES), about="never-set pointers in every holder and use"),
    Family("dead", dead, 700, 30000, about="targets in returned activations, storage reused, mixed with live targets"),
    Family("wrapped", wrapped, 72, 72 * 20, about="a dead target 2^3 to 2^14 activations ago, looked at from the activations that follow"),
    Family("implicit", implicit, 336, 8000, about="targets that an assignment, INPUT, READFILE or FOR brought into being as local variables"),
    Family("active", active, 500, 20000, about="recursion: live and dead frames side by side"),
    Family("typecheck", typecheck, len(TYPES) + 5, about="every pointer type against every target type", chunk=1),
    Family("errors", errors, 300, 10000, about="activations ended by runtime errors"),
    Family("program", filemode, 1200, 40000, about="generated pointer-heavy programs with traceback lines"),
], "A case is one REPL entry (a pointer set, a dereference, or the state after it) judged in both builds, or a program distinct by text.",
    assumptions=["a freed frame that is still readable is only visible through its printed value or the sanitizer; both builds must agree with the model"])
