"""Programs in which a few names stand for many kinds of things at once: variables, arrays, constants, types, enum values,
fields, routines, parameters and iterators, in the global scope and in routines."""
from harness import Family

NAMES = ["a", "b", "c"]


def decl(r, n, local=False):
    m, o = r.choice(NAMES), r.choice(NAMES)
    t = r.choice(("INTEGER", "STRING", "REAL", "INTEGER", "Rec", "Col", "PI", m))
    x = r.randrange(15)
    if x < 3:
        return "DECLARE %s: %s" % (n, t)
    if x < 5:
        return "DECLARE %s: ARRAY[1:2] OF %s" % (n, t)
    if x < 6:
        return "CONSTANT %s = %s" % (n, r.choice(("1", '"k"', "2.5")))
    if x < 8:
        return "TYPE %s = (%s)" % (n, ", ".join(dict.fromkeys((m, o))))
    if x < 9:
        return "TYPE E%d = (%s)" % (r.randrange(3), ", ".join(r.sample(NAMES, r.randint(1, 3))))
    if x < 10:
        return "TYPE %s = ^%s" % (n, t)
    if x < 12:
        return "TYPE %s\nDECLARE %s: %s\nDECLARE %s: ARRAY[1:2] OF INTEGER\nENDTYPE" % (n, m, r.choice(("INTEGER", "STRING", t)), r.choice(NAMES))
    if x < 13 and not local:
        return "PROCEDURE %s(%s: INTEGER, BYREF %s: INTEGER)\n%s\nENDPROCEDURE" % (n, m, r.choice([y for y in NAMES if y != m]), "\n".join(use(r) for _ in range(2)))
    if x < 14 and not local:
        return "FUNCTION %s(%s: INTEGER) RETURNS %s\n%s\nRETURN %s\nENDFUNCTION" % (n, m, r.choice(("INTEGER", t)), "\n".join(use(r) for _ in range(2)), expr(r, 1))
    return "%s <- %s" % (n, expr(r, 1))


def place(r):
    n, m = r.choice(NAMES), r.choice(NAMES)
    return r.choice((n, n, "%s[1]" % n, "%s[%s]" % (n, m), "%s.%s" % (n, m), "%s.%s[1]" % (n, m), "%s[1].%s" % (n, m), "%s^" % n, "%s[2]^" % n, "rec.n", "rec.a", "rec.b[1]", "p^", "col", "rec", "%s[%s.n]" % (n, m), "%s^.%s" % (n, m)))


def expr(r, d=0):
    x = r.random()
    if x < 0.55 or d > 1:
        return place(r)
    if x < 0.65:
        return r.choice(("1", '"s"', "2", "red"))
    if x < 0.8:
        return "%s(%s)" % (r.choice(NAMES + ["f"]), expr(r, d + 1))
    if x < 0.9:
        return "%s + %s" % (expr(r, d + 1), r.choice(("1", expr(r, d + 1))))
    return "%s = %s" % (expr(r, d + 1), expr(r, d + 1))


def use(r):
    n, m = r.choice(NAMES), r.choice(NAMES)
    x = r.randrange(16)
    if x < 4:
        return "OUTPUT " + ", ".join(expr(r) for _ in range(r.choice((1, 1, 2))))
    if x < 9:
        return "%s <- %s" % (place(r), expr(r))
    if x < 10:
        return "%s <- ^%s" % (r.choice(("p", n)), place(r))
    if x < 11:
        return "CALL %s(%s, %s)" % (n, expr(r), place(r))
    if x < 12:
        return "FOR %s <- 1 TO 2\nOUTPUT %s\nNEXT %s" % (n, expr(r), n)
    if x < 13:
        return "CASE OF %s\n1: OUTPUT 1\n%s: OUTPUT 2\nOTHERWISE: OUTPUT 3\nENDCASE" % (n, expr(r, 1))
    if x < 14:
        return r.choice(("CALL main(%s, %s)", "CALL second(%s, %s)")) % (expr(r), place(r))
    if x < 15:
        return "GETRECORD \"r\", %s" % n if r.random() < 0.5 else "PUTRECORD \"r\", %s" % n
    return decl(r, n, True)


def entries(r):
    ents = ["TYPE Rec\nDECLARE n: INTEGER\nDECLARE a: STRING\nDECLARE b: ARRAY[1:2] OF INTEGER\nENDTYPE", "TYPE Col = (red, green)", "TYPE PI = ^INTEGER", "DECLARE rec: Rec", "DECLARE col: Col", "DECLARE p: PI", "DECLARE int: INTEGER", "p <- ^int",
            "FUNCTION f(x: INTEGER) RETURNS INTEGER\nOUTPUT %s\nRETURN x\nENDFUNCTION" % expr(r, 1)]
    for nm, ps in (("main", "%s: INTEGER, BYREF %s: INTEGER"), ("second", "BYREF %s: INTEGER, %s: Rec")):
        k = r.sample(NAMES, 2)
        ents.append("PROCEDURE %s(%s)\n%s\nENDPROCEDURE" % (nm, ps % tuple(k), "\n".join([decl(r, r.choice(NAMES), True) for _ in range(r.choice((1, 2, 3)))] + [use(r).replace("CALL second", "CALL nested" if nm == "second" else "CALL second").replace("CALL main", "OUTPUT") for _ in range(r.choice((2, 4, 6)))])))
    ents.append('OPENFILE "r" FOR RANDOM')
    for _ in range(r.choice((2, 3, 4))):
        ents.append(decl(r, r.choice(NAMES)))
    for _ in range(r.choice((10, 25))):
        ents.append(decl(r, r.choice(NAMES)) if r.random() < 0.1 else use(r))
    return ents


def case(env, i):
    """A session (most entries fail: the state afterwards shows that they changed nothing) or a program."""
    r = env.rng
    ents = entries(r)
    if i % 4 == 3:
        env.differential("\n".join(ents) + "\n", max_steps=6000)
    else:
        env.session(ents, pure=True, check_files=True, max_steps=20000)


def family(quick, thorough):
    return Family("collide", case, quick, thorough, about="three names stand for variables, arrays, constants, types, enum values, fields, routines, parameters at once")
