"""Every way to write x every kind of place x every type: after each write all places are printed, so that a write to
the wrong place, to one more place, or to a copy is seen."""
from harness import Family

TYPES = ["INTEGER", "REAL", "STRING", "CHAR", "BOOLEAN", "DATE", "Col", "In"]
COLS = ["red", "green", "blue", "black", "white"]


def lit(t, n):
    return {"INTEGER": lambda: str(n), "REAL": lambda: "%d.5" % n, "STRING": lambda: '"s%d"' % n, "CHAR": lambda: "'%s'" % chr(65 + n % 26 + 32 * (n // 26 % 2)), "BOOLEAN": lambda: "TRUE" if n % 2 else "FALSE",
            "DATE": lambda: "%d/%d/%d" % (n % 28 + 1, n % 12 + 1, 2000 + n % 60), "Col": lambda: COLS[n % 5], "In": lambda: "in%d" % (n % 3)}[t]()


HEAD = """TYPE Col = (red, green, blue, black, white)
TYPE In
  DECLARE h: STRING
  DECLARE w: ARRAY[1:2] OF INTEGER
ENDTYPE
TYPE PT = ^@T
TYPE PPT = ^PT
TYPE I2
  DECLARE n: INTEGER
  DECLARE h: @T
ENDTYPE
TYPE R1
  DECLARE n: INTEGER
  DECLARE f: @T
  DECLARE g: ARRAY[1:2] OF @T
  DECLARE i: I2
ENDTYPE
TYPE PR = ^R1
TYPE R2
  DECLARE p: PT
  DECLARE q: PR
ENDTYPE"""
VARS = ["x, y, v: @T", "a, a2: ARRAY[1:2] OF @T", "m: ARRAY[0:1, 2:3] OF @T", "r, rb: R1", "rs: ARRAY[1:2] OF R1", "p, p2: PT", "pp: PPT", "pr: PR", "ps: ARRAY[1:2] OF PT", "rp: R2", "rps: ARRAY[1:2] OF R2"]
R1 = [".f", ".g[1]", ".g[2]", ".i.h"]
CELLS = ["x", "y", "a[1]", "a[2]", "a2[1]", "a2[2]", "m[0, 2]", "m[0, 3]", "m[1, 2]", "m[1, 3]"] + [b + c for b in ("r", "rb", "rs[1]", "rs[2]") for c in R1]
POINTED = ["p^", "p2^", "pp^^", "ps[1]^", "ps[2]^", "rp.p^", "rps[1].p^", "rps[2].p^"] + [b + c for b in ("pr^", "rp.q^", "rps[1].q^", "rps[2].q^") for c in (".f", ".g[2]")]

FORMS = {
    "plain": ["x", "y"],
    "array": ["a[@]", "m[@0, @2]", "a2[@]", "a[@]", "m[@0, @2]"],
    "record": ["r.f", "r.g[@]", "r.i.h", "rs[@].f", "rs[@].g[@]", "rs[@].i.h", "rb.f"],
    "pointer": ["p^", "pp^^", "pr^.f", "pr^.g[@]", "pr^.i.h", "ps[@]^", "rp.p^", "rp.q^.f", "rp.q^.g[@]", "rps[@].p^", "rps[@].q^.i.h"],
    "param": ["z", "zr.f", "zr.g[@]", "zr.i.h", "u", "ur.f", "ur.g[@]", "ur.i.h", "za"],
}
WHOLE = [("a", "a2"), ("a2", "a"), ("r", "rb"), ("rb", "rs[@]"), ("rs[@]", "r"), ("rs[@]", "rs[@]"), ("r.g", "a2"), ("a", "rs[@].g"), ("rs[@].i", "r.i"), ("pr^", "rb"), ("r", "pr^"), ("rp.q^", "rs[@]"), ("rs[@].g", "pr^.g"), ("r.i", "pr^.i"), ("a", "fa(1)"), ("r", "fr(@)"), ("rs[@]", "fr(@)"), ("rs[fi(2)]", "fr(1)")]
ROUTINES = """FUNCTION fi(n: INTEGER) RETURNS INTEGER
  OUTPUT "fi", n
  RETURN n
ENDFUNCTION
FUNCTION ft(BYVAL n: @T) RETURNS @T
  RETURN n
ENDFUNCTION
FUNCTION fr(n: INTEGER) RETURNS R1
  RETURN rs[n]
ENDFUNCTION
PROCEDURE setit(BYREF t: @T, n: @T)
  OUTPUT "set"
  t <- n
ENDPROCEDURE
FUNCTION fset(BYREF t: @T, n: @T) RETURNS INTEGER
  t <- n
  RETURN 1
ENDFUNCTION
PROCEDURE setr(BYREF t: R1, n: @T)
  t.f <- n
  t.g[2] <- n
  t.i.h <- n
ENDPROCEDURE
PROCEDURE wasted(t: R1, s: @T, n: @T)
  t.f <- n
  t.g[1] <- n
  t.i.h <- n
  s <- n
ENDPROCEDURE
PROCEDURE deep(BYREF t: @T, n: @T)
  CALL setit(t, n)
ENDPROCEDURE"""


class Places:
    def __init__(self, r, focus):
        self.r, self.focus, self.n = r, focus, 40
        self.t = r.choice(TYPES[:7] if focus == "typed" else TYPES)

    def fill(self, s):
        r = self.r
        while "@" in s:
            k = s.index("@")
            c = s[k + 1:k + 2]
            if c == "T":
                s = s[:k] + self.t + s[k + 2:]
                continue
            base, w = (0, 1) if c == "0" else (2, 1) if c == "2" else (1, 0)
            v = base + r.randrange(2)
            x = r.random()
            o = str(v) if x < 0.4 else "k" if x < 0.5 else "fi(%d)" % v if x < 0.75 else "%d - %d" % (v + 3, 3) if x < 0.93 else "fi(%d) + fi(0)" % v if x < 0.97 else str(v + 7)
            s = s[:k] + o + s[k + 1 + w:]
        return s

    def place(self, param):
        r = self.r
        kinds = ["plain", "array", "record", "pointer"] + ["param"] * param
        f = {"array": "array", "record": "record", "pointer": "pointer", "param": "param"}.get(self.focus)
        k = f if f in kinds and r.random() < 0.6 else r.choice(kinds)
        return self.fill(r.choice(FORMS[k] if k != "param" else FORMS[k][:-1]))

    def value(self, param):
        r = self.r
        self.n += 1
        x = r.random()
        t = self.t
        if self.focus == "typed" and x < 0.4:
            # of another type: converted or refused
            return lit(r.choice(TYPES[:7]), self.n)
        if x < 0.6:
            return lit(t, self.n)
        if x < 0.8:
            return self.place(param)
        return "ft(%s)" % (lit(t, self.n) if x < 0.9 else self.place(param))

    def op(self, param):
        """One write, as lines."""
        r = self.r
        l = self.place(param)
        x = r.random()
        if self.focus == "pointer" and r.random() < 0.25:
            x = 0.55
        if x < 0.3:
            return ["%s <- %s" % (l, self.value(param))]
        if x < 0.36 and self.t != "In":
            return ["INPUT " + l]
        if x < 0.41 and self.t != "In":
            n = r.choice(("x", "y", "v", "v") + (("z", "u") if param else ()))
            return ['READFILE "t", ' + n, "%s <- %s" % (l, n)]
        if x < 0.47:
            n = r.choice(("x", "y", "r", "rb", "a", "a2", "m", "rs") + (("z", "u", "zr", "ur") if param else ()))
            w = r.choice(('GETRECORD "q", %s', 'GETRECORD "q", %s', 'PUTRECORD "q", %s\nGETRECORD "q", %s'))
            return ['SEEK "q", %d' % r.choice((1, 1, 2))] + w.replace("%s", n, 1).replace("%s", {"x": "y", "r": "rb", "a": "a2", "y": "z" if param else "x", "zr": "r", "ur": "zr"}.get(n, n)).split("\n")
        if x < 0.53:
            return ["CALL %s(%s, %s)" % (r.choice(("setit", "setit", "deep")), l, self.value(param))]
        if x < 0.66:
            p = self.fill(r.choice(("p", "p2", "ps[@]", "rp.p", "rps[@].p", "pp^")))
            w = ["%s <- ^%s" % (p, l)]
            return w + ["%s^ <- %s" % (p, self.value(param))] if r.random() < 0.8 else w
        if x < 0.7:
            q = self.fill(r.choice(("pr", "rp.q", "rps[@].q")))
            return ["%s <- ^%s" % (q, self.fill(r.choice(("r", "rb", "rs[@]", "rs[@]", "pr^")))), "%s^%s <- %s" % (q, r.choice(R1), self.value(param))]
        if x < 0.82:
            a, b = r.choice(WHOLE)
            if "fa" in b:
                a, b = "a", "rb.g"
            return ["%s <- %s" % (self.fill(a), self.fill(b))]
        if x < 0.88:
            return ["CALL setr(%s, %s)" % (self.fill(r.choice(("r", "rs[@]", "pr^", "rp.q^"))), self.value(param))]
        if x < 0.92:
            return ["CALL wasted(%s, %s, %s)" % (self.fill(r.choice(("r", "rs[@]", "pr^", "rp.q^"))), l, self.value(param))]
        if x < 0.97:
            return ["OUTPUT fset(%s, %s)" % (l, self.value(param))]
        return ["k <- %d" % r.choice((1, 2))]

    def dump(self, local=False):
        res = []
        cells = CELLS + POINTED + (["z", "u"] + ["zr" + c for c in R1] + ["ur" + c for c in R1] if local else [])
        for k in range(0, len(cells), 8):
            items = []
            for c in cells[k:k + 8]:
                items.append('" %s="' % c)
                items.append(c + (".h" if self.t == "In" else ""))
            res.append("OUTPUT " + ", ".join(items))
        return res

    def init(self):
        r = self.r
        res = ['in0.h <- "i0"', 'in1.h <- "i1"', 'in2.h <- "i2"', "in1.w[2] <- 7"]
        for n, c in enumerate(CELLS):
            res.append("%s <- %s" % (c, lit(self.t, n)))
        res += ["p <- ^x", "p2 <- ^a[2]", "pp <- ^p2", "pr <- ^r", "ps[1] <- ^rs[1].g[2]", "ps[2] <- ^m[1, 2]", "rp.p <- ^rb.i.h", "rp.q <- ^rs[2]", "rps[1].p <- ^y", "rps[2].p <- p", "rps[1].q <- ^rb", "rps[2].q <- pr", "k <- 1"]
        return res

    def decls(self):
        return ["DECLARE in0, in1, in2: In", "DECLARE k: INTEGER"] + ["DECLARE " + self.fill(v.replace("@T", self.t)) for v in VARS]


def inputs(t, n):
    return {"INTEGER": str(n), "REAL": "%d.25" % n, "STRING": "line %d" % n, "CHAR": chr(97 + n % 26), "BOOLEAN": ("TRUE", "FALSE")[n % 2], "DATE": "%d/1/2030" % (n % 28 + 1), "Col": COLS[n % 5], "In": "x"}[t]


def case(focus):
    def run(env, i):
        r = env.rng
        g = Places(r, focus)
        T = g.t
        ft = r.choice(TYPES[:7]) if focus == "typed" and r.random() < 0.5 else T
        text = ("".join(inputs(ft, n) + "\n" for n in range(12))).encode("latin-1")
        head = HEAD.replace("@T", T).split("\n")
        routines = ROUTINES.replace("@T", T).split("\n")
        files = ['OPENFILE "t" FOR READ', 'OPENFILE "q" FOR RANDOM', 'PUTRECORD "q", x', 'SEEK "q", 2', 'PUTRECORD "q", %s' % r.choice(("rs", "y", "a", "rb", "m", "r"))]
        nops = r.choice((4, 8, 12))
        body = []
        local = i % 3 == 1
        for _ in range(nops):
            o = g.op(local)
            w = r.random()
            if w < 0.1:
                o = ["IF k > 0 THEN"] + ["  " + l for l in o] + ["ENDIF"]
            elif w < 0.2:
                o = ["FOR loop <- 1 TO %d" % r.choice((1, 2))] + ["  " + l for l in o] + ["NEXT loop"]
            elif w < 0.25:
                o = ["REPEAT"] + ["  " + l for l in o] + ["UNTIL TRUE"]
            body.append(o)
        stdin = "".join(inputs(ft, n + 5) + "\n" for n in range(40))
        if i % 3 == 0:
            # a session: what fails leaves the rest to be compared
            import reentrant as RE
            lines = head + g.decls() + routines + g.init() + files
            for o in body:
                if any("INPUT" in l for l in o):
                    continue
                lines += o + g.dump()
            ents = [e[:-1] if e.endswith("\n") else e for e in RE.entries(lines)]
            env.session(ents, {"t": text}, pure="prefix", check_files=True, max_steps=20000)
            return
        flat = []
        for o in body:
            flat += o + (g.dump(local) if r.random() < 0.5 else [])
        flat += g.dump(local)
        if local:
            # the places are partly those of the caller, partly parameters, partly locals
            hidden = r.sample(VARS[:3] + VARS[3:5], r.choice((0, 1, 2)))
            names = [n.strip() for v in hidden for n in v.split(":")[0].split(",")]
            own = ["  DECLARE " + v.replace("@T", T) for v in hidden]
            own += ["  %s <- %s" % (c, lit(T, 60 + n)) for n, c in enumerate(CELLS) if c.split("[")[0].split(".")[0] in names]
            src = head + g.decls() + routines + g.init() + files
            src += ["PROCEDURE main(BYREF z: %s, BYVAL u: %s, BYREF zr: R1, BYVAL ur: R1)" % (T, T)] + own + ["  " + l for l in flat] + ["ENDPROCEDURE"]
            src += ["CALL main(%s, %s, %s, %s)" % (g.place(False), g.value(False), g.fill(r.choice(("r", "rs[@]", "pr^"))), g.fill(r.choice(("rb", "rs[@]"))))] + g.dump()
        elif r.random() < 0.5:
            src = head + g.decls() + routines + g.init() + files + flat
        else:
            # everything is local to a routine; those it calls see the globals of the same names
            src = head + g.decls() + routines + g.init() + ["PROCEDURE main()"] + ["  " + l for l in g.decls() + g.init() + files + flat] + ["ENDPROCEDURE", "CALL main()"] + g.dump()
        env.differential("\n".join(src) + "\n", stdin, {"t": text}, max_steps=20000)
    return run


def family(focus, quick, thorough):
    return Family("places", case(focus), quick, thorough, about="every way to write x every kind of place x every type, all places printed after each write")
