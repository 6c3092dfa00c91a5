"""C05: variables keep their declared type; bad stores are rejected without effect."""
from gen import Gen
import places
import scale
from harness import Check, Family
from repl import Entry

TYPES = ["INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE", "Ea", "Eb", "Pa", "Pb", "Ra", "Rb"]
TDEFS = """TYPE Ea = (a1, a2, a3)
TYPE Eb = (b1, b2, b3)
TYPE Pa = ^INTEGER
TYPE Pb = ^REAL
TYPE Ra
  DECLARE n: INTEGER
  DECLARE s: STRING
ENDTYPE
TYPE Rb
  DECLARE n: INTEGER
  DECLARE s: STRING
ENDTYPE
DECLARE ti1, ti2: INTEGER
DECLARE tr1, tr2: REAL
ti1 <- 111
ti2 <- 222
tr1 <- 1.25
tr2 <- 2.25"""
INIT = {"INTEGER": "41", "REAL": "4.5", "BOOLEAN": "TRUE", "CHAR": "'k'", "STRING": '"keep"', "DATE": "4/5/2006", "Ea": "a2", "Eb": "b2"}
# source expressions by type, several forms each
SOURCES = {
    "INTEGER": ["7", "-7", "0", "1", "vINTEGER", "aINTEGER[2]", "rINTEGER.f", "fINTEGER()", "3 + 4", "65", "9007199254740993", "LENGTH(\"abc\")"],
    "REAL": ["7.5", "7.0", "0.0", "1.0", "-2.0", "vREAL", "aREAL[2]", "rREAL.f", "fREAL()", "7 / 2", "6 / 2", "STR_TO_NUM(\"7\")"],
    "BOOLEAN": ["TRUE", "FALSE", "vBOOLEAN", "aBOOLEAN[2]", "rBOOLEAN.f", "fBOOLEAN()", "1 < 2"],
    "CHAR": ["'x'", "'7'", "'T'", "vCHAR", "aCHAR[2]", "rCHAR.f", "fCHAR()", "CHR(66)"],
    "STRING": ['"x"', '"7"', '""', '"xy"', '"TRUE"', '"7.5"', '"4/5/2006"', '"a1"', "vSTRING", "aSTRING[2]", "rSTRING.f", "fSTRING()",
               '"x" & 1', 'LEFT("abc", 1)'],
    "DATE": ["1/2/2003", "vDATE", "aDATE[2]", "rDATE.f", "fDATE()"],
    "Ea": ["a1", "a3", "vEa", "aEa[2]", "rEa.f", "fEa()", "a1 + 1"], "Eb": ["b1", "b3", "vEb", "aEb[2]", "rEb.f", "fEb()", "b1 + 1"],
    "Pa": ["vPa", "aPa[2]", "rPa.f", "fPa()"], "Pb": ["vPb", "aPb[2]", "rPb.f", "fPb()"],
    "Ra": ["vRa", "aRa[2]", "rRa.f", "fRa()"], "Rb": ["vRb", "aRb[2]", "rRb.f", "fRb()"],
    "none": ["undef", "aINTEGER", "aSTRING", "Ea", "Ra", "vRa.zz", "aINTEGER[9]"],
}


def reset(lv, t):
    if t in INIT:
        return ["%s <- %s" % (lv, INIT[t])]
    if t in ("Pa", "Pb"):
        return ["%s <- ^t%s1" % (lv, "i" if t == "Pa" else "r")]
    return ["%s.n <- 31" % lv, '%s.s <- "keep"' % lv]


def show(lv, t):
    if t in INIT:
        return "OUTPUT %s" % lv
    if t in ("Pa", "Pb"):
        return "OUTPUT %s^" % lv
    return 'OUTPUT %s.n, " ", %s.s' % (lv, lv)


def setup():
    import c04
    e = c04.split(TDEFS)
    for t in TYPES:
        e += ["TYPE H%s\n  DECLARE f: %s\n  DECLARE g: ARRAY[0:2] OF %s\nENDTYPE" % (t, t, t),
              "DECLARE v%s, w%s: %s" % (t, t, t), "DECLARE a%s: ARRAY[1:3] OF %s" % (t, t), "DECLARE r%s: H%s" % (t, t),
              "TYPE Q%s = ^%s" % (t, t), "DECLARE q%s: Q%s" % (t, t), "q%s <- ^w%s" % (t, t),
              "FUNCTION f%s() RETURNS %s\n  RETURN v%s\nENDFUNCTION" % (t, t, t)]
        for lv in ("v", "w"):
            e += reset(lv + t, t)
        e += reset("a%s[2]" % t, t) + reset("r%s.f" % t, t) + reset("r%s.g[1]" % t, t)
    return e


SETUP = None


def channels(env, i):
    """Every (target type, source type) pair through every store channel; the target is observed before and after."""
    global SETUP
    if SETUP is None:
        SETUP = setup()
    t = TYPES[i % len(TYPES)]
    chan = CHANNELS[i // len(TYPES) % len(CHANNELS)]
    ents = list(SETUP)
    srcs = [(st, s) for st, ss in SOURCES.items() for s in ss]
    # whatever else changes must be seen too
    others = ['OUTPUT vINTEGER, " ", vREAL, " ", vBOOLEAN, " ", vCHAR, " ", vSTRING, " ", vDATE, " ", vEa, " ", vEb',
              'OUTPUT aINTEGER[1], " ", aINTEGER[2], " ", aSTRING[1], " ", aREAL[2], " ", rSTRING.f, " ", rINTEGER.f']
    if chan in LV:
        lv = LV[chan].format(t=t)
        ents += reset(lv, t)
        for st, s in srcs:
            ents += ["%s <- %s" % (lv, s), show(lv, t)] + reset(lv, t)
        ents += others
    elif chan == "byval":
        ents += ["PROCEDURE go(x: %s)\n  %s\nENDPROCEDURE" % (t, show("x", t))]
        for st, s in srcs:
            ents += ["CALL go(%s)" % s]
    elif chan == "byvalfn":
        ents += ["FUNCTION go(a: INTEGER, x: %s) RETURNS %s\n  %s\n  RETURN x\nENDFUNCTION" % (t, t, show("x", t)), "DECLARE y: %s" % t]
        for st, s in srcs:
            ents += ["y <- go(1, %s)" % s, show("y", t)]
    elif chan == "byref":
        ents += ["PROCEDURE go(BYREF x: %s)\n  %s\n  %s\nENDPROCEDURE" % (t, show("x", t), "\n  ".join(reset("x", t)))]
        for st, s in srcs:
            ents += ["CALL go(%s)" % s]
        ents += others
    elif chan == "return":
        for k, (st, s) in enumerate(srcs):
            ents += ["FUNCTION go%d() RETURNS %s\n  RETURN %s\nENDFUNCTION" % (k, t, s), "OUTPUT go%d()" % k, "go%d()" % k, "v%s <- go%d()" % (t, k), show("v" + t, t)]
    elif chan == "byrefbody":
        # stores inside a procedure through its BYREF parameter and into its local
        for k, (st, s) in enumerate(srcs):
            ents += ["PROCEDURE go%d(BYREF x: %s)\n  DECLARE l: %s\n  x <- %s\n  l <- x\n  %s\nENDPROCEDURE" % (k, t, t, s, show("l", t)),
                     "CALL go%d(w%s)" % (k, t), show("w" + t, t)]
    elif chan == "first":
        # a variable gets the type of its first value and keeps it
        for k, (st, s) in enumerate(srcs):
            if st == "none":
                continue
            n = "n%d" % k
            ents += ["%s <- %s" % (n, SOURCES[t][k % len(SOURCES[t])]), "%s <- %s" % (n, s), show(n, t), "%s <- %s" % (n, SOURCES[t][0]), show(n, t)]
    elif chan == "input":
        for lv in ("v%s", "a%s[2]", "r%s.f", "q%s^"):
            lv = lv % t
            for line in ("7", "-12", "7.5", "abc", "", "TRUE", "FALSE", "true", "x", "12x", "1/2/2003", "a1", "0", "9223372036854775807", "-0.25", "ab  ", "  ab", " ", "TRUE ", "\"x\"", "//x"):
                if t in ("INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING"):
                    ents += reset(lv, t) + [Entry("INPUT " + lv, [line]), show(lv, t)]
        ents += others
        env.session(ents, pure=True, each=True, variant="readline")
    elif chan == "readfile":
        files = {"in.txt": b"7\nx\nTRUE\n"}
        for lv in ("v%s" % t,):
            ents += ['OPENFILE "in.txt" FOR READ', 'READFILE "in.txt", ' + lv, show(lv, t), 'CLOSEFILE "in.txt"']
        env.session(ents, files, pure=True, each=True)
        return
    elif chan == "for":
        ents += ["FOR v%s <- 1 TO 2\n  OUTPUT \"i\"\nNEXT v%s" % (t, t), show("v" + t, t)]
        for st, s in srcs:
            if st == t:
                ents += ["FOR k <- 1 TO 3 STEP %s\n  OUTPUT k\n  BREAK\nNEXT k" % s, "FOR k <- %s TO 3\n  OUTPUT k\n  BREAK\nNEXT k" % s,
                         "FOR k <- 1 TO %s\n  OUTPUT k\n  BREAK\nNEXT k" % s]
    elif chan == "pointer":
        for x in TYPES:
            for lv in ("v%s", "a%s[2]", "r%s.f", "q%s", "r%s.g[1]", "a%s", "nosuch%s"):
                ents += ["vPa <- ^" + lv % x, "OUTPUT vPa^", "vPb <- ^" + lv % x, "OUTPUT vPb^", "q%s <- ^%s" % (t, lv % x), show("q%s^" % t, t),
                         "v%s <- ^%s" % (t, lv % x)]
    env.session(ents, pure=True, each=True)


LV = {"variable": "v{t}", "element": "a{t}[2]", "field": "r{t}.f", "arrayfield": "r{t}.g[1]", "deref": "q{t}^"}
CHANNELS = list(LV) + ["byval", "byvalfn", "byref", "return", "byrefbody", "first", "input", "readfile", "for", "pointer"]


def badinput(env, i):
    """INPUT into a variable of a type that cannot be typed in: an error, and the variable keeps its value. (Whether the
    line is consumed is open, so an empty line follows.)"""
    global SETUP
    if SETUP is None:
        SETUP = setup()
    t = ("DATE", "Ea", "Eb", "Pa", "Pb", "Ra", "Rb")[i % 7]
    lv = ("v%s", "a%s[2]", "r%s.f", "q%s^")[i // 7] % t
    if t in INIT:
        want = INIT[t]
    else:
        want = {"Pa": "111", "Pb": "1.25"}.get(t, "31 keep")
    ents = SETUP + reset(lv, t) + ["OUTPUT \"mark\"", "INPUT " + lv, "", show(lv, t), "OUTPUT \"end\""]
    r = env.run(None, "\n".join(x + ("\n" if "\n" in x else "") for x in ents) + "\n")
    env.expect(r.kind == "runtime" or r.code == 0 and [d.kind for d in r.diags] == ["runtime"],
               "INPUT %s: outcome %s, diagnostics %r" % (lv, r.kind, r.diags))
    tail = [x for x in r.out.decode("latin-1").split("mark", 1)[-1].replace("> ", "").split("\n") if x]
    env.expect(tail == [want, "end"], "INPUT %s: the variable shows %r, expected %r" % (lv, tail, [want, "end"]))
    env.ok(lv)


def mixed(env, i):
    """Random stores of random values through random designators, with the whole state shown after every store."""
    global SETUP
    if SETUP is None:
        SETUP = setup()
    r = env.rng
    ents = list(SETUP)
    ts = r.sample(TYPES, 4)
    ents += ["PROCEDURE sub%d(%sx: %s, %sy: %s)\n  x <- y\n  %s\nENDPROCEDURE" % (
        k, r.choice(("", "BYREF ", "BYVAL ")), r.choice(ts), r.choice(("", "BYREF ")), r.choice(ts), "OUTPUT 1") for k in range(3)]
    dump = []
    for t in ts:
        for lv in LV.values():
            dump.append(show(lv.format(t=t), t))
    for _ in range(25):
        a, b = r.choice(ts), r.choice(ts)
        if r.random() < 0.4:
            b = a
        lv = r.choice(list(LV.values())).format(t=a)
        src = r.choice(SOURCES[b])
        x = r.random()
        if x < 0.7:
            ents.append("%s <- %s" % (lv, src))
        elif x < 0.9:
            ents.append("CALL sub%d(%s, %s)" % (r.randrange(3), lv, src))
        else:
            ents.append("a%s <- a%s" % (a, b))
        ents += r.sample(dump, 6)
    ents += dump
    env.session(ents, pure=True)


def program(env, i):
    r = env.rng
    g = Gen(r, size=r.randint(6, 16), routines=r.randint(1, 4), maxdepth=2, enums=2, weights={"assign": 20, "element": 8, "field": 8,
            "call": 8, "input": 4, "bad": 1})
    env.differential(g.program(), "\n".join(g.stdin) + "\n", variant="readline" if i % 8 == 1 else None)


REC_PRE = ["TYPE Ea = (a1, a2, a3)", "TYPE In\nDECLARE m: STRING\nDECLARE x: REAL\nENDTYPE", "TYPE Out\nDECLARE n: INTEGER\nDECLARE c: CHAR\nDECLARE d: DATE\nDECLARE b: BOOLEAN\nDECLARE i: In\nDECLARE a: ARRAY[1:3] OF INTEGER\n"
           "DECLARE t: ARRAY[0:1] OF STRING\nENDTYPE", "DECLARE vi: INTEGER", "DECLARE vr: REAL", "DECLARE vb: BOOLEAN", "DECLARE vc: CHAR", "DECLARE vs: STRING", "DECLARE vd: DATE", "DECLARE ve: Ea", "DECLARE vo: Out",
           "DECLARE ai: ARRAY[1:4] OF INTEGER", "DECLARE as: ARRAY[1:2, 0:1] OF STRING", "DECLARE ao: ARRAY[5:6] OF Out", "DECLARE ae: ARRAY[1:3] OF Ea", "DECLARE ad: ARRAY[1:2] OF DATE"]
REC_SHOW = {"vi": ["vi"], "vr": ["vr"], "vb": ["vb"], "vc": ["vc"], "vs": ["vs"], "vd": ["vd"], "ve": ["ve"], "ai": ["ai[%d]" % k for k in range(1, 5)], "as": ["as[%d, %d]" % (a, b) for a in (1, 2) for b in (0, 1)],
            "ae": ["ae[%d]" % k for k in range(1, 4)], "ad": ["ad[1]", "ad[2]"]}
_OUT = ["n", "c", "d", "b", "i.m", "i.x", "a[1]", "a[2]", "a[3]", "t[0]", "t[1]"]
REC_SHOW["vo"] = ["vo." + f for f in _OUT]
REC_SHOW["ao"] = ["ao[%d].%s" % (k, f) for k in (5, 6) for f in _OUT]
# two states: the one saved in the file, and the one to be kept
REC_SETS = [dict(n="12", c="'z'", d="3/4/2021", b="TRUE", m='"some text"', x="2.5", a="45", t='"tee"', vi="-12345", vr="0.25", vs='"a 7 b"', ve="a3"),
            dict(n="77", c="'k'", d="5/6/1999", b="FALSE", m='"kept"', x="-8.75", a="91", t='"old"', vi="678", vr="9.5", vs='"was here"', ve="a2")]
_saved = {}


def rec_sets(k):
    q = REC_SETS[k]
    out = []
    for o in ("vo", "ao[5]", "ao[6]"):
        out += ["%s.n <- %s" % (o, q["n"]), "%s.c <- %s" % (o, q["c"]), "%s.d <- %s" % (o, q["d"]), "%s.b <- %s" % (o, q["b"]), "%s.i.m <- %s" % (o, q["m"]), "%s.i.x <- %s" % (o, q["x"])]
        out += ["%s.a[%d] <- %s + %d" % (o, j, q["a"], j) for j in (1, 2, 3)] + ["%s.t[%d] <- %s & %d" % (o, j, q["t"], j) for j in (0, 1)]
    out += ["vi <- " + q["vi"], "vr <- " + q["vr"], "vb <- " + q["b"], "vc <- " + q["c"], "vs <- " + q["vs"], "vd <- " + q["d"], "ve <- " + q["ve"]]
    out += ["ai[%d] <- %s * %d" % (j, q["n"], j) for j in range(1, 5)] + ["as[%d, %d] <- %s & %d" % (a, b, q["t"], a * 2 + b) for a in (1, 2) for b in (0, 1)]
    return out + ["ae[%d] <- %s" % (j, q["ve"]) for j in (1, 2, 3)] + ["ad[%d] <- %s" % (j, q["d"]) for j in (1, 2)]


def rec_damage(r, data, other):
    """A record with one thing wrong: words changed, dropped, doubled, added, swapped with those of another, or cut short."""
    body = data.rstrip(b"\n")
    ws = body.split(b" ")
    x = r.randrange(9)
    k = r.choice((len(ws) - 1, r.randrange(len(ws))))
    if x == 0:
        ws[k] = r.choice((b"x", b"-", b"", b"1.5", b"99", b"0", b"-1", b"TRUE", b"ARRAY", b"INTEGER", b"STRING", b"12x", b"99999999999999999999", b"a1", b"a9", b"31/02/2021", b"\xff"))
    elif x == 1:
        ws[k:k + 1] = []
    elif x == 2:
        ws[k:k + 1] = [ws[k]] * 2
    elif x == 3:
        ws += r.choice(([b"x"], [b"1"], [b"INTEGER", b"5"], [b"-"], ws[:2], [b"#"]))
    elif x == 4:
        return body[:r.randrange(len(body))] + b"\n"
    elif x == 5:
        o = other.rstrip(b"\n").split(b" ")
        ws[k:] = o[r.randrange(len(o)):]
    elif x == 6:
        j = r.randrange(len(ws))
        ws[k], ws[j] = ws[j], ws[k]
    elif x == 7:
        ws[k] = ws[k] + r.choice((b"x", b"0", b".", b"-", b"#", b"\t7"))
    else:
        ws = ws + b" ".join(ws[-2:]).split(b" ")
    return b" ".join(ws) + b"\n"


def damaged(env, i):
    """Random files whose record was damaged (as by another program): a GETRECORD that reports an error leaves every part of its
    variable as it was; one that does not leaves the variable usable. No model: the state is shown before and after."""
    r = env.rng
    place = list(REC_SHOW)[i % len(REC_SHOW)]
    if not _saved:
        src = "\n".join(REC_PRE + rec_sets(0) + [l for v in REC_SHOW for l in ('OPENFILE "%s" FOR RANDOM' % v, 'PUTRECORD "%s", %s' % (v, v), 'CLOSEFILE "%s"' % v)]) + "\n"
        _saved.update(env.run(src, variant="plain").files or {})
    if place not in _saved or len(_saved) < len(REC_SHOW):
        env.violation("damaged: a value could not be saved", {"saved": sorted(_saved)})
        return
    shows = "OUTPUT " + ', "|", '.join(REC_SHOW[place])
    ents = REC_PRE + rec_sets(1)
    files, n = {}, 12
    for k in range(n):
        d = rec_damage(r, _saved[place], _saved[r.choice(list(REC_SHOW))])
        if r.random() < 0.2:
            d = rec_damage(r, d, _saved[place])
        files["f%d" % k] = d
        ents += ['OPENFILE "f%d" FOR RANDOM' % k, 'OUTPUT "<A%d>"' % k, shows, 'GETRECORD "f%d", %s' % (k, place), shows, 'OUTPUT "<B%d>"' % k] + rec_sets(1)
    text = "".join(e + ("\n\n" if "\n" in e else "\n") for e in ents)
    o = env.run(None, text, files, collect=False, steps=60000, variant="plain" if i % 3 == 2 else "asan")
    if o.kind == "timeout" or o.kind == "budget" or o.code == 1009:
        env.inconclusive(o.kind)
        return
    env.expect(o.kind in ("ok", "runtime"), "damaged: the session ends with %s, exit status %d: %r" % (o.kind, o.code, o.err[-300:]))
    out = o.out
    for k in range(n):
        a, b = out.find(b"<A%d>\n" % k), out.find(b"<B%d>\n" % k)
        if a < 0 or b < 0:
            env.inconclusive("markers of a damaged record not found")
            return
        # "> " state "\n" "> " ["\n"] "> " state "\n" "> "
        seg = out[a + len(b"<A%d>\n" % k):b]
        if not (seg.startswith(b"> ") and seg.endswith(b"\n> ")):
            env.inconclusive("transcript of a damaged record not understood")
            return
        seg = seg[2:-2]
        failed = [m for m in (seg.find(b"\n> \n> "),) if m >= 0]
        if failed:
            m = failed[0]
            before, after = seg[:m + 1], seg[m + 6:]
            if before != after:
                env.violation("damaged: a GETRECORD that failed changed its variable", {"place": place, "record": repr(files["f%d" % k]), "before": repr(before), "after": repr(after)})
                return
            env.ok(("damaged", place, files["f%d" % k], "refused"))
        else:
            env.ok(("damaged", place, files["f%d" % k], "loaded"), nontrivial=False)


CHECK = Check("C05", [
    places.family("typed", 300, 10000),
    scale.family("C05", 480, 9600),
    Family("channels", channels, len(TYPES) * len(CHANNELS), about="exhaustive: target type x source type (several source forms) x "
           "store channel", chunk=1),
    Family("badinput", badinput, 28, about="INPUT into types that cannot be typed in"),
    Family("mixed", mixed, 900, 30000, about="random stores with full state observation"),
    Family("damaged", damaged, 150, 6000, about="GETRECORD of damaged records: one that fails leaves the variable as it was"),
    Family("program", program, 3000, 100000, about="generated programs"),
], "A case is one store attempt with the target observed before and after, distinct by (entry text, accepted or rejected), or a "
   "session/program distinct by text.",
    variants=("asan", "plain", "readline"),
    assumptions=["INPUT of a line longer than one character into a CHAR and of text that C's strtod accepts beyond decimal "
                 "numerals is not judged"])
