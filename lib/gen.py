"""Typed random program generator. Programs are mostly valid; what they must do is decided by the reference model."""
import re

PRIMS = ("INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE")

BASE = {
    # statements
    "output": 10, "assign": 12, "element": 5, "field": 5, "deref": 3, "implicit": 2, "arrassign": 1, "recassign": 2,
    "if": 4, "case": 3, "while": 2, "repeat": 2, "for": 4, "break": 1.5, "continue": 1.5, "call": 4, "ptr": 3,
    "input": 1, "wfile": 0, "rfile": 0, "random": 0, "bad": 0.15, "exprstmt": 0.5, "localdecl": 1, "const": 1,
}


class Var:
    __slots__ = ("name", "type", "dims", "const", "scope", "frozen")

    def __init__(self, name, type_, dims=None, const=False, scope="g", frozen=False):
        self.name, self.type, self.dims, self.const, self.scope, self.frozen = name, type_, dims, const, scope, frozen


class Routine:
    __slots__ = ("name", "params", "ret", "guard", "index", "types")


class Gen:
    def __init__(self, rng, weights=None, size=25, routines=3, depth=3, records=2, enums=1, pointers=1, arrays=2,
                 scalars=6, types=PRIMS, maxdepth=3, pedantic_clean=False, files=(), constants=1, redundant=0.15,
                 reclevel=2, casts=True, dump=True, shadow=0.3, calls_in_expr=True, prims_w=None):
        self.r = rng
        self.w = dict(BASE)
        self.w.update(weights or {})
        self.size, self.nroutines, self.nest = size, routines, depth
        self.nrec, self.nenum, self.nptr, self.narr, self.nscal = records, enums, pointers, arrays, scalars
        self.prims = list(types)
        self.maxdepth = maxdepth
        self.pedantic = pedantic_clean
        self.files = list(files)
        self.nconst = constants
        self.redundant = redundant
        self.reclevel = reclevel
        self.casts = casts and not pedantic_clean
        self.dumping = dump
        self.shadow = shadow
        self.calls = calls_in_expr
        self.lines = []
        self.ind = 0
        self.enums, self.recs, self.ptrs = {}, {}, {}
        self.globals = {}
        self.locals = None
        self.routines = []
        self.uid = 0
        self.cur = None
        self.loops = 0
        self.breakable = []
        self.in_expr_call = 0
        self.stdin = []
        self.stmts = 0
        self.toplevel = False
        self.indexing = False

    # -- helpers
    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def put(self, s):
        self.lines.append("    " * self.ind + s)

    def vars(self):
        if self.locals is None:
            return list(self.globals.values())
        d = dict(self.globals)
        d.update(self.locals)
        return list(d.values())

    def choose(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    # -- type definitions
    def alltypes(self, rec=True):
        ts = list(self.prims) + list(self.enums) * 2
        if rec:
            ts += list(self.recs) * 2
        return ts

    def define_types(self):
        for _ in range(self.nenum):
            n = self.name("E")
            vals = [self.name("v") for _ in range(self.r.randint(1, 5))]
            self.enums[n] = vals
            self.put("TYPE %s = (%s)" % (n, ", ".join(vals)))
        for k in range(self.nrec):
            n = self.name("R")
            fields = []
            self.put("TYPE " + n)
            level = {x: self.level(x) for x in self.recs}
            for _ in range(self.r.randint(1, 4)):
                ts = list(self.prims) + list(self.enums) + [x for x in self.recs if level[x] < self.reclevel] * 2
                t = self.choose(ts)
                if self.chance(0.25):
                    dims = self.dims(1 if self.chance(0.7) else 2, 3)
                    names = [self.name("f")]
                    fields += [(x, t, dims) for x in names]
                    self.put("    DECLARE %s: ARRAY[%s] OF %s" % (names[0], self.bounds(dims), t))
                else:
                    names = [self.name("f") for _ in range(1 if self.chance(0.7) else 2)]
                    fields += [(x, t, None) for x in names]
                    self.put("    DECLARE %s: %s" % (", ".join(names), t))
            self.put("ENDTYPE")
            self.recs[n] = fields
        for _ in range(self.nptr):
            n = self.name("P")
            t = self.choose([x for x in ("INTEGER", "INTEGER", "STRING", "REAL", "CHAR", "BOOLEAN") if x in self.prims]
                            + list(self.recs) + list(self.enums))
            self.ptrs[n] = t
            self.put("TYPE %s = ^%s" % (n, t))

    def level(self, rec):
        return 1 + max([self.level(t) for _, t, _ in self.recs[rec] if t in self.recs] or [0])

    def dims(self, k, size):
        res = []
        for _ in range(k):
            lo = self.r.choice((1, 1, 1, 0, -2, 3))
            res.append((lo, lo + self.r.randint(0, size)))
        return tuple(res)

    def bounds(self, dims):
        return ", ".join("%d:%d" % d for d in dims)

    # -- declarations
    def declare(self, scope, t=None, dims=None, name=None, byname=None):
        name = name or self.name("g" if scope == "g" else "l")
        t = t or self.choose(self.alltypes() + list(self.ptrs))
        v = Var(name, t, dims, scope=scope)
        if dims:
            self.put("DECLARE %s: ARRAY[%s] OF %s" % (name, self.bounds(dims), t))
        else:
            self.put("DECLARE %s: %s" % (name, t))
        (self.globals if scope == "g" else self.locals)[name] = v
        if not dims:
            if t == "DATE" and self.chance(0.75):
                self.put("%s <- %s" % (name, self.literal(t)))
            elif t in self.ptrs and self.chance(0.9):
                # most pointers start with a target
                c = [x for x in self.lvalues(self.ptrs[t], pointers=False)
                     if not any(k.const and k.name == x for k in self.vars())]
                if not c and self.chance(0.8):
                    c = [self.declare(scope, self.ptrs[t]).name]
                if c:
                    self.put("%s <- ^%s" % (name, self.pick(c)))
        return v

    def constant(self, scope):
        t = self.choose([x for x in ("INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING") if x in self.prims] or ["INTEGER"])
        n = self.name("c")
        lit = self.literal(t)
        self.put("CONSTANT %s = %s" % (n, lit))
        (self.globals if scope == "g" else self.locals)[n] = Var(n, t, const=True, scope=scope)

    # -- literals
    def literal(self, t):
        r = self.r
        if t == "INTEGER":
            return str(r.choice((0, 1, 2, 3, 5, 7, 10, r.randint(0, 30))))
        if t == "REAL":
            return r.choice(("0.5", "1.25", "2.0", "3.75", "10.5", "0.1", "7.", "%d.%d" % (r.randint(0, 9), r.randint(0, 99))))
        if t == "BOOLEAN":
            return r.choice(("TRUE", "FALSE"))
        if t == "CHAR":
            return r.choice(("'a'", "'Z'", "'0'", "' '", "'x'", "'\"'", "'\\''", "'-'"))
        if t == "STRING":
            return '"%s"' % r.choice(("", "a", "abc", "Hi ", "12", "3.5", " x", "\\\"", "#", "q//r", "TRUE", "zZ9",
                                      "\\t", "IF", "a b c"))
        if t == "DATE":
            return "%d/%d/%d" % (r.randint(1, 28), r.randint(1, 12), r.choice((1, 1600, 1999, 2000, 2024, 9999, r.randint(1, 9999))))
        if t in self.enums:
            return self.choose(self.enums[t])
        raise KeyError(t)

    # -- expressions: (text, precedence); 1 logical, 2 NOT/comparison, 3 &, 4 + -, 5 * /, 6 unary minus, 7 atom
    def paren(self, e, least):
        s, p = e
        if p < least or (self.redundant and self.r.random() < self.redundant):
            return "(%s)" % s
        return s

    def expr(self, t, d=None):
        d = self.maxdepth if d is None else d
        e = self.ex(t, d)
        if self.redundant and self.r.random() < self.redundant * 0.3:
            return "(%s)" % e[0]
        return e[0]

    def lvalues(self, t, write=False, pointers=True):
        """Candidate designators of exactly this type."""
        res = []
        for v in self.vars():
            if write and (v.const or v.frozen):
                continue
            self.walk(v.name, v.type, v.dims, t, res, 0, pointers)
        return res

    def walk(self, path, vt, dims, t, res, depth, pointers=True):
        if dims:
            if depth > 3 or not self.reaches(vt, t):
                return
            path = "%s[%s]" % (path, ", ".join("\1%d:%d\2" % x for x in dims))
        if vt == t:
            res.append(path)
        if depth > 3:
            return
        if vt in self.recs:
            for n, ft, fd in self.recs[vt]:
                if ft == t or self.reaches(ft, t):
                    self.walk("%s.%s" % (path, n), ft, fd, t, res, depth + 1, pointers)
        elif vt in self.ptrs and pointers and self.reaches(self.ptrs[vt], t) and self.chance(0.25):
            self.walk(path + "^", self.ptrs[vt], None, t, res, depth + 1, False)

    def pick(self, paths):
        """One of the designators, with its index expressions filled in."""
        s = self.choose(paths)
        if "\1" not in s:
            return s
        return re.sub("\1(-?\\d+):(-?\\d+)\2", lambda m: self.index(int(m.group(1)), int(m.group(2))), s)

    def reaches(self, vt, t):
        if vt == t:
            return True
        if vt in self.recs:
            return any(self.reaches(ft, t) for _, ft, _ in self.recs[vt])
        if vt in self.ptrs:
            return self.ptrs[vt] == t
        return False

    def index(self, lo, hi):
        r = self.r
        x = r.random()
        if self.indexing:
            return str(r.randint(lo, hi))
        self.indexing = True
        try:
            return self.index2(lo, hi, x, r)
        finally:
            self.indexing = False

    def index2(self, lo, hi, x, r):
        if x < 0.55 or not self.breakable and x < 0.7:
            return str(r.randint(lo, hi))
        span = hi - lo + 1
        its = [v.name for v in self.vars() if v.frozen and v.type == "INTEGER"]
        if its and x < 0.9:
            base = "%s * %s" % ((self.choose(its),) * 2) if self.chance(0.5) else self.choose(its) + " + 60"
            e = "(%s) MOD %d" % (base, span)
            return e if lo == 0 else "%d + %s" % (lo, e) if lo > 0 else "%s - %d" % (e, -lo)
        if x < 0.97:
            e = "LENGTH(%s) MOD %d" % (self.expr("STRING", 0), span) if "STRING" in self.prims else "0"
            return e if lo == 0 else "%d + %s" % (lo, e) if lo > 0 else "%s - %d" % (e, -lo)
        return str(r.randint(lo, hi))

    def leaf(self, t):
        c = self.lvalues(t)
        if c and (t in self.recs or t in self.ptrs or self.chance(0.7)):
            return (self.pick(c), 7)
        if t in self.recs or t in self.ptrs:
            return None
        return (self.literal(t), 7)

    def fcall(self, t, d):
        """A call of a user function with this result type, or None."""
        if not self.calls or self.in_expr_call >= 2:
            return None
        c = [f for f in self.routines if f.ret == t and self.callable(f)]
        if not c:
            return None
        f = self.choose(c)
        self.in_expr_call += 1
        a = self.args(f, d - 1)
        self.in_expr_call -= 1
        return ("%s(%s)" % (f.name, a), 7) if a is not None else None

    def callable(self, f):
        if self.cur is None:
            return True
        if f.index < self.cur.index:
            return True
        return bool(f.guard and self.cur.guard)

    def args(self, f, d):
        res = []
        for i, (pn, pt, byref) in enumerate(f.params):
            if i == 0 and f.guard:
                if self.cur is not None and self.cur.guard:
                    res.append(self.cur.params[0][0] + " - 1")
                else:
                    res.append(str(self.r.choice((0, 1, 1, 2, 3))))
                continue
            if byref:
                c = self.lvalues(pt, write=True)
                if not c:
                    return None
                res.append(self.pick(c))
            else:
                if pt in self.recs or pt in self.ptrs:
                    e = self.leaf(pt) or self.fcall(pt, 0)
                    if e is None:
                        return None
                    res.append(e[0])
                else:
                    src = pt
                    if pt == "REAL" and self.chance(0.3) and "INTEGER" in self.prims:
                        src = "INTEGER"
                    elif pt == "STRING" and self.chance(0.2) and "CHAR" in self.prims:
                        src = "CHAR"
                    res.append(self.expr(src, max(0, d)))
        return ", ".join(res)

    def nn(self, d):
        """A non-negative INTEGER expression (for DIV and MOD, whose rounding direction is open)."""
        r = self.r.random()
        if d <= 0 or r < 0.4:
            return (str(self.r.randint(0, 40)), 7)
        if r < 0.6 and "STRING" in self.prims:
            return ("LENGTH(%s)" % self.expr("STRING", d - 1), 7)
        if r < 0.8:
            return ("%s + %s" % (self.paren(self.nn(d - 1), 4), self.paren(self.nn(d - 1), 5)), 4)
        return ("%s * %s" % (self.paren(self.nn(d - 1), 5), self.paren(self.nn(d - 1), 6)), 5)

    def ex(self, t, d):
        if d <= 0 or self.chance(0.22):
            e = self.leaf(t)
            if e is not None:
                return e
        if t in self.recs or t in self.ptrs:
            return self.fcall(t, d) or self.leaf(t) or ("0", 7)
        if self.chance(0.15):
            e = self.fcall(t, d)
            if e is not None:
                return e
        m = getattr(self, "x_" + t.lower(), None) if t in PRIMS else None
        if m is not None:
            return m(d)
        if t in self.enums:
            e = self.leaf(t)
            if self.chance(0.5):
                k = self.ex("INTEGER", min(d - 1, 1)) if self.chance(0.6) else (str(self.r.randint(0, 20)), 7)
                if self.chance(0.3):
                    return ("%s + %s" % (self.paren(k, 4), self.paren(e, 5)), 4)
                return ("%s %s %s" % (self.paren(e, 4), self.choose("+-"), self.paren(k, 5)), 4)
            return e
        return self.leaf(t)

    def binary(self, op, t1, t2, prec, d):
        return ("%s %s %s" % (self.paren(self.ex(t1, d - 1), prec), op, self.paren(self.ex(t2, d - 1), prec + 1)), prec)

    def x_integer(self, d):
        r = self.r.random()
        if r < 0.45:
            op = self.choose("++--*")
            return self.binary(op, "INTEGER", "INTEGER", 5 if op == "*" else 4, d)
        if r < 0.57:
            op = self.choose(("DIV", "MOD"))
            a, k = self.nn(d - 1), (str(self.r.randint(1, 9)), 7)
            if d > 1 and self.chance(0.25):
                k = ("%s + %s" % (k[0], self.paren(self.nn(d - 2), 5)), 4)
            if self.chance(0.2):
                return ("%s(%s, %s)" % (op, a[0], k[0]), 7)
            return ("%s %s %s" % (self.paren(a, 5), op, self.paren(k, 6)), 5)
        if r < 0.67:
            e = self.ex("INTEGER", d - 1)
            return ("-" + self.paren(e, 7), 6)
        if r < 0.8 and "STRING" in self.prims:
            return ("LENGTH(%s)" % self.expr("STRING", d - 1), 7)
        if r < 0.86 and "CHAR" in self.prims:
            return ("ASC(%s)" % self.expr("CHAR", d - 1), 7)
        if r < 0.91 and "DATE" in self.prims:
            return ("%s(%s)" % (self.choose(("DAY", "MONTH", "YEAR")), self.expr("DATE", d - 1)), 7)
        if r < 0.95 and "REAL" in self.prims:
            return ("INT(%s)" % self.expr("REAL", d - 1), 7)
        if self.casts:
            return ("INTEGER(%s)" % self.expr("BOOLEAN" if "BOOLEAN" in self.prims else "INTEGER", d - 1), 7)
        return self.leaf("INTEGER")

    def x_real(self, d):
        r = self.r.random()
        if r < 0.6:
            op = self.choose("+-*")
            t1, t2 = self.choose((("REAL", "REAL"), ("INTEGER", "REAL"), ("REAL", "INTEGER")))
            return self.binary(op, t1, t2, 5 if op == "*" else 4, d)
        if r < 0.75:
            a = self.ex(self.choose(("INTEGER", "REAL")), d - 1)
            return ("%s / %s" % (self.paren(a, 5), self.choose(("2", "4", "3", "0.5", "8.0", "-2"))), 5)
        if r < 0.85:
            return ("-" + self.paren(self.ex("REAL", d - 1), 7), 6)
        if r < 0.92 and self.casts:
            return ("REAL(%s)" % self.expr("INTEGER", d - 1), 7)
        return self.leaf("REAL")

    def x_boolean(self, d):
        r = self.r.random()
        if r < 0.45:
            t1, t2 = self.choose([p for p in (("INTEGER", "INTEGER"),) * 3 + (("REAL", "INTEGER"), ("INTEGER", "REAL"), (
                "REAL", "REAL"), ("CHAR", "CHAR"), ("DATE", "DATE")) if p[0] in self.prims and p[1] in self.prims])
            return self.binary(self.choose(("=", "<>", "<", ">", "<=", ">=")), t1, t2, 3, d)[0], 2
        if r < 0.6:
            c = [x for x in ("STRING", "STRING", "BOOLEAN") + tuple(self.enums) * 2 if x in self.prims or x in self.enums]
            if c:
                t = self.choose(c)
                return self.binary(self.choose(("=", "<>")), t, t, 3, d)[0], 2
        if r < 0.72:
            return ("NOT " + self.paren(self.ex("BOOLEAN", d - 1), 2), 2)
        if r < 0.95:
            op = self.choose(("AND", "OR"))
            n = 2 if self.chance(0.7) else 3
            parts = []
            for _ in range(n):
                e = self.ex("BOOLEAN", d - 1)
                parts.append(self.paren(e, 2))
            return ((" %s " % op).join(parts), 1)
        return self.leaf("BOOLEAN")

    def x_char(self, d):
        r = self.r.random()
        if r < 0.4:
            return ("%s(%s)" % (self.choose(("UCASE", "LCASE")), self.expr("CHAR", d - 1)), 7)
        if r < 0.6:
            return ("CHR(%d)" % self.r.randint(32, 126), 7)
        return self.leaf("CHAR")

    def x_string(self, d):
        r = self.r.random()
        if r < 0.5:
            ts = [t for t in ("STRING", "STRING", "STRING", "INTEGER", "CHAR", "BOOLEAN", "REAL", "DATE") if t in self.prims]
            return self.binary("&", self.choose(ts), self.choose(ts), 3, d)
        if r < 0.65:
            return ("%s(%s)" % (self.choose(("TO_UPPER", "TO_LOWER")), self.expr("STRING", d - 1)), 7)
        if r < 0.72:
            s = self.leaf("STRING")[0]
            return ("%s(%s, LENGTH(%s))" % (self.choose(("LEFT", "RIGHT")), s, s), 7)
        if r < 0.8:
            return ('MID(%s & "xyz", %d, %d)' % (self.leaf("STRING")[0], self.r.randint(1, 3), self.r.randint(0, 1)), 7)
        if r < 0.88 and self.casts:
            ts = [t for t in ("INTEGER", "CHAR", "BOOLEAN", "REAL", "DATE") if t in self.prims]
            return ("STRING(%s)" % self.expr(self.choose(ts), d - 1), 7)
        if r < 0.92 and "REAL" in self.prims:
            return ("NUM_TO_STR(%s)" % self.expr("REAL", d - 1), 7)
        return self.leaf("STRING")

    def x_date(self, d):
        if self.chance(0.25):
            return ("SETDATE(%d, %d, %d)" % (self.r.randint(1, 28), self.r.randint(1, 12), self.r.randint(1, 3000)), 7)
        return self.leaf("DATE")

    # -- statements
    def block(self, n, depth):
        """n statements at the current indentation."""
        start = len(self.lines)
        for _ in range(n):
            self.statement(depth)
        if len(self.lines) == start and self.chance(0.8):
            self.put('OUTPUT "."')

    def statement(self, depth):
        self.stmts += 1
        w = self.w
        kinds = ["output", "assign", "element", "field", "deref", "arrassign", "recassign", "call", "ptr", "input", "bad",
                 "exprstmt"]
        if depth > 0:
            kinds += ["if", "case", "for", "while", "repeat"]
        if self.breakable and not self.pedantic:
            kinds += ["break", "continue"]
        if self.toplevel:
            kinds += ["localdecl", "const"]
        if not self.pedantic:
            kinds += ["implicit"]
        if self.files:
            kinds += ["wfile", "rfile", "random"]
        ws = [w[k] for k in kinds]
        for _ in range(4):
            k = self.r.choices(kinds, ws)[0]
            if getattr(self, "s_" + k)(depth) is not False:
                return
        self.s_output(depth)

    def scalar_type(self):
        return self.choose(list(self.prims) + list(self.enums))

    def s_output(self, depth):
        n = 1 if self.chance(0.7) else 2
        parts = []
        for _ in range(n):
            parts.append(self.expr(self.scalar_type()))
            if n > 1 and not parts[1:]:
                parts.append('" "')
        self.put("%s %s" % ("OUTPUT" if self.chance(0.9) else "PRINT", ", ".join(parts)))

    def convertible(self, t):
        if t == "REAL" and "INTEGER" in self.prims and self.chance(0.3):
            return "INTEGER"
        if t == "STRING" and "CHAR" in self.prims and self.chance(0.15):
            return "CHAR"
        return t

    def value(self, t, d=None):
        if t in self.recs or t in self.ptrs:
            e = self.ex(t, 2 if d is None else d)
            return None if e is None or e[0] == "0" else e[0]
        if t == "CHAR" and self.chance(0.1) and "STRING" in self.prims:
            return '"%s"' % self.choose(("a", "Q", " "))
        return self.expr(self.convertible(t), d)

    def s_assign(self, depth):
        c = [v for v in self.vars() if not v.dims and not v.const and not v.frozen and v.type not in self.recs
             and v.type not in self.ptrs]
        if not c:
            return False
        v = self.choose(c)
        self.put("%s <- %s" % (v.name, self.value(v.type)))

    def s_element(self, depth):
        c = [v for v in self.vars() if v.dims]
        if not c:
            return False
        v = self.choose(c)
        t = self.scalar_type()
        res = []
        if v.type in self.recs:
            ts = [x for x in list(self.prims) + list(self.enums) + [v.type] if self.reaches(v.type, x)]
            t = self.choose(ts)
        else:
            t = v.type
        self.walk(v.name, v.type, v.dims, t, res, 0)
        if not res or t in self.ptrs:
            return False
        val = self.value(t)
        if val is None:
            return False
        self.put("%s <- %s" % (self.pick(res), val))

    def s_field(self, depth):
        c = [v for v in self.vars() if v.type in self.recs and not v.const]
        if not c:
            return False
        v = self.choose(c)
        ts = [x for x in list(self.prims) + list(self.enums) + list(self.recs) if x != v.type and self.reaches(v.type, x)]
        if not ts:
            return False
        t = self.choose(ts)
        res = []
        self.walk(v.name, v.type, v.dims, t, res, 0)
        val = self.value(t)
        if not res or val is None:
            return False
        self.put("%s <- %s" % (self.pick(res), val))

    def s_deref(self, depth):
        c = [v for v in self.vars() if v.type in self.ptrs and not v.dims]
        if not c:
            return False
        v = self.choose(c)
        t = self.ptrs[v.type]
        val = self.value(t)
        if val is None:
            return False
        self.put("%s^ <- %s" % (v.name, val))

    def s_ptr(self, depth):
        c = [v for v in self.vars() if v.type in self.ptrs and not v.dims]
        if not c:
            return False
        v = self.choose(c)
        if self.chance(0.2):
            o = [x.name for x in c if x.type == v.type]
            self.put("%s <- %s" % (v.name, self.choose(o)))
            return
        t = self.lvalues(self.ptrs[v.type], pointers=False)
        t = [x for x in t if not any(k.const and k.name == x for k in self.vars())]
        if not t:
            return False
        self.put("%s <- ^%s" % (v.name, self.pick(t)))

    def s_implicit(self, depth):
        t = self.scalar_type()
        n = self.name("i")
        e = self.expr(t)
        if self.toplevel:
            self.put("%s <- %s" % (n, e))
            (self.globals if self.locals is None else self.locals)[n] = Var(n, t)
        else:
            self.put("%s <- %s" % (n, e))

    def s_arrassign(self, depth):
        c = [v for v in self.vars() if v.dims]
        p = [(a, b) for a in c for b in c if a is not b and a.type == b.type and a.dims == b.dims]
        if not p:
            return False
        a, b = self.choose(p)
        self.put("%s <- %s" % (a.name, b.name))

    def s_recassign(self, depth):
        if not self.recs:
            return False
        t = self.choose(list(self.recs))
        l = self.lvalues(t, write=True)
        v = self.value(t)
        if not l or v is None:
            return False
        self.put("%s <- %s" % (self.pick(l), v))

    def nested(self, n, depth):
        top, self.toplevel = self.toplevel, False
        self.ind += 1
        self.block(n, depth)
        self.ind -= 1
        self.toplevel = top

    def s_if(self, depth):
        self.put("IF %s%s" % (self.expr("BOOLEAN"), " THEN" if self.chance(0.6) else ""))
        if not self.lines[-1].endswith(" THEN"):
            self.put("  THEN")
        self.nested(self.r.randint(1, 3), depth - 1)
        while not self.pedantic and self.chance(0.3):
            self.put("ELSE IF %s THEN" % self.expr("BOOLEAN"))
            self.nested(self.r.randint(1, 2), depth - 1)
        if self.chance(0.5):
            self.put("ELSE")
            self.nested(self.r.randint(1, 3), depth - 1)
        self.put("ENDIF")

    def s_case(self, depth):
        c = [v for v in self.vars() if not v.dims and v.type in ("INTEGER", "REAL", "CHAR", "STRING", "BOOLEAN") + tuple(self.enums)]
        if not c:
            return False
        v = self.choose(c)
        self.put("CASE OF " + v.name)
        self.ind += 1
        for _ in range(self.r.randint(1, 4)):
            if v.type in ("INTEGER", "REAL") and self.chance(0.45):
                a = self.r.randint(-5, 12)
                lab = "%d TO %d" % (a, a + self.r.randint(-1, 8))
            elif v.type == "INTEGER" and self.chance(0.3):
                lab = str(self.r.randint(-3, 12))
            else:
                lab = self.expr(v.type, 1 if self.chance(0.3) else 0)
            if self.chance(0.5):
                top, self.toplevel = self.toplevel, False
                n = len(self.lines)
                self.simple()
                self.toplevel = top
                body = [x.strip() for x in self.lines[n:]]
                del self.lines[n:]
                self.put("%s : %s" % (lab, body[0]))
                for x in body[1:]:
                    self.put("    " + x)
            else:
                self.put(lab + ":")
                self.nested(self.r.randint(1, 2), depth - 1)
        if self.chance(0.6):
            self.put("OTHERWISE:" if self.chance(0.8) else "OTHERWISE :")
            self.nested(1, depth - 1)
        self.ind -= 1
        self.put("ENDCASE")

    def simple(self):
        k = self.choose((self.s_output, self.s_output, self.s_assign, self.s_element))
        if k(0) is False:
            self.s_output(0)

    def newint(self):
        """A counter nobody else writes."""
        n = self.name("k")
        sc = self.globals if self.locals is None else self.locals
        if self.pedantic:
            # declared where the sequence starts
            self.put("DECLARE %s: INTEGER" % n) if self.toplevel else None
        v = Var(n, "INTEGER", frozen=True)
        return n, v, sc

    def s_for(self, depth):
        r = self.r
        n, v, sc = self.newint() if self.pedantic is False or self.toplevel else (self.name("k"), None, None)
        if v is None:
            v, sc = Var(n, "INTEGER", frozen=True), (self.globals if self.locals is None else self.locals)
        a = r.randint(-3, 5)
        form = r.random()
        if form < 0.6:
            lo, hi, st = str(a), str(a + r.randint(-1, 4)), None
        elif form < 0.75:
            st = r.choice((-1, -2, 2, 3))
            lo, hi = str(a), str(a + st * r.randint(-1, 3))
        else:
            lo, hi, st = str(a), "%d + (%s) MOD 4" % (a, self.nn(1)[0]), None
        self.put("FOR %s <- %s TO %s%s" % (n, lo, hi, " STEP %d" % st if st is not None else ""))
        old = sc.get(n)
        sc[n] = v
        self.breakable.append("for")
        self.nested(r.randint(1, 3), depth - 1)
        self.breakable.pop()
        self.put("NEXT %s" % n)
        # afterwards it may be read, never written
        sc[n] = Var(n, "INTEGER", frozen=True) if self.toplevel else sc[n]
        if not self.toplevel and old is None:
            del sc[n]

    def counter(self):
        n = self.name("k")
        sc = self.globals if self.locals is None else self.locals
        if self.pedantic and not self.toplevel:
            return None
        if self.pedantic or self.toplevel and self.chance(0.5):
            self.put("DECLARE %s: INTEGER" % n)
        self.put("%s <- 0" % n)
        sc[n] = Var(n, "INTEGER", frozen=True)
        return n, sc

    def s_while(self, depth):
        c = self.counter()
        if c is None:
            return False
        n, sc = c
        cond = "%s < %d" % (n, self.r.randint(0, 4))
        if self.chance(0.3):
            cond = "(%s) AND (%s)" % (cond, self.expr("BOOLEAN", 1))
        self.put("WHILE %s%s" % (cond, " DO" if self.chance(0.6) else ""))
        self.ind += 1
        self.put("%s <- %s + 1" % (n, n))
        self.ind -= 1
        self.breakable.append("while")
        self.nested(self.r.randint(1, 3), depth - 1)
        self.breakable.pop()
        self.put("ENDWHILE")
        if not self.toplevel:
            del sc[n]

    def s_repeat(self, depth):
        c = self.counter()
        if c is None:
            return False
        n, sc = c
        self.put("REPEAT")
        self.ind += 1
        self.put("%s <- %s + 1" % (n, n))
        self.ind -= 1
        self.breakable.append("repeat")
        self.nested(self.r.randint(1, 3), depth - 1)
        self.breakable.pop()
        cond = "%s >= %d" % (n, self.r.randint(0, 4))
        if self.chance(0.3):
            cond = "(%s) OR (%s)" % (cond, self.expr("BOOLEAN", 1))
        self.put("UNTIL " + cond)
        if not self.toplevel:
            del sc[n]

    def s_break(self, depth):
        self.put("IF %s THEN" % self.expr("BOOLEAN", 1))
        self.put("    BREAK")
        self.put("ENDIF")

    def s_continue(self, depth):
        self.put("IF %s THEN" % self.expr("BOOLEAN", 1))
        self.put("    CONTINUE")
        self.put("ENDIF")

    def s_call(self, depth):
        c = [f for f in self.routines if f.ret is None and self.callable(f)]
        if not c:
            return False
        f = self.choose(c)
        a = self.args(f, 2)
        if a is None:
            return False
        self.put("CALL %s%s" % (f.name, "(%s)" % a if a or self.chance(0.5) else ""))

    def s_input(self, depth):
        c = [x for t in ("INTEGER", "REAL", "BOOLEAN", "STRING") if t in self.prims for x in
             [(y, t) for y in self.lvalues(t, write=True, pointers=False)]]
        if not c:
            return False
        n, t = self.choose(c)
        n = self.pick([n])
        self.put("INPUT " + n)
        self.stdin.append({"INTEGER": str(self.r.randint(-9, 99)), "REAL": self.choose(("1.5", "3", "0.25")),
                           "BOOLEAN": self.choose(("TRUE", "FALSE", "x"))}.get(t, self.choose(("", "hello", "a b", "//x", "tail  ", "  head"))))

    def s_exprstmt(self, depth):
        self.put(self.choose(("1", '"s"', "LENGTH(\"abc\")", "2 + 3 * 4")))

    def s_localdecl(self, depth):
        t = self.choose(self.alltypes() + list(self.ptrs))
        dims = self.dims(1, 3) if self.chance(0.3) else None
        self.declare("g" if self.locals is None else "l", t, dims)

    def s_const(self, depth):
        self.constant("g" if self.locals is None else "l")

    def s_bad(self, depth):
        """A statement that fails at run time."""
        r = self.r
        forms = ["OUTPUT undefined_name", "OUTPUT 1 DIV 0", "CALL nosuch(1)", "OUTPUT nosuch(2)", 'OUTPUT 1 + "x"',
                 'READFILE "nofile", zz', "OUTPUT LEFT(\"ab\", 3)"]
        v = [x for x in self.vars() if not x.dims and x.type == "INTEGER" and not x.const]
        if v:
            forms += ['%s <- "text"' % self.choose(v).name, "%s <- 1.5" % self.choose(v).name]
        a = [x for x in self.vars() if x.dims]
        if a:
            x = self.choose(a)
            forms += ["OUTPUT %s[%s]" % (x.name, ", ".join(str(h + 1) for _, h in x.dims))]
        c = [x for x in self.vars() if x.const]
        if c:
            forms += ["%s <- %s" % (self.choose(c).name, 1)]
        self.put(self.choose(forms))

    # text and random files (names in self.files; every use is a self-contained, legal sequence)
    def s_wfile(self, depth):
        f = self.choose(self.files)
        self.put('OPENFILE "%s" FOR %s' % (f, self.choose(("WRITE", "APPEND")) if getattr(self, "made", None) and f in self.made else "WRITE"))
        self.made = getattr(self, "made", set()) | ({f} if self.toplevel else set())
        for _ in range(self.r.randint(0, 3)):
            self.put('WRITEFILE "%s", %s' % (f, self.expr(self.choose([t for t in self.prims]), 1)))
        self.put('CLOSEFILE "%s"' % f)

    def s_rfile(self, depth):
        made = getattr(self, "made", None)
        if not made or "STRING" not in self.prims:
            return False
        f = self.choose(sorted(made))
        n = self.name("t")
        if self.pedantic and not self.toplevel:
            return False
        self.put('OPENFILE "%s" FOR READ' % f)
        self.put('WHILE NOT EOF("%s") DO' % f)
        self.put('    READFILE "%s", %s' % (f, n))
        self.put('    OUTPUT "[", %s, "]"' % n)
        self.put("ENDWHILE")
        self.put('CLOSEFILE "%s"' % f)

    def s_random(self, depth):
        if not self.toplevel:
            return False
        c = [v for v in self.vars() if not v.const and not self.haspointer(v.type)]
        if not c:
            return False
        v = self.choose(c)
        f = self.name("rf")
        self.put('OPENFILE "%s" FOR RANDOM' % f)
        self.put('PUTRECORD "%s", %s' % (f, v.name))
        self.put('SEEK "%s", 1' % f)
        self.put('GETRECORD "%s", %s' % (f, v.name))
        self.put('CLOSEFILE "%s"' % f)

    def haspointer(self, t):
        return t in self.ptrs or t in self.recs and any(self.haspointer(x) for _, x, _ in self.recs[t])

    # -- routines
    def routine(self, index):
        r = self.r
        f = Routine()
        f.index = index
        isfn = self.chance(0.5)
        f.name = self.name("F" if isfn else "Q")
        f.guard = self.chance(0.5)
        f.params = []
        f.types = None
        if f.guard:
            f.params.append((self.name("n"), "INTEGER", False))
        mode = False
        decl = []
        for i in range(r.randint(0, 4)):
            t = self.choose(self.alltypes() + list(self.ptrs))
            n = self.name("a")
            if self.globals and self.chance(self.shadow * 0.5):
                n = self.choose(list(self.globals))
                if any(p[0] == n for p in f.params):
                    n = self.name("a")
            word = ""
            if self.chance(0.4):
                mode = self.chance(0.6)
                word = "BYREF " if mode else "BYVAL "
            f.params.append((n, t, mode))
            decl.append("%s%s: %s" % (word, n, t))
        if f.guard:
            decl.insert(0, "%s: INTEGER" % f.params[0][0])
        f.ret = self.choose(self.alltypes() + (list(self.ptrs) if self.chance(0.5) else [])) if isfn else None
        for k in range(len(decl) - 1):
            # one type can be given to several parameters
            if f.params[k][1] == f.params[k + 1][1] and self.chance(0.3):
                decl[k] = decl[k][:decl[k].index(":")]
        head = "%s %s(%s)" % ("FUNCTION" if isfn else "PROCEDURE", f.name, ", ".join(decl))
        if not decl and self.chance(0.4) and not isfn:
            head = "PROCEDURE " + f.name
        if isfn:
            head += " RETURNS " + f.ret
        self.routines.append(f)
        self.put(head)
        self.ind += 1
        self.cur = f
        self.locals = {}
        for k, (n, t, byref) in enumerate(f.params):
            self.locals[n] = Var(n, t, scope="l", frozen=(k == 0 and f.guard))
        for _ in range(r.randint(0, 2)):
            name = None
            if self.globals and self.chance(self.shadow):
                name = self.choose(list(self.globals))
                if name in self.locals or self.globals[name].const:
                    name = None
            self.declare("l", None, self.dims(1, 2) if self.chance(0.2) else None, name)
        if f.guard:
            self.put("IF %s <= 0 THEN" % f.params[0][0])
            self.ind += 1
            if isfn:
                self.ret(f)
            else:
                self.s_output(0)
            self.ind -= 1
            if isfn:
                self.put("ENDIF")
                self.body(f)
            else:
                self.put("ELSE")
                self.ind += 1
                self.toplevel = False
                self.block(r.randint(1, 4), min(2, self.nest))
                self.ind -= 1
                self.put("ENDIF")
        else:
            self.body(f)
        if isfn:
            if self.chance(0.97):
                self.ret(f)
        self.locals = None
        self.cur = None
        self.ind -= 1
        self.put("END" + ("FUNCTION" if isfn else "PROCEDURE"))

    def body(self, f):
        self.toplevel = True
        self.block(self.r.randint(1, 5), min(2, self.nest))
        self.toplevel = False

    def ret(self, f):
        v = self.value(f.ret, 2)
        if v is None:
            n = self.name("l")
            self.put("DECLARE %s: %s" % (n, f.ret))
            v = n
        self.put("RETURN " + v)

    # -- whole programs
    def program(self):
        self.define_types()
        for _ in range(self.nconst):
            self.constant("g")
        for k in range(self.nscal):
            self.declare("g", self.choose(self.alltypes() + list(self.ptrs) * 2) if k else "INTEGER")
        for _ in range(self.narr):
            dims = self.dims(self.choose((1, 1, 2)), 3)
            t = self.choose(self.alltypes())
            self.declare("g", t, dims)
            if self.chance(0.3):
                self.declare("g", t, dims)
        for k in range(self.nroutines):
            self.routine(k)
        self.stmts = 0
        self.toplevel = True
        while self.stmts < self.size:
            self.statement(self.nest)
        if self.dumping:
            self.dump()
        return "\n".join(self.lines) + "\n"

    def dump(self):
        self.put('OUTPUT "== state"')
        late = []
        for v in list(self.globals.values()):
            self.dumpvar(v.name, v.type, v.dims, late)
        for p in late:
            self.put(p)

    def dumpvar(self, path, t, dims, late):
        if dims:
            cells = [[]]
            for lo, hi in dims:
                cells = [c + [k] for c in cells for k in range(lo, hi + 1)]
            if t in PRIMS or t in self.enums:
                for k in range(0, len(cells), 4):
                    self.put("OUTPUT " + ', "|", '.join("%s[%s]" % (path, ", ".join(map(str, c))) for c in cells[k:k + 4]))
                return
            for c in cells[:6]:
                self.dumpvar("%s[%s]" % (path, ", ".join(map(str, c))), t, None, late)
            return
        if t in PRIMS or t in self.enums:
            self.put('OUTPUT "%s=", %s' % (path, path))
        elif t in self.recs:
            for n, ft, fd in self.recs[t]:
                self.dumpvar("%s.%s" % (path, n), ft, fd, late)
        elif t in self.ptrs:
            tt = self.ptrs[t]
            if tt in PRIMS or tt in self.enums:
                late.append('OUTPUT "%s^=", %s^' % (path, path))
