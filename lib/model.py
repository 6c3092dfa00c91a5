"""Independent executable reference model of the pseudocode language.

Written from grammar.txt, Syntax.md and the property list: a lexer, a parser and an evaluator which predict, for a
program text, its standard input and the files it finds, what a run must print, how it must end, and which files it
must leave. Behaviour that the properties leave open raises Unspec: such a case is discarded, never judged.

Text is bytes decoded as latin-1 everywhere (one char = one byte).
"""
import math
import re
import struct

IMIN, IMAX = -(1 << 63), (1 << 63) - 1


class Unspec(Exception):
    """The run reached behaviour which the properties do not fix."""


class PsError(Exception):
    """A diagnosed error. frames: [(frame name, acceptable lines)], innermost first."""

    def __init__(self, kind, frames, what=""):
        Exception.__init__(self, what)
        self.kind, self.frames, self.what = kind, frames, what


class NotDefined(PsError):
    pass


class ArrDirect(PsError):
    ctx = array = node = None


# ---------------------------------------------------------------- lexer

KEYWORDS = set("""DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF CASE OF OTHERWISE
ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION
ENDFUNCTION RETURNS RETURN OUTPUT PRINT INPUT OPENFILE READFILE WRITEFILE CLOSEFILE READ WRITE APPEND RANDOM SEEK
GETRECORD PUTRECORD""".split())
DATATYPES = ("INTEGER", "REAL", "BOOLEAN", "CHAR", "STRING", "DATE")
NOPAREN = {"INPUT", "OUTPUT", "OPENFILE", "READFILE", "WRITEFILE", "CLOSEFILE"}

TOKEN = re.compile(r"""
  (?P<ws>[ \t]+|//[^\n]*)
 |(?P<nl>\n)
 |(?P<word>[A-Za-z][A-Za-z0-9_]*)
 |(?P<date>\d+/\d+/\d+)
 |(?P<num>\d+(?:\.\d*)?)
 |(?P<chr>'(?:\\[nt'"\\]|[^'\\])')
 |(?P<str>"(?:\\[nt'"\\]|[^"\\])*")
 |(?P<op><=|<>|<-|>=|==|[-+*/()\[\]=:,&^.<>])
""", re.X | re.S)
ESC = re.compile(r"\\(.)", re.S)
ESCMAP = {"n": "\n", "t": "\t", "'": "'", '"': '"', "\\": "\\"}


def unescape(s):
    return ESC.sub(lambda m: ESCMAP[m.group(1)], s) if "\\" in s else s


def syntax(line, what=""):
    return PsError("syntax", [(None, line)], what)


def lex(text, pedantic=False):
    """[(type, value, line)]; raises PsError. `text` has no carriage returns."""
    toks = []
    line = 1
    pos = 0
    n = len(text)
    match = TOKEN.match
    while pos < n:
        m = match(text, pos)
        if m is None:
            raise syntax(line, "invalid character")
        kind = m.lastgroup
        s = m.group()
        if kind == "ws":
            pass
        elif kind == "nl":
            toks.append(("EOL", None, line))
            line += 1
        elif kind == "word":
            if s in KEYWORDS:
                if s == "PRINT":
                    s = "OUTPUT"
                toks.append((s, None, line))
                if pedantic and s in ("BREAK", "CONTINUE"):
                    raise PsError("pedantic", [(None, line)], s)
            elif s in DATATYPES:
                toks.append(("DATATYPE", s, line))
            else:
                toks.append(("ID", s, line))
        elif kind == "num":
            toks.append(("REAL" if "." in s else "INT", s, line))
        elif kind == "date":
            toks.append(("DATE", s, line))
        elif kind == "chr":
            toks.append(("CHAR", unescape(s[1:-1]), line))
            line += s.count("\n")
        elif kind == "str":
            toks.append(("STR", unescape(s[1:-1]), line))
            line += s.count("\n")
        else:
            if s == "==":
                raise syntax(line, "==")
            if s == "(" and toks and toks[-1][0] in NOPAREN and pos > 0 and text[pos - 1] not in " \t":
                raise syntax(line, "( after I/O statement")
            toks.append((s, None, line))
        pos = m.end()
    toks.append(("EOF", None, line))
    return toks


# ---------------------------------------------------------------- parser

BLOCK_END = {"EOF", "ENDIF", "OTHERWISE", "ENDCASE", "ELSE", "ENDWHILE", "UNTIL", "NEXT", "ENDPROCEDURE", "ENDFUNCTION"}


class Parser:
    """Recursive descent over the documented grammar. Nodes are tuples (op, line, ...)."""

    def __init__(self, toks, pedantic=False):
        self.toks = toks
        self.i = 0
        self.pedantic = pedantic
        self.warned = False
        self.depth = 0

    # -- helpers
    def t(self):
        return self.toks[self.i][0]

    def tok(self):
        return self.toks[self.i]

    def peek(self, k=1):
        return self.toks[self.i + k][0] if self.i + k < len(self.toks) else None

    def adv(self):
        tok = self.toks[self.i]
        if self.i + 1 < len(self.toks):
            self.i += 1
        return tok

    def err(self, what=""):
        return syntax(self.toks[self.i][2], what)

    def want(self, t):
        if self.toks[self.i][0] != t:
            raise self.err("expected " + t)
        return self.adv()

    def skipnl(self):
        while self.t() == "EOL":
            self.adv()

    # -- blocks
    def program(self):
        b = self.block("main")
        if self.t() != "EOF":
            raise self.err("unexpected")
        return b

    def block(self, kind=None):
        self.depth += 1
        if self.depth > 200:
            raise Unspec("nesting")
        nodes = []
        while True:
            self.skipnl()
            t = self.t()
            if t in BLOCK_END:
                break
            if kind == "case" and t != "DECLARE":
                k = 1
                end = False
                while self.i + k < len(self.toks):
                    tk = self.peek(k)
                    if tk == ":":
                        end = True
                        break
                    if tk == "EOL":
                        break
                    k += 1
                if end:
                    break
            if t in ("PROCEDURE", "FUNCTION"):
                if kind != "main":
                    raise self.err("not at top level")
                nodes.append(self.routine())
            else:
                n = self.statement()
                if n[0] == "cmp" and n[3][0] == "var":
                    self.warned = True
                nodes.append(n)
            if self.t() not in ("EOL", "EOF"):
                raise self.err("unexpected")
        self.depth -= 1
        return nodes

    def statement(self):
        t = self.t()
        f = STATEMENTS.get(t)
        return f(self) if f else self.expr()

    def s_return(self):
        line = self.adv()[2]
        return ("return", line, self.expr())

    def s_break(self):
        return ("break", self.adv()[2])

    def s_continue(self):
        return ("continue", self.adv()[2])

    def s_declare(self):
        line = self.adv()[2]
        names = []
        while True:
            names.append(self.want("ID")[1])
            if self.t() == ",":
                self.adv()
            else:
                break
        self.want(":")
        if self.t() == "ARRAY":
            self.adv()
            self.want("[")
            bounds = []
            while True:
                lo = self.arith()
                self.want(":")
                hi = self.arith()
                bounds.append((lo, hi))
                if self.t() == ",":
                    self.adv()
                else:
                    break
            self.want("]")
            self.want("OF")
            return ("declarr", line, names, self.typeref(), bounds)
        return ("declare", line, names, self.typeref())

    def typeref(self):
        if self.t() not in ("DATATYPE", "ID"):
            raise self.err("expected data type")
        return self.adv()  # token

    def s_constant(self):
        line = self.adv()[2]
        name = self.want("ID")[1]
        if self.t() not in ("=", "<-"):
            raise self.err("expected =")
        self.adv()
        neg = None
        if self.t() == "-":
            neg = self.adv()[2]
        if self.t() not in ("INT", "REAL", "TRUE", "FALSE", "CHAR", "STR"):
            raise self.err("expected literal")
        v = self.literal()
        if neg is not None:
            v = ("neg", neg, v)
        return ("const", line, name, v)

    def s_type(self):
        line = self.adv()[2]
        self.skipnl()
        name = self.want("ID")[1]
        if self.t() != "=":
            if self.t() != "EOL":
                raise self.err("expected definition")
            self.adv()
            self.skipnl()
            decls = []
            while self.t() == "DECLARE":
                decls.append(self.s_declare())
                if self.t() != "EOL":
                    raise self.err("expected newline")
                self.skipnl()
            self.want("ENDTYPE")
            return ("typerec", line, name, decls)
        self.adv()
        if self.t() == "^":
            self.adv()
            return ("typeptr", line, name, self.typeref())
        if self.t() == "(":
            self.adv()
            vals = []
            while True:
                vals.append(self.want("ID")[1])
                if self.t() == ",":
                    self.adv()
                elif self.t() == ")":
                    break
                else:
                    raise self.err("expected )")
            self.adv()
            return ("typeenum", line, name, vals)
        raise self.err("expected definition")

    def s_if(self):
        line = self.adv()[2]
        cond = self.expr()
        self.skipnl()
        self.want("THEN")
        parts = [(line, cond, self.block())]
        while self.t() == "ELSE":
            self.adv()
            if self.t() == "IF":
                if self.pedantic:
                    raise PsError("pedantic", [(None, self.tok()[2])], "ELSE IF")
                l2 = self.adv()[2]
                cond = self.expr()
                self.skipnl()
                self.want("THEN")
                parts.append((l2, cond, self.block()))
            else:
                parts.append((line, None, self.block()))
                break
        self.want("ENDIF")
        return ("if", line, parts)

    def s_case(self):
        line = self.adv()[2]
        self.want("OF")
        name = self.want("ID")
        self.skipnl()
        clauses = []
        while self.t() != "ENDCASE":
            if self.t() == "OTHERWISE":
                self.adv()
                self.want(":")
                clauses.append((None, None, self.block("case")))
                if self.t() != "ENDCASE":
                    raise self.err("expected ENDCASE")
                break
            a = self.expr()
            b = None
            if self.t() == "TO":
                self.adv()
                b = self.expr()
            self.want(":")
            clauses.append((a, b, self.block("case")))
        self.adv()
        return ("case", line, ("var", name[2], ("name", name[2], name[1])), clauses)

    def s_while(self):
        line = self.adv()[2]
        cond = self.expr()
        self.skipnl()
        if self.t() == "DO":
            self.adv()
        b = self.block()
        self.want("ENDWHILE")
        return ("while", line, cond, b)

    def s_repeat(self):
        line = self.adv()[2]
        b = self.block()
        self.want("UNTIL")
        return ("repeat", line, self.expr(), b)

    def s_for(self):
        line = self.adv()[2]
        name = self.want("ID")
        self.want("<-")
        a = self.arith()
        self.want("TO")
        b = self.arith()
        c = None
        if self.t() == "STEP":
            self.adv()
            c = self.arith()
        body = self.block()
        self.want("NEXT")
        if self.t() == "ID":
            if self.tok()[1] != name[1]:
                raise self.err("expected " + name[1])
            self.adv()
        return ("for", line, name[1], a, b, c, body)

    def args(self):
        self.adv()
        a = []
        if self.t() == ")":
            self.adv()
            return a
        a.append(self.expr())
        while self.t() == ",":
            self.adv()
            a.append(self.expr())
        self.want(")")
        return a

    def s_call(self):
        line = self.adv()[2]
        name = self.want("ID")[1]
        return ("call", line, name, self.args() if self.t() == "(" else [])

    def routine(self):
        kind, _, line = self.adv()
        name = self.want("ID")[1]
        params = []  # [name, type, byref]
        if self.t() == "(":
            self.adv()
            byref = False
            untyped = 0
            while self.t() != ")":
                if params:
                    self.want(",")
                if self.t() in ("BYREF", "BYVAL"):
                    byref = self.adv()[0] == "BYREF"
                pname = self.want("ID")[1]
                params.append([pname, None, byref])
                untyped += 1
                if self.t() == ":":
                    self.adv()
                    ty = self.typeref()
                    for p in params[-untyped:]:
                        p[1] = ty
                    untyped = 0
                elif self.t() != ",":
                    raise self.err("expected :")
            if untyped:
                raise self.err("expected data type")
            self.adv()
        if kind == "FUNCTION":
            self.skipnl()
            self.want("RETURNS")
            ret = self.typeref()
            body = self.block()
            end = self.want("ENDFUNCTION")[2]
            return ("function", line, name, params, ret, body, end)
        body = self.block()
        self.want("ENDPROCEDURE")
        return ("procedure", line, name, params, body)

    def s_output(self):
        line = self.adv()[2]
        e = [self.expr()]
        while self.t() == ",":
            self.adv()
            e.append(self.expr())
        return ("output", line, e)

    def s_input(self):
        line = self.adv()[2]
        if self.t() != "ID":
            raise self.err("expected variable")
        return ("input", line, self.lvalue())

    def s_openfile(self):
        line = self.adv()[2]
        f = self.strexpr()
        self.want("FOR")
        if self.t() not in ("READ", "WRITE", "APPEND", "RANDOM"):
            raise self.err("expected mode")
        return ("openfile", line, f, self.adv()[0])

    def s_filevar(self):
        op, _, line = self.adv()
        f = self.strexpr()
        self.want(",")
        v = self.want("ID")
        return (op.lower(), line, f, v[1])

    def s_writefile(self):
        line = self.adv()[2]
        f = self.strexpr()
        self.want(",")
        return ("writefile", line, f, self.expr())

    def s_seek(self):
        line = self.adv()[2]
        f = self.strexpr()
        self.want(",")
        return ("seek", line, f, self.expr())

    def s_closefile(self):
        line = self.adv()[2]
        return ("closefile", line, self.strexpr())

    # -- expressions
    def expr(self):
        self.depth += 1
        if self.depth > 200:
            raise Unspec("nesting")
        l = self.logical()
        while self.t() in ("=", "<>"):
            op, _, line = self.adv()
            l = ("cmp", line, op, l, self.logical())
        self.depth -= 1
        return l

    def logical(self):
        l = self.comparison()
        while self.t() in ("AND", "OR"):
            op, _, line = self.adv()
            l = ("logic", line, op, l, self.comparison())
        return l

    def comparison(self):
        if self.t() == "NOT":
            line = self.adv()[2]
            return ("not", line, self.comparison())
        l = self.strexpr()
        while self.t() in ("=", "<>", "<", ">", "<=", ">="):
            op, _, line = self.adv()
            l = ("cmp", line, op, l, self.strexpr())
        return l

    def strexpr(self):
        l = self.arith()
        while self.t() == "&":
            line = self.adv()[2]
            l = ("cat", line, l, self.arith())
        return l

    def arith(self):
        l = self.term()
        while self.t() in ("+", "-"):
            op, _, line = self.adv()
            l = ("arith", line, op, l, self.term())
        return l

    def term(self):
        l = self.factor()
        while self.t() in ("*", "/", "DIV", "MOD"):
            op, _, line = self.adv()
            l = ("arith", line, op, l, self.factor())
        return l

    def factor(self):
        if self.t() == "-":
            line = self.adv()[2]
            return ("neg", line, self.atom())
        return self.atom()

    def literal(self):
        t, v, line = self.tok()
        if t == "INT":
            x = int(v)
            if x > IMAX:
                raise syntax(line, "range")
            r = ("lit", line, INTEGER, x)
        elif t == "REAL":
            x = float(v)
            if math.isinf(x):
                raise syntax(line, "range")
            r = ("lit", line, REAL, x)
        elif t in ("TRUE", "FALSE"):
            r = ("lit", line, BOOLEAN, t == "TRUE")
        elif t == "CHAR":
            r = ("lit", line, CHAR, v)
        elif t == "STR":
            r = ("lit", line, STRING, v)
        else:
            r = ("date", line, tuple(int(x) for x in v.split("/")))
        self.adv()
        return r

    def atom(self):
        t, v, line = self.tok()
        if t in ("INT", "REAL", "TRUE", "FALSE", "CHAR", "STR", "DATE"):
            return self.literal()
        if t == "ID":
            if self.peek() == "(":
                self.adv()
                return ("fcall", line, v, self.args())
            lv = self.lvalue()
            if self.t() == "<-":
                aline = self.adv()[2]
                if self.t() == "^":
                    rline = self.adv()[2]
                    if self.t() != "ID":
                        raise self.err("expected identifier")
                    return ("ptrassign", rline, lv, self.lvalue())
                return ("assign", aline, lv, self.expr())
            return ("var", line, lv)
        if t == "(":
            self.adv()
            e = self.expr()
            self.want(")")
            return e
        if t == "DATATYPE":
            if self.pedantic:
                raise PsError("pedantic", [(None, line)], "cast")
            self.adv()
            self.want("(")
            e = self.expr()
            self.want(")")
            return ("cast", line, v, e)
        if t in ("MOD", "DIV") and self.peek() == "(":
            self.adv()
            self.adv()
            a = self.expr()
            self.want(",")
            b = self.expr()
            self.want(")")
            return ("arith", line, t, a, b)
        raise self.err("expected value")

    def lvalue(self):
        _, name, line = self.adv()
        lv = ("name", line, name)
        while True:
            t = self.t()
            if t == ".":
                l = self.adv()[2]
                lv = ("field", l, lv, self.want("ID")[1])
            elif t == "^":
                lv = ("deref", self.adv()[2], lv)
            elif t == "[":
                l = self.adv()[2]
                idx = [self.arith()]
                while self.t() == ",":
                    self.adv()
                    idx.append(self.arith())
                self.want("]")
                lv = ("index", l, lv, idx)
            else:
                return lv


STATEMENTS = {
    "RETURN": Parser.s_return, "BREAK": Parser.s_break, "CONTINUE": Parser.s_continue, "DECLARE": Parser.s_declare,
    "CONSTANT": Parser.s_constant, "TYPE": Parser.s_type, "IF": Parser.s_if, "CASE": Parser.s_case,
    "WHILE": Parser.s_while, "REPEAT": Parser.s_repeat, "FOR": Parser.s_for, "CALL": Parser.s_call,
    "OUTPUT": Parser.s_output, "INPUT": Parser.s_input, "READ": Parser.s_input, "OPENFILE": Parser.s_openfile,
    "READFILE": Parser.s_filevar, "GETRECORD": Parser.s_filevar, "PUTRECORD": Parser.s_filevar,
    "WRITEFILE": Parser.s_writefile, "SEEK": Parser.s_seek, "CLOSEFILE": Parser.s_closefile,
}


def source_text(data):
    """bytes of a program file -> text as the language sees it."""
    return data.decode("latin-1").replace("\r", "")


def check_syntax(data, pedantic=False):
    """None if the text is accepted, else the PsError. Also returns whether a '=' statement warns."""
    text = source_text(data) + "\n"
    try:
        p = Parser(lex(text, pedantic), pedantic)
        p.program()
        return None, p.warned
    except PsError as e:
        return e, False


# ---------------------------------------------------------------- values

class Type:
    __slots__ = ("kind", "name", "values", "target", "decls", "ctx")

    def __init__(self, kind, name, values=None, target=None, decls=None, ctx=None):
        self.kind, self.name = kind, name
        self.values, self.target, self.decls, self.ctx = values, target, decls, ctx

    def __repr__(self):
        return self.name


INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE = (Type(k, k) for k in DATATYPES)
NONE = Type("NONE", "NONE")
PRIM = {t.name: t for t in (INTEGER, REAL, BOOLEAN, CHAR, STRING, DATE)}
NOVALUE = (NONE, None)


class Cell:
    __slots__ = ("name", "type", "val", "const", "owner")

    def __init__(self, name, type_, val, const, owner):
        self.name, self.type, self.val, self.const, self.owner = name, type_, val, const, owner


class Arr:
    __slots__ = ("name", "type", "dims", "cells")

    def __init__(self, name, type_, dims, cells):
        self.name, self.type, self.dims, self.cells = name, type_, dims, cells


class Rec:
    __slots__ = ("type", "fields")

    def __init__(self, type_):
        self.type = type_
        self.fields = {}


class Ctx:
    __slots__ = ("parent", "name", "vars", "arrs", "types", "isfn", "rettype", "ret", "line", "active", "top")

    def __init__(self, parent, name, isfn=False, rettype=None):
        self.parent, self.name, self.isfn, self.rettype = parent, name, isfn, rettype
        self.vars, self.arrs, self.types = {}, {}, []
        self.ret = None
        self.line = None
        self.active = True
        self.top = parent.top if parent else self


class Break(Exception):
    def __init__(self, line):
        self.line = line


class Continue(Exception):
    def __init__(self, line):
        self.line = line


class Return(Exception):
    pass


class RandomFile:
    """Contents of a random file: a list of record snapshots."""
    __slots__ = ("recs",)

    def __init__(self, recs=()):
        self.recs = list(recs)

    def __eq__(self, o):
        return isinstance(o, RandomFile) and o.recs == self.recs


class Handle:
    __slots__ = ("name", "mode", "lines", "pos", "recs", "cur", "modified")


def has_call(n):
    if isinstance(n, tuple):
        if n and (n[0] in ("assign", "ptrassign") or n[0] == "fcall" and n[2] not in BUILTINS):
            return True
        return any(has_call(x) for x in n)
    return isinstance(n, list) and any(has_call(x) for x in n)


def wrap(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x


def real(x):
    if x != x or x in (math.inf, -math.inf):
        raise Unspec("inf/nan")
    return x


def fmt_real(x):
    real(x)
    s = "%.10g" % x
    return s + ".0" if math.modf(x)[0] == 0.0 else s


def real_str(x):
    real(x)
    s = ("%f" % x).rstrip("0")
    return s[:-1] if s.endswith(".") else s


def date_ok(d, m, y):
    if not (1 <= m <= 12 and 1 <= d <= 31 and -32767 <= y <= 32767):
        return False
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return d <= (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def days_from_civil(d, m, y):
    """Days since 1/1/1970, proleptic Gregorian (independent of any library)."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


STRTOL = re.compile(r"[ \t\n\v\f\r]*[-+]?\d+\Z")
STRTOD = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\Z")


def str_to_int(s):
    if STRTOL.match(s):
        if s[0] in " \t\n\v\f\r+":
            raise Unspec("odd numeral")
        x = int(s)
        if not IMIN <= x <= IMAX:
            raise Unspec("range")
        return x
    return 0


def str_to_real(s):
    if STRTOD.match(s):
        if s[0] == "+":
            raise Unspec("odd numeral")
        return real(float(s))
    if re.match(r"[ \t\n\v\f\r]|[-+]?(0[xX]|inf|nan)", s, re.I):
        raise Unspec("odd numeral")
    return 0.0


def upper(s):
    return "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)


def lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def b_mid(s, x, n):
    if x < 1 or x > len(s) or n < 0 or x - 1 + n > len(s):
        raise ValueError
    return s[x - 1:x - 1 + n]


def b_left(s, n):
    if n < 0 or n > len(s):
        raise ValueError
    return s[:n]


def b_right(s, n):
    if n < 0 or n > len(s):
        raise ValueError
    return s[len(s) - n:]


def b_isnum(s):
    if s in ("", "."):
        raise Unspec("IS_NUM of no digits")
    return bool(re.match(r"(\d+\.?\d*|\.\d+)\Z", s))


def b_setdate(d, m, y):
    if not date_ok(d, m, y):
        raise ValueError
    return (d, m, y)


def b_int(x):
    r = math.floor(x)
    if not IMIN <= r <= IMAX:
        raise Unspec("range")
    return r


def b_asc(c):
    x = ord(c)
    return x if x < 128 else x - 256


def unspec(*a):
    raise Unspec("nondeterministic or inexact")


BUILTINS = {
    "LENGTH": ([STRING], INTEGER, len), "LEFT": ([STRING, INTEGER], STRING, b_left),
    "RIGHT": ([STRING, INTEGER], STRING, b_right), "MID": ([STRING, INTEGER, INTEGER], STRING, b_mid),
    "TO_UPPER": ([STRING], STRING, upper), "TO_LOWER": ([STRING], STRING, lower),
    "NUM_TO_STR": ([REAL], STRING, real_str), "STR_TO_NUM": ([STRING], REAL, str_to_real),
    "IS_NUM": ([STRING], BOOLEAN, b_isnum), "LCASE": ([CHAR], CHAR, lower), "UCASE": ([CHAR], CHAR, upper),
    "ASC": ([CHAR], INTEGER, b_asc), "CHR": ([INTEGER], CHAR, lambda n: chr(n & 255)),
    "DAY": ([DATE], INTEGER, lambda d: d[0]), "MONTH": ([DATE], INTEGER, lambda d: d[1]),
    "YEAR": ([DATE], INTEGER, lambda d: d[2]),
    "DAYINDEX": ([DATE], INTEGER, lambda d: (days_from_civil(*d) + 4) % 7 + 1 if date_ok(*d) else unspec()),
    "SETDATE": ([INTEGER, INTEGER, INTEGER], DATE, b_setdate), "INT": ([REAL], INTEGER, b_int),
    "EOF": ([STRING], BOOLEAN, None), "TODAY": ([], DATE, unspec), "TIME": ([], INTEGER, unspec),
    "HOURS": ([], INTEGER, unspec), "MINUTES": ([], INTEGER, unspec), "SECONDS": ([], INTEGER, unspec),
    "RAND": ([INTEGER], REAL, unspec),
    "POW": ([REAL, REAL], REAL, lambda x, y: exact_pow(x, y)), "SQRT": ([REAL], REAL, lambda x: exact_sqrt(x)),
}
for _n, _k in (("EXP", 1), ("SIN", 1), ("COS", 1), ("TAN", 1), ("ASIN", 1), ("ACOS", 1), ("ATAN", 1), ("ATAN2", 2),
               ("LOG", 1), ("LN", 1)):
    BUILTINS[_n] = ([REAL] * _k, REAL, unspec)


def exact_sqrt(x):
    if x < 0:
        raise Unspec("nan")
    return math.sqrt(x)


def exact_pow(x, y):
    try:
        return real(math.pow(x, y))
    except (OverflowError, ValueError):
        raise Unspec("pow")


# ---------------------------------------------------------------- evaluator

class Model:
    max_string = 50000

    def __init__(self, stdin=b"", files=None, pedantic=False, max_steps=20000):
        self.out = []
        self.inp = stdin.decode("latin-1")
        self.echo_input = False
        self.ipos = 0
        self.fs = dict(files or {})      # name -> bytes | RandomFile
        self.dirs = set()
        self.handles = {}
        self.pedantic = pedantic
        self.repl = False
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth, self.max_cells = (90, 20000) if max_steps <= 20000 else (300, 300000)
        self.cells = 0
        self.procs = {}
        self.funcs = {}
        self.g = Ctx(None, "Program")
        self.depth = 0
        self.events = {}
        self.touched = False
        self.reserved = set()            # files which an enclosing session holds open

    # -- running
    def run_file(self, data):
        """Runs a program text in file mode. Returns the PsError or None. Files are closed at the end."""
        text = source_text(data) + "\n"
        err = None
        try:
            p = Parser(lex(text, self.pedantic), self.pedantic)
            self.main(self.parsed(p))
        except PsError as e:
            self.out.append("\n")
            err = e
        except RecursionError:
            raise Unspec("recursion")
        self.close_all()
        return err

    def parsed(self, p):
        try:
            return p.program()
        finally:
            # whether or not an error follows
            if p.warned:
                raise Unspec("warning text")

    def main(self, prog):
        try:
            self.block(prog, self.g)
        except Break as e:
            raise self.rt(self.g, e.line)
        except Continue as e:
            raise self.rt(self.g, e.line)

    def entry(self, text):
        """One REPL entry (without the trailing line break). Returns the PsError or None."""
        self.repl = True
        try:
            p = Parser(lex(text.replace("\r", ""), self.pedantic), self.pedantic)
            self.main(self.parsed(p))
        except PsError as e:
            self.out.append("\n")
            # the activations that the error left are gone
            self.depth = 0
            return e
        except RecursionError:
            raise Unspec("recursion")
        return None

    def close_all(self):
        for h in list(self.handles.values()):
            self.close(h)
        self.handles.clear()

    def output(self):
        return "".join(self.out).encode("latin-1")

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    def rt(self, ctx, line, cls=PsError, what=""):
        frames = [(ctx.name, line)]
        c = ctx.parent
        while c is not None:
            frames.append((c.name, c.line))
            c = c.parent
        return cls("runtime", frames, what)

    def block(self, nodes, ctx):
        repl = self.repl
        for n in nodes:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unspec("steps")
            r = EVAL[n[0]](self, n, ctx)
            if repl and r[0] is not NONE:
                self.out.append(self.echo(r, ctx) + "\n")

    def echo(self, r, ctx):
        t, v = r
        k = t.kind
        if k == "CHAR":
            return "'" + v + "'"
        if k == "STRING":
            return '"' + v + '"'
        if k == "ENUM":
            return t.name + ": " + t.values[v]
        if k == "POINTER":
            return t.name + ": " + (v.name if v is not None and v.owner.active else "{DELETED}")
        return self.text(r)

    def text(self, r):
        t, v = r
        k = t.kind
        if k == "INTEGER":
            return str(v)
        if k == "REAL":
            return fmt_real(v)
        if k == "BOOLEAN":
            return "TRUE" if v else "FALSE"
        if k in ("CHAR", "STRING"):
            return v
        if k == "DATE":
            return "%d/%d/%d" % v
        if k == "ENUM":
            return t.values[v]
        return t.name + " object"

    # -- types
    def find_type(self, name, ctx, glob=True):
        for kind in ("ENUM", "POINTER", "RECORD"):
            for t in ctx.types:
                if t.kind == kind and t.name == name:
                    return t
        if glob and ctx.parent is not None:
            return self.find_type(name, ctx.top, False)
        return None

    def typeref(self, tok, ctx):
        if tok[0] == "DATATYPE":
            return PRIM[tok[1]]
        return self.find_type(tok[1], ctx)

    def enum_element(self, name, ctx, glob=True):
        for t in ctx.types:
            if t.kind == "ENUM" and name in t.values:
                return (t, t.values.index(name))
        if glob and ctx.parent is not None:
            return self.enum_element(name, ctx.top, False)
        return None

    def is_type_name(self, name, ctx, glob=True):
        return self.find_type(name, ctx, glob) is not None or self.enum_element(name, ctx, glob) is not None

    def default(self, t, ctx, owner, rec_stack=(), line=None):
        k = t.kind
        if k == "INTEGER":
            return 0
        if k == "REAL":
            return 0.0
        if k == "BOOLEAN":
            return False
        if k == "CHAR":
            return "\0"
        if k == "STRING":
            return ""
        if k == "DATE":
            return (0, 0, 0)
        if k == "ENUM":
            return 0
        if k == "POINTER":
            return None
        return self.new_record(t, ctx, owner, rec_stack, line)

    def new_record(self, t, ctx, owner, rec_stack, line):
        """A record is set up by its field declarations; types are looked up where the record type was defined."""
        r = Rec(t)
        saved = ctx.line
        ctx.line = line
        sub = Ctx(ctx, t.name)
        if len(rec_stack) > 100:
            raise Unspec("nesting")
        stack = rec_stack + (t,)
        for d in t.decls:
            self.steps += 1
            if d[0] == "declare":
                for name in d[2]:
                    if name in sub.vars:
                        raise self.rt(sub, d[1])
                    if self.is_type_name(name, sub):
                        # the fields' scope has no types of its own
                        raise self.rt(sub, d[1])
                    ft = self.typeref(d[3], t.ctx)
                    if ft is None:
                        raise self.rt(sub, d[1])
                    if ft in stack:
                        raise self.rt(sub, d[1])
                    c = Cell(name, ft, self.default(ft, sub, owner, stack, d[1]), False, owner)
                    sub.vars[name] = c
            else:
                self.decl_array(d, sub, t.ctx, owner, stack)
        ctx.line = saved
        for n, c in sub.vars.items():
            r.fields[n] = c
        for n, a in sub.arrs.items():
            if n in r.fields:
                raise Unspec("field and array field of the same name")
            r.fields[n] = a
        return r

    def decl_array(self, d, ctx, tctx, owner, stack=()):
        _, line, names, tref, bounds = d
        for n in names:
            if n in ctx.arrs:
                raise self.rt(ctx, line)
        dims = []
        for lo, hi in bounds:
            lv = self.eval(lo, ctx)
            if lv[0] is not INTEGER:
                raise self.rt(ctx, line)
            hv = self.eval(hi, ctx)
            if hv[0] is not INTEGER:
                raise self.rt(ctx, line)
            if hv[1] < lv[1]:
                raise self.rt(ctx, line)
            dims.append((lv[1], hv[1]))
        size = 1
        for lo, hi in dims:
            size *= hi - lo + 1
        for n in names:
            t = self.typeref(tref, tctx)
            if t is None:
                raise self.rt(ctx, line)
            if t in stack:
                raise self.rt(ctx, line)
            self.cells += size
            if self.cells > self.max_cells:
                raise Unspec("cells")
            cells = []
            a = Arr(n, t, tuple(dims), cells)
            for _ in range(size):
                cells.append(Cell(n, t, self.default(t, ctx, owner, stack, line), False, owner))
            if n in ctx.arrs:
                raise Unspec("same name twice")
            ctx.arrs[n] = a

    # -- values
    def copy(self, t, v, owner):
        if t.kind != "RECORD":
            return v
        r = Rec(v.type)
        for n, f in v.fields.items():
            if isinstance(f, Cell):
                r.fields[n] = Cell(f.name, f.type, self.copy(f.type, f.val, owner), f.const, owner)
            else:
                r.fields[n] = Arr(f.name, f.type, f.dims,
                                  [Cell(c.name, c.type, self.copy(c.type, c.val, owner), c.const, owner)
                                   for c in f.cells])
        return r

    def store(self, cell, v):
        """Copies a value of the cell's own type into it, field by field for records."""
        if cell.type.kind != "RECORD":
            cell.val = v
            return
        for n, f in cell.val.fields.items():
            o = v.fields[n]
            if isinstance(f, Cell):
                self.store(f, o.val)
            else:
                for a, b in zip(f.cells, o.cells):
                    self.store(a, b.val)

    def same_layout(self, a, b):
        for n, f in a.fields.items():
            o = b.fields[n]
            if isinstance(f, Cell):
                if f.type.kind == "RECORD" and not self.same_layout(f.val, o.val):
                    return False
            elif not self.same_arr(f, o):
                return False
        return True

    def same_arr(self, a, b):
        if a.dims != b.dims:
            return False
        if a.type.kind == "RECORD":
            return all(self.same_layout(x.val, y.val) for x, y in zip(a.cells, b.cells))
        return True

    def implicit(self, r, target):
        t, v = r
        if target is REAL and t is INTEGER:
            return (REAL, float(v))
        if target is CHAR and t is STRING and len(v) == 1:
            return (CHAR, v)
        if target is STRING and t is CHAR:
            return (STRING, v)
        return r

    # -- names
    def lookup(self, name, ctx):
        h = ctx.vars.get(name)
        if h is None:
            h = ctx.arrs.get(name)
            if h is None and ctx.parent is not None:
                h = ctx.top.vars.get(name)
                if h is None:
                    h = ctx.top.arrs.get(name)
        return h

    def getvar(self, name, ctx):
        h = ctx.vars.get(name)
        if h is None and ctx.parent is not None:
            h = ctx.top.vars.get(name)
        return h

    def resolve(self, lv, ctx):
        k = lv[0]
        if k == "name":
            h = self.lookup(lv[2], ctx)
            if h is None:
                raise self.rt(ctx, lv[1], NotDefined)
            return h
        if k == "field":
            h = self.resolve(lv[2], ctx)
            if isinstance(h, Arr) or h.type.kind != "RECORD":
                raise self.rt(ctx, lv[1])
            f = h.val.fields.get(lv[3])
            if f is None:
                raise self.rt(ctx, lv[1])
            return f
        if k == "deref":
            h = self.resolve(lv[2], ctx)
            if isinstance(h, Arr) or h.type.kind != "POINTER":
                raise self.rt(ctx, lv[1])
            if h.val is None:
                self.ev("deref_unset")
                raise self.rt(ctx, lv[1])
            if not h.val.owner.active:
                self.ev("deref_dead")
                raise self.rt(ctx, lv[1])
            self.ev("deref")
            return h.val
        h = self.resolve(lv[2], ctx)
        if not isinstance(h, Arr):
            raise self.rt(ctx, lv[1])
        if len(lv[3]) != len(h.dims):
            self.ev("index_count")
            raise self.rt(ctx, lv[1])
        pos, mul = 0, 1
        for e, (lo, hi) in zip(lv[3], h.dims):
            r = self.eval(e, ctx)
            if r[0] is not INTEGER:
                self.ev("index_type")
                raise self.rt(ctx, e[1])
            if not lo <= r[1] <= hi:
                self.ev("index_range")
                raise self.rt(ctx, e[1])
            pos += (r[1] - lo) * mul
            mul *= hi - lo + 1
        self.ev("index")
        return h.cells[pos]

    # -- expressions
    def eval(self, n, ctx):
        return EVAL[n[0]](self, n, ctx)

    def e_lit(self, n, ctx):
        return (n[2], n[3])

    def e_date(self, n, ctx):
        if not date_ok(*n[2]):
            raise self.rt(ctx, n[1])
        if n[2][2] < 1:
            raise Unspec("year")
        return (DATE, n[2])

    def e_var(self, n, ctx):
        lv = n[2]
        try:
            h = self.resolve(lv, ctx)
        except NotDefined:
            # only a name alone can be an enum value
            e = self.enum_element(lv[2], ctx) if lv[0] == "name" else None
            if e is not None:
                return e
            raise
        if isinstance(h, Arr):
            x = self.rt(ctx, n[1], ArrDirect)
            x.ctx, x.array, x.node = ctx, h, n
            raise x
        if h.type.kind == "RECORD":
            return (h.type, self.copy(h.type, h.val, h.owner))
        return (h.type, h.val)

    def e_neg(self, n, ctx):
        t, v = self.eval(n[2], ctx)
        if t is INTEGER:
            return (t, wrap(-v))
        if t is REAL:
            return (t, v * -1.0)
        raise self.rt(ctx, n[1])

    def e_arith(self, n, ctx):
        _, line, op, le, re_ = n
        lt, lv = self.eval(le, ctx)
        rt, rv = self.eval(re_, ctx)
        if op in "+-" and (lt.kind == "ENUM" and rt is INTEGER or lt is INTEGER and rt.kind == "ENUM"):
            et = lt if lt.kind == "ENUM" else rt
            x = lv + rv if op == "+" else lv - rv
            return (et, x % len(et.values))
        if (lt is not INTEGER and lt is not REAL) or (rt is not INTEGER and rt is not REAL):
            raise self.rt(ctx, line, what="operand type")
        if lt is INTEGER and rt is INTEGER:
            if op == "+":
                return (INTEGER, wrap(lv + rv))
            if op == "-":
                return (INTEGER, wrap(lv - rv))
            if op == "*":
                return (INTEGER, wrap(lv * rv))
            if rv == 0:
                raise self.rt(ctx, line, what="division by 0")
            if op == "/":
                return (REAL, float(lv) / float(rv))
            if (lv < 0 or rv < 0) and lv % rv != 0:
                raise Unspec("rounding direction")
            q = lv // rv
            return (INTEGER, wrap(q)) if op == "DIV" else (INTEGER, lv - q * rv)
        a, b = float(lv), float(rv)
        if op == "+":
            return (REAL, real(a + b))
        if op == "-":
            return (REAL, real(a - b))
        if op == "*":
            return (REAL, real(a * b))
        if b == 0:
            raise self.rt(ctx, line, what="division by 0")
        if op == "/":
            return (REAL, real(a / b))
        q = math.floor(real(a / b))
        if a < 0 or b < 0 or abs(q) > 2 ** 40:
            raise Unspec("rounding direction")
        if op == "DIV":
            return (INTEGER, q)
        if a * 8 != math.floor(a * 8) or b * 8 != math.floor(b * 8) or abs(a) > 1000 or abs(b) > 1000:
            raise Unspec("MOD of REALs is inexact")
        z = a / b
        return (REAL, real((z - math.floor(z)) * b))

    def e_cmp(self, n, ctx):
        _, line, op, le, re_ = n
        lt, lv = self.eval(le, ctx)
        rt, rv = self.eval(re_, ctx)
        if lt is NONE or rt is NONE:
            raise Unspec("comparison of nothing")
        if lt is CHAR and rt is CHAR:
            lv, rv = b_asc(lv), b_asc(rv)
            if op not in ("=", "<>") and (lv < 0 or rv < 0):
                raise Unspec("CHAR order above 127")
        elif lt is DATE and rt is DATE:
            if op not in ("=", "<>") and not (date_ok(*lv) and date_ok(*rv)):
                raise Unspec("default DATE")
            lv, rv = (lv[2], lv[1], lv[0]), (rv[2], rv[1], rv[0])
        elif lt in (INTEGER, REAL) and rt in (INTEGER, REAL):
            if lt is not rt:
                lv, rv = float(lv), float(rv)
        else:
            if op not in ("=", "<>"):
                raise self.rt(ctx, line)
            if lt is not rt:
                # values of different types are different
                if lt.kind == rt.kind and lt.kind in ("POINTER", "RECORD", "ENUM"):
                    raise Unspec("comparison across types")
                eq = False
            elif lt.kind in ("BOOLEAN", "STRING", "ENUM"):
                eq = lv == rv
            else:
                raise self.rt(ctx, line)
            return (BOOLEAN, eq == (op == "="))
        r = {"=": lv == rv, "<>": lv != rv, "<": lv < rv, ">": lv > rv, "<=": lv <= rv, ">=": lv >= rv}[op]
        return (BOOLEAN, r)

    def e_logic(self, n, ctx):
        _, line, op, le, re_ = n
        lt, lv = self.eval(le, ctx)
        if op == "AND" and lt is BOOLEAN and not lv:
            # whether the right operand is evaluated is not fixed, so only the cases where it cannot matter are judged
            if has_call(re_):
                raise Unspec("short circuit")
            try:
                rt, rv = self.eval(re_, ctx)
            except PsError:
                raise Unspec("short circuit")
            if rt is not BOOLEAN:
                raise Unspec("short circuit")
            return (BOOLEAN, False)
        rt, rv = self.eval(re_, ctx)
        if lt is not BOOLEAN or rt is not BOOLEAN:
            raise self.rt(ctx, line)
        return (BOOLEAN, (lv and rv) if op == "AND" else (lv or rv))

    def e_not(self, n, ctx):
        t, v = self.eval(n[2], ctx)
        if t is not BOOLEAN:
            raise self.rt(ctx, n[1])
        return (BOOLEAN, not v)

    def to_string(self, r):
        t, v = r
        if t is REAL:
            return real_str(v)
        return self.text(r)

    def e_cat(self, n, ctx):
        l = self.eval(n[2], ctx)
        r = self.eval(n[3], ctx)
        for t in (l[0], r[0]):
            if t.name not in PRIM or t.kind != t.name:
                raise self.rt(ctx, n[1])
        s = self.to_string(l) + self.to_string(r)
        if len(s) > self.max_string:
            raise Unspec("long string")
        return (STRING, s)

    def e_cast(self, n, ctx):
        _, line, target, e = n
        t, v = self.eval(e, ctx)
        if t is NONE or t.kind != t.name or t.name not in PRIM:
            raise self.rt(ctx, line)
        tt = PRIM[target]
        if t is tt:
            return (t, v)
        if tt is DATE:
            raise self.rt(ctx, line)
        if t is DATE:
            if tt is STRING:
                return (STRING, self.text((t, v)))
            if tt is INTEGER:
                raise Unspec("DATE as INTEGER")
            raise self.rt(ctx, line)
        if tt is STRING:
            return (STRING, self.to_string((t, v)))
        if tt is BOOLEAN:
            if t in (INTEGER, REAL):
                return (tt, v != 0)
            if t is CHAR:
                return (tt, v != "\0")
            return (tt, len(v) > 0)
        if t is STRING:
            if tt is INTEGER:
                return (tt, str_to_int(v))
            if tt is REAL:
                return (tt, str_to_real(v))
            raise Unspec("STRING to CHAR cast")
        if t is CHAR:
            x = b_asc(v)
            if x < 0:
                raise Unspec("CHAR code above 127")
            return (tt, x if tt is INTEGER else float(x))
        if tt is CHAR:
            if t is REAL or not 0 <= int(v) <= 127:
                raise Unspec("CHAR cast")
            return (tt, chr(int(v)))
        if t is BOOLEAN:
            return (tt, int(v) if tt is INTEGER else float(v))
        if tt is REAL:
            return (tt, float(v))
        if abs(v) > 2.0 ** 62:
            raise Unspec("range")
        return (tt, int(v))

    # -- statements
    def e_declare(self, n, ctx):
        _, line, names, tref = n
        for name in names:
            if name in ctx.vars:
                raise self.rt(ctx, line)
            if self.is_type_name(name, ctx):
                raise self.rt(ctx, line)
            t = self.typeref(tref, ctx)
            if t is None:
                raise self.rt(ctx, line)
            if name in ctx.arrs:
                raise Unspec("variable and array of the same name")
            ctx.vars[name] = Cell(name, t, self.default(t, ctx, ctx, (), line), False, ctx)
        return NOVALUE

    def e_declarr(self, n, ctx):
        for name in n[2]:
            if name in ctx.vars or self.is_type_name(name, ctx):
                raise Unspec("array named like something else")
        self.decl_array(n, ctx, ctx, ctx)
        return NOVALUE

    def e_const(self, n, ctx):
        _, line, name, e = n
        t, v = self.eval(e, ctx)
        if name in ctx.vars:
            raise self.rt(ctx, line)
        if name in ctx.arrs or self.is_type_name(name, ctx):
            raise Unspec("constant named like something else")
        ctx.vars[name] = Cell(name, t, v, True, ctx)
        self.ev("constant")
        return NOVALUE

    def e_typeenum(self, n, ctx):
        _, line, name, vals = n
        if self.is_type_name(name, ctx, False):
            raise self.rt(ctx, line)
        if len(set(vals)) != len(vals):
            raise Unspec("duplicate names")
        for v in vals + [name]:
            if self.is_type_name(v, ctx) or self.lookup(v, ctx) is not None:
                # a local type may reuse a name that a global type gives to one of its values
                if v != name and ctx.parent is not None and self.lookup(v, ctx) is None and not self.is_type_name(v, ctx, False) and self.find_type(v, ctx) is None:
                    continue
                if v != name or self.lookup(v, ctx) is not None:
                    raise Unspec("name clash")
        ctx.types.append(Type("ENUM", name, values=list(vals), ctx=ctx))
        return NOVALUE

    def e_typeptr(self, n, ctx):
        _, line, name, tref = n
        t = self.typeref(tref, ctx)
        if t is None:
            raise self.rt(ctx, line)
        if self.is_type_name(name, ctx, False):
            raise self.rt(ctx, line)
        ctx.types.append(Type("POINTER", name, target=t, ctx=ctx))
        return NOVALUE

    def e_typerec(self, n, ctx):
        _, line, name, decls = n
        if self.is_type_name(name, ctx, False):
            raise self.rt(ctx, line)
        ctx.types.append(Type("RECORD", name, decls=decls, ctx=ctx))
        return NOVALUE

    def e_assign(self, n, ctx):
        _, line, lv, e = n
        try:
            r = self.eval(e, ctx)
        except ArrDirect as x:
            if x.ctx is not ctx or x.node is not e:
                raise
            src = x.array
            dst = self.resolve(lv, ctx)
            if not isinstance(dst, Arr):
                raise x
            if dst.type is not src.type or dst.dims != src.dims or not self.same_arr(dst, src):
                raise self.rt(ctx, line)
            vals = [self.copy(c.type, c.val, c.owner) for c in src.cells]
            for c, v in zip(dst.cells, vals):
                self.store(c, v)
            self.ev("array_assign")
            return NOVALUE
        try:
            h = self.resolve(lv, ctx)
            if isinstance(h, Arr):
                raise self.rt(ctx, line, ArrDirect)
        except NotDefined:
            if lv[0] != "name" or self.is_type_name(lv[2], ctx):
                raise
            if self.pedantic:
                raise PsError("pedantic", [(None, line)])
            if r[0] is NONE:
                raise self.rt(ctx, line)
            ctx.vars[lv[2]] = Cell(lv[2], r[0], self.copy(r[0], r[1], ctx), False, ctx)
            self.ev("implicit_declare")
            return NOVALUE
        if h.const:
            self.ev("const_reject")
            raise self.rt(ctx, line)
        r = self.implicit(r, h.type)
        if r[0] is not h.type:
            self.ev("type_reject")
            raise self.rt(ctx, line)
        if h.type.kind == "RECORD":
            if not self.same_layout(h.val, r[1]):
                raise self.rt(ctx, line)
            self.ev("record_assign")
        self.store(h, r[1])
        self.ev("assign")
        return NOVALUE

    def e_ptrassign(self, n, ctx):
        _, line, plv, vlv = n
        p = self.resolve(plv, ctx)
        if isinstance(p, Arr):
            raise self.rt(ctx, line)
        v = self.resolve(vlv, ctx)
        if isinstance(v, Arr):
            raise self.rt(ctx, line)
        if p.type.kind != "POINTER":
            raise self.rt(ctx, line)
        if p.type.target is not v.type:
            self.ev("ptr_type_reject")
            raise self.rt(ctx, line)
        p.val = v
        self.ev("ptr_assign")
        return NOVALUE

    def cond(self, e, ctx, line):
        t, v = self.eval(e, ctx)
        if t is not BOOLEAN:
            raise self.rt(ctx, line, what="condition")
        return v

    def e_if(self, n, ctx):
        for l2, cond, body in n[2]:
            if cond is None:
                self.ev("else")
                self.block(body, ctx)
                break
            if self.cond(cond, ctx, frozenset((n[1], l2, cond[1]))):
                self.ev("branch")
                self.block(body, ctx)
                break
        return NOVALUE

    def e_case(self, n, ctx):
        t, v = self.eval(n[2], ctx)
        for a, b, body in n[3]:
            if a is None:
                m = True
                self.ev("otherwise")
            elif b is None:
                ct, cv = self.eval(a, ctx)
                if ct is NONE:
                    raise Unspec("no value")
                if {t, ct} == {INTEGER, REAL}:
                    m = float(v) == float(cv)
                elif ct is not t:
                    m = False
                elif t.kind in ("POINTER", "RECORD"):
                    raise Unspec("CASE on " + t.kind)
                else:
                    m = v == cv
            else:
                if t is CHAR:
                    raise Unspec("CHAR range")
                if t is not INTEGER and t is not REAL:
                    raise Unspec("range of non-numbers")
                lo = self.eval(a, ctx)
                if lo[0] not in (INTEGER, REAL):
                    raise self.rt(ctx, a[1])
                hi = self.eval(b, ctx)
                if hi[0] not in (INTEGER, REAL):
                    raise self.rt(ctx, b[1])
                if t is INTEGER and lo[0] is INTEGER and hi[0] is INTEGER:
                    m = lo[1] <= v <= hi[1]
                else:
                    m = float(lo[1]) <= float(v) <= float(hi[1])
                if m:
                    self.ev("case_range")
            if m:
                self.ev("case_match")
                self.block(body, ctx)
                break
        return NOVALUE

    def e_while(self, n, ctx):
        while self.cond(n[2], ctx, n[1]):
            self.tick()
            self.ev("iteration")
            try:
                self.block(n[3], ctx)
            except Break:
                self.ev("break")
                break
            except Continue:
                self.ev("continue")
        return NOVALUE

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unspec("steps")

    def e_repeat(self, n, ctx):
        while True:
            self.tick()
            self.ev("iteration")
            try:
                self.block(n[3], ctx)
            except Break:
                self.ev("break")
                break
            except Continue:
                self.ev("continue")
            if self.cond(n[2], ctx, frozenset((n[1], n[2][1]))):
                break
        return NOVALUE

    def e_for(self, n, ctx):
        _, line, name, ae, be, ce, body = n
        it = self.getvar(name, ctx)
        if it is None:
            if self.is_type_name(name, ctx) or name in ctx.arrs:
                raise Unspec("iterator named like something else")
            it = Cell(name, INTEGER, 0, False, ctx)
            ctx.vars[name] = it
        if it.const:
            self.ev("const_reject")
            raise self.rt(ctx, line)
        if it.type is not INTEGER:
            raise self.rt(ctx, line)
        vals = []
        for e in (ae, be, ce):
            if e is None:
                vals.append(1)
                continue
            t, v = self.eval(e, ctx)
            if t is not INTEGER:
                raise self.rt(ctx, line)
            vals.append(v)
        start, stop, step = vals
        if step == 0:
            raise Unspec("step 0")
        it.val = start
        while (it.val >= stop) if step < 0 else (it.val <= stop):
            self.tick()
            self.ev("iteration")
            try:
                self.block(body, ctx)
            except Break:
                self.ev("break")
                break
            except Continue:
                self.ev("continue")
            x = it.val + step
            if not IMIN <= x <= IMAX:
                raise Unspec("iterator overflow")
            it.val = x
        return NOVALUE

    def e_break(self, n, ctx):
        raise Break(n[1])

    def e_continue(self, n, ctx):
        raise Continue(n[1])

    def e_return(self, n, ctx):
        if not ctx.isfn:
            raise self.rt(ctx, n[1])
        r = self.implicit(self.eval(n[2], ctx), ctx.rettype)
        if r[0] is not ctx.rettype:
            raise self.rt(ctx, n[1])
        ctx.ret = r
        raise Return()

    # -- calls
    def params(self, n, ctx):
        ps = []
        for name, tref, byref in n[3]:
            t = self.typeref(tref, ctx)
            if t is None:
                raise self.rt(ctx, tref[2])
            ps.append((name, t, byref))
        return ps

    def e_procedure(self, n, ctx):
        if n[2] in self.procs:
            raise self.rt(ctx, n[1])
        self.procs[n[2]] = (self.params(n, ctx), n[4])
        return NOVALUE

    def e_function(self, n, ctx):
        if n[2] in self.funcs or n[2] in BUILTINS:
            raise self.rt(ctx, n[1])
        ret = self.typeref(n[4], ctx)
        if ret is None:
            raise self.rt(ctx, n[4][2])
        self.funcs[n[2]] = (self.params(n, ctx), n[5], ret, frozenset(range(n[1], n[6] + 1)))
        return NOVALUE

    def bind(self, ps, args, ctx, line, name, isfn, rettype):
        """Evaluates the arguments left to right, then checks and binds them in a new activation."""
        vals = []
        for i, a in enumerate(args):
            if len(args) == len(ps) and ps[i][2] and a[0] == "var":
                h = self.resolve(a[2], ctx)
                if isinstance(h, Arr):
                    raise self.rt(ctx, line)
                vals.append(h)
            else:
                vals.append(self.eval(a, ctx))
        if len(args) != len(ps):
            raise self.rt(ctx, line)
        new = Ctx(ctx, name, isfn, rettype)
        ctx.line = line
        for v, (pn, pt, byref) in zip(vals, ps):
            if byref:
                if not isinstance(v, Cell):
                    raise self.rt(ctx, line)
                if v.type is not pt:
                    raise self.rt(ctx, line)
                new.vars[pn] = v
                self.ev("byref")
            else:
                r = self.implicit(v, pt)
                if r[0] is not pt:
                    raise self.rt(ctx, line)
                new.vars[pn] = Cell(pn, pt, self.copy(pt, r[1], new), False, new)
                self.ev("byval")
        if len(set(p[0] for p in ps)) != len(ps):
            raise Unspec("duplicate parameter names")
        return new

    def e_call(self, n, ctx):
        _, line, name, args = n
        p = self.procs.get(name)
        if p is None:
            raise self.rt(ctx, line)
        new = self.bind(p[0], args, ctx, line, name, False, None)
        self.enter(new, p[1])
        return NOVALUE

    def enter(self, new, body):
        self.depth += 1
        self.ev("call")
        if self.depth > self.max_depth:
            raise Unspec("call depth")
        try:
            self.block(body, new)
        except Break as e:
            raise self.rt(new, e.line)
        except Continue as e:
            raise self.rt(new, e.line)
        finally:
            new.active = False
            self.depth -= 1

    def e_fcall(self, n, ctx):
        _, line, name, args = n
        b = BUILTINS.get(name)
        if b is not None:
            ps = [("p%d" % i, t, False) for i, t in enumerate(b[0])]
            new = self.bind(ps, args, ctx, line, name, True, b[1])
            vals = [c.val for c in new.vars.values()]
            if name == "EOF":
                h = self.handles.get(vals[0])
                if h is None or h.mode != "READ":
                    self.ev("file_reject")
                    raise self.rt(new, 0)
                self.ev("eof")
                return (BOOLEAN, h.pos >= len(h.lines))
            try:
                return (b[1], b[2](*vals))
            except ValueError:
                raise self.rt(new, 0)
        f = self.funcs.get(name)
        if f is None:
            raise self.rt(ctx, line)
        new = self.bind(f[0], args, ctx, line, name, True, f[2])
        try:
            self.enter(new, f[1])
        except Return:
            pass
        if new.ret is None:
            raise self.rt(new, f[3])
        return new.ret

    # -- input and output
    def e_output(self, n, ctx):
        for e in n[2]:
            r = self.eval(e, ctx)
            if r[0] is NONE:
                raise self.rt(ctx, n[1])
            self.out.append(self.text(r))
        self.out.append("\n")
        self.ev("output")
        return NOVALUE

    def readline(self):
        if self.ipos >= len(self.inp):
            return ""
        j = self.inp.find("\n", self.ipos)
        if j < 0:
            j = len(self.inp)
        s = self.inp[self.ipos:j]
        if self.echo_input and self.ipos < len(self.inp):
            self.out.append(s + "\n")
        self.ipos = j + 1
        return s

    def e_input(self, n, ctx):
        lv = n[2]
        try:
            h = self.resolve(lv, ctx)
            if isinstance(h, Arr):
                raise self.rt(ctx, n[1])
        except NotDefined:
            if lv[0] != "name" or self.is_type_name(lv[2], ctx):
                raise
            if self.pedantic:
                raise PsError("pedantic", [(None, n[1])])
            h = ctx.vars[lv[2]] = Cell(lv[2], STRING, "", False, ctx)
        if h.const:
            self.ev("const_reject")
            raise self.rt(ctx, n[1])
        if h.type.kind != h.type.name or h.type is DATE:
            self.touched = True   # whether the line was consumed is not fixed
            raise self.rt(ctx, n[1])
        s = self.readline()
        if "\r" in s:
            raise Unspec("carriage return")
        if h.type is INTEGER:
            h.val = str_to_int(s)
        elif h.type is REAL:
            h.val = str_to_real(s)
        elif h.type is BOOLEAN:
            h.val = s == "TRUE"
        elif h.type is CHAR:
            if len(s) > 1:
                raise Unspec("long line for CHAR")
            h.val = s if s else "\0"
        else:
            h.val = s
        self.ev("input")
        return NOVALUE

    # -- files
    def fname(self, e, ctx, line):
        t, v = self.eval(e, ctx)
        if t is not STRING:
            raise self.rt(ctx, line)
        return v

    def e_openfile(self, n, ctx):
        _, line, fe, mode = n
        name = self.fname(fe, ctx, line)
        if not re.match(r"[A-Za-z0-9_.]+\Z", name) or name in (".", "..", "prog.ps") or len(name) > 200:
            if name + "/" not in self.dirs and not name.startswith("nodir/") and name != "":
                raise Unspec("file name")
        if name in self.reserved:
            raise Unspec("file open in the enclosing session")
        if name in self.handles:
            self.ev("file_reject")
            raise self.rt(ctx, line)
        if name == "" or name in self.dirs or name + "/" in self.dirs or name.startswith("nodir/"):
            self.ev("open_fail")
            raise self.rt(ctx, line)
        cur = self.fs.get(name)
        if cur is None and mode in ("READ", "APPEND"):
            self.ev("open_missing")
            raise self.rt(ctx, line)
        h = Handle()
        h.name, h.mode, h.modified = name, mode, False
        if mode == "RANDOM":
            if cur is None or cur == b"":
                cur = RandomFile()
                if name not in self.fs:
                    self.fs[name] = b""
            if not isinstance(cur, RandomFile):
                raise Unspec("text file opened FOR RANDOM")
            h.recs = list(cur.recs)
            h.cur = 0
        else:
            if isinstance(cur, RandomFile) and mode != "WRITE":
                if cur.recs:
                    raise Unspec("random file read as text")
                cur = b""
            if mode == "WRITE":
                self.fs[name] = b""
            elif mode == "READ":
                text = cur.decode("latin-1")
                h.lines = text.split("\n")
                if h.lines[-1] == "":
                    h.lines.pop()
                h.pos = 0
        self.handles[name] = h
        self.ev("open_" + mode.lower())
        return NOVALUE

    def handle(self, fe, ctx, line, modes):
        name = self.fname(fe, ctx, line)
        h = self.handles.get(name)
        if h is None or h.mode not in modes:
            self.ev("file_reject")
            raise self.rt(ctx, line)
        return h

    def e_readfile(self, n, ctx):
        _, line, fe, name = n
        h = self.handle(fe, ctx, line, ("READ",))
        v = self.getvar(name, ctx)
        if v is None:
            if self.lookup(name, ctx) is not None or self.is_type_name(name, ctx):
                raise Unspec("READFILE into something else")
            v = ctx.vars[name] = Cell(name, STRING, "", False, ctx)
        if v.const:
            self.ev("const_reject")
            raise self.rt(ctx, line)
        if v.type is not STRING:
            raise self.rt(ctx, line)
        if h.pos >= len(h.lines):
            raise Unspec("READFILE at end of file")
        v.val = h.lines[h.pos]
        h.pos += 1
        self.ev("readfile")
        return NOVALUE

    def e_writefile(self, n, ctx):
        _, line, fe, e = n
        h = self.handle(fe, ctx, line, ("WRITE", "APPEND"))
        r = self.eval(e, ctx)
        # functions called by the expression may have closed the file or opened it in another mode
        h = self.handles.get(h.name)
        if h is None or h.mode not in ("WRITE", "APPEND"):
            self.ev("file_reject")
            raise self.rt(ctx, line)
        if r[0] is NONE or r[0].kind != r[0].name:
            raise self.rt(ctx, line)
        s = self.to_string(r).encode("latin-1") + b"\n"
        old = self.fs[h.name]
        if isinstance(old, RandomFile):
            old = b""
        if old and not old.endswith(b"\n"):
            old += b"\n"
        self.fs[h.name] = old + s
        self.ev("writefile")
        return NOVALUE

    def close(self, h):
        if h.mode == "RANDOM" and h.modified:
            self.fs[h.name] = RandomFile(h.recs)

    def e_closefile(self, n, ctx):
        h = self.handle(n[2], ctx, n[1], ("READ", "WRITE", "APPEND", "RANDOM"))
        self.close(h)
        del self.handles[h.name]
        self.ev("closefile")
        return NOVALUE

    def e_seek(self, n, ctx):
        _, line, fe, e = n
        t, v = self.eval(e, ctx)
        if t is not INTEGER:
            raise self.rt(ctx, line)
        if v < 1:
            self.ev("seek_reject")
            raise self.rt(ctx, line)
        h = self.handle(fe, ctx, line, ("RANDOM",))
        if v > len(h.recs) + 1:
            self.ev("seek_reject")
            raise self.rt(ctx, line)
        h.cur = v - 1
        self.ev("seek")
        return NOVALUE

    def recvar(self, n, ctx):
        _, line, fe, name = n
        h = self.handle(fe, ctx, line, ("RANDOM",))
        v = self.lookup(name, ctx)
        if v is None:
            raise self.rt(ctx, line)
        if v.type.kind == "POINTER":
            raise self.rt(ctx, line)
        return h, v

    def snapshot(self, v):
        if isinstance(v, Arr):
            return ("ARRAY", v.dims, tuple(self.snapshot(c) for c in v.cells))
        k = v.type.kind
        if k == "POINTER":
            raise Unspec("record with a pointer")
        if k == "RECORD":
            return ("RECORD", v.type.name, tuple(self.snapshot(f) for f in v.val.fields.values()))
        if k == "REAL":
            x = v.val
            if x != 0 and abs(x) < 2.3e-308:
                raise Unspec("subnormal")
            return ("REAL", struct.pack("<d", x))
        if k == "DATE" and v.val != (0, 0, 0) and not date_ok(*v.val):
            raise Unspec("date")
        return (k, v.type.name, v.val)

    def compatible(self, snap, v):
        if isinstance(v, Arr):
            if snap[0] != "ARRAY" or len(snap[2]) != len(v.cells):
                return False
            if snap[1] != v.dims:
                raise Unspec("array of another shape")
            return all(self.compatible(s, c) for s, c in zip(snap[2], v.cells))
        k = v.type.kind
        if snap[0] != k:
            return False
        if k == "RECORD":
            if snap[1] != v.type.name:
                return False
            fields = list(v.val.fields.values())
            kinds, old = [isinstance(f, Arr) for f in fields], [s[0] == "ARRAY" for s in snap[2]]
            if kinds != old and sorted(kinds) == sorted(old):
                raise Unspec("another order of fields in a type of the same name")
            return kinds == old and all(self.compatible(s, f) for s, f in zip(snap[2], fields))
        if k == "ENUM":
            if snap[1] != v.type.name:
                return False
            if snap[2] >= len(v.type.values):
                return False  # written by a longer type of the same name
        return True

    def load(self, snap, v):
        if isinstance(v, Arr):
            for s, c in zip(snap[2], v.cells):
                self.load(s, c)
        elif snap[0] == "RECORD":
            for s, f in zip(snap[2], v.val.fields.values()):
                self.load(s, f)
        elif snap[0] == "REAL":
            v.val = struct.unpack("<d", snap[1])[0]
        else:
            v.val = snap[2]

    def e_getrecord(self, n, ctx):
        h, v = self.recvar(n, ctx)
        if isinstance(v, Cell) and v.const:
            self.ev("const_reject")
            raise self.rt(ctx, n[1])
        if h.cur >= len(h.recs):
            self.ev("get_reject")
            raise self.rt(ctx, n[1])
        s = h.recs[h.cur]
        if not self.compatible(s, v):
            self.ev("get_mismatch")
            raise self.rt(ctx, n[1])
        self.load(s, v)
        self.ev("getrecord")
        return NOVALUE

    def e_putrecord(self, n, ctx):
        h, v = self.recvar(n, ctx)
        s = self.snapshot(v)
        if h.cur == len(h.recs):
            h.recs.append(s)
            self.ev("put_append")
        else:
            h.recs[h.cur] = s
            self.ev("put_replace")
        h.modified = True
        return NOVALUE


EVAL = {name[2:]: getattr(Model, name) for name in dir(Model) if name.startswith("e_")}
