"""Token-level views of program texts: splitting with exact positions, layout changes, faults, the repository's corpus."""
import functools
import os
import re

import build

REPO = build.REPO
# A token never contains white space outside quotes. Everything from the first thing which is no token on is one 'raw' piece.
SPAN = re.compile(r"""
  (?P<ws>[ \t]+) | (?P<com>//[^\n]*) | (?P<nl>\n)
 |(?P<word>[A-Za-z][A-Za-z0-9_]*)
 |(?P<date>[0-9]+/[0-9]+/[0-9]+)
 |(?P<num>[0-9]+(?:\.[0-9]*)?)
 |(?P<chr>'(?:\\[nt'"\\]|[^'\\])')
 |(?P<str>"(?:\\[nt'"\\]|[^"\\])*")
 |(?P<op><=|<>|<-|>=|[-+*/()\[\]=:,&^.<>])
""", re.X | re.S)
NOPAREN = {"INPUT", "OUTPUT", "PRINT", "OPENFILE", "READFILE", "WRITEFILE", "CLOSEFILE"}

KEYWORDS = """DIV MOD AND OR NOT TRUE FALSE DECLARE CONSTANT ARRAY TYPE ENDTYPE IF THEN ELSE ENDIF CASE OF OTHERWISE
ENDCASE WHILE DO ENDWHILE REPEAT UNTIL FOR TO STEP NEXT BREAK CONTINUE PROCEDURE BYREF BYVAL ENDPROCEDURE CALL FUNCTION
ENDFUNCTION RETURNS RETURN OUTPUT PRINT INPUT OPENFILE READFILE WRITEFILE CLOSEFILE READ WRITE APPEND RANDOM SEEK
GETRECORD PUTRECORD INTEGER REAL BOOLEAN CHAR STRING DATE""".split()
OPS = "+ - * / ( ) [ ] = : , & ^ . < > <= >= <> <-".split()
LITERALS = ["1", "0", "2.5", "'c'", '"s"', "1/2/2003", "x"]
VOCABULARY = KEYWORDS + OPS + LITERALS + ["\n"]


def pieces(text):
    """[(kind, text)]; joined, the texts are the input."""
    res, pos, n = [], 0, len(text)
    while pos < n:
        m = SPAN.match(text, pos)
        if m is None or m.group() == "=" and text[pos + 1:pos + 2] == "=":
            res.append(("raw", text[pos:]))
            break
        res.append((m.lastgroup, m.group()))
        pos = m.end()
    return res


class Line:
    """One line (a string may make it span several): toks [(blanks before, token)], tail blanks, comment or ''."""
    __slots__ = ("toks", "tail", "com", "eol", "first", "height", "raw")

    def __init__(self):
        self.toks, self.tail, self.com, self.eol, self.raw = [], "", "", "", False


def lines(text):
    res, cur, ws, no = [], Line(), "", 1
    cur.first = 1
    for kind, s in pieces(text):
        if kind == "ws":
            ws += s
        elif kind == "com":
            cur.tail, cur.com, ws = ws, s, ""
        elif kind == "nl":
            if not cur.com:
                cur.tail, ws = ws, ""
            cur.eol = "\n"
            no += 1
            res.append(cur)
            cur = Line()
            cur.first = no
        else:
            cur.toks.append((ws, s))
            ws = ""
            no += s.count("\n")
            cur.raw = cur.raw or kind == "raw"
    if not cur.com:
        cur.tail = ws
    if cur.toks or cur.com or cur.tail:
        res.append(cur)
    for l in res:
        l.height = 1 + sum(t.count("\n") for _, t in l.toks)
    return res


COMMENT_WORDS = ["5", "3/4", "//", "/", "'", '"', "ENDIF", "OUTPUT \"oops\"", "<-", "ENDWHILE", "TO", "1/2/2003", "\\n", "note",
                 "(", "[", "x <- 1", ".5", "THEN", "=", "\t", "\\", "-", "^", "ELSE", "'x'", '"abc"', "\xe9", "#", "!", "~", "{",
                 "/*", "*/", "RETURN", "EXIT", "?", "99999999999999999999", ":", "BREAK", "INTEGER(1)", "ELSE IF", "\v", "\f", "\x7f", "\x01", "a\vb\fc", "long " * 60, "x" * 5000]


def comment(r):
    return "//" + "".join(r.choice(("", " ")) + r.choice(COMMENT_WORDS) for _ in range(r.choice((0, 1, 1, 2, 3))))


def blanks(r, least=0):
    return "".join(r.choice("  \t") for _ in range(r.randint(least, least + r.choice((0, 1, 2, 5)))))


KINDS = ("indent", "widen", "tabs", "tail", "comment", "blank", "fullcomment", "crlf", "mixed", "final", "tight")


def relayout(text, r, kinds, only=None, com=None):
    """(new text, map from line numbers to line numbers). `only`: the line indices a trailing comment is put on."""
    ls = lines(text)
    out, where, no = [], {}, 1
    density = r.choice((0.15, 0.4, 1.0))

    def eol():
        if "crlf" in kinds or "mixed" in kinds and r.random() < 0.5:
            return "\r\n"
        return "\n"

    def extra():
        nonlocal no
        if "blank" in kinds and r.random() < density:
            for _ in range(r.choice((1, 1, 2, 3))):
                out.append(r.choice(("", "", blanks(r, 1))) + eol())
                no += 1
        if "fullcomment" in kinds and r.random() < density:
            for _ in range(r.choice((1, 1, 2))):
                out.append(r.choice(("", blanks(r))) + comment(r) + eol())
                no += 1
    for k, l in enumerate(ls):
        extra()
        for j in range(l.height):
            where[l.first + j] = no + j
        prev = None
        start = len(out)
        for j, (w, t) in enumerate(l.toks):
            if j == 0:
                if "indent" in kinds and r.random() < density:
                    w = blanks(r)
            elif prev in NOPAREN and t[0] == "(" and not w:
                pass
            else:
                if "widen" in kinds and r.random() < density:
                    w += blanks(r, 1)
                if "tabs" in kinds and w and r.random() < density:
                    w = "\t" * len(w)
                if "tight" in kinds and w and removable(prev, t):
                    if t[0] not in "/0123456789." and prev[-1] not in "/0123456789." or keeps("".join(out[start:]), l.toks[j:]):
                        w = ""
            out.append(w)
            # the line breaks inside a literal are line endings of the file as well
            out.append(re.sub("\r?\n", lambda _: eol(), t) if "\n" in t and not l.raw else t)
            prev = t
        tail, com_ = l.tail, l.com
        if not l.raw:
            if "tail" in kinds and r.random() < density:
                tail += blanks(r, 1)
            if not com_ and ("comment" in kinds and r.random() < density or only and k in only):
                tail += r.choice(("", "", " ", "\t"))
                # a slash directly before the comment would start it one character earlier
                if not tail and prev == "/":
                    tail = " "
                com_ = com or comment(r)
            elif com_ and "comment" in kinds and r.random() < density:
                com_ = comment(r)
                tail = tail or (" " if prev == "/" else "")
        out += [tail, com_]
        no += l.height
        if l.eol:
            out.append(eol())
        elif not l.raw and "final" in kinds:
            out.append(eol())
    if ls and ls[-1].eol:
        if "final" in kinds and not {"blank", "fullcomment"} & set(kinds):
            last = out.pop()
            if ls[-1].raw:
                out.append(last)
        else:
            extra()
    new = "".join(out)
    return new, where


def removable(a, b):
    """Whether two tokens may be written without anything in between and still be the same two tokens."""
    if a in NOPAREN and b[0] == "(":
        return False
    p = pieces(a + b)
    return len(p) == 2 and p[0][1] == a and p[1][1] == b


def keeps(before, rest):
    """Whether `before` and the tokens of `rest` ([(blanks, token)]), the first without its blanks, are still the same tokens.

    Next to digits, points and slashes more than two tokens matter: 6 / 2/3 is a quotient, 6/2/3 a date."""
    text = before + rest[0][1] + "".join(w + t for w, t in rest[1:])
    new = [t for k, t in pieces(text) if k not in ("ws", "com")]
    return "com" not in {k for k, _ in pieces(text)} and new[-len(rest):] == [t for _, t in rest] and "".join(new[:-len(rest)]) == "".join(
        t for k, t in pieces(before) if k not in ("ws", "com"))


def multiline(text, r):
    """The text with line breaks put into some of its string and character literals."""
    res = []
    for kind, s in pieces(text):
        if kind == "str" and r.random() < 0.3:
            at = [k for k in range(1, len(s)) if s[k - 1] != "\\"]
            for k in sorted(r.choices(at, k=r.choice((1, 1, 2))), reverse=True):
                s = s[:k] + "\n" + s[k:]
        elif kind == "chr" and r.random() < 0.2:
            s = "'\n'"
        res.append(s)
    return "".join(res)


def faulty(text, r, n=1):
    """The text with n token-level faults. Tokens stay apart (a blank is put around what is inserted)."""
    ps = pieces(text)
    for _ in range(n):
        real = [k for k, (kind, _) in enumerate(ps) if kind not in ("ws", "com", "raw")]
        if not real:
            break
        k = r.choice(real)
        x = r.random()
        tok = [r.choice(("word", "op")), None]
        y = r.random()
        tok = r.choice(VOCABULARY) if y < 0.6 else ps[r.choice(real)][1]
        if x < 0.3:
            ps[k] = ("ws", " ")
        elif x < 0.45:
            ps[k:k + 1] = [ps[k], ("ws", " "), ps[k]]
        elif x < 0.7:
            ps[k] = ("word", " %s " % tok)
        elif x < 0.85:
            ps[k:k] = [("word", " %s " % tok)]
        else:
            j = r.choice(real)
            ps[k], ps[j] = ps[j], ps[k]
        ps = pieces("".join(s for _, s in ps))
    return "".join(s for _, s in ps)


STDIN = {"input_int.pseudo": "x\n1.5\n42\n", "io.pseudo": "5\n2.5\nTRUE\nc\nsome text\n", "Average.pseudo": "1\n2.5\n3\n4\n5\n",
         "BinarySearch.pseudo": "49\n", "LinearSearch.pseudo": "49\n", "CopyFile.pseudo": "in.txt\nout.txt\n",
         "ROT13.pseudo": "Hello\nUryyb\n\n"}
FILES = {"CopyFile.pseudo": {"in.txt": b"one\ntwo\n\nfour\n"}}


@functools.lru_cache(None)
def corpus(random=False):
    """[(name, text, stdin, files)] of the repository's own programs; without the ones that use the clock or RAND."""
    res = []
    for d in ("tests", "examples"):
        p = os.path.join(REPO, d)
        for n in sorted(os.listdir(p)) if os.path.isdir(p) else ():
            if n.endswith(".pseudo"):
                t = open(os.path.join(p, n), "rb").read().decode("latin-1")
                if random or not re.search(r"\b(RAND|TODAY|NOW|TIME|HOURS|MINUTES|SECONDS)\b", t):
                    res.append((n, t.replace("\r", ""), STDIN.get(n, "1\n2\n3\n"), FILES.get(n, {})))
    return res
