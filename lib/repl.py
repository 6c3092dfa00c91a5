"""REPL sessions: entries, the transcript they must produce, and its comparison with the observed one."""
import re

import model as M
import runner as R

MULTI = re.compile(r"[ \t]*(IF|CASE|WHILE|REPEAT|FOR|PROCEDURE|FUNCTION|TYPE)(?![A-Za-z0-9_])")


def is_multi(line):
    m = MULTI.match(line)
    if not m:
        return False
    if m.group(1) == "TYPE":
        line = line.split("\n", 1)[0]
        e, c = line.find("="), line.find("//")
        return e < 0 or (c >= 0 and c < e)
    return True


class Entry:
    """One REPL entry: its text (several lines for a construct) and the input lines its INPUT statements consume."""
    __slots__ = ("text", "inp")

    def __init__(self, text, inp=()):
        self.text, self.inp = text, list(inp)

    def stdin(self):
        s = self.text + "\n"
        if is_multi(self.text):
            s += "\n"
        return s + "".join(l + "\n" for l in self.inp)

    def prompts(self):
        k = self.text.count("\n")
        return "> " + ". " * (k + 1 if is_multi(self.text) else k)

    def echoed(self):
        """The prompts with the lines read there, as readline prints them."""
        ls = self.text.split("\n") + ([""] if is_multi(self.text) else [])
        return "".join((". " if k else "> ") + l + "\n" for k, l in enumerate(ls))

    def valid(self):
        """Whether the text is read back as exactly this entry."""
        ls = self.text.split("\n")
        if ls[0] == "" or ls[0] in ("?", "EXIT") or re.match(r"RUNFILE(?![A-Za-z0-9_])", ls[0]):
            return False
        return (len(ls) == 1 and not is_multi(ls[0])) or (is_multi(ls[0]) and "" not in ls)


class Predicted:
    __slots__ = ("entries", "chunks", "errors", "model", "states", "echo")

    def __init__(self):
        self.echo = False


def predict(entries, files=None, pedantic=False, pure=False, max_steps=20000, m=None, on_unspec=None, echo=False):
    """Runs the entries on the reference model. With pure=True, entries whose outcome is open are left out
    (they must not have effects); with pure="prefix", the session ends before the first of them."""
    given = m
    left_out = set()
    while True:
        p, again = _predict(entries, files, pedantic, pure, max_steps, given, on_unspec, left_out, echo)
        if not again:
            return p


def _predict(entries, files, pedantic, pure, max_steps, m, on_unspec, left_out, echo=False):
    """One pass. When an entry that may have had effects proves open, the model is rebuilt without it: (None, True)."""
    given = m is not None
    m = m or M.Model(b"", files, pedantic, max_steps)
    m.echo_input = echo
    p = Predicted()
    p.echo = echo
    p.entries, p.chunks, p.errors, p.model = [], [], [], m
    for number, e in enumerate(entries):
        if number in left_out:
            continue
        if isinstance(e, str):
            e = Entry(e)
        start, steps = len(m.out), m.steps
        if e.text.startswith("RUNFILE "):
            name = e.text[8:].rstrip(" \t")
            m.out.append("==> Running file '%s'\n" % name)
            ok, err = False, None
            if name in m.fs:
                sub = M.Model("".join(l + "\n" for l in e.inp).encode("latin-1"), None, pedantic, max_steps)
                sub.fs, sub.echo_input = m.fs, echo
                for h in m.handles:
                    sub.reserved.add(h)
                err = sub.run_file(m.fs[name])
                if sub.ipos < len(sub.inp):
                    raise M.Unspec("input left over")
                m.out.append("".join(sub.out))
                ok = err is None
                for k, v in sub.events.items():
                    m.events[k] = m.events.get(k, 0) + v
            else:
                err = M.PsError("nofile", [])
            m.out.append("\n==> Program exited %s\n" % ("successfully" if ok else "with an error"))
        else:
            m.inp, m.ipos = "".join(l + "\n" for l in e.inp), 0
            try:
                err = m.entry(e.text)
                if m.ipos < len(m.inp):
                    raise M.Unspec("input left over")
            except M.Unspec as u:
                if not pure:
                    raise
                if on_unspec:
                    on_unspec("model: " + str(u))
                del m.out[start:]
                if pure == "prefix" and given:
                    break
                if m.steps > steps + 1 or "\n" in e.text or e.text.startswith(("INPUT", "READFILE", "GETRECORD", "CALL")):
                    if given:
                        raise
                    left_out.update(range(number, len(entries)) if pure == "prefix" else (number,))
                    return None, True
                if pure == "prefix":
                    break
                continue
        p.entries.append(e)
        p.chunks.append("".join(m.out[start:]))
        p.errors.append(err)
    return p, False


def stdin_of(entries):
    return "".join(e.stdin() for e in entries)


def banner_end(out):
    i = out.find(b"\n> ")
    return i + 1 if i >= 0 else len(out)


def check(p, r, kinds=True, exit_code=0):
    """None, or what is wrong with the observed session."""
    exp = []
    for e, c in zip(p.entries, p.chunks):
        exp.append(((e.echoed() if p.echo else e.prompts()) + c).encode("latin-1"))
    body = r.out[banner_end(r.out):]
    pos = 0
    for k, x in enumerate(exp):
        got = body[pos:pos + len(x)]
        if got != x:
            nxt = body.find(b"\n> ", pos)
            return "entry %d %r: got %r, expected %r" % (
                k + 1, p.entries[k].text[:200], body[pos:max(pos + len(x), nxt + 1) if nxt >= 0 else pos + len(x) + 200][:400], x[:400])
        pos += len(x)
    rest = body[pos:]
    if r.kind in ("sanitizer", "signal", "bad-exit"):
        return "the session ends with %s" % r.kind
    if rest != b"> ":
        return "after the last entry: got %r, expected the prompt" % rest[:300]
    if r.code != exit_code:
        return "exit status %d" % r.code
    if kinds:
        want = [e.kind for e in p.errors if e is not None and e.kind != "nofile"]
        got = [d.kind for d in r.diags]
        if want != got:
            return "the diagnostics are %r, expected %r" % (got, want)
    return None
