"""Runs cases on the real interpreter through the fork server and classifies what was observed."""
import os
import re
import resource
import shutil
import struct
import subprocess

NOBODY = 65534


class HarnessError(Exception):
    pass


class Result:
    __slots__ = ("code", "steps", "cells", "exceeded", "finished", "out", "err", "files", "timeout", "kind", "diags",
                 "san")

    def describe(self):
        return {"exit": self.code, "kind": self.kind, "stdout": self.out[:4000].decode("latin-1"),
                "stderr": self.err[:4000].decode("latin-1"),
                "files": {k: v[:2000].decode("latin-1") for k, v in (self.files or {}).items()}}


class Diag:
    """One printed diagnostic: kind 'syntax' / 'runtime' / 'pedantic', lines [(frame name or None, line, column)]."""
    __slots__ = ("kind", "frames", "info", "file")

    def __repr__(self):
        return "%s%r" % (self.kind, self.frames)

    @property
    def lines(self):
        return [f[1] for f in self.frames]


RE_HEAD = re.compile(rb"^(Syntax Error|Error\(pedantic\)|Error) on line (-?\d+), column (-?\d+) of ([^\n]*)$", re.M)
RE_RT = re.compile(rb"^Runtime Error in file ([^\n]*)$", re.M)
RE_FRAME = re.compile(rb"^([^\n]+), line (-?\d+), column (-?\d+)$")


def parse_diags(err):
    """All diagnostics printed in `err`, in order. Message texts are kept but never judged."""
    found = []
    for m in RE_HEAD.finditer(err):
        d = Diag()
        d.kind = {b"Syntax Error": "syntax", b"Error(pedantic)": "pedantic"}.get(m.group(1), "other")
        d.frames = [(None, int(m.group(2)), int(m.group(3)))]
        d.file = m.group(4).rstrip(b":")
        e = err.find(b"\n", m.end() + 1)
        d.info = err[m.end() + 1:e if e >= 0 else len(err)]
        found.append((m.start(), d))
    for m in RE_RT.finditer(err):
        d = Diag()
        d.kind = "runtime"
        d.file = m.group(1).rstrip(b":")
        t = err.find(b"Traceback:\n", m.end() + 1)
        d.info = err[m.end() + 1:t].strip() if t >= 0 else b""
        d.frames = []
        if t >= 0:
            pos = t + len(b"Traceback:\n")
            while pos <= len(err):
                e = err.find(b"\n", pos)
                e = len(err) if e < 0 else e
                f = RE_FRAME.match(err[pos:e])
                if not f:
                    break
                d.frames.append((f.group(1).decode("latin-1"), int(f.group(2)), int(f.group(3))))
                pos = e + 1
        found.append((m.start(), d))
    found.sort(key=lambda x: x[0])
    return [d for _, d in found]


SAN = re.compile(rb"ERROR: AddressSanitizer|ERROR: LeakSanitizer|: runtime error: |AddressSanitizer:DEADLYSIGNAL")


def classify(r):
    r.san = bool(SAN.search(r.err) or (SAN.search(r.out) if r.code not in (0, 1) else False))
    r.diags = parse_diags(r.err)
    if r.timeout:
        r.kind = "timeout"
    elif r.san:
        r.kind = "sanitizer"
    elif r.code >= 1000:
        r.kind = "signal"
    elif r.code == 0:
        r.kind = "ok"
    elif r.code == 1 and r.diags:
        r.kind = "budget" if b"[verification budget exceeded]" in r.err else r.diags[0].kind
    elif r.code == 1 and re.search(rb"^Error: File '.*' not found!$", r.err, re.M | re.S):
        r.kind = "nofile"
    else:
        r.kind = "bad-exit"
    return r


class Server:
    def __init__(self, exe, stack=1 << 30):
        env = {"PATH": os.environ.get("PATH", ""), "MALLOC_PERTURB_": "165", "LC_ALL": "C", "TZ": "UTC", "TERM": "dumb", "COLUMNS": "30000", "INPUTRC": "/dev/null",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:symbolize=0:allocator_may_return_null=0:"
                               "handle_abort=0:quarantine_size_mb=16:max_allocation_size_mb=1024:max_malloc_fill_size=1000000:detect_stack_use_after_return=0",
               "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=87"}

        def pre():
            soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
            want = stack if hard == resource.RLIM_INFINITY else min(stack, hard)
            resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        self.p = subprocess.Popen([exe, "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, preexec_fn=pre, bufsize=0)
        self.dead = False

    def request(self, cwd, args, stdin, steps, depth, cells, string, timeout, fsize, merge, uid, stack):
        def s(b):
            return struct.pack("<Q", len(b)) + b
        body = [s(cwd.encode()), struct.pack("<Q", len(args))]
        body += [s(a if isinstance(a, bytes) else a.encode("latin-1")) for a in args]
        body.append(s(stdin))
        body.append(struct.pack("<9Q", steps, depth, cells, string, timeout, fsize, merge, uid, stack))
        msg = b"".join(body)
        try:
            self._write(struct.pack("<Q", len(msg)) + msg)
            n = struct.unpack("<Q", self._read(8))[0]
            rep = self._read(n)
        except (OSError, HarnessError) as e:
            raise HarnessError("fork server died: %r (exit %r)" % (e, self.p.poll()))
        r = Result()
        r.code, r.steps, r.cells, r.exceeded, r.finished, no = struct.unpack_from("<6Q", rep)
        r.out = rep[48:48 + no]
        ne = struct.unpack_from("<Q", rep, 48 + no)[0]
        r.err = rep[56 + no:56 + no + ne]
        r.files = None
        r.timeout = r.code in (1014, 1024)  # SIGALRM, SIGXCPU
        if r.code in (70, 71):
            raise HarnessError("child could not be set up (code %d)" % r.code)
        return r

    def _write(self, b):
        fd = self.p.stdin.fileno()
        v = memoryview(b)
        while v:
            k = os.write(fd, v)
            v = v[k:]

    def _read(self, n):
        fd = self.p.stdout.fileno()
        parts = []
        while n:
            c = os.read(fd, min(n, 1 << 20))
            if not c:
                raise HarnessError("eof")
            parts.append(c)
            n -= len(c)
        return b"".join(parts)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


class Runner:
    """One worker's access to the interpreter variants, with a private scratch directory owned by `nobody`."""

    def __init__(self, exes, scratch):
        self.exes = exes
        self.servers = {}
        self.root = scratch
        self.dir = os.path.join(scratch, "w")
        os.makedirs(self.dir, exist_ok=True)
        os.chmod(self.root, 0o755)
        self.uid = NOBODY if os.geteuid() == 0 else 0
        self.reset()
        self.runs = 0
        self.steps = 0
        self.retries = 0
        self.hangs = 0  # runs that did not end with the longer time either

    def reset(self):
        """Empties the case directory."""
        for e in os.scandir(self.dir):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path)
            else:
                os.unlink(e.path)
        if self.uid and os.stat(self.dir).st_uid != self.uid:
            os.chown(self.dir, self.uid, self.uid)

    def put(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(data)
        if self.uid:
            os.chown(p, self.uid, self.uid)

    def listing(self, skip=("prog.ps",)):
        res = {}
        for e in os.scandir(self.dir):
            if e.name in skip:
                continue
            if e.is_file(follow_symlinks=False):
                with open(e.path, "rb") as f:
                    res[e.name] = f.read()
            else:
                res[e.name + "/"] = b""
        return res

    def server(self, variant):
        s = self.servers.get(variant)
        if s is None:
            s = self.servers[variant] = Server(self.exes[variant])
        return s

    def raw(self, args, stdin=b"", variant="asan", steps=200000, depth=400, cells=200000, string=1000000, timeout=10,
            fsize=64 << 20, merge=False, stack=0):
        s = self.server(variant)
        try:
            r = s.request(self.dir, args, stdin, steps, depth, cells, string, timeout, fsize, 1 if merge else 0, self.uid,
                          stack)
        except HarnessError:
            # the server was ended from outside: once more with a new one
            s.close()
            del self.servers[variant]
            s = self.server(variant)
            r = s.request(self.dir, args, stdin, steps, depth, cells, string, timeout, fsize, 1 if merge else 0, self.uid,
                          stack)
        if r.timeout and self.hangs < 2:  # a loaded machine? once more, with a lot more time
            self.retries += 1
            r = s.request(self.dir, args, stdin, steps, depth, cells, string, 60, fsize, 1 if merge else 0, self.uid,
                          stack)
            self.hangs += r.timeout
        self.runs += 1
        self.steps += r.steps
        if merge:
            r.err = r.out
        return classify(r)

    def run(self, src=None, stdin=b"", files=None, pedantic=False, collect=False, keep=False, name="prog.ps", **kw):
        """Runs `src` in file mode (or `stdin` in the REPL if src is None)."""
        if not keep:
            self.reset()
        for k, v in (files or {}).items():
            self.put(k, v)
        args = ["-p"] if pedantic else []
        if src is not None:
            self.put(name, src)
            args.append(name)
        r = self.raw(args, stdin, **kw)
        if collect:
            r.files = self.listing(skip=(name,) if src is not None else ())
        return r

    def close(self):
        for s in self.servers.values():
            s.close()
        shutil.rmtree(self.root, ignore_errors=True)
