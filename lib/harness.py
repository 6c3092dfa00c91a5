"""Runs the cases of a check over all cores, collects verdicts and evidence.

A check is a list of families; a family is a function f(env, i) which builds case i (every random choice comes from
env.rng, seeded by VERIF_SEED, the check, the family and i), runs the real interpreter through env, and reports one or
more verdicts with env.ok / env.violation / env.discard / env.inconclusive.
"""
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

import build
import model as M
import repl
import runner as R
from build import VERIF

sys.setrecursionlimit(20000)
EVID = os.path.join(VERIF, "evidence")
MAX_VIOLATIONS = 12


class Family:
    def __init__(self, name, func, quick, thorough=None, about="", chunk=None):
        self.name, self.func, self.quick = name, func, quick
        self.thorough = quick if thorough is None else thorough
        self.chunk, self.about = chunk, about


# How much more of the random families a check can afford in its quick tier.
QUICK = {"C02": 2, "C03": 2, "C04": 2, "C05": 3, "C06": 1.5, "C07": 2, "C08": 4, "C09": 3, "C13": 5, "C14": 4, "C15": 6, "C16": 3, "C17": 4,
         "C18": 2.5, "C19": 5, "C20": 2}


class Check:
    def __init__(self, pid, families, rule, assumptions=(), variants=("asan", "plain")):
        self.pid, self.families, self.rule, self.assumptions = pid, families, rule, list(assumptions)
        self.variants = tuple(variants)
        for f in self.families:
            f.quick = max(f.quick, min(f.thorough, int(f.quick * QUICK.get(pid, 1))))


class Stop(Exception):
    """Ends a case early (after a verdict was recorded)."""


def b(x):
    return x if isinstance(x, bytes) else x.encode("latin-1")


class Env:
    def __init__(self, check, tier, seed, exes, scratch):
        self.check, self.tier, self.seed = check, tier, seed
        self.R = R.Runner(exes, scratch)
        self.deadline = float("inf")
        self.new_stats()

    def new_stats(self):
        self.evals = 0
        self.keys = set()
        self.discards = {}
        self.inconcl = {}
        self.viol = []
        self.events = {}
        self.outcomes = {}
        self.samples = []
        self.seen = {}

    def begin(self, fam, i):
        self.family, self.index = fam, i
        self.rng = random.Random("%s/%s/%s/%d" % (self.seed, self.check.pid, fam.name, i))
        self.log = []
        self.failed = False

    def auto(self):
        """Every fourth case runs in the sanitizer build, the others in the (faster) plain build."""
        return "asan" if self.index % 4 == 0 else "plain"

    # -- observing the real interpreter
    def run(self, src=None, stdin=b"", files=None, pedantic=False, collect=True, **kw):
        src = None if src is None else b(src)
        stdin = b(stdin)
        kw.setdefault("variant", self.auto())
        if self.R.hangs and time.time() > self.deadline:
            raise Stop()
        r = self.R.run(src, stdin, files, pedantic, collect=collect, **kw)
        self.note(src, stdin, files, dict(kw, pedantic=pedantic), r)
        self.outcomes[r.kind] = self.outcomes.get(r.kind, 0) + 1
        return r

    def note(self, src, stdin, files, opts, r):
        self.log.append({"program": None if src is None else src.decode("latin-1"), "stdin": stdin.decode("latin-1"),
                         "files": {k: v.decode("latin-1") for k, v in (files or {}).items()},
                         "options": {k: repr(v) for k, v in opts.items() if v}, "observed": r})
        if len(self.log) > 8:
            del self.log[:-8]

    # -- predicting
    def echoes(self, variant):
        return variant == "readline" and build.echoes(self.R.exes[variant])

    def predict(self, src, stdin=b"", files=None, pedantic=False, max_steps=20000, dirs=(), variant=None, max_string=None):
        """(model, error) or None if the model leaves the outcome open."""
        m = M.Model(b(stdin), files, pedantic, max_steps)
        m.echo_input = self.echoes(variant)
        m.dirs.update(dirs)
        m.max_string = max_string or m.max_string
        try:
            e = m.run_file(b(src))
        except M.Unspec as u:
            self.discard("model: " + str(u))
            return None
        except (OverflowError, RecursionError):
            self.discard("model: overflow")
            return None
        for k, v in m.events.items():
            self.events[k] = self.events.get(k, 0) + v
        return m, e

    def compare(self, m, e, r, lines=False, files=True, names=False):
        """None if the observed run is the predicted one; a text otherwise; Stop if it cannot be judged."""
        want = "ok" if e is None else e.kind
        if r.kind in ("timeout", "budget") or r.code == 1009:
            if r.code == 1009 or m.steps > (50000 if r.kind == "budget" else 10000):
                self.inconclusive(r.kind)
                raise Stop()
            return "the run does not end (%s) where the reference takes %d steps" % (r.kind, m.steps)
        if r.kind != want:
            return "outcome is %s, expected %s%s" % (
                r.kind, want, " (%s at %s)" % (e.what, e.frames) if e is not None else "")
        exp = m.output()
        if r.out != exp:
            return "output differs: %s" % first_diff(r.out, exp)
        if e is not None:
            if len(r.diags) != 1:
                return "%d diagnostics printed" % len(r.diags)
            if lines:
                w = frames_differ(r.diags[0], e, names)
                if w:
                    return w
        elif r.diags:
            return "a diagnostic is printed although the exit status is 0"
        if files and r.files is not None:
            return self.compare_files(m, r)
        return None

    def compare_files(self, m, r):
        for k, v in m.fs.items():
            if k not in r.files:
                return "file %r is missing" % k
            if isinstance(v, bytes) and r.files[k] != v:
                return "file %r differs: %s" % (k, first_diff(r.files[k], v))
        for k in r.files:
            if k not in m.fs and k not in m.dirs:
                return "file %r was created" % k
        return None

    def differential(self, src, stdin=b"", files=None, pedantic=False, lines=False, names=False, check_files=True,
                     key=None, nontrivial=None, variant=None, max_steps=20000, max_string=None, **kw):
        """The standard verdict: the real run must be the one the reference model predicts."""
        p = self.predict(src, stdin, files, pedantic, max_steps, variant=variant, max_string=max_string)
        if p is None:
            return None
        m, e = p
        r = self.run(src, stdin, files, pedantic, **dict(kw, **({'variant': variant} if variant else {})))
        try:
            w = self.compare(m, e, r, lines, check_files, names)
        except Stop:
            return None
        if w:
            self.violation(w, expected={"outcome": "ok" if e is None else "%s %s" % (e.kind, e.frames),
                                        "stdout": m.output()[:4000].decode("latin-1")})
            return None
        self.ok(key or (src, stdin, files), nontrivial=True if nontrivial is None else nontrivial(m, e))
        return m, e, r

    def session(self, entries, files=None, pedantic=False, pure=False, key=None, check_files=False, kinds=True,
                each=False, max_steps=20000, **kw):
        """The standard verdict for a REPL session. Returns (prediction, result) or None."""
        try:
            p = repl.predict(entries, files, pedantic, pure, max_steps, on_unspec=self.discard, echo=self.echoes(kw.get("variant")))
        except M.Unspec as u:
            self.discard("model: " + str(u))
            return None
        if not p.entries:
            return None
        for k, v in p.model.events.items():
            self.events[k] = self.events.get(k, 0) + v
        stdin = repl.stdin_of(p.entries)
        r = self.run(None, stdin, files, pedantic, collect=check_files, **kw)
        if (r.kind in ("timeout", "budget") or r.exceeded) and p.model.steps > (10000 if r.kind == "timeout" else 50000) or r.code == 1009:
            self.inconclusive(r.kind)
            return None
        w = repl.check(p, r, kinds)
        if not w and check_files:
            p.model.close_all()
            w = self.compare_files(p.model, r)
        if w:
            self.violation(w)
            return None
        if each:
            for e, err in zip(p.entries, p.errors):
                self.ok((e.text, err is not None))
        else:
            self.ok(key or stdin)
        return p, r

    # -- verdicts
    def ok(self, key=None, nontrivial=True, n=1):
        self.evals += n
        if nontrivial:
            h = hashlib.blake2b(repr(key if key is not None else (self.family.name, self.index)).encode("utf-8", "replace"),
                                digest_size=8).digest()
            if h not in self.keys and len(self.samples) < 2 and not self.failed and self.log:
                self.samples.append({"family": self.family.name, "case": self.index,
                                     "program": clip(self.log[-1]["program"] or self.log[-1]["stdin"]),
                                     "observed": self.log[-1]["observed"].kind,
                                     "stdout": clip(self.log[-1]["observed"].out.decode("latin-1"), 400)})
            self.keys.add(h)

    def discard(self, why):
        self.discards[why] = self.discards.get(why, 0) + 1

    def inconclusive(self, why):
        self.inconcl[why] = self.inconcl.get(why, 0) + 1

    def violation(self, what, expected=None, key=None, **extra):
        self.evals += 1
        self.failed = True
        runs = []
        for l in self.log[-4:]:
            d = dict(l)
            d["observed"] = l["observed"].describe()
            runs.append(d)
        self.viol.append({"property": self.check.pid, "family": self.family.name, "case": self.index, "what": what,
                          "seed": self.seed, "tier": self.tier, "expected": expected, "key": key, "runs": runs,
                          **extra})

    def expect(self, cond, what, **extra):
        if not cond:
            self.violation(what, **extra)
            raise Stop()


def clip(s, n=1500):
    return s if len(s) <= n else s[:n] + "... [%d more]" % (len(s) - n)


def first_diff(a, e):
    i = 0
    while i < len(a) and i < len(e) and a[i] == e[i]:
        i += 1
    line = e[:i].count(b"\n") + 1
    return "at byte %d (line %d): got %r, expected %r" % (i, line, a[max(0, i - 20):i + 60], e[max(0, i - 20):i + 60])


def frames_differ(d, e, names=False):
    got = [(f[0], f[1]) for f in d.frames]
    if len(got) != len(e.frames):
        return "the traceback has %d frames, expected %d: %r, expected %r" % (len(got), len(e.frames), got, e.frames)
    for k, ((gn, gl), (en, el)) in enumerate(zip(got, e.frames)):
        if el == 0 or el is None and e.kind == "runtime":
            continue
        if not (gl in el if isinstance(el, frozenset) else gl == el):
            return "frame %d of the diagnostic names line %s, expected %s: %r, expected %r" % (
                k, gl, sorted(el) if isinstance(el, frozenset) else el, got, e.frames)
        if names and e.kind == "runtime" and gn != en:
            return "frame %d is named %s, expected %s" % (k, gn, en)
    return None


# ---------------------------------------------------------------- workers

_env = None
_fams = None


def _init(check, tier, seed, exes, scratch, counter):
    global _env, _fams
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # not the parent's handler: a Python handler does not run while the worker waits for the next job
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    with counter.get_lock():
        k = counter.value
        counter.value += 1
    d = os.path.join(scratch, "w%d" % k)
    os.makedirs(d)
    _env = Env(check, tier, seed, exes, d)
    _fams = {f.name: f for f in check.families}


def run_case(env, fam, i):
    env.begin(fam, i)
    try:
        fam.func(env, i)
    except Stop:
        pass
    except M.Unspec as u:
        env.discard("model: " + str(u))


def _chunk(job):
    name, lo, hi, deadline = job
    env = _env
    env.new_stats()
    env.deadline = deadline
    t0 = time.time()
    done = 0
    steps0, runs0 = env.R.steps, env.R.runs
    try:
        for i in range(lo, hi):
            if time.time() > deadline:
                break
            run_case(env, _fams[name], i)
            done += 1
            if len(env.viol) >= MAX_VIOLATIONS or env.viol and env.R.hangs and time.time() > t0 + 30:
                break
    except Exception:
        return {"error": "family %s case %d: %s" % (name, i, traceback.format_exc())}
    return {"family": name, "done": done, "want": hi - lo, "evals": env.evals, "keys": env.keys, "viol": env.viol,
            "discards": env.discards, "inconcl": env.inconcl, "events": env.events, "outcomes": env.outcomes,
            "samples": env.samples[:2], "secs": time.time() - t0, "steps": env.R.steps - steps0,
            "runs": env.R.runs - runs0}


def merge(a, x):
    for k, v in x.items():
        a[k] = a.get(k, 0) + v


def known_findings():
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                f = line.split(None, 3)
                res[(f[1].split("=", 1)[1], f[2].split("=", 1)[1])] = f[3].strip() if len(f) > 3 else ""
    return res


def main(check, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    case = None
    jobs = min(8, os.cpu_count() or 8)
    scale = 1.0
    a = list(argv)
    replay = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--family":
            only = a.pop(0).split(",")
        elif x == "--case":
            case = int(a.pop(0))
        elif x == "--jobs":
            jobs = int(a.pop(0))
        elif x == "--scale":
            scale = float(a.pop(0))
        elif x == "--replay":
            replay = json.load(open(a.pop(0)))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if replay:
        only, case, seed, tier = [replay["family"]], replay["case"], replay["seed"], replay["tier"]
    limit = float(os.environ.get("VERIF_LIMIT", "420" if tier == "quick" else "780"))
    deadline = t0 + limit
    try:
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            exes = dict(zip(check.variants, ex.map(build.build, check.variants)))
    except build.BuildError as e:
        print("ERROR: the interpreter could not be built\n%s" % e)
        return 2
    t_build = time.time() - t0
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="psverif", dir=base)
    os.chmod(scratch, 0o755)

    def bye(*_):
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, bye)
    try:
        if case is not None:
            env = Env(check, tier, seed, exes, os.path.join(scratch, "one"))
            fam = [f for f in check.families if f.name in only][0]
            run_case(env, fam, case)
            for l in env.log:
                print("--- program (options %s)\n%s\n--- stdin\n%s" % (l["options"], l["program"], l["stdin"]))
                for k, v in l["files"].items():
                    print("--- file %s: %r" % (k, v))
                print("--- observed: %s" % json.dumps(l["observed"].describe(), indent=1))
            for v in env.viol:
                print("WHAT: %s\nEXPECTED: %s" % (v["what"], json.dumps(v["expected"], indent=1)))
            print("evaluations %d, discards %s, inconclusive %s" % (env.evals, env.discards, env.inconcl))
            env.R.close()
            if replay and env.viol:
                print("VIOLATION property=%s replay=%s" % (check.pid, argv[argv.index("--replay") + 1]))
            return 1 if env.viol else 0
        return sweep(check, tier, seed, only, jobs, scale, exes, scratch, deadline, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def sweep(check, tier, seed, only, jobs, scale, exes, scratch, deadline, t0, t_build):
    work = []
    for f in check.families:
        if only and f.name not in only:
            continue
        n = f.quick if tier == "quick" else f.thorough
        n = max(1, int(n * scale)) if n else 0
        size = f.chunk or max(1, min(200, n // (jobs * 6) or 1))
        k = (n + size - 1) // size
        for j in range(k):
            work.append(((j + 0.5) / k, f.name, j * size, min(n, (j + 1) * size)))
    work.sort(key=lambda w: w[0])
    ctx = multiprocessing.get_context("fork")
    counter = ctx.Value("i", 0)
    tot = {"evals": 0, "keys": set(), "viol": [], "discards": {}, "inconcl": {}, "events": {}, "outcomes": {},
           "steps": 0, "runs": 0}
    fams = {}
    samples = {}
    pool = ctx.Pool(jobs, _init, (check, tier, seed, exes, scratch, counter))
    err, lost = None, False
    workers = list(pool._pool)
    try:
        it = pool.imap_unordered(_chunk, [(n, lo, hi, deadline) for _, n, lo, hi in work])
        while True:
            try:
                res = it.next(timeout=20)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                # a worker which was ended from outside takes its chunk with it
                if time.time() > deadline + 90:
                    lost = True
                    break
                continue
            if "error" in res:
                err = res["error"]
                break
            tot["evals"] += res["evals"]
            tot["keys"] |= res["keys"]
            tot["steps"] += res["steps"]
            tot["runs"] += res["runs"]
            for k in ("discards", "inconcl", "events", "outcomes"):
                merge(tot[k], res[k])
            f = fams.setdefault(res["family"], {"cases": 0, "skipped": 0, "evaluations": 0, "cpu_s": 0.0})
            f["cases"] += res["done"]
            f["skipped"] += res["want"] - res["done"]
            f["evaluations"] += res["evals"]
            f["cpu_s"] += res["secs"]
            if len(samples.setdefault(res["family"], [])) < 2:
                samples[res["family"]] += res["samples"][:1]
            tot["viol"] += res["viol"]
            if len(tot["viol"]) >= MAX_VIOLATIONS:
                break
    finally:
        t = threading.Timer(10, lambda: [w.kill() for w in workers + list(pool._pool) if w.exitcode is None])
        t.daemon = True
        t.start()
        pool.terminate()
        pool.join()
        t.cancel()
    known = known_findings()
    confirmed, unconfirmed, knowns = [], 0, {}
    if tot["viol"] and not err:
        env = Env(check, tier, seed, exes, os.path.join(scratch, "confirm"))
        fm = {f.name: f for f in check.families}
        for v in tot["viol"][:MAX_VIOLATIONS]:
            if len(confirmed) >= 5 and env.R.hangs:
                break
            for _ in range(3):
                env.new_stats()
                run_case(env, fm[v["family"]], v["case"])
                if env.viol:
                    break
            if not env.viol:
                unconfirmed += 1
            elif v.get("key") and (check.pid, v["key"]) in known:
                knowns[v["key"]] = known[(check.pid, v["key"])]
            else:
                confirmed.append(v)
        env.R.close()
    for d in list(fams.values()):
        d["cpu_s"] = round(d["cpu_s"], 1)
    evidence = {
        "property": check.pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evals"], "distinct_nontrivial": len(tot["keys"]), "rule": check.rule,
            "samples": [s for f in samples.values() for s in f][:12], "exhaustive": False,
            "families": {f.name: dict(fams.get(f.name, {}), about=f.about) for f in check.families},
            "interpreter_runs": tot["runs"], "outcomes_observed": tot["outcomes"],
            "statements_executed_in_real_interpreter": tot["steps"],
            "events_matched_with_the_reference_model": dict(sorted(tot["events"].items())),
            "discarded": tot["discards"], "inconclusive": tot["inconcl"], "unconfirmed": unconfirmed,
            "chunks_lost": lost, "build_variants": list(check.variants), "build_s": round(t_build, 1),
        },
        "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.%d.tmp" % (check.pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    if not only:
        os.replace(tmp, os.path.join(EVID, check.pid + ".json"))
    else:
        os.unlink(tmp)
    if err:
        print("ERROR: " + err)
        return 2
    print("%s %s: %d evaluations, %d distinct non-trivial, %d runs, outcomes %s, discarded %d, inconclusive %d, "
          "%.1f s (build %.1f s)" % (check.pid, tier, tot["evals"], len(tot["keys"]), tot["runs"], tot["outcomes"],
                                     sum(tot["discards"].values()), sum(tot["inconcl"].values()), time.time() - t0,
                                     t_build))
    for n, d in fams.items():
        print("  %-24s %s" % (n, {k: v for k, v in d.items() if v}))
    if os.environ.get("VERIF_VERBOSE"):
        print("  discards %s" % tot["discards"])
        print("  events %s" % tot["events"])
    for k, w in knowns.items():
        print("KNOWN-FINDING: property=%s %s" % (check.pid, w))
    if confirmed:
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        for k, v in enumerate(confirmed[:MAX_VIOLATIONS]):
            p = os.path.join(rd, "%s-%s-%d.json" % (check.pid, v["family"], v["case"]))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            if k < 5:
                print("  %s case %d: %s" % (v["family"], v["case"], v["what"]))
                print("VIOLATION property=%s replay=%s" % (check.pid, os.path.relpath(p, VERIF)))
        return 1
    if unconfirmed:
        print("  %d deviations could not be reproduced and are not reported" % unconfirmed)
    empty = [f.name for f in check.families if (not only or f.name in only)
             and not fams.get(f.name, {}).get("evaluations")]
    if empty and not unconfirmed:
        print("ERROR: nothing was observed in %s" % ", ".join(empty))
        return 2
    return 0
