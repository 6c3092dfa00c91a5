"""Builds the interpreter of /repo's current working tree, instrumented, together with the fork server.

The repository's own CMakeLists.txt is used (so added or moved source files are picked up), out of tree in
/verif/.build (git-ignored); only flags differ: sanitizers, the guarded budget hook, no readline (but in the variant of that name).
"""
import fcntl
import filecmp
import functools
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

VARIANTS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer. Signed overflow is excluded by the properties (assumed to wrap);
    # float-cast-overflow and vptr are not memory errors.
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize=signed-integer-overflow,float-cast-overflow,vptr -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern",
    # Uninitialised automatic variables and heap memory (see runner.py) hold garbage in all builds.
    "plain": "-O1 -fwrapv -ftrivial-auto-var-init=pattern",
    # As the repository's build configures itself: with readline where the library is found.
    "readline": "-O1 -fwrapv -DPSC_VERIF_READLINE",
}


class BuildError(Exception):
    pass


def run(cmd, log):
    env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    env.pop("MAKEFLAGS", None)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    log.append(p.stdout.decode("utf-8", "replace"))
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), "".join(log)[-6000:]))


def hashes():
    """Content hash and modification time of every source file."""
    res = {}
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            f = os.path.join(d, n)
            with open(f, "rb") as h:
                res[f] = (hashlib.sha256(h.read()).hexdigest(), os.path.getmtime(f))
    return res


def build(variant):
    """Returns the path of the interpreter/fork-server binary of this variant."""
    flags = VARIANTS[variant] + " -DPSC_VERIF_BUDGET -w"
    key = hashlib.sha256((os.path.realpath(REPO) + flags).encode()).hexdigest()[:10]
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    os.makedirs(d, exist_ok=True)
    log = []
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        server = os.path.join(d, "server.o")
        run(["g++", "-std=c++20", "-O1", "-w", "-DPSC_VERIF_BUDGET"] + ["-DSANITIZED"] * (variant == "asan") + ["-I", os.path.join(REPO, "src"), "-c",
             os.path.join(VERIF, "harness", "server.cpp"), "-o", server + ".new"], log)
        # an unchanged object is kept, and with it the executable, which another check may be using
        if os.path.exists(server) and filecmp.cmp(server, server + ".new", shallow=False):
            os.unlink(server + ".new")
        else:
            os.replace(server + ".new", server)
        b = os.path.join(d, "b")
        args = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=",
                "-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY", "-DCMAKE_CXX_FLAGS=" + flags,
                "-DCMAKE_EXE_LINKER_FLAGS=-Wl,--wrap=main " + server]
        if variant != "readline":
            args.append("-DHAS_READLINE=OFF")
        else:
            # the configuration above hides the architecture's library folder from find_library
            lib = subprocess.run(["gcc", "-print-file-name=libreadline.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            if os.path.isabs(lib):
                args.append("-DCMAKE_LIBRARY_PATH=" + os.path.dirname(os.path.realpath(os.path.dirname(lib)) + "/"))
        run(args, log)
        exe = os.path.join(b, "PseudoEngine2")
        if os.path.exists(exe) and os.path.getmtime(server) > os.path.getmtime(exe):
            os.unlink(exe)
        # ninja compares times only: a source file whose content changed without becoming newer needs a full build
        now, state = hashes(), os.path.join(d, "hashes.json")
        try:
            with open(state) as f:
                old = json.load(f)
            t = os.path.getmtime(exe)
            if any(old.get(f, [h])[0] != h and m <= t for f, (h, m) in now.items()):
                run(["ninja", "-C", b, "-t", "clean"], log)
        except (OSError, ValueError):
            if os.path.exists(exe):
                run(["ninja", "-C", b, "-t", "clean"], log)
        run(["ninja", "-C", b, "PseudoEngine2"], log)
        with open(state, "w") as f:
            json.dump(now, f)
    return exe


@functools.lru_cache(None)
def echoes(exe):
    """Whether this build reads its input with readline, which echoes the lines it reads."""
    with open(exe, "rb") as f:
        return b"libreadline" in f.read()


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan", "plain"]:
        print(v, build(v))
