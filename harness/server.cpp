// Fork server around the real PseudoEngine2 main().
//
// The interpreter's own objects are linked in unchanged; `-Wl,--wrap=main` makes this file's __wrap_main the entry
// point. For every request one child is forked which becomes the interpreter (unprivileged, in a scratch directory,
// with its own stdin/stdout/stderr), so each case is a fresh interpreter process without paying for exec.
//
// Only the boundary is observed: exit status / signal, bytes written to stdout and stderr, files left behind (read by
// the Python side) and the counters of the guarded budget hook.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "psc/verif_budget.h"

extern "C" int __real_main(int argc, char **argv);

namespace {

struct Shared {
    uint64_t steps, cells, exceeded, finished;
};
Shared *shared;

bool readAll(int fd, void *p, size_t n) {
    char *c = (char *) p;
    while (n > 0) {
        ssize_t r = read(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r;
        n -= r;
    }
    return true;
}

void writeAll(int fd, const void *p, size_t n) {
    const char *c = (const char *) p;
    while (n > 0) {
        ssize_t r = write(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) _exit(3);
        c += r;
        n -= r;
    }
}

struct Reader {
    const std::string &s;
    size_t i = 0;
    uint64_t u64() {
        uint64_t v;
        if (i + 8 > s.size()) _exit(4);
        memcpy(&v, s.data() + i, 8);
        i += 8;
        return v;
    }
    std::string str() {
        size_t n = u64();
        if (i + n > s.size()) _exit(4);
        std::string r = s.substr(i, n);
        i += n;
        return r;
    }
};

void putU64(std::string &s, uint64_t v) { s.append((const char *) &v, 8); }

std::string slurp(int fd, size_t limit) {
    struct stat st;
    if (fstat(fd, &st) != 0) return "";
    size_t n = st.st_size;
    if (n > limit) n = limit;
    std::string s(n, '\0');
    size_t got = 0;
    while (got < n) {
        ssize_t r = pread(fd, s.data() + got, n - got, got);
        if (r <= 0) break;
        got += r;
    }
    s.resize(got);
    return s;
}

void limit(int what, rlim_t v) {
    struct rlimit r = {v, v};
    setrlimit(what, &r);
}

} // namespace

extern "C" int __wrap_main(int argc, char **argv) {
    if (argc < 2 || strcmp(argv[1], "--serve") != 0) return __real_main(argc, argv); // replay by hand

    shared = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int req = dup(0), rep = dup(1);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    fcntl(req, F_SETFD, FD_CLOEXEC);
    fcntl(rep, F_SETFD, FD_CLOEXEC);
    int in = memfd_create("in", 0), out = memfd_create("out", 0), err = memfd_create("err", 0);
    if (in < 0 || out < 0 || err < 0) return 5;

    while (true) {
        uint64_t len;
        if (!readAll(req, &len, 8)) return 0;
        std::string body(len, '\0');
        if (!readAll(req, body.data(), len)) return 0;
        Reader r{body};
        std::string cwd = r.str();
        uint64_t nargs = r.u64();
        std::vector<std::string> args;
        for (uint64_t i = 0; i < nargs; i++) args.push_back(r.str());
        std::string input = r.str();
        uint64_t maxSteps = r.u64(), maxDepth = r.u64(), maxCells = r.u64(), maxString = r.u64();
        uint64_t timeout = r.u64(), fsize = r.u64(), merge = r.u64(), uid = r.u64(), stack = r.u64();

        if (ftruncate(in, 0) || ftruncate(out, 0) || ftruncate(err, 0)) return 6;
        for (size_t w = 0; w < input.size();) {
            ssize_t k = pwrite(in, input.data() + w, input.size() - w, w);
            if (k <= 0) return 6;
            w += k;
        }
        lseek(in, 0, SEEK_SET);
        lseek(out, 0, SEEK_SET);
        lseek(err, 0, SEEK_SET);
        memset(shared, 0, sizeof *shared);

        pid_t pid = fork();
        if (pid < 0) return 7;
        if (pid == 0) {
            dup2(in, 0);
            dup2(out, 1);
            dup2(merge ? out : err, 2);
            // O_APPEND so that stdout and stderr sharing one file never overwrite each other
            fcntl(1, F_SETFL, O_APPEND);
            fcntl(2, F_SETFL, O_APPEND);
            close(req);
            close(rep);
            close(in);
            close(out);
            close(err);
            if (chdir(cwd.c_str()) != 0) _exit(70);
            signal(SIGXFSZ, SIG_IGN);
            signal(SIGPIPE, SIG_DFL);
            limit(RLIMIT_FSIZE, fsize);
            limit(RLIMIT_CORE, 0);
            limit(RLIMIT_CPU, timeout + 5);
            limit(RLIMIT_NPROC, 64);
            if (stack) limit(RLIMIT_STACK, stack);
#ifndef SANITIZED
            limit(RLIMIT_AS, (rlim_t) 4 << 30); // sanitized builds: max_allocation_size_mb
#endif
            if (uid) {
                if (setgid(uid) != 0 || setuid(uid) != 0) _exit(71);
            }
            alarm(timeout);
            PSC::verifBudget.maxSteps = maxSteps;
            PSC::verifBudget.maxDepth = maxDepth;
            PSC::verifBudget.maxCells = maxCells;
            PSC::verifBudget.maxString = maxString;
            std::vector<char *> av;
            static char name[] = "PseudoEngine2";
            av.push_back(name);
            for (auto &a : args) av.push_back(a.data());
            av.push_back(nullptr);
            int rc = __real_main((int) av.size() - 1, av.data());
            shared->steps = PSC::verifBudget.steps;
            shared->cells = PSC::verifBudget.cells;
            shared->exceeded = PSC::verifBudget.exceeded;
            shared->finished = 1;
            exit(rc);
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}

        const size_t cap = 16u << 20;
        std::string o = slurp(out, cap), e = slurp(err, cap);
        std::string reply;
        putU64(reply, WIFSIGNALED(status) ? 1000 + WTERMSIG(status) : WEXITSTATUS(status));
        putU64(reply, shared->steps);
        putU64(reply, shared->cells);
        putU64(reply, shared->exceeded);
        putU64(reply, shared->finished);
        putU64(reply, o.size());
        reply += o;
        putU64(reply, e.size());
        reply += e;
        uint64_t n = reply.size();
        writeAll(rep, &n, 8);
        writeAll(rep, reply.data(), reply.size());
    }
}
