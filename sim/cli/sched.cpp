#include "sched.h"
#include "../faults.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#define REAL(name) static auto real = (decltype(&::name))dlsym(RTLD_NEXT, #name)

int dp_cli_main(int argc, char** argv);          // src/cli/main/main.cpp, renamed by the build

namespace {
bool active = false;                             // only ever true in the child process
CliPlan plan; CliReport* rep = nullptr; Rng* rng = nullptr;
struct Thr { sem_t go; pthread_t id; bool done = false; const void* on = nullptr; void* (*fn)(void*); void* arg; };
constexpr int MAXTHR = 256;
Thr* thr[MAXTHR]; int nThr = 0; int cur = 0; thread_local int me = -1; bool inside = false;

void choose(int next) { cur = next; sem_post(&thr[next]->go); }
void sleepUntilChosen() { while (sem_wait(&thr[me]->go) != 0) {} }
// Hand over to another runnable thread; `must` when the caller cannot go on.
void handOver(bool must, bool dying = false) {
    int cand[MAXTHR], n = 0;
    for (int i = 0; i < nThr; ++i) if (i != me && !thr[i]->done && !thr[i]->on) cand[n++] = i;
    if (!n) { if (!must) return; if (dying) return; rep->deadlock = 1; _exit(97); }
    int next = cand[rng->below(n)];
    rep->switches++; rep->hash = (rep->hash ^ (rep->points * 64 + next)) * 1099511628211ull;
    choose(next); if (!dying) sleepUntilChosen();
}
// The functions of one run are told apart by the order in which they are first entered.
bool isHot(const void* fn) {
    static const void* tab[1 << 13]; static unsigned char val[1 << 13]; static u64 n = 0; const u64 mask = (1 << 13) - 1;
    u64 h = ((u64)fn * 0x9E3779B97F4A7C15ull) >> 51; while (tab[h] && tab[h] != fn) h = (h + 1) & mask;
    if (!tab[h]) { if (n >= mask / 2) return false; tab[h] = fn; u64 x = plan.seed + ++n * 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; val[h] = (x >> 33) % plan.hot == 0; }
    return val[h];
}
void point(const void* fn = nullptr) {
    if (!active || me < 0 || inside) return;
    rep->points++;
    if (rep->points > 400000000ull) { rep->budget = 1; _exit(98); }
    if (nThr < 2 || (plan.side == 1 && me != 0) || (plan.side == 2 && me == 0)) return;
    if (plan.hot ? fn && isHot(fn) && rng->below(2) : rng->below(plan.oneIn) == 0) handOver(false);
}
void wake(const void* on) { for (int i = 0; i < nThr; ++i) if (thr[i]->on == on) thr[i]->on = nullptr; }
void* trampoline(void* p) {
    Thr* t = (Thr*)p; for (int i = 0; i < nThr; ++i) if (thr[i] == t) me = i;
    sleepUntilChosen();
    void* r = t->fn(t->arg);                     // an escaping exception ends the process, as it would outside the simulator
    t->done = true; wake(t); handOver(true, true); me = -1;
    return r;
}
bool isPath(const char* p, const std::string& q) { return p && !q.empty() && q == p; }
int outFd = -1, cfgFd = -1, memFd = -1, traceFd = -1; FILE* outFile = nullptr; u64 outDone = 0, inDone = 0, seen = 0;
bool once(u64 n) { return seen++ == n; }
void fire() { rep->fired++; }
}

extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* fn, void*) { point(fn); }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}

int pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    REAL(pthread_create);
    if (!active || me < 0) return real(id, a, fn, arg);
    Thr* t = new Thr; sem_init(&t->go, 0, 0); t->fn = fn; t->arg = arg; t->id = 0;
    int idx = 1; while (idx < nThr && !(thr[idx]->done && !thr[idx]->id)) ++idx;       // the place of a joined thread is free again
    if (idx == MAXTHR) { delete t; return EAGAIN; }
    Thr* old = idx < nThr ? thr[idx] : nullptr; thr[idx] = t; if (idx == nThr) ++nThr;
    int r = real(id, a, trampoline, t);
    if (r) { delete t; if (old) thr[idx] = old; else --nThr; return r; }
    delete old;
    t->id = *id; rep->threads++;
    if (rng->below(2)) handOver(false);
    return 0;
}
int pthread_join(pthread_t id, void** ret) {
    REAL(pthread_join);
    if (active && me >= 0) { point(); for (int i = 0; i < nThr; ++i) if (i != me && thr[i]->id && pthread_equal(thr[i]->id, id)) while (!thr[i]->done) { thr[me]->on = thr[i]; handOver(true); } }
    int r = real(id, ret);
    if (active && me >= 0) for (int i = 0; i < nThr; ++i) if (thr[i]->done && thr[i]->id && pthread_equal(thr[i]->id, id)) thr[i]->id = 0;
    return r;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(pthread_mutex_lock);
    if (!active || me < 0 || inside) return real(m);
    point();
    while (pthread_mutex_trylock(m) != 0) { thr[me]->on = m; handOver(true); }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(pthread_mutex_unlock);
    int r = real(m);
    if (active && me >= 0 && !inside) { wake(m); point(); }
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(pthread_cond_wait);
    if (!active || me < 0) return real(c, m);
    if (plan.fault == IoFault::SPURIOUS && rng->below(2)) { fire(); pthread_mutex_unlock(m); handOver(false); }
    else { thr[me]->on = c; pthread_mutex_unlock(m); if (thr[me]->on == c) handOver(true); }
    return pthread_mutex_lock(m);
}
int pthread_cond_broadcast(pthread_cond_t* c) { REAL(pthread_cond_broadcast); if (active && me >= 0) { wake(c); point(); return 0; } return real(c); }
int pthread_cond_signal(pthread_cond_t* c) {
    REAL(pthread_cond_signal);
    if (!active || me < 0) return real(c);
    int w[MAXTHR], n = 0; for (int i = 0; i < nThr; ++i) if (thr[i]->on == c) w[n++] = i;
    if (n) thr[w[rng->below(n)]]->on = nullptr;
    point(); return 0;
}

static FILE* fopenX(FILE* (*real)(const char*, const char*), const char* p, const char* mode) {
    if (!active) return real(p, mode);
    bool w = mode && mode[0] == 'w';
    if (w && isPath(p, plan.out) && plan.fault == IoFault::OUT_OPEN && once(plan.at)) { fire(); errno = plan.at & 1 ? EMFILE : EACCES; return nullptr; }
    if (!w && ((isPath(p, plan.cfg) && plan.fault == IoFault::CFG_OPEN) || (isPath(p, plan.mem) && plan.fault == IoFault::MEM_OPEN))) { fire(); errno = EMFILE; return nullptr; }
    FILE* f = real(p, mode); if (!f) return f;
    if (w && isPath(p, plan.out)) { outFd = fileno(f); outFile = f; outDone = 0; }
    else if (isPath(p, plan.cfg)) { cfgFd = fileno(f); inDone = 0; }
    else if (isPath(p, plan.mem)) { memFd = fileno(f); inDone = 0; }
    return f;
}
FILE* fopen(const char* p, const char* m) { REAL(fopen); return fopenX(real, p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); return fopenX(real, p, m); }
int fclose(FILE* f) {
    REAL(fclose);
    if (!active || !f) return real(f);
    int fd = fileno(f); bool out = f == outFile;
    if (fd == outFd) outFd = -1; if (fd == cfgFd) cfgFd = -1; if (fd == memFd) memFd = -1; if (out) outFile = nullptr;
    int r = real(f);
    if (out && plan.fault == IoFault::OUT_CLOSE && once(plan.at)) { fire(); errno = EIO; return EOF; }
    return r;
}
ssize_t write(int fd, const void* b, size_t n) {
    REAL(write);
    if (!active || fd != outFd || fd < 0) return real(fd, b, n);
    if (plan.fault == IoFault::OUT_FULL) { if (outDone >= plan.at) { fire(); errno = ENOSPC; return -1; } if (outDone + n > plan.at) n = plan.at - outDone; }
    if (plan.fault == IoFault::OUT_SHORT && n > 1) { fire(); n = 1 + rng->below(n - 1); }
    if (plan.fault == IoFault::OUT_EINTR && rng->below(3) == 0) { fire(); errno = EINTR; return -1; }
    ssize_t r = real(fd, b, n); if (r > 0) outDone += r; return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    REAL(writev);
    if (!active || fd != outFd || fd < 0) return real(fd, v, c);
    for (int i = 0; i < c; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t read(int fd, void* b, size_t n) {
    REAL(read);
    bool cfg = fd == cfgFd, mem = fd == memFd;
    if (!active || fd < 0 || (!cfg && !mem)) return real(fd, b, n);
    if ((cfg && plan.fault == IoFault::CFG_EIO) || (mem && plan.fault == IoFault::MEM_EIO)) { if (inDone >= plan.at) { fire(); errno = EIO; return -1; } n = std::min<u64>(n, plan.at - inDone); }
    if (plan.fault == IoFault::IN_SHORT && n > 1) { fire(); n = 1 + rng->below(std::min<u64>(n, 64)); }
    if (plan.fault == IoFault::IN_EINTR && rng->below(3) == 0) { fire(); errno = EINTR; return -1; }
    ssize_t r = real(fd, b, n); if (r > 0) inDone += r; return r;
}
static bool openFails(const char* p) {
    if (active && isPath(p, plan.trace) && plan.fault == IoFault::TRACE_OPEN && once(plan.at)) { fire(); errno = plan.at & 1 ? EMFILE : EACCES; return true; }
    return false;
}
int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); REAL(open); if (openFails(p)) return -1; int r = real(p, flags, mode); if (active && isPath(p, plan.trace)) traceFd = r; return r; }
int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); REAL(open64); if (openFails(p)) return -1; int r = real(p, flags, mode); if (active && isPath(p, plan.trace)) traceFd = r; return r; }
int __open_2(const char* p, int flags) { return open(p, flags, 0); }
int __open64_2(const char* p, int flags) { return open64(p, flags, 0); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
void* mmap64(void* p, size_t n, int prot, int flags, int fd, off_t off) { return mmap(p, n, prot, flags, fd, off); }
void* mmap(void* p, size_t n, int prot, int flags, int fd, off_t off) {
    REAL(mmap);
    if (active && fd >= 0 && fd == traceFd && plan.fault == IoFault::TRACE_MMAP && once(plan.at)) { fire(); errno = ENOMEM; return MAP_FAILED; }
    return real(p, n, prot, flags, fd, off);
}
}

// An exception that leaves the tool's main ends the process.
static int tool(int argc, char** argv) noexcept { return dp_cli_main(argc, argv); }

CliResult runCli(const std::vector<std::string>& args, const CliPlan& p, const std::string& cwd, const std::string& stdoutPath) {
    static CliReport* shared = (CliReport*)mmap(nullptr, sizeof(CliReport), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *shared = {}; shared->hash = 1469598103934665603ull;
    pid_t pid = fork();
    if (pid == 0) {
        if (chdir(cwd.c_str())) _exit(90);
        int o = open(stdoutPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), n = open("/dev/null", O_WRONLY); dup2(o, 1); dup2(n, 2); close(o); close(n);
        signal(SIGABRT, SIG_DFL); alarm(60);
        plan = p; rep = shared; rng = new Rng(p.seed);
        std::vector<std::string> store = args; std::vector<char*> argv; for (auto& s : store) argv.push_back(s.data()); argv.push_back(nullptr);
        Thr* t = new Thr; sem_init(&t->go, 0, 0); t->id = 0; thr[0] = t; nThr = 1; me = 0; cur = 0;
        active = true;
        int rc;
        if (p.fault == IoFault::ALLOC) { FailAlloc fa(p.at); rc = tool((int)args.size(), argv.data()); shared->fired = fa.fired(); }
        else rc = tool((int)args.size(), argv.data());
        fflush(nullptr); active = false; _exit(rc & 0xff);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    CliResult r; r.signalled = WIFSIGNALED(st); r.code = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st); r.rep = *shared; return r;
}
