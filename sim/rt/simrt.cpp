// Deterministic simulation runtime. Compiled WITHOUT -fsanitize=thread; everything else under
// test is compiled with it and linked against the __tsan_* entry points of simtsan.cpp.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"
#include "siminternal.h"
#include <pthread.h>
#include <malloc.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <ucontext.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <execinfo.h>
#include <malloc.h>
#include <algorithm>
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <cxxabi.h>

namespace sim {

const char *faultName[] = { "none", "enospc", "eio", "short_write", "eintr", "open_fail", "rename_fail", "mkdir_fail", "truncate_fail",
    "short_read", "read_eio", "read_eintr", "crash_at_file_op", "crash_torn_write", "crash_at_memory_step", "spurious_wakeup",
    "preemption", "sync_switch", "clock_jump", "thread_create_fail", "alloc_fail", "net_short_read", "net_short_write", "net_delay",
    "net_reset", "net_eintr", "net_peer_close", "net_reorder", "net_connect_fail", "mmap_fail", "timer_early", "disk_full", "malformed_message", "stalled_thread" };
static const char *outcomeNames[] = { "ok", "crashed", "exception", "signal", "exit", "deadlock", "no-progress", "timeout", "check", "notrun" };
const char *outcomeName(int o) { return o >= 0 && o <= O_NOTRUN ? outcomeNames[o] : "?"; }

uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
uint64_t hashBytes(const void *p, size_t n, uint64_t h) { const unsigned char *c = (const unsigned char *) p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }

PhaseCfg::PhaseCfg() : strategy(0), switchProb(0), preemptPeriod(0), spuriousProb(0), maxSteps(400000000ull), fairness(50000), hwThreads(4),
    clockJumpProb(0), fileFaultProb(0), fileFaultMask(0), diskFullSticky(false), readFaultProb(0), readFaultMask(0), faultAtOp(-1), faultAtKind(0),
    crashAtOp(-1), crashMode(0), crashAtStep(-1), allocFailAt(-1), netFaultProb(0), netFaultMask(0), threadFailProb(0), closeFaults(false), guardMaps(false), rdSeed(0), realTimeout(100) {}

Shared *sh = NULL;
volatile bool g_active = false;
uint64_t g_step = 0, g_next = UINT64_MAX;
static int g_paused = 0;
static PhaseCfg g_cfg;
static Rng g_rng(1), g_netRng(2), g_envRng(3), g_rdRng(4);
static uint32_t g_phase = 0;
static uint64_t g_seed = 0;
static std::string g_root;
static uint64_t g_cnt[ST_N];
bool g_replaying = false;
std::vector<Choice> g_replay;
static std::vector<Choice> g_rs[ST_N]; static size_t g_rc[ST_N];
static uint64_t g_clockBase = 0, g_nextPreempt = UINT64_MAX, g_lastSwitch = 0;
static int64_t g_rtSkew = 0;
static bool g_diskFull = false;
static uint64_t g_fileOps = 0, g_reads = 0, g_allocs = 0;
static uint64_t g_live = 0;
Rng &netRng() { return g_netRng; }
const PhaseCfg &cfg() { return g_cfg; }
bool active() { return g_active; }
uint64_t steps() { return g_step; }
uint64_t liveBytes() { return g_live; }
int syncMisuse() { return sh ? (int) (sh->badUnlock + sh->destroyBusy) : 0; }

static inline void hmix(uint64_t v) { sh->hash = mix(sh->hash, v); }
void observe(uint64_t h) { hmix(h ^ 0x5151); sh->obsHash = mix(sh->obsHash, h); }
void countFault(int k, uint64_t n) { sh->faults[k] += n; }

void traceLine(const char *fmt, ...) {
    if (!sh->traceOn) return;
    char b[512]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n <= 0) return; if (n > 510) n = 510;
    if (sh->traceLen + n + 1 >= sizeof sh->trace) return;
    memcpy(sh->trace + sh->traceLen, b, n); sh->traceLen += n; sh->trace[sh->traceLen++] = '\n';
}

static void record(int stream, uint64_t idx, uint32_t value, uint32_t aux = 0) {
    if (sh->nChoices < MAXCHOICES) { Choice &c = sh->choices[sh->nChoices++]; c.stream = stream; c.phase = g_phase; c.idx = idx; c.value = value; c.aux = aux; }
    else sh->choiceOverflow = 1;
}
static bool lookup(int stream, uint64_t idx, uint32_t &v) {
    std::vector<Choice> &r = g_rs[stream]; size_t &c = g_rc[stream];
    while (c < r.size() && r[c].idx < idx) c++;
    if (c < r.size() && r[c].idx == idx) { v = r[c].value; return true; }
    return false;
}
uint32_t choose(int stream, uint32_t n, double p) {
    uint64_t idx = g_cnt[stream]++;
    if (n <= 1) return 0;
    uint32_t v = 0;
    if (g_replaying) { if (lookup(stream, idx, v)) v %= n; else v = 0; }
    else if (p > 0 && g_rng.chance(p)) v = 1 + (uint32_t) g_rng.below(n - 1);
    if (v) record(stream, idx, v);
    hmix(((uint64_t) stream << 56) ^ (idx << 8) ^ v);
    return v;
}

// ------------------------------------------------------------------ threads
enum { T_RUN = 0, T_BLOCKED, T_DONE };
struct Th {
    int id; int state; void *obj; uint64_t deadline; bool timedOut; int baton; pthread_t pt; void *(*fn)(void *); void *arg; void *ret;
    bool joined, detached; uint64_t seq; double prio; uint64_t stall; const char *why; bool used;
};
static Th g_th[MAXTH]; static int g_nth = 0; static Th *g_cur = NULL; static uint64_t g_seq = 0;
static __thread Th *t_self __attribute__((tls_model("initial-exec"))) = NULL;

static void futexWait(int *a) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void futexWake(int *a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

bool inSim() { return g_active && t_self != NULL; }
int threadId() { return t_self ? t_self->id : -1; }
uint64_t now() { return g_clockBase + g_step * 10; }

std::string dumpThreads() {
    std::string s;
    for (int i = 0; i < g_nth; ++i) if (g_th[i].state != T_DONE) { char b[128]; snprintf(b, sizeof b, "[t%d %s%s]", i, g_th[i].state == T_RUN ? "runnable" : "blocked on ", g_th[i].state == T_RUN ? "" : (g_th[i].why ? g_th[i].why : "?")); s += b; }
    return s;
}

static void finishRaw(int outcome, int code, const char *msg) {
    g_active = false; g_next = UINT64_MAX;
    sh->outcome = outcome; sh->code = code; strncpy(sh->pmsg, msg ? msg : "", sizeof sh->pmsg - 1);
    sh->psteps = g_step; sh->pfileOps = g_fileOps; sh->preads = g_reads; sh->pallocs = g_allocs; sh->psimNs = now();
    sh->steps += g_step; sh->simNs += now(); sh->fileOps += g_fileOps; sh->threads += g_nth; 
    hmix(outcome); hmix(g_step);
    traceLine("phase %u ends: %s %d %s (steps %lu, file ops %lu)", g_phase, outcomeName(outcome), code, msg ? msg : "", (unsigned long) g_step, (unsigned long) g_fileOps);
    syscall(SYS_exit_group, 0);
    for (;;);
}
void finish(int outcome, int code, const std::string &msg) { finishRaw(outcome, code, msg.c_str()); }

static void recomputeNext() {
    uint64_t n = g_cfg.maxSteps;
    if (g_nextPreempt < n) n = g_nextPreempt;
    if (g_cfg.crashAtStep >= 0 && (uint64_t) g_cfg.crashAtStep < n) n = g_cfg.crashAtStep;
    if (g_cfg.fairness && g_lastSwitch + g_cfg.fairness < n) n = g_lastSwitch + g_cfg.fairness;
    g_next = n;
}
static void drawPreempt() {
    if (g_replaying) {
        std::vector<Choice> &r = g_rs[ST_PREEMPT]; size_t &c = g_rc[ST_PREEMPT];
        while (c < r.size() && r[c].idx <= g_step) c++;
        g_nextPreempt = c < r.size() ? r[c].idx : UINT64_MAX;
    } else if (g_cfg.preemptPeriod) g_nextPreempt = g_step + 1 + g_rng.below(2 * g_cfg.preemptPeriod);
    else g_nextPreempt = UINT64_MAX;
}

static void switchTo(Th *t) {
    Th *me = t_self;
    if (t == me) return;
    g_cur = t; g_lastSwitch = g_step; sh->switches++;
    hmix(0xABCD0000ull + t->id);
    recomputeNext();
    int e = errno;
    futexWake(&t->baton);
    if (me->state != T_DONE) futexWait(&me->baton);
    errno = e;
}
static void fireTimers() { uint64_t n = now(); for (int i = 0; i < g_nth; ++i) if (g_th[i].state == T_BLOCKED && g_th[i].deadline <= n) { g_th[i].state = T_RUN; g_th[i].timedOut = true; } }
static int collect(Th **c, Th *me, bool meFirst) {
    int n = 0; if (meFirst && me->state == T_RUN) c[n++] = me;
    int b = me ? me->id : 0;
    for (int k = 1; k <= g_nth; ++k) { Th *t = &g_th[(b + k) % g_nth]; if (t != me && t->state == T_RUN) c[n++] = t; }
    return n;
}
static uint32_t schedPick(Th **c, int n, bool first0) {
    // returns index; default 0. Records only non default choices.
    uint64_t idx = g_cnt[ST_SCHED]++;
    if (n <= 1) return 0;
    sh->schedDecisions++;
    uint32_t v = 0;
    if (g_replaying) { if (lookup(ST_SCHED, idx, v)) v %= n; else v = 0; }
    else if (g_cfg.strategy == 1) { if (!first0 || g_rng.chance(g_cfg.switchProb)) v = (uint32_t) g_rng.below(n); }
    else if (g_cfg.strategy == 2) { double best = -1e18; for (int i = 0; i < n; ++i) if (c[i]->prio > best) { best = c[i]->prio; v = i; } if (g_rng.chance(g_cfg.switchProb * 0.1)) c[v]->prio -= 2 + g_rng.unit(); }
    else if (g_cfg.strategy == 3) { // threads that were stalled stay behind while anyone else can run
        int ok[MAXTH], k = 0; for (int i = 0; i < n; ++i) if (c[i]->stall <= g_step) ok[k++] = i;
        if (!k) v = (uint32_t) g_rng.below(n); else if (first0 && ok[0] == 0) v = 0; else v = ok[g_rng.below(k)];
    }
    if (v) { record(ST_SCHED, idx, v); countFault(F_SWITCH); }
    hmix((idx << 8) ^ v ^ 0x77000000000000ull);
    return v;
}
// current thread cannot continue
static void reschedBlocked() {
    Th *c[MAXTH];
    for (;;) {
        fireTimers();
        int n = collect(c, t_self, t_self->state == T_RUN);
        if (n > 0) { Th *t = c[schedPick(c, n, false)]; switchTo(t); return; }
        uint64_t best = UINT64_MAX;
        for (int i = 0; i < g_nth; ++i) if (g_th[i].state == T_BLOCKED && g_th[i].deadline < best) best = g_th[i].deadline;
        if (best == UINT64_MAX) { std::string d = "all threads blocked: " + dumpThreads(); finish(O_HANG, 0, d); }
        if (best > now()) g_clockBase += best - now();
    }
}
// a slow thread: it does not run for a while although it could
static void maybeStall(double p) {
    if (g_cfg.strategy != 3 || g_replaying || !g_rng.chance(p)) return;
    t_self->stall = g_step + (256ull << g_rng.below(14)); countFault(F_STALL);
}
static void schedPoint() {
    if (!inSim() || g_paused) return;
    maybeStall(g_cfg.switchProb);
    if (++g_step >= g_next) { slowStep(); }
    fireTimers();
    Th *c[MAXTH]; int n = collect(c, t_self, true);
    if (n <= 1) return;
    Th *t = c[schedPick(c, n, true)];
    switchTo(t);
}
void yieldPoint() { schedPoint(); }

static void crashNow(int kind) {
    countFault(kind); traceLine("CRASH at step %lu, file op %lu", (unsigned long) g_step, (unsigned long) g_fileOps);
    finishRaw(O_CRASHED, 0, faultName[kind]);
}

void slowStep() {
    if (!g_active || !t_self) { g_next = UINT64_MAX; return; }
    if (t_self != g_cur) return; // TLS destructors of a finished thread
    if (g_paused) { g_next = g_step + 1000; return; }
    if (g_cfg.crashAtStep >= 0 && g_step >= (uint64_t) g_cfg.crashAtStep) crashNow(F_CRASH_STEP);
    if (g_step >= g_cfg.maxSteps) { g_cfg.maxSteps = UINT64_MAX; g_paused++; finish(O_STEPLIMIT, 0, "step budget exceeded: " + dumpThreads()); }
    if (g_step >= g_nextPreempt) {
        Th *c[MAXTH]; fireTimers();
        int n = collect(c, t_self, false); 
        uint32_t v = 0;
        if (g_replaying) { std::vector<Choice> &r = g_rs[ST_PREEMPT]; size_t k = g_rc[ST_PREEMPT]; if (k < r.size() && r[k].idx <= g_step) v = r[k].value; }
        else if (n > 0) v = 1 + (uint32_t) g_rng.below(n);
        uint64_t at = g_nextPreempt;
        drawPreempt(); recomputeNext();
        if (v && n > 0) {
            record(ST_PREEMPT, at, v); countFault(F_PREEMPT);
            hmix(at ^ ((uint64_t) v << 48)); sh->schedDecisions++;
            if (g_cfg.strategy == 2) t_self->prio -= 1;
            maybeStall(0.5);
            switchTo(c[(v - 1) % n]);
            return;
        }
    }
    if (g_cfg.fairness && g_step - g_lastSwitch >= g_cfg.fairness) {
        Th *c[MAXTH]; fireTimers();
        int n = collect(c, t_self, g_cfg.strategy == 3);
        g_lastSwitch = g_step;
        if (n == 0 || (n == 1 && c[0] == t_self)) {
            uint64_t best = UINT64_MAX; for (int i = 0; i < g_nth; ++i) if (g_th[i].state == T_BLOCKED && g_th[i].deadline < best) best = g_th[i].deadline;
            // a thread that computes alone: time passes faster, but not so fast that a long computation looks like a hang
            if (best != UINT64_MAX && best > now()) g_clockBase += std::min<uint64_t>(best - now(), 10000000);
        } else { uint32_t v = schedPick(c, n, false); recomputeNext(); if (g_cfg.strategy == 2) t_self->prio -= 3; switchTo(c[v]); return; }
    }
    recomputeNext();
}
void pause() { g_paused++; }
void resume() { if (--g_paused == 0 && g_active) recomputeNext(); } // a pre-emption that came due meanwhile happens now, not at a step that depends on earlier ones

static void block(void *obj, uint64_t deadline, const char *why) {
    Th *me = t_self; me->state = T_BLOCKED; me->obj = obj; me->deadline = deadline; me->timedOut = false; me->seq = ++g_seq; me->why = why;
    g_step++;
    if (g_step >= g_cfg.maxSteps) { g_cfg.maxSteps = UINT64_MAX; g_paused++; finish(O_STEPLIMIT, 0, "step budget exceeded while blocking: " + dumpThreads()); }
    reschedBlocked();
    me->obj = NULL;
}
static void wake(void *obj) { for (int i = 0; i < g_nth; ++i) if (g_th[i].state == T_BLOCKED && g_th[i].obj == obj) { g_th[i].state = T_RUN; g_th[i].timedOut = false; } }
static bool wakeOne(void *obj) {
    Th *w[MAXTH]; int n = 0; for (int i = 0; i < g_nth; ++i) if (g_th[i].state == T_BLOCKED && g_th[i].obj == obj) w[n++] = &g_th[i];
    if (!n) return false;
    std::sort(w, w + n, [](Th *a, Th *b) { return a->seq < b->seq; });
    uint32_t v = choose(ST_SIG, n, g_cfg.strategy ? 0.3 : 0);
    w[v]->state = T_RUN; w[v]->timedOut = false; return true;
}
void blockOn(void *obj, uint64_t deadline, bool &timedOut) { block(obj, deadline, "network"); timedOut = t_self->timedOut; }
void wakeAll(void *obj) { wake(obj); }
void sleepNs(uint64_t ns) { if (!inSim()) return; block(NULL, now() + (ns ? ns : 1), "sleep"); }
int aliveThreads() { int n = 0; for (int i = 0; i < g_nth; ++i) if (g_th[i].state != T_DONE) n++; return n; }
bool quiesce(uint64_t maxNs) {
    uint64_t end = now() + maxNs;
    for (;;) {
        if (aliveThreads() == 1) return true;
        fireTimers();
        bool other = false; uint64_t best = UINT64_MAX;
        for (int i = 0; i < g_nth; ++i) if (&g_th[i] != t_self) { if (g_th[i].state == T_RUN) other = true; if (g_th[i].state == T_BLOCKED && g_th[i].deadline < best) best = g_th[i].deadline; }
        if (!other && best > end) return false;
        if (now() > end) return false;
        block(NULL, now() + 1000, "quiesce");
    }
}

struct Start { Th *t; };
static void *threadMain(void *a) {
    Th *t = (Th *) a;
    futexWait(&t->baton);
    t_self = t;
    t->ret = t->fn(t->arg);
    t->state = T_DONE; wake(t);
    hmix(0xD0E0000 + t->id);
    if (g_active) reschedBlocked();
    return t->ret;
}

// --------------------------------------------------------------- real functions
#define REAL(ret, name, args) typedef ret (*name##_rt) args; static name##_rt real_##name() { static name##_rt f = NULL; if (!f) f = (name##_rt) dlsym(RTLD_NEXT, #name); return f; }
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))
REAL(int, pthread_join, (pthread_t, void **))
REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_mutex_lock, (pthread_mutex_t *))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t *))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t *))
REAL(int, pthread_mutex_destroy, (pthread_mutex_t *))
REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *))
REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *))
REAL(int, pthread_cond_signal, (pthread_cond_t *))
REAL(int, pthread_cond_broadcast, (pthread_cond_t *))
REAL(int, pthread_cond_destroy, (pthread_cond_t *))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *))
REAL(int, pthread_once, (pthread_once_t *, void (*)(void)))
REAL(int, sched_yield, (void))
REAL(int, nanosleep, (const struct timespec *, struct timespec *))
REAL(int, usleep, (useconds_t))
REAL(unsigned, sleep, (unsigned))
REAL(int, clock_gettime, (clockid_t, struct timespec *))
REAL(time_t, time, (time_t *))
REAL(int, gettimeofday, (struct timeval *, void *))
REAL(int, open, (const char *, int, ...))
REAL(int, creat, (const char *, mode_t))
REAL(FILE *, fopen, (const char *, const char *))
REAL(int, fclose, (FILE *))
REAL(size_t, fwrite, (const void *, size_t, size_t, FILE *))
REAL(size_t, fread, (void *, size_t, size_t, FILE *))
REAL(int, fflush, (FILE *))
REAL(int, close, (int))
REAL(ssize_t, write, (int, const void *, size_t))
REAL(ssize_t, writev, (int, const struct iovec *, int))
REAL(ssize_t, pwrite, (int, const void *, size_t, off_t))
REAL(ssize_t, read, (int, void *, size_t))
REAL(int, ftruncate, (int, off_t))
REAL(int, truncate, (const char *, off_t))
REAL(int, rename, (const char *, const char *))
REAL(int, unlink, (const char *))
REAL(int, remove, (const char *))
REAL(int, rmdir, (const char *))
REAL(int, mkdir, (const char *, mode_t))
REAL(void *, mmap, (void *, size_t, int, int, int, off_t))

// file descriptor tracking
struct FdInfo { bool used, out; char path[160]; };
static FdInfo g_fd[1024];
static const char *relPath(const char *p) {
    if (g_root.empty() || !p) return NULL;
    size_t n = g_root.size();
    if (strncmp(p, g_root.c_str(), n) == 0) return p + n;
    return NULL;
}
static void trackFd(int fd, const char *rel) { if (fd >= 0 && fd < 1024) { g_fd[fd].used = true; g_fd[fd].out = false; strncpy(g_fd[fd].path, rel, 159); g_fd[fd].path[159] = 0; } }
static FdInfo *tracked(int fd) { return inSim() && !g_paused && fd >= 0 && fd < 1024 && g_fd[fd].used ? &g_fd[fd] : NULL; }
void setRoot(const std::string &r) { g_root = r; }

struct Op { uint64_t idx; int fault; size_t torn; };
static bool beginOp(const char *what, const char *rel, size_t len, uint32_t mask, Op &op) {
    op.idx = g_fileOps++; op.fault = 0; op.torn = 0; g_step++;
    hmix(hashBytes(what, strlen(what)) ^ hashBytes(rel, strlen(rel)) ^ (len << 20));
    if (sh->traceOn) traceLine("p%u t%d op%lu %s %s %zu", g_phase, threadId(), (unsigned long) op.idx, what, rel, len);
    if (g_cfg.crashAtOp >= 0 && (uint64_t) g_cfg.crashAtOp == op.idx) {
        if (g_cfg.crashMode == 0) crashNow(F_CRASH_OP);
        if (g_cfg.crashMode == 2 && (mask & (1u << F_SHORT)) && len > 1) { op.torn = 1 + mix(g_seed, op.idx) % (len - 1); }
    }
    if (g_diskFull && (mask & (1u << F_ENOSPC))) { op.fault = F_ENOSPC; countFault(F_DISKFULL); return true; }
    if (g_cfg.faultAtOp >= 0 && (uint64_t) g_cfg.faultAtOp == op.idx && (mask & (1u << g_cfg.faultAtKind))) op.fault = g_cfg.faultAtKind;
    else if (g_cfg.fileFaultProb > 0 || g_replaying) {
        uint32_t m = mask & g_cfg.fileFaultMask; int kinds[F_N], n = 0; for (int i = 1; i < F_N; ++i) if (m & (1u << i)) kinds[n++] = i;
        uint32_t v = choose(ST_FILE, n + 1, g_cfg.fileFaultProb);
        if (v) op.fault = kinds[v - 1];
    }
    if (op.fault) { countFault(op.fault); if (op.fault == F_ENOSPC && g_cfg.diskFullSticky) g_diskFull = true; if (sh->traceOn) traceLine("   FAULT %s", faultName[op.fault]); }
    return true;
}
static void endOp(const Op &op) { if (g_cfg.crashAtOp >= 0 && (uint64_t) g_cfg.crashAtOp == op.idx && (g_cfg.crashMode == 1 || g_cfg.crashMode == 2)) crashNow(op.torn ? F_CRASH_TORN : F_CRASH_OP); }
static int errOf(int f) { switch (f) { case F_ENOSPC: return ENOSPC; case F_EIO: case F_RENAMEFAIL: case F_TRUNCFAIL: case F_READEIO: return EIO; case F_EINTR: case F_READEINTR: return EINTR; case F_OPENFAIL: return EMFILE; case F_MKDIRFAIL: return ENOSPC; case F_MMAPFAIL: return ENOMEM; } return EIO; }
#define B(x) (1u << (x))
static int readFault(const char *rel) {
    g_reads++;
    if (g_cfg.readFaultProb <= 0 && !g_replaying) return 0;
    int kinds[4], n = 0; for (int i = F_READSHORT; i <= F_READEINTR; ++i) if (g_cfg.readFaultMask & B(i)) kinds[n++] = i;
    uint32_t v = choose(ST_READ, n + 1, g_cfg.readFaultProb);
    if (v) { countFault(kinds[v - 1]); if (sh->traceOn) traceLine("   READ FAULT %s %s", faultName[kinds[v - 1]], rel); return kinds[v - 1]; }
    return 0;
}

// realtime/monotonic
static void simClock(clockid_t id, struct timespec *ts) {
    g_clockBase += 100; uint64_t n = now();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        if (g_cfg.clockJumpProb > 0 || g_replaying) { uint32_t v = choose(ST_TIME, 4, g_cfg.clockJumpProb); if (v) { countFault(F_CLOCKJUMP); g_rtSkew += v == 1 ? 3600000000000ll : v == 2 ? -1800000000000ll : -5000000ll; } }
        n = n + 1700000000ull * 1000000000ull + g_rtSkew;
    } else n += 1000000000ull;
    ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
}
static uint64_t absToSim(clockid_t id, const struct timespec *ts) {
    int64_t v = (int64_t) ts->tv_sec * 1000000000ll + ts->tv_nsec;
    v -= id == CLOCK_REALTIME ? 1700000000ll * 1000000000ll + g_rtSkew : 1000000000ll;
    return v < 0 ? 0 : (uint64_t) v;
}
} // namespace sim
using namespace sim;

// ------------------------------------------------------------------ mutex state inside the mutex
static inline int &mOwner(pthread_mutex_t *m) { return *(int *) &m->__data.__lock; }
static inline unsigned &mCount(pthread_mutex_t *m) { return m->__data.__count; }
static inline int mKind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static bool tryTake(pthread_mutex_t *m) {
    if (mOwner(m) == 0) { mOwner(m) = t_self->id + 1; mCount(m) = 1; return true; }
    if (mOwner(m) == t_self->id + 1 && mKind(m) == PTHREAD_MUTEX_RECURSIVE) { mCount(m)++; return true; }
    return false;
}
static void simLock(pthread_mutex_t *m) { while (!tryTake(m)) block(m, UINT64_MAX, "mutex"); }
static int simUnlock(pthread_mutex_t *m) {
    if (mOwner(m) != t_self->id + 1) { sh->badUnlock++; return mKind(m) == PTHREAD_MUTEX_NORMAL ? (mOwner(m) = 0, wake(m), 0) : EPERM; }
    if (--mCount(m) == 0) { mOwner(m) = 0; wake(m); }
    return 0;
}

extern "C" {
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!inSim()) return real_pthread_create()(pt, attr, fn, arg);
    if (g_nth >= MAXTH) { fprintf(stderr, "too many threads\n"); return EAGAIN; }
    if (choose(ST_ALLOC, 2, g_cfg.threadFailProb)) { countFault(F_THREADFAIL); return EAGAIN; }
    Th *t = &g_th[g_nth]; memset(t, 0, sizeof *t); t->id = g_nth; t->fn = fn; t->arg = arg; t->state = T_RUN; t->deadline = UINT64_MAX; t->used = true; t->prio = g_rng.unit() * 10;
    int ds = PTHREAD_CREATE_JOINABLE; if (attr) pthread_attr_getdetachstate(attr, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
    int e = real_pthread_create()(&t->pt, attr, threadMain, t);
    if (e) return e;
    g_nth++; *pt = t->pt;
    schedPoint();
    return 0;
}
static Th *findTh(pthread_t pt) { for (int i = g_nth - 1; i >= 0; --i) if (g_th[i].used && !g_th[i].joined && pthread_equal(g_th[i].pt, pt)) return &g_th[i]; return NULL; }
int pthread_join(pthread_t pt, void **ret) {
    if (!inSim()) return real_pthread_join()(pt, ret);
    Th *t = findTh(pt); if (!t) return ESRCH;
    schedPoint();
    while (t->state != T_DONE) block(t, UINT64_MAX, "join");
    t->joined = true;
    return real_pthread_join()(pt, ret);
}
int pthread_detach(pthread_t pt) { if (inSim()) { Th *t = findTh(pt); if (t) t->detached = true; } return real_pthread_detach()(pt); }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!inSim() || g_paused) return real_pthread_mutex_lock()(m); schedPoint(); if (mOwner(m) == t_self->id + 1 && mKind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; simLock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!inSim() || g_paused) return real_pthread_mutex_trylock()(m); schedPoint(); return tryTake(m) ? 0 : EBUSY; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    schedPoint(); uint64_t d = absToSim(CLOCK_REALTIME, ts);
    while (!tryTake(m)) { block(m, d, "mutex"); if (t_self->timedOut) return ETIMEDOUT; } return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
    schedPoint(); uint64_t d = absToSim(c, ts);
    while (!tryTake(m)) { block(m, d, "mutex"); if (t_self->timedOut) return ETIMEDOUT; } return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!inSim() || g_paused) return real_pthread_mutex_unlock()(m); int r = simUnlock(m); schedPoint(); return r; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!inSim()) return real_pthread_mutex_destroy()(m); if (mOwner(m)) { sh->destroyBusy++; return EBUSY; } return 0; }
static int simCondWait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
    schedPoint();
    if (g_cfg.spuriousProb > 0 || g_replaying) if (choose(ST_SIG, 2, g_cfg.spuriousProb)) { countFault(F_SPURIOUS); simUnlock(m); schedPoint(); simLock(m); return 0; }
    unsigned cnt = mCount(m); mCount(m) = 1; simUnlock(m);
    block(c, deadline, "condition");
    bool to = t_self->timedOut;
    simLock(m); mCount(m) = cnt ? cnt : 1;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!inSim()) return real_pthread_cond_wait()(c, m); return simCondWait(c, m, UINT64_MAX); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!inSim()) return real_pthread_cond_timedwait()(c, m, ts); return simCondWait(c, m, absToSim(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) { return simCondWait(c, m, absToSim(id, ts)); }
int pthread_cond_signal(pthread_cond_t *c) { if (!inSim()) return real_pthread_cond_signal()(c); schedPoint(); wakeOne(c); schedPoint(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!inSim()) return real_pthread_cond_broadcast()(c); schedPoint(); wake(c); schedPoint(); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!inSim()) return real_pthread_cond_destroy()(c);
    for (int i = 0; i < g_nth; ++i) if (g_th[i].state == T_BLOCKED && g_th[i].obj == c) { sh->destroyBusy++; break; }
    return 0;
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
// rwlock: __data.__readers = reader count, __data.__cur_writer = owner id+1
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!inSim()) return real_pthread_rwlock_rdlock()(l); schedPoint(); while (l->__data.__cur_writer) block(l, UINT64_MAX, "rwlock"); l->__data.__readers++; return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { schedPoint(); if (l->__data.__cur_writer) return EBUSY; l->__data.__readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!inSim()) return real_pthread_rwlock_wrlock()(l); schedPoint(); while (l->__data.__cur_writer || l->__data.__readers) block(l, UINT64_MAX, "rwlock"); l->__data.__cur_writer = t_self->id + 1; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { schedPoint(); if (l->__data.__cur_writer || l->__data.__readers) return EBUSY; l->__data.__cur_writer = t_self->id + 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!inSim()) return real_pthread_rwlock_unlock()(l); if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else if (l->__data.__readers) l->__data.__readers--; wake(l); schedPoint(); return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!inSim()) return real_pthread_once()(o, fn);
    schedPoint();
    for (;;) { if (*o == 2) return 0; if (*o == 0) break; block(o, UINT64_MAX, "once"); }
    *o = 1;
    struct G { pthread_once_t *o; bool done; ~G() { *o = done ? 2 : 0; wake(o); } } g = { o, false };
    fn(); g.done = true; return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
    volatile char *b = (volatile char *) g;
    if (b[0]) return 0;
    if (!inSim()) { b[1] = 1; return 1; }
    while (b[1] && !b[0]) block(g, UINT64_MAX, "static init");
    if (b[0]) return 0;
    b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t *g) { char *b = (char *) g; b[0] = 1; b[1] = 0; if (inSim()) wake(g); }
void __cxa_guard_abort(uint64_t *g) { char *b = (char *) g; b[1] = 0; if (inSim()) wake(g); }

int sched_yield(void) { if (!inSim()) return real_sched_yield()(); 
    // a yielding thread gives way: prefer another runnable thread
    Th *c[MAXTH]; fireTimers(); g_step++; if (g_step >= g_next) slowStep(); int n = collect(c, t_self, false); if (n) { if (g_cfg.strategy == 2) t_self->prio -= 1; switchTo(c[schedPick(c, n, false)]); } else g_clockBase += 1000; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!inSim()) return real_nanosleep()(a, b); sleepNs((uint64_t) a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
int clock_nanosleep(clockid_t id, int flags, const struct timespec *a, struct timespec *b) {
    if (!inSim()) { return real_nanosleep()(a, b); }
    if (flags & TIMER_ABSTIME) { block(NULL, absToSim(id, a), "sleep"); return 0; }
    sleepNs((uint64_t) a->tv_sec * 1000000000ull + a->tv_nsec); return 0;
}
int usleep(useconds_t u) { if (!inSim()) return real_usleep()(u); sleepNs((uint64_t) u * 1000); return 0; }
unsigned sleep(unsigned s) { if (!inSim()) return real_sleep()(s); sleepNs((uint64_t) s * 1000000000ull); return 0; }
int clock_gettime(clockid_t id, struct timespec *ts) { if (!inSim()) return real_clock_gettime()(id, ts); simClock(id, ts); return 0; }
time_t time(time_t *t) { if (!inSim()) return real_time()(t); struct timespec ts; simClock(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *tv, void *tz) { if (!inSim()) return real_gettimeofday()(tv, tz); struct timespec ts; simClock(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }

// ------------------------------------------------------------------ files
static const char *opening(const char *p) { return inSim() && !g_paused ? relPath(p) : NULL; }
static int openCommon(const char *p, int flags, mode_t mode) {
    const char *rel = opening(p);
    if (!rel) return real_open()(p, flags, mode);
    bool mut = (flags & (O_CREAT | O_TRUNC)) != 0;
    if (mut) { Op op; beginOp(flags & O_TRUNC ? "open-trunc" : "open-create", rel, 0, B(F_OPENFAIL) | B(F_ENOSPC), op); if (op.fault) { errno = errOf(op.fault); return -1; }
        int fd = real_open()(p, flags, mode); if (fd >= 0) trackFd(fd, rel); endOp(op); return fd; }
    int fd = real_open()(p, flags, mode); if (fd >= 0) trackFd(fd, rel); return fd;
}
int open(const char *p, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } return openCommon(p, flags, m); }
int open64(const char *p, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, int); va_end(a); } return openCommon(p, flags, m); }
int creat(const char *p, mode_t m) { return openCommon(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static FILE *fopenCommon(const char *p, const char *mode) {
    const char *rel = opening(p);
    if (!rel) return real_fopen()(p, mode);
    bool mut = mode[0] == 'w' || mode[0] == 'a';
    if (mut) { Op op; beginOp(mode[0] == 'w' ? "fopen-trunc" : "fopen-append", rel, 0, B(F_OPENFAIL) | B(F_ENOSPC), op); if (op.fault) { errno = errOf(op.fault); return NULL; }
        FILE *f = real_fopen()(p, mode); if (f) { trackFd(fileno(f), rel); if (fileno(f) < 1024) g_fd[fileno(f)].out = true; } endOp(op); return f; }
    FILE *f = real_fopen()(p, mode); if (f) trackFd(fileno(f), rel); return f;
}
FILE *fopen(const char *p, const char *m) { return fopenCommon(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopenCommon(p, m); }
int fclose(FILE *f) {
    int fd = f ? fileno(f) : -1; FdInfo *fi = f ? tracked(fd) : NULL;
    if (fi && fi->out && g_cfg.closeFaults) { // the last buffer is written here
        Op op; beginOp("fclose", fi->path, 0, B(F_ENOSPC) | B(F_EIO), op);
        if (op.fault) { struct stat st; int d = dup(fd); long n = d >= 0 && fstat(d, &st) == 0 ? (long) st.st_size : -1; fi->used = false; real_fclose()(f); if (n >= 0 && real_ftruncate()(d, n)) {} if (d >= 0) real_close()(d); errno = errOf(op.fault); return EOF; }
        fi->used = false; int r = real_fclose()(f); endOp(op); return r;
    }
    if (fd >= 0 && fd < 1024) g_fd[fd].used = false; return real_fclose()(f);
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
    FdInfo *fi = f ? tracked(fileno(f)) : NULL; if (!fi || s * n == 0) return real_fwrite()(p, s, n, f);
    Op op; beginOp("fwrite", fi->path, s * n, B(F_ENOSPC) | B(F_EIO) | B(F_SHORT), op);
    if (op.torn) { real_fwrite()(p, 1, op.torn, f); real_fflush()(f); endOp(op); }
    if (op.fault) f->_flags |= 0x20; // the error indicator
    if (op.fault == F_SHORT) { size_t k = (s * n) / 2; size_t w = k ? real_fwrite()(p, 1, k, f) : 0; errno = ENOSPC; return w / s; }
    if (op.fault) { errno = errOf(op.fault); return 0; }
    size_t r = real_fwrite()(p, s, n, f); endOp(op); return r;
}
int fprintf(FILE *f, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); FdInfo *fi = f ? tracked(fileno(f)) : NULL; int n; if (!fi) n = vfprintf(f, fmt, ap);
    else { char *b = NULL; n = vasprintf(&b, fmt, ap); if (n > 0 && fwrite(b, 1, n, f) != (size_t) n) n = -1; free(b); } va_end(ap); return n;
}
size_t fread(void *p, size_t s, size_t n, FILE *f) {
    FdInfo *fi = f ? tracked(fileno(f)) : NULL; if (!fi || s * n == 0) return real_fread()(p, s, n, f);
    int k = readFault(fi->path);
    if (k == F_READEIO || k == F_READEINTR) { size_t m = mix(g_seed, g_reads) & 1 ? 0 : (s * n) / 2, r = m ? real_fread()(p, 1, m, f) : 0; f->_flags |= 0x20; errno = errOf(k); return r / s; } // the error indicator is set, a part may have been read
    return real_fread()(p, s, n, f); // stdio itself never returns short on a regular file before its end
}
int close(int fd) {
    if (sim_net_is(fd)) return sim_net_close(fd);
    if (fd >= 0 && fd < 1024) g_fd[fd].used = false; return real_close()(fd);
}
static ssize_t writeCommon(int fd, FdInfo *fi, const char *buf, size_t n, off_t off, bool at) {
    Op op; beginOp(at ? "pwrite" : "write", fi->path, n, B(F_ENOSPC) | B(F_EIO) | B(F_SHORT) | B(F_EINTR), op);
    if (op.torn) { if (at) real_pwrite()(fd, buf, op.torn, off); else real_write()(fd, buf, op.torn); endOp(op); }
    if (op.fault == F_SHORT) { if (n > 1) { size_t k = 1 + mix(g_seed, op.idx) % (n - 1); return at ? real_pwrite()(fd, buf, k, off) : real_write()(fd, buf, k); } }
    else if (op.fault) { errno = errOf(op.fault); return -1; }
    ssize_t r = at ? real_pwrite()(fd, buf, n, off) : real_write()(fd, buf, n); endOp(op); return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (sim_net_is(fd)) return sim_net_send(fd, buf, n, 0);
    FdInfo *fi = tracked(fd); if (!fi || n == 0) return real_write()(fd, buf, n);
    return writeCommon(fd, fi, (const char *) buf, n, 0, false);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { FdInfo *fi = tracked(fd); if (!fi || n == 0) return real_pwrite()(fd, buf, n, o); return writeCommon(fd, fi, (const char *) buf, n, o, true); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return pwrite(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    FdInfo *fi = tracked(fd); if (!fi) return real_writev()(fd, v, c);
    std::string all; for (int i = 0; i < c; ++i) all.append((const char *) v[i].iov_base, v[i].iov_len);
    if (all.empty()) return 0;
    return writeCommon(fd, fi, all.data(), all.size(), 0, false);
}
ssize_t read(int fd, void *buf, size_t n) {
    if (sim_net_is(fd)) return sim_net_recv(fd, buf, n, 0);
    FdInfo *fi = tracked(fd); if (!fi || n == 0) return real_read()(fd, buf, n);
    int k = readFault(fi->path);
    if (k == F_READSHORT && n > 1) n = 1 + mix(g_seed, g_reads) % (n - 1);
    else if (k == F_READEIO || k == F_READEINTR) { errno = errOf(k); return -1; }
    return real_read()(fd, buf, n);
}
int ftruncate(int fd, off_t len) {
    FdInfo *fi = tracked(fd); if (!fi) return real_ftruncate()(fd, len);
    Op op; beginOp("ftruncate", fi->path, len, B(F_TRUNCFAIL) | B(F_ENOSPC), op); if (op.fault) { errno = errOf(op.fault); return -1; }
    int r = real_ftruncate()(fd, len); endOp(op); return r;
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
int truncate(const char *p, off_t len) {
    const char *rel = opening(p); if (!rel) return real_truncate()(p, len);
    Op op; beginOp("truncate", rel, len, B(F_TRUNCFAIL) | B(F_ENOSPC), op); if (op.fault) { errno = errOf(op.fault); return -1; }
    int r = real_truncate()(p, len); endOp(op); return r;
}
int truncate64(const char *p, off_t len) { return truncate(p, len); }
int rename(const char *a, const char *b) {
    const char *rel = opening(a); if (!rel) return real_rename()(a, b);
    Op op; beginOp("rename", rel, 0, B(F_RENAMEFAIL) | B(F_ENOSPC), op); if (op.fault) { errno = errOf(op.fault); return -1; }
    int r = real_rename()(a, b); endOp(op); return r;
}
#define PATHOP(name, what, mask) int name(const char *p) { const char *rel = opening(p); if (!rel) return real_##name()(p); Op op; beginOp(what, rel, 0, mask, op); if (op.fault) { errno = errOf(op.fault); return -1; } int r = real_##name()(p); endOp(op); return r; }
PATHOP(unlink, "unlink", 0)
PATHOP(remove, "remove", 0)
PATHOP(rmdir, "rmdir", 0)
int mkdir(const char *p, mode_t m) {
    const char *rel = opening(p); if (!rel) return real_mkdir()(p, m);
    struct stat st; if (stat(p, &st) == 0) { errno = EEXIST; return -1; }
    Op op; beginOp("mkdir", rel, 0, B(F_MKDIRFAIL) | B(F_ENOSPC), op); if (op.fault) { errno = errOf(op.fault); return -1; }
    int r = real_mkdir()(p, m); endOp(op); return r;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o) {
    static mmap_rt f = NULL; if (!f) f = (mmap_rt) dlsym(RTLD_NEXT, "mmap");
    FdInfo *fi = fd >= 0 ? tracked(fd) : NULL;
    if (fi) { Op op; beginOp("mmap", fi->path, n, B(F_MMAPFAIL), op); if (op.fault) { errno = ENOMEM; return MAP_FAILED; }
        if (g_cfg.guardMaps && !a && !(flags & MAP_FIXED) && n) { size_t up = (n + 4095) & ~(size_t) 4095; void *g = f(NULL, up + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (g != MAP_FAILED) { munmap(g, up); a = g; flags |= MAP_FIXED; } }
        void *r = f(a, n, prot, flags, fd, o); endOp(op); return r; }
    return f(a, n, prot, flags, fd, o);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t o) { return mmap(a, n, prot, flags, fd, o); }

void exit(int code) {
    if (inSim()) { finishRaw(O_EXIT, code, "the code under test called exit"); }
    typedef void (*ex_t)(int); ex_t f = (ex_t) dlsym(RTLD_NEXT, "exit"); f(code); for (;;);
}
} // extern C

// ------------------------------------------------------------------ libstdc++ seams
namespace std {
// future/async waiting
struct __atomic_futex_unsigned_base_probe;
}
extern "C" {
// bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds)
static bool futexWaitSim(unsigned *addr, unsigned val, bool hasTimeout, uint64_t deadline) {
    schedPoint();
    if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != val) return true;
    block(addr, hasTimeout ? deadline : UINT64_MAX, "future");
    return !t_self->timedOut;
}
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *self, unsigned *addr, unsigned val, bool hasTimeout, int64_t s, int64_t ns) {
    struct timespec ts; ts.tv_sec = s; ts.tv_nsec = ns;
    if (inSim()) return futexWaitSim(addr, val, hasTimeout, absToSim(CLOCK_REALTIME, &ts));
    while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, NULL, NULL, 0);
    return true;
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void *self, unsigned *addr, unsigned val, bool hasTimeout, int64_t s, int64_t ns) {
    struct timespec ts; ts.tv_sec = s; ts.tv_nsec = ns;
    if (inSim()) return futexWaitSim(addr, val, hasTimeout, absToSim(CLOCK_MONOTONIC, &ts));
    while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, NULL, NULL, 0);
    return true;
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned *addr) {
    if (inSim()) { wake(addr); schedPoint(); return; }
    syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, INT32_MAX, NULL, NULL, 0);
}
unsigned _ZNSt6thread20hardware_concurrencyEv(void) { return inSim() ? g_cfg.hwThreads : 8; }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { return (unsigned) (inSim() && g_cfg.rdSeed ? g_rdRng : g_envRng).next(); }
}

// ------------------------------------------------------------------ allocation seam
namespace sim { static std::string btString(void *); }
using namespace sim;
// What the code under test allocates with new comes from a heap of its own at a fixed address: the addresses, and with them the order of
// anything sorted or hashed by pointer, depend on the run only. New memory is filled with a pattern, every block has guard bytes on both sides,
// freed blocks are poisoned and kept for a while before they are used again; writes before the start, past the end, to freed memory and double deletes end the phase.
struct HBlk { uint32_t magic, cls; uint64_t size; HBlk *next; uint64_t pad; };
static char *const H_BASE = (char *) 0x200000000000; static const size_t H_SIZE = 1ull << 38; static const uint32_t H_LIVE = 0x11AF0B1C, H_DEAD = 0xDEADB10C;
static char *h_top = NULL, *h_end = NULL; static HBlk *h_free[256]; static volatile int h_lock = 0; static HBlk *h_quar[1024]; static unsigned h_qn = 0;
static void hLock() { while (__sync_lock_test_and_set(&h_lock, 1)) sched_yield(); }
static void hUnlock() { __sync_lock_release(&h_lock); }
static size_t hCap(size_t c) { if (c <= 64) return c * 16; size_t b = (c - 65) / 4 + 10, k = (c - 65) % 4; return ((size_t) 1 << b) + (k + 1) * ((size_t) 1 << (b - 2)); }
static size_t hCls(size_t n, size_t &cap) { if (n <= 1024) { size_t c = (n + 15) / 16; cap = c * 16; return c; } int b = 63 - __builtin_clzll(n - 1); size_t step = (size_t) 1 << (b - 2), k = (n - 1 - ((size_t) 1 << b)) / step; cap = ((size_t) 1 << b) + (k + 1) * step; return 65 + (b - 10) * 4 + k; }
static void hBad(const char *what, HBlk *b) { hUnlock(); g_paused++; char m[200]; snprintf(m, sizeof m, "%s (block of %lu bytes) in ", what, (unsigned long) b->size); finish(O_SIGNAL, SIGABRT, m + btString(NULL)); }
static void hGuard(HBlk *b) { if (b->pad != 0xCBCBCBCBCBCBCBCBull) hBad("memory written before the start of a heap block", b); const uint64_t *g = (const uint64_t *) ((char *) (b + 1) + b->size); uint64_t v[2]; memcpy(v, g, 16); if (v[0] != 0xCBCBCBCBCBCBCBCBull || v[1] != v[0]) hBad("memory written past the end of a heap block", b); }
static void *heapNew(size_t n) {
    size_t cap, cls = hCls(n + 16, cap); hLock(); HBlk *b = h_free[cls];
    if (b) h_free[cls] = b->next;
    else { if (cap > H_SIZE / 2 || h_top + cap + sizeof(HBlk) > h_end) { hUnlock(); throw std::bad_alloc(); } b = (HBlk *) h_top; h_top += cap + sizeof(HBlk); }
    b->magic = H_LIVE; b->cls = (uint32_t) cls; b->size = n; b->next = NULL; b->pad = 0xCBCBCBCBCBCBCBCBull; g_live += n; hUnlock();
    char *p = (char *) (b + 1); if (n <= 65536) memset(p, 0xC7, n); memset(p + n, 0xCB, 16); return p;
}
static void heapDelete(void *p) {
    HBlk *b = (HBlk *) p - 1; hLock(); if (b->magic == H_DEAD) hBad("heap block deleted twice", b); if (b->magic != H_LIVE) hBad("delete of something that is not a heap block", b);
    hGuard(b); b->magic = H_DEAD; g_live -= b->size;
    if (b->size > 65536) { if (b->size >= 1 << 20) { char *a = (char *) (((uintptr_t) p + 4095) & ~4095ull), *e = (char *) (((uintptr_t) p + b->size) & ~4095ull); if (e > a) madvise(a, e - a, MADV_DONTNEED); } b->next = h_free[b->cls]; h_free[b->cls] = b; }
    else { memset(p, 0xD9, b->size); HBlk *o = h_quar[h_qn % 1024]; h_quar[h_qn++ % 1024] = b; if (o) { char *q = (char *) (o + 1); size_t k = std::min<size_t>(o->size, 4096); for (size_t i = 0; i < k; ++i) if (q[i] != (char) 0xD9) hBad("memory written after it was freed", o); o->next = h_free[o->cls]; h_free[o->cls] = o; } }
    __asm__ __volatile__("" : : "r"(p) : "memory"); hUnlock();
}
static void heapStart() { h_top = h_end = NULL; void *r = real_mmap()(H_BASE, H_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (r == H_BASE) { h_top = H_BASE; h_end = H_BASE + H_SIZE; } else { finishRaw(O_NOTRUN, 0, "no heap"); } }
static void heapCheck() { hLock(); size_t k = 0; for (char *q = h_top ? H_BASE : NULL; q && q < h_top && k < 400000; ++k) { HBlk *b = (HBlk *) q; if (b->magic == H_LIVE) hGuard(b); q += hCap(b->cls) + sizeof(HBlk); } hUnlock(); }
static void *simNew(size_t n) {
    if (inSim() && !g_paused) {
        g_allocs++;
        if (g_cfg.allocFailAt >= 0 && (uint64_t) g_cfg.allocFailAt == g_allocs - 1) { countFault(F_BADALLOC); if (sh->traceOn) traceLine("   ALLOC FAULT %zu bytes", n); throw std::bad_alloc(); }
    }
    if (inSim()) return heapNew(n);
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void simDelete(void *p) { if (!p) return; if ((char *) p >= H_BASE && (char *) p < H_BASE + H_SIZE) heapDelete(p); else free(p); }
void *operator new(size_t n) { return simNew(n); }
void *operator new[](size_t n) { return simNew(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return simNew(n); } catch (...) { return NULL; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return simNew(n); } catch (...) { return NULL; } }
void operator delete(void *p) noexcept { simDelete(p); }
void operator delete[](void *p) noexcept { simDelete(p); }
void operator delete(void *p, size_t) noexcept { simDelete(p); }
void operator delete[](void *p, size_t) noexcept { simDelete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { simDelete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { simDelete(p); }

// ------------------------------------------------------------------ phases
namespace sim {
static void *g_throwBt[24]; static int g_throwN = 0;
static std::string btFrames(void **bt, int n);
static std::string btString(void *ucPc) { void *bt[40]; int n = backtrace(bt, 40); return btFrames(bt, n); }
static std::string btFrames(void **bt, int n) {
    std::string s; int shown = 0;
    for (int i = 0; i < n && shown < 10; ++i) {
        Dl_info di; if (!dladdr(bt[i], &di) || !di.dli_sname) continue;
        int st = 0; char *d = abi::__cxa_demangle(di.dli_sname, NULL, NULL, &st); std::string nm = st == 0 && d ? d : di.dli_sname; free(d);
        if (nm.find("sim::") == 0 || nm.find("__tsan") == 0) continue;
        size_t par = nm.find('('); if (par != std::string::npos && par > 0) nm = nm.substr(0, par);
        if (nm.size() > 70) nm = nm.substr(0, 70);
        s += (shown ? " < " : "") + nm; shown++;
    }
    return s;
}
} // namespace sim
extern "C" void __cxa_throw(void *o, void *ti, void (*d)(void *)) {
    typedef void (*f_t)(void *, void *, void (*)(void *)) __attribute__((noreturn)); static f_t f = NULL; if (!f) f = (f_t) dlsym(RTLD_NEXT, "__cxa_throw");
    if (sim::g_active) sim::g_throwN = backtrace(sim::g_throwBt, 24);
    f(o, ti, d); __builtin_unreachable();
}
namespace sim {
static void onSignal(int sig, siginfo_t *, void *uc) {
    if (!g_active) { syscall(SYS_exit_group, 98); }
    g_paused++; static volatile int nested; static char m0[300]; // the report below allocates and unwinds: if the heap or the stack is damaged that faults again, and the short report is used
    if (nested++) finishRaw(O_SIGNAL, sig, m0);
    { Dl_info di; const char *n = NULL; void *pc = uc ? (void *) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP] : NULL; if (pc && dladdr(pc, &di)) n = di.dli_sname; snprintf(m0, sizeof m0, "signal %d in %s (stack or heap damaged)", sig, n ? n : "?"); }
    if (sig == SIGALRM) finish(O_TIMEOUT, sig, "real time limit; " + btString(NULL));
    if (sig == SIGPROF) finish(O_TIMEOUT, sig, "cpu time limit; " + btString(NULL));
    std::string m = sh->pmsg[0] ? std::string(sh->pmsg) + "; " : std::string();
    finish(O_SIGNAL, sig, m + "signal " + std::to_string(sig) + " in " + btString(NULL));
}
static std::string currentExc() {
    std::string m = "uncaught exception";
    if (std::exception_ptr e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (std::exception &x) { m = std::string("uncaught ") + typeid(x).name() + ": " + x.what(); }
        catch (int i) { m = "uncaught int " + std::to_string(i); }
        catch (const char *c) { m = std::string("uncaught ") + c; }
        catch (...) { m = "uncaught object"; }
    } else m = "terminate called";
    return m;
}
static void onTerminate() { if (g_active) { g_paused++; std::string m = currentExc() + " in " + btString(NULL); finish(O_SIGNAL, SIGABRT, m); } abort(); }

std::string PhaseResult::str() const { char b[200]; snprintf(b, sizeof b, "%s(%d) steps=%lu fileOps=%lu ", outcomeName(outcome), code, (unsigned long) steps, (unsigned long) fileOps); return b + msg; }

static char g_altstack[1 << 18];
PhaseResult runPhase(const PhaseCfg &c, const std::function<void()> &fn) {
    g_phase++;
    sh->outcome = O_NOTRUN; sh->code = 0; sh->pmsg[0] = 0; sh->payloadLen = 0; sh->psteps = sh->pfileOps = sh->preads = sh->pallocs = sh->psimNs = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        if (!getenv("SIM_STDERR")) { int dn = ::open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 2); }
        g_cfg = c; g_rng = Rng(mix(g_seed, g_phase)); g_netRng = Rng(mix(g_seed ^ 0x4E45, g_phase)); g_envRng = Rng(mix(g_seed ^ 0x7777, g_phase)); g_rdRng = Rng(mix(g_seed ^ 0x5D1CE, c.rdSeed));
        memset(g_cnt, 0, sizeof g_cnt);
        if (g_replaying) for (int s = 0; s < ST_N; ++s) { g_rs[s].clear(); g_rc[s] = 0; for (size_t i = 0; i < g_replay.size(); ++i) if ((int) g_replay[i].stream == s && g_replay[i].phase == g_phase) g_rs[s].push_back(g_replay[i]); std::sort(g_rs[s].begin(), g_rs[s].end(), [](const Choice &a, const Choice &b) { return a.idx < b.idx; }); }
        stack_t ss; ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; ss.ss_flags = 0; sigaltstack(&ss, NULL);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM, SIGPROF }; for (int i = 0; i < 7; ++i) sigaction(sg[i], &sa, NULL);
        signal(SIGPIPE, SIG_DFL);
        void *warm[4]; backtrace(warm, 4);
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = c.realTimeout; setitimer(ITIMER_PROF, &it, NULL);
        it.it_value.tv_sec = c.realTimeout * 4; setitimer(ITIMER_REAL, &it, NULL);
        std::set_terminate(onTerminate);
        srand((unsigned) mix(g_seed, g_phase));
        g_nth = 1; Th *t = &g_th[0]; memset(t, 0, sizeof *t); t->deadline = UINT64_MAX; t->used = true; t->pt = pthread_self(); t->prio = g_rng.unit() * 10; g_cur = t; t_self = t;
        g_step = 0; g_fileOps = g_reads = g_allocs = 0; g_clockBase = 0; g_lastSwitch = 0; g_live = 0; g_paused = 0; g_diskFull = false; g_rtSkew = 0;
        memset(g_fd, 0, sizeof g_fd);
        sim_net_reset();
        hmix(0xF00D + g_phase);
        drawPreempt(); recomputeNext(); heapStart();
        g_active = true;
        int oc = O_OK, code = 0; std::string msg;
        try { fn(); }
        catch (int i) { oc = O_EXCEPTION; code = i; msg = "exception int " + std::to_string(i); }
        catch (std::exception &e) { oc = O_EXCEPTION; msg = std::string("exception ") + e.what(); }
        catch (const char *s) { oc = O_EXCEPTION; msg = std::string("exception ") + s; }
        catch (...) { oc = O_EXCEPTION; msg = "exception of unknown type"; }
        if (oc == O_EXCEPTION) { g_paused++; msg += "; thrown in " + btFrames(g_throwBt, g_throwN); }
        sh->leftThreads = aliveThreads() - 1; if (oc == O_OK) heapCheck();
        finish(oc, code, msg);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    PhaseResult r; r.outcome = sh->outcome; r.code = sh->code; r.msg = sh->pmsg; r.payload.assign(sh->payload, sh->payloadLen);
    r.steps = sh->psteps; r.fileOps = sh->pfileOps; r.reads = sh->preads; r.allocs = sh->pallocs; r.simNs = sh->psimNs; r.hash = sh->hash;
    if (r.outcome == O_NOTRUN) { if (WIFSIGNALED(st)) { r.outcome = O_SIGNAL; r.code = WTERMSIG(st); r.msg = "killed by signal " + std::to_string(r.code); } else { r.outcome = O_EXIT; r.code = WEXITSTATUS(st); r.msg = "process left"; } }
    sh->phases++;
    return r;
}
void payload(const std::string &s) { if (sh->payloadLen + s.size() <= sizeof sh->payload) { memcpy(sh->payload + sh->payloadLen, s.data(), s.size()); sh->payloadLen += s.size(); } else sh->payloadOverflow = 1; }
void fail(const std::string &key, const std::string &msg) {
    g_paused++;
    snprintf(sh->key, sizeof sh->key, "%s", key.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str()); sh->viol = 1;
    if (g_active) finish(O_CHECK, 0, key + ": " + msg);
    _exit(0);
}
void check(bool c, const std::string &key, const std::string &msg) { if (!c) fail(key, msg); }

// ------------------------------------------------------------------ scenario context
void Ctx::violation(const std::string &key, const std::string &m) { snprintf(sh->key, sizeof sh->key, "%s", key.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", m.c_str()); sh->viol = 1; if (!dir.empty()) rmTree(dir); _exit(0); }
void Ctx::note(const std::string &s) { traceLine("%s", s.c_str()); if (sh->sampleLen + s.size() + 2 < sizeof sh->sample) { memcpy(sh->sample + sh->sampleLen, s.data(), s.size()); sh->sampleLen += s.size(); sh->sample[sh->sampleLen++] = '\n'; } }
void Ctx::observe(uint64_t h) { sim::observe(h); }
void Ctx::nontrivial() { sh->nontrivial = 1; }
void Ctx::count(const std::string &w, uint64_t n) { for (int i = 0; i < 48; ++i) { if (!sh->cname[i][0]) snprintf(sh->cname[i], 40, "%s", w.c_str()); if (w == sh->cname[i]) { sh->cval[i] += n; return; } } }
bool Ctx::dropped(uint64_t i) { if (i + 1 > sh->dropMax) sh->dropMax = i + 1; if (!g_replaying) return false; for (size_t k = 0; k < g_replay.size(); ++k) if (g_replay[k].stream == ST_DROP && g_replay[k].idx == i) return true; return false; }
void Ctx::expectOk(const PhaseResult &r, const std::string &what) {
    if (r.ok() || r.outcome == O_CHECK) { if (r.outcome == O_CHECK) { if (!dir.empty()) rmTree(dir); _exit(0); } return; }
    violation(what + "/" + outcomeName(r.outcome), what + ": " + r.str());
}
void Ctx::randomSched(PhaseCfg &c) {
    switch (rng.below(7)) {
        case 0: c.strategy = 0; break;
        case 6: c.strategy = 3; c.switchProb = rng.pick(std::vector<double>{0.002, 0.01, 0.05, 0.2}); if (rng.chance(0.5)) c.preemptPeriod = rng.pick(std::vector<uint64_t>{100, 3000, 20000}); break;
        case 1: case 2: c.strategy = 1; c.switchProb = rng.pick(std::vector<double>{0.02, 0.1, 0.3, 0.7, 1.0}); break;
        default: c.strategy = rng.chance(0.5) ? 1 : 2; c.switchProb = rng.pick(std::vector<double>{0.05, 0.2, 0.5}); c.preemptPeriod = rng.pick(std::vector<uint64_t>{5, 20, 100, 500, 3000, 20000}); break;
    }
    if (rng.chance(0.3)) c.spuriousProb = 0.1;
}
static std::vector<Scenario> &scen() { static std::vector<Scenario> v; return v; }
void registerScenario(const char *p, const char *n, ScenarioFn f, int w) { Scenario s = { p, n, f, w }; scen().push_back(s); }

// ------------------------------------------------------------------ files (harness side)
void mkdirs(const std::string &p) { for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') real_mkdir()(p.substr(0, i).c_str(), 0777); }
bool fileExists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
std::vector<std::string> listDir(const std::string &p) { std::vector<std::string> v; DIR *d = opendir(p.c_str()); if (!d) return v; while (struct dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(d); std::sort(v.begin(), v.end()); return v; }
void rmTree(const std::string &p) {
    if (p.size() < 10 || p.find("/simscratch") == std::string::npos) return;
    struct stat st; if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) { std::vector<std::string> l = listDir(p); for (size_t i = 0; i < l.size(); ++i) rmTree(p + "/" + l[i]); real_rmdir()(p.c_str()); } else real_unlink()(p.c_str());
}
std::string readFile(const std::string &p) { std::string s; int fd = real_open()(p.c_str(), O_RDONLY); if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = real_read()(fd, b, sizeof b)) > 0) s.append(b, n); real_close()(fd); return s; }
void writeFile(const std::string &p, const std::string &c) { int fd = real_open()(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) return; size_t o = 0; while (o < c.size()) { ssize_t n = real_write()(fd, c.data() + o, c.size() - o); if (n <= 0) break; o += n; } real_close()(fd); }
void copyTree(const std::string &a, const std::string &b) {
    struct stat st; if (lstat(a.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) { mkdirs(b); std::vector<std::string> l = listDir(a); for (size_t i = 0; i < l.size(); ++i) copyTree(a + "/" + l[i], b + "/" + l[i]); }
    else { // sparse aware copy
        int in = real_open()(a.c_str(), O_RDONLY), out = real_open()(b.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        real_ftruncate()(out, st.st_size);
        off_t pos = 0; static char buf[1 << 16];
        while (pos < st.st_size) { off_t d = lseek(in, pos, SEEK_DATA); if (d < 0) break; off_t h = lseek(in, d, SEEK_HOLE); if (h < 0) h = st.st_size; pos = d;
            while (pos < h) { size_t k = std::min<off_t>(sizeof buf, h - pos); ssize_t r = pread(in, buf, k, pos); if (r <= 0) break; real_pwrite()(out, buf, r, pos); pos += r; } }
        real_close()(in); real_close()(out);
    }
}

// ------------------------------------------------------------------ driver
struct RunOut { bool viol; std::string key, msg; uint64_t hash, obs; bool toolError; std::string toolMsg; };
static std::string g_scratchBase;
static RunOut runOnce(const Scenario &s, uint64_t seed, bool thorough, bool trace, bool keepStats);
int simMain(int argc, char **argv);
struct Totals { uint64_t runs, nontrivial, violations, nondet, toolErrors, phases, steps, simNs, fileOps, sched, switches, threads, gate; uint64_t faults[F_N]; std::map<std::string, uint64_t> counts; std::map<std::string, uint64_t> scenarios; std::vector<uint64_t> hashes, obs; unsigned char funcs[8192]; std::vector<std::string> samples; };
static Totals tot;

// Every run is forked from the main thread, which does nothing else, so that it starts from the same heap: the bookkeeping between
// runs happens in a second thread with an allocation arena of its own. Code whose steps depend on the order of heap addresses
// (containers ordered by pointer) would otherwise behave differently when the same seed is run again.
static sem_t g_forkAsk, g_forkDone; static std::function<void()> *g_forkBody; static pid_t g_forkPid; static volatile bool g_forkQuit; static int g_mainRc;
static pid_t forkFresh(std::function<void()> *body) { g_forkBody = body; sem_post(&g_forkAsk); while (sem_wait(&g_forkDone) != 0) ; return g_forkPid; }
static void *mainThread(void *p) { char ***a = (char ***) p; g_mainRc = simMain((int) (long) a[0], a[1]); fflush(stdout); g_forkQuit = true; sem_post(&g_forkAsk); return NULL; }
static int serveForks(int argc, char **argv) {
    mallopt(M_MMAP_THRESHOLD, 1 << 20); sem_init(&g_forkAsk, 0, 0); sem_init(&g_forkDone, 0, 0); char **a[2] = {(char **) (long) argc, argv}; pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20);
    if (pthread_create(&t, &at, mainThread, a) != 0) return 2;
    for (;;) { while (sem_wait(&g_forkAsk) != 0) ; if (g_forkQuit) break; g_forkPid = fork(); if (g_forkPid == 0) { (*g_forkBody)(); _exit(0); } sem_post(&g_forkDone); }
    pthread_join(t, NULL); return g_mainRc;
}
static RunOut runOnce(const Scenario &s, uint64_t seed, bool thorough, bool trace, bool keepStats) {
    size_t hdr = offsetof(Shared, choices);
    memset((void *) sh, 0, hdr); sh->nChoices = 0; sh->traceOn = trace;
    g_seed = seed; g_phase = 0;
    std::string dir = g_scratchBase + "/r";
    rmTree(dir);
    fflush(stdout); fflush(stderr);
    std::function<void()> body = [&]() {
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 600; setitimer(ITIMER_REAL, &it, NULL);
        mkdirs(dir); setRoot(dir);
        Ctx c(mix(seed, hashStr(s.name))); c.dir = dir; c.thorough = thorough; c.replaying = g_replaying;
        g_seed = seed;
        s.fn(c);
        rmTree(dir);
        _exit(0);
    };
    pid_t pid = forkFresh(&body);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    RunOut o; o.viol = sh->viol; o.key = sh->key; o.msg = sh->msg; o.hash = sh->hash; o.obs = sh->obsHash; o.toolError = false;
    if (!o.viol && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { o.toolError = true; o.toolMsg = "scenario process ended abnormally, status " + std::to_string(st) + " " + sh->pmsg; }
    if (sh->payloadOverflow) { o.toolError = true; o.toolMsg = "payload overflow"; }
    rmTree(dir);
    if (keepStats) {
        tot.runs++; tot.nontrivial += sh->nontrivial; tot.phases += sh->phases; tot.steps += sh->steps; tot.simNs += sh->simNs; tot.fileOps += sh->fileOps; tot.sched += sh->schedDecisions; tot.switches += sh->switches; tot.threads += sh->threads;
        for (int i = 0; i < F_N; ++i) tot.faults[i] += sh->faults[i];
        for (int i = 0; i < 48 && sh->cname[i][0]; ++i) tot.counts[sh->cname[i]] += sh->cval[i];
        tot.scenarios[s.name]++;
        for (int i = 0; i < 8192; ++i) tot.funcs[i] |= sh->funcBits[i];
        if (sh->nontrivial) { tot.hashes.push_back(o.hash); tot.obs.push_back(o.obs); }
        if (tot.samples.size() < 3 && sh->nontrivial) { std::string smp(sh->sample, sh->sampleLen); if (smp.size() > 900) smp = smp.substr(0, 900) + "..."; tot.samples.push_back("scenario " + std::string(s.name) + " seed " + std::to_string(seed) + "\n" + smp); }
    }
    return o;
}
static std::string jesc(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
static const Scenario *findScen(const std::string &prop, const std::string &name) { for (size_t i = 0; i < scen().size(); ++i) if (prop == scen()[i].prop && name == scen()[i].name) return &scen()[i]; return NULL; }
static double wall() { struct timespec ts; real_clock_gettime()(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static const char *streamName[] = { "sched", "preempt", "file", "net", "drop", "time", "signal", "crash", "read", "alloc" };

static void writeReplay(const std::string &path, const Scenario &s, uint64_t seed, bool thorough, const RunOut &o, const std::vector<Choice> &ch, const std::string &trace, size_t orig) {
    std::string t = "# simulation replay: the violation, its seed and the minimised schedule and fault trace\n";
    t += "property " + std::string(s.prop) + "\nscenario " + s.name + "\nseed " + std::to_string(seed) + "\ntier " + (thorough ? "thorough" : "quick") + "\nkey " + o.key + "\nmessage " + jesc(o.msg) + "\nhash " + std::to_string(o.hash) + "\n";
    t += "# " + std::to_string(ch.size()) + " non-default decisions (of " + std::to_string(orig) + " in the failing run): stream phase index value\n";
    for (size_t i = 0; i < ch.size(); ++i) t += "c " + std::string(streamName[ch[i].stream]) + " " + std::to_string(ch[i].phase) + " " + std::to_string(ch[i].idx) + " " + std::to_string(ch[i].value) + "\n";
    t += "end\n# trace of the replayed run\n";
    size_t p = 0; while (p < trace.size()) { size_t e = trace.find('\n', p); if (e == std::string::npos) e = trace.size(); t += "# " + trace.substr(p, e - p) + "\n"; p = e + 1; }
    writeFile(path, t);
}
static bool loadReplay(const std::string &path, std::string &prop, std::string &sc, uint64_t &seed, bool &thorough, std::string &key, uint64_t &hash, std::vector<Choice> &ch) {
    std::string t = readFile(path); if (t.empty()) return false; size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); std::string l = t.substr(p, e - p); p = e + 1;
        if (l.empty() || l[0] == '#') continue; if (l == "end") break;
        size_t sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "property") prop = v; else if (k == "scenario") sc = v; else if (k == "seed") seed = strtoull(v.c_str(), 0, 10); else if (k == "tier") thorough = v == "thorough"; else if (k == "key") key = v; else if (k == "hash") hash = strtoull(v.c_str(), 0, 10);
        else if (k == "c") { char sn[32]; unsigned ph; unsigned long long ix; unsigned va; if (sscanf(v.c_str(), "%31s %u %llu %u", sn, &ph, &ix, &va) == 4) { Choice c; c.aux = 0; c.phase = ph; c.idx = ix; c.value = va; c.stream = 0; for (int i = 0; i < ST_N; ++i) if (!strcmp(sn, streamName[i])) c.stream = i; ch.push_back(c); } }
    }
    return true;
}
static bool tryReplay(const Scenario &s, uint64_t seed, bool th, const std::vector<Choice> &ch, const std::string &key, RunOut &o) {
    g_replaying = true; g_replay = ch; o = runOnce(s, seed, th, false, false); g_replaying = false; return o.viol && o.key == key;
}
static std::vector<Choice> minimise(const Scenario &s, uint64_t seed, bool th, std::vector<Choice> ch, const std::string &key, double budget) {
    double end = wall() + budget; RunOut o;
    // first try to drop workload operations (stream DROP entries are additions)
    std::vector<Choice> base = ch; uint64_t dm = sh->dropMax;
    for (uint64_t i = 0; i < dm && i < 200 && wall() < end; ++i) {
        std::vector<Choice> t = base; Choice c; c.stream = ST_DROP; c.phase = 0; c.idx = i; c.value = 1; c.aux = 0; t.push_back(c);
        if (tryReplay(s, seed, th, t, key, o)) base = t;
    }
    // delta debugging over the decisions
    std::vector<Choice> cur, drops; for (size_t i = 0; i < base.size(); ++i) (base[i].stream == ST_DROP ? drops : cur).push_back(base[i]);
    size_t chunk = cur.size();
    while (chunk >= 1 && !cur.empty() && wall() < end) {
        bool any = false;
        for (size_t p = 0; p < cur.size() && wall() < end;) {
            std::vector<Choice> t(cur.begin(), cur.begin() + p); size_t q = std::min(cur.size(), p + chunk); t.insert(t.end(), cur.begin() + q, cur.end());
            std::vector<Choice> full = t; full.insert(full.end(), drops.begin(), drops.end());
            if (tryReplay(s, seed, th, full, key, o)) { cur = t; any = true; } else p = q;
        }
        if (chunk == 1 && !any) break;
        chunk = chunk > 1 ? (chunk + 1) / 2 : 1; if (chunk == 1 && !any && cur.size() > 2000) break;
    }
    cur.insert(cur.end(), drops.begin(), drops.end());
    return cur;
}

int simMain(int argc, char **argv) {
    std::string prop, outDir = ".", replayFile, only; uint64_t seedBase = 1, worker = 0, workers = 1, maxRuns = UINT64_MAX, one = 0; double seconds = 10; bool thorough = false, trace = false, haveOne = false; double minBudget = 20;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seedBase = strtoull(nx().c_str(), 0, 10); else if (a == "--worker") worker = strtoull(nx().c_str(), 0, 10); else if (a == "--workers") workers = strtoull(nx().c_str(), 0, 10);
        else if (a == "--runs") maxRuns = strtoull(nx().c_str(), 0, 10); else if (a == "--seconds") seconds = atof(nx().c_str()); else if (a == "--thorough") thorough = true; else if (a == "--out") outDir = nx(); else if (a == "--replay") replayFile = nx();
        else if (a == "--scenario") only = nx(); else if (a == "--trace") trace = true; else if (a == "--one") { one = strtoull(nx().c_str(), 0, 10); haveOne = true; } else if (a == "--minbudget") minBudget = atof(nx().c_str());
        else if (a == "--list") { for (size_t k = 0; k < scen().size(); ++k) printf("%s %s %d\n", scen()[k].prop, scen()[k].name, scen()[k].weight); return 0; }
    }
    sh = (Shared *) real_mmap()(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    const char *sb = getenv("SIM_SCRATCH"); std::string sbase = sb ? sb : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
    // fixed length path: lengths of path strings must not vary between processes
    char nm[64]; snprintf(nm, sizeof nm, "/simscratch%08d", (int) getpid()); static std::string top; top = sbase + nm;
    // the code under test sees the same path in every process: it ends up in hash tables
    if (!outDir.empty() && outDir[0] != '/') { char cw[4096]; if (getcwd(cw, sizeof cw)) outDir = std::string(cw) + "/" + outDir; }
    if (!replayFile.empty() && replayFile[0] != '/') { char cw[4096]; if (getcwd(cw, sizeof cw)) replayFile = std::string(cw) + "/" + replayFile; }
    g_scratchBase = top + "/simscratch"; mkdirs(g_scratchBase);
    if (chdir(top.c_str()) == 0) g_scratchBase = "/proc/self/cwd/simscratch";
    struct Cleaner { ~Cleaner() { if (chdir("/")) {} rmTree(top); } } cleaner;
    if (!replayFile.empty()) {
        std::string sc, key; uint64_t seed = 0, hash = 0; std::vector<Choice> ch; bool th = false;
        if (!loadReplay(replayFile, prop, sc, seed, th, key, hash, ch)) { fprintf(stderr, "cannot read %s\n", replayFile.c_str()); return 2; }
        const Scenario *s = findScen(prop, sc); if (!s) { fprintf(stderr, "unknown scenario %s %s\n", prop.c_str(), sc.c_str()); return 2; }
        g_replaying = true; g_replay = ch; RunOut o = runOnce(*s, seed, th, true, false);
        if (trace) fwrite(sh->trace, 1, sh->traceLen, stdout);
        printf("{\"type\":\"replay\",\"viol\":%d,\"key\":\"%s\",\"same_key\":%d,\"same_hash\":%d,\"msg\":\"%s\"}\n", o.viol ? 1 : 0, jesc(o.key).c_str(), o.key == key, o.hash == hash, jesc(o.msg).c_str());
        return o.viol ? 1 : 0;
    }
    std::vector<const Scenario *> list; for (size_t i = 0; i < scen().size(); ++i) if (prop == scen()[i].prop && (only.empty() || only == scen()[i].name)) for (int w = 0; w < scen()[i].weight; ++w) list.push_back(&scen()[i]);
    if (list.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    if (haveOne) { const Scenario *s = list[one % list.size()]; RunOut o = runOnce(*s, one, thorough, trace, true); if (trace) fwrite(sh->trace, 1, sh->traceLen, stdout); printf("scenario %s viol=%d key=%s msg=%s hash=%lx obs=%lx tool=%d %s choices=%u steps=%lu\n", s->name, o.viol, o.key.c_str(), o.msg.c_str(), (unsigned long) o.hash, (unsigned long) o.obs, o.toolError, o.toolMsg.c_str(), sh->nChoices, (unsigned long) sh->steps); return o.viol; }
    double end = wall() + seconds; uint64_t k = 0; std::map<std::string, int> seen; int rc = 0;
    while (wall() < end && k < maxRuns) {
        uint64_t idx = k * workers + worker; k++;
        const Scenario *s = list[idx % list.size()]; uint64_t seed = mix(Rng(seedBase).next(), idx) >> 16;
        // keep --one compatible: the scenario is selected by seed
        seed = seed - seed % list.size() + idx % list.size();
        RunOut o = runOnce(*s, seed, thorough, false, true);
        if (o.toolError) { tot.toolErrors++; printf("{\"type\":\"toolerror\",\"scenario\":\"%s\",\"seed\":%lu,\"msg\":\"%s\"}\n", s->name, (unsigned long) seed, jesc(o.toolMsg).c_str()); fflush(stdout); if (tot.toolErrors > 3) break; continue; }
        bool gate = k % 16 == 1;
        if (o.viol || gate) {
            std::vector<Choice> ch(sh->choices, sh->choices + sh->nChoices); bool overflow = sh->choiceOverflow;
            RunOut o2 = runOnce(*s, seed, thorough, false, false); tot.gate++;
            if (o2.hash != o.hash || o2.viol != o.viol || o2.key != o.key) { tot.nondet++; printf("{\"type\":\"nondet\",\"scenario\":\"%s\",\"seed\":%lu,\"key1\":\"%s\",\"key2\":\"%s\",\"msg\":\"%s\"}\n", s->name, (unsigned long) seed, jesc(o.key).c_str(), jesc(o2.key).c_str(), jesc(o.msg + " | " + o2.msg).c_str()); fflush(stdout); if (tot.nondet > 5) break; continue; }
            if (o.viol) {
                tot.violations++;
                if (seen[o.key]++ == 0) {
                    // replay from the recorded decisions, then minimise
                    RunOut o3; std::vector<Choice> mini = ch; bool rep = !overflow && tryReplay(*s, seed, thorough, ch, o.key, o3);
                    if (rep && minBudget > 0) mini = minimise(*s, seed, thorough, ch, o.key, minBudget);
                    if (rep) { g_replaying = true; g_replay = mini; o3 = runOnce(*s, seed, thorough, true, false); g_replaying = false; }
                    char fn[256]; snprintf(fn, sizeof fn, "%s/%s-%s-%lu.replay", outDir.c_str(), s->prop, s->name, (unsigned long) seed);
                    writeReplay(fn, *s, seed, thorough, o3, mini, std::string(sh->trace, sh->traceLen), ch.size());
                    printf("{\"type\":\"violation\",\"scenario\":\"%s\",\"seed\":%lu,\"key\":\"%s\",\"msg\":\"%s\",\"replayed\":%d,\"choices\":%zu,\"minimised\":%zu,\"file\":\"%s\"}\n", s->name, (unsigned long) seed, jesc(o.key).c_str(), jesc(o.msg).c_str(), rep, ch.size(), mini.size(), fn); fflush(stdout);
                    rc = 1;
                }
                if (seen.size() >= 4) break;
            }
        }
    }
    std::sort(tot.hashes.begin(), tot.hashes.end()); tot.hashes.erase(std::unique(tot.hashes.begin(), tot.hashes.end()), tot.hashes.end());
    std::sort(tot.obs.begin(), tot.obs.end()); tot.obs.erase(std::unique(tot.obs.begin(), tot.obs.end()), tot.obs.end());
    printf("{\"type\":\"stats\",\"runs\":%lu,\"nontrivial\":%lu,\"distinct\":%zu,\"distinct_obs\":%zu,\"violations\":%lu,\"nondet\":%lu,\"toolerrors\":%lu,\"phases\":%lu,\"steps\":%lu,\"sim_ns\":%lu,\"file_ops\":%lu,\"sched_decisions\":%lu,\"switches\":%lu,\"threads\":%lu,\"gate\":%lu,\"faults\":{",
        (unsigned long) tot.runs, (unsigned long) tot.nontrivial, tot.hashes.size(), tot.obs.size(), (unsigned long) tot.violations, (unsigned long) tot.nondet, (unsigned long) tot.toolErrors, (unsigned long) tot.phases, (unsigned long) tot.steps, (unsigned long) tot.simNs, (unsigned long) tot.fileOps, (unsigned long) tot.sched, (unsigned long) tot.switches, (unsigned long) tot.threads, (unsigned long) tot.gate);
    bool f = true; for (int i = 1; i < F_N; ++i) if (tot.faults[i]) { printf("%s\"%s\":%lu", f ? "" : ",", faultName[i], (unsigned long) tot.faults[i]); f = false; }
    printf("},\"counts\":{"); f = true; for (auto &p : tot.counts) { printf("%s\"%s\":%lu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long) p.second); f = false; }
    printf("},\"scenarios\":{"); f = true; for (auto &p : tot.scenarios) { printf("%s\"%s\":%lu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long) p.second); f = false; }
    printf("},\"funcs\":\""); for (int i = 0; i < 8192; ++i) printf("%02x", tot.funcs[i]);
    printf("\",\"samples\":["); for (size_t i = 0; i < tot.samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", jesc(tot.samples[i]).c_str());
    printf("]}\n"); fflush(stdout);
    return rc;
}
} // namespace sim
int main(int argc, char **argv) { return sim::serveForks(argc, argv); }
