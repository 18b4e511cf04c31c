// simrt: deterministic simulation runtime (scheduler, clock, file faults, crash points).
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

// ---------------------------------------------------------------- choices
enum Stream { ST_SCHED = 0, ST_PREEMPT = 1, ST_FILE = 2, ST_NET = 3, ST_DROP = 4, ST_TIME = 5, ST_SIG = 6, ST_CRASH = 7, ST_READ = 8, ST_ALLOC = 9, ST_N = 10 };
struct Choice { uint32_t stream; uint32_t phase; uint64_t idx; uint32_t value; uint32_t aux; };

enum FaultKind { F_NONE = 0, F_ENOSPC, F_EIO, F_SHORT, F_EINTR, F_OPENFAIL, F_RENAMEFAIL, F_MKDIRFAIL, F_TRUNCFAIL, F_READSHORT, F_READEIO, F_READEINTR,
    F_CRASH_OP, F_CRASH_TORN, F_CRASH_STEP, F_SPURIOUS, F_PREEMPT, F_SWITCH, F_CLOCKJUMP, F_THREADFAIL, F_BADALLOC,
    F_NETSHORTREAD, F_NETSHORTWRITE, F_NETDELAY, F_NETRESET, F_NETEINTR, F_NETCLOSE, F_NETREORDER, F_CONNFAIL, F_MMAPFAIL, F_TIMEREARLY, F_DISKFULL, F_BADMSG, F_STALL, F_N };
extern const char *faultName[];

struct PhaseCfg {
    // scheduling
    int strategy;            // 0 run-to-block, 1 random walk, 2 priorities (PCT like), 3 stalled threads
    double switchProb;       // at synchronisation points (strategy 1)
    uint64_t preemptPeriod;  // mean number of memory accesses between preemptions, 0 = none
    double spuriousProb;     // spurious wake-up when waiting on a condition
    uint64_t maxSteps;       // step budget: exceeded = no progress
    uint64_t fairness;       // forced switch after that many steps without one
    int hwThreads;
    // time
    double clockJumpProb;
    // files
    double fileFaultProb;    // per mutating operation
    uint32_t fileFaultMask;  // bitmask of (1<<FaultKind)
    bool diskFullSticky;     // after an ENOSPC everything that needs space fails
    double readFaultProb;
    uint32_t readFaultMask;
    int64_t faultAtOp;       // >=0: inject faultAtKind at this mutating operation
    int faultAtKind;
    int64_t crashAtOp;       // >=0: crash at this mutating operation (0 based)
    int crashMode;           // 0 before the operation, 1 after it, 2 torn (writes)
    int64_t crashAtStep;     // >=0: crash at this step (memory access granularity)
    int64_t allocFailAt;     // >=0: operator new fails at that allocation
    // net
    double netFaultProb; uint32_t netFaultMask;
    double threadFailProb;   // starting a thread fails
    bool closeFaults;        // fclose of a written file is an operation that can fail
    bool guardMaps;          // an unreadable page follows every mapped file
    uint64_t rdSeed;         // != 0: values of std::random_device depend on this and on the run's seed only, not on the phase
    int realTimeout;         // seconds of real time after which the phase is killed
    PhaseCfg();
};

enum Outcome { O_OK = 0, O_CRASHED, O_EXCEPTION, O_SIGNAL, O_EXIT, O_HANG, O_STEPLIMIT, O_TIMEOUT, O_CHECK, O_NOTRUN };
const char *outcomeName(int o);
struct PhaseResult {
    int outcome; int code; std::string msg; std::string payload;
    uint64_t steps, fileOps, reads, allocs, hash; uint64_t simNs;
    bool ok() const { return outcome == O_OK; }
    std::string str() const;
};

// Runs fn inside a forked child with the simulator on.
PhaseResult runPhase(const PhaseCfg &cfg, const std::function<void()> &fn);

// ---- usable inside a phase
bool active();
void payload(const std::string &s);            // append to the phase's payload
void check(bool cond, const std::string &key, const std::string &msg); // violation -> ends the phase
[[noreturn]] void fail(const std::string &key, const std::string &msg);
void observe(uint64_t h);                        // mixes into the trace hash
void yieldPoint();                               // explicit scheduling point
uint64_t now();                                  // simulated ns
void sleepNs(uint64_t ns);
uint32_t choose(int stream, uint32_t n, double probNonZero); // 0 = default
void countFault(int kind, uint64_t n = 1);
uint64_t steps();
int threadId();
bool quiesce(uint64_t maxNs);                    // let the other threads run until all are blocked or done; true if all done
int aliveThreads();
void setRoot(const std::string &root);           // file faults apply below this directory
void pause();                                    // suspend fault injection and preemption (harness bookkeeping)
void resume();
struct Paused { Paused() { pause(); } ~Paused() { resume(); } };
uint64_t liveBytes();
int syncMisuse();                                // locks released by a thread that does not own them, or destroyed while in use, so far
// blocking helpers for the simulated network
void blockOn(void *obj, uint64_t deadlineNs /*UINT64_MAX = none*/, bool &timedOut);
void wakeAll(void *obj);
Rng &netRng();
const PhaseCfg &cfg();
std::string dumpThreads();

// ---------------------------------------------------------------- scenarios
struct Ctx {
    uint64_t seed; Rng rng; std::string dir; bool thorough; bool replaying;
    std::vector<std::string> notes;
    Ctx(uint64_t s) : seed(s), rng(s), thorough(false), replaying(false) {}
    bool dropped(uint64_t opIdx);                // minimiser may drop workload operations
    [[noreturn]] void violation(const std::string &key, const std::string &msg);
    void note(const std::string &s);             // goes to the human readable trace
    void observe(uint64_t h);
    void nontrivial();                           // this run exercised what the property is about
    void count(const std::string &what, uint64_t n = 1);
    void expectOk(const PhaseResult &r, const std::string &what); // any non OK outcome is a violation
    void randomSched(PhaseCfg &c);               // draws a schedule strategy
};
typedef void (*ScenarioFn)(Ctx &);
struct Scenario { const char *prop; const char *name; ScenarioFn fn; int weight; };
void registerScenario(const char *prop, const char *name, ScenarioFn fn, int weight = 1);
struct Reg { Reg(const char *p, const char *n, ScenarioFn f, int w = 1) { registerScenario(p, n, f, w); } };
int simMain(int argc, char **argv);

// small file helpers (real calls, never counted)
void rmTree(const std::string &p);
void copyTree(const std::string &a, const std::string &b);
void writeFile(const std::string &p, const std::string &content);
std::string readFile(const std::string &p);
void mkdirs(const std::string &p);
bool fileExists(const std::string &p);
std::vector<std::string> listDir(const std::string &p);
}
#define SIM_CONCAT2(a,b) a##b
#define SIM_CONCAT(a,b) SIM_CONCAT2(a,b)
#define SCENARIO(prop, name, fn, w) static sim::Reg SIM_CONCAT(reg_, __LINE__)(prop, name, fn, w)
#endif
