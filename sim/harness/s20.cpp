// S20: the query runtime's lock, event, thread, scheduler and pools.
#include "simrt.h"
#include <infra/osdep/Mutex.hpp>
#include <infra/osdep/Event.hpp>
#include <infra/osdep/Thread.hpp>
#include <infra/util/Pool.hpp>
#include <infra/util/VarPool.hpp>
#include <rts/operator/Scheduler.hpp>
#include <rts/operator/Operator.hpp>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
using namespace sim;

namespace {
const uint64_t MS = 1000000ull;
struct Job { std::function<void()> fn; Mutex *m; Event *e; int *left; };
void jobMain(void *p) { std::unique_ptr<Job> j((Job *) p); j->fn(); auto_lock l(*j->m); --*j->left; j->e->notifyAll(*j->m); }
struct Team { Mutex m; Event e; int left; Team() : left(0) {}
    void go(std::function<void()> fn) { { auto_lock l(m); ++left; } Job *j = new Job(); j->fn = fn; j->m = &m; j->e = &e; j->left = &left; if (!Thread::start(jobMain, j)) fail("S20/start", "a thread could not be started although nothing failed"); }
    void wait() { m.lock(); while (left) e.wait(m); m.unlock(); } };
void gone(const char *what) { check(quiesce(1000 * MS) || aliveThreads() == 1, std::string("S20/") + what + "-threads", "threads are still running at the end"); check(syncMisuse() == 0, std::string("S20/") + what + "-misuse", "a lock was released by a thread that does not hold it, or destroyed while in use"); }

// a bounded buffer between several threads, written with the runtime's primitives
void buffer(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 20000000; if (c.rng.chance(0.4)) p.spuriousProb = 0.1;
    int np = (int) c.rng.range(1, 4), nc = (int) c.rng.range(1, 4), per = (int) c.rng.range(0, 25), cap = (int) c.rng.range(1, 4); bool one = c.rng.chance(0.5), timed = c.rng.chance(0.3); double tryp = c.rng.chance(0.5) ? 0.4 : 0; uint64_t s = c.rng.next();
    c.note("buffer producers=" + std::to_string(np) + " consumers=" + std::to_string(nc) + " items=" + std::to_string(per) + " capacity=" + std::to_string(cap)); if (per) c.nontrivial(); c.count("items", per * np);
    PhaseResult r = runPhase(p, [&]() {
        { Team t; Mutex m; Event full, empty; std::deque<int> q; volatile int inside = 0; int open = np; std::vector<std::vector<int>> got(nc);
        // one event for each direction: notify wakes at least one waiting thread, so one notification for each item is enough
        auto enter = [&](Rng &g) { if (g.chance(tryp)) while (!m.tryLock()) Thread::yield(); else m.lock(); int k = inside; check(k == 0, "S20/exclusion", "two threads are inside the same lock"); inside = k + 1; };
        auto leave = [&]() { int k = inside; check(k == 1, "S20/exclusion", "two threads are inside the same lock"); inside = k - 1; m.unlock(); };
        auto waitOn = [&](Event &e) { int k = inside; check(k == 1, "S20/exclusion", "two threads are inside the same lock"); inside = 0; if (timed) e.timedWait(m, 100000); else e.wait(m); k = inside; check(k == 0, "S20/exclusion", "a wait came back while another thread was inside the lock"); inside = 1; };
        for (int i = 0; i < np; ++i) t.go([&, i]() { Rng g(s + i); for (int k = 0; k < per; ++k) { enter(g); while ((int) q.size() >= cap) waitOn(empty); q.push_back(i * 1000 + k); if (one) full.notify(m); else full.notifyAll(m); leave(); if (g.chance(0.1)) Thread::yield(); } enter(g); --open; full.notifyAll(m); leave(); });
        for (int i = 0; i < nc; ++i) t.go([&, i]() { Rng g(s + 50 + i); while (true) { enter(g); while (q.empty() && open) waitOn(full); if (q.empty()) { leave(); break; } got[i].push_back(q.front()); q.pop_front(); if (one) empty.notify(m); else empty.notifyAll(m); leave(); } });
        t.wait();
        std::vector<int> all, want; for (int i = 0; i < nc; ++i) { std::vector<int> last(np, -1); for (int v : got[i]) { check(v % 1000 > last[v / 1000], "S20/order", "items of one producer arrived out of order"); last[v / 1000] = v % 1000; all.push_back(v); } }
        std::sort(all.begin(), all.end()); for (int i = 0; i < np; ++i) for (int k = 0; k < per; ++k) want.push_back(i * 1000 + k);
        check(all == want, "S20/items", "received " + std::to_string(all.size()) + " items, sent " + std::to_string(want.size()));
        check(now() < 90000 * MS, "S20/lost-wakeup", "the exchange only finished because timed waits ran out");
        quiesce(1000 * MS); }
        gone("buffer");
    });
    c.expectOk(r, "S20/buffer");
}

// timed waits against the simulated clock, with and without a signal
void timed(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 20000000; if (p.strategy == 3) p.strategy = 1; p.clockJumpProb = 0;
    int n = (int) c.rng.range(1, 4); uint64_t s = c.rng.next(); c.note("timed waits by " + std::to_string(n) + " threads"); c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        { Rng g(s); sleepNs(g.below(2000) * MS + g.below(1000000)); Team t; struct One { Mutex m; Event e; bool set; One() : set(false) {} }; std::vector<std::unique_ptr<One>> v;
        for (int i = 0; i < n; ++i) { v.push_back(std::unique_ptr<One>(new One())); One *o = v.back().get(); uint64_t wait = g.chance(0.2) ? g.range(0, 2) : g.range(1, g.chance(0.5) ? 30 : 3000); int kind = (int) g.below(3); uint64_t at = kind == 0 ? 0 : kind == 1 ? wait / 4 : wait + 1500; uint64_t off = g.below(3000) * MS + g.below(1000000);
            t.go([=]() { sleepNs(off + 1); int64_t tick0 = Thread::getTicks(); o->m.lock(); uint64_t t0 = now(); bool ok = true; while (!o->set && ok) { uint64_t el = (now() - t0) / MS, rem = el < wait ? wait - el : 0, t1 = now(); ok = o->e.timedWait(o->m, rem); if (!ok) check(now() - t1 + MS >= rem * MS, "S20/timeout-early", "a wait of " + std::to_string(rem) + " ms reported a timeout after " + std::to_string((now() - t1) / MS) + " ms"); else if (!o->set && now() >= t0 + wait * MS) ok = false; } uint64_t d = now() - t0; bool set = o->set; o->m.unlock();
                check(d <= wait * MS + 1000 * MS, "S20/timeout-late", "a wait of " + std::to_string(wait) + " ms came back after " + std::to_string(d / MS) + " ms");
                if (kind == 1 && wait > 400) check(set && d < wait * MS, "S20/signal-lost", "a wait of " + std::to_string(wait) + " ms signalled after " + std::to_string(at) + " ms ended by timeout");
                int64_t el = (int64_t) Thread::getTicks() - tick0; check(el >= 0 && (uint64_t) el <= (now() - t0) / MS + 2, "S20/ticks", "the tick counter moved by " + std::to_string(el) + " ms"); });
            if (kind) t.go([=]() { sleepNs(off + 1); Thread::sleep((unsigned) at); o->m.lock(); o->set = true; o->e.notify(o->m); o->m.unlock(); }); }
        unsigned w = (unsigned) g.range(1, 2500); uint64_t b = now(); Thread::sleep(w); check(now() - b >= w * MS, "S20/sleep", "a sleep of " + std::to_string(w) + " ms lasted " + std::to_string((now() - b) / MS)); t.wait(); quiesce(1000 * MS); }
        gone("timed");
    });
    c.expectOk(r, "S20/timed");
}

// the scheduler
struct World;
struct Task : Scheduler::AsyncPoint { World *w; int id, cls; double prio; unsigned dep; int kind; volatile int runs, done; void run(); };
struct World { std::vector<std::unique_ptr<Task>> tasks; Mutex m; Event e; int finished; bool ordered; std::vector<int> order; volatile int rootFirst, rootNext; int rows, first; };
void Task::run() {
    int n = ++runs; check(n == 1, "S20/task-twice", "task " + std::to_string(id) + " was run " + std::to_string(n) + " times"); check(!w->rootFirst, "S20/task-late", "task " + std::to_string(id) + " started after the plan itself");
    for (int k = dep; k < id; ++k) check(w->tasks[k]->done, "S20/task-order", "task " + std::to_string(id) + " started before task " + std::to_string(k) + " it depends on had finished");
    w->m.lock(); w->order.push_back(id); if (w->ordered && id == w->first) while (w->finished + 1 < (int) w->tasks.size()) w->e.wait(w->m); w->m.unlock();
    if (kind == 1) Thread::yield(); else if (kind == 2) Thread::sleep(1 + id); else if (kind == 3) for (volatile int i = 0; i < 300; ++i) {}
    for (int k = id + 1; k < (int) w->tasks.size(); ++k) if ((int) w->tasks[k]->dep <= id) check(!w->tasks[k]->runs, "S20/task-order", "task " + std::to_string(k) + " started before task " + std::to_string(id) + " it depends on had finished");
    done = 1; w->m.lock(); w->finished++; w->e.notifyAll(w->m); w->m.unlock();
}
struct Root : Operator { World *w; bool async; Root(World *x) : Operator(1), w(x) {}
    uint64_t first() { check(w->rootFirst == 0, "S20/root", "the plan was started twice"); w->rootFirst = 1; if (async) for (auto &t : w->tasks) check(t->done, "S20/task-missing", "the plan started before task " + std::to_string(t->id) + " was finished"); return w->rows > 0; }
    uint64_t next() { ++w->rootNext; return w->rootNext < w->rows; }
    void print(PlanPrinter &) {} void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &s) { for (auto &t : w->tasks) { check(s.getRegisteredPoints() == (unsigned) t->id, "S20/registered", "the scheduler counts its registered points wrongly"); s.registerAsyncPoint(*t, t->cls, t->prio, t->dep); } } };
// the order in which the points must be handed out when one worker is held by the first of them
std::vector<int> expectedOrder(const World &w) {
    std::vector<int> left, out; std::set<int> done; for (auto &t : w.tasks) left.push_back(t->id);
    while (!left.empty()) { int best = -1; for (int i : left) { const Task &t = *w.tasks[i]; bool ready = true; for (int k = t.dep; k < i; ++k) if (!done.count(k)) ready = false; if (!ready) continue; if (best < 0 || t.cls < w.tasks[best]->cls || (t.cls == w.tasks[best]->cls && t.prio > w.tasks[best]->prio)) best = i; }
        out.push_back(best); if (best != w.first) done.insert(best); left.erase(std::find(left.begin(), left.end(), best)); }
    return out;
}
void scheduler(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 20000000; if (c.rng.chance(0.4)) p.spuriousProb = 0.1; int threads = c.rng.chance(0.15) ? (int) c.rng.range(-1, 1) : (int) c.rng.range(2, 6); bool ordered = c.rng.chance(0.3); if (ordered) threads = 2; int rounds = (int) c.rng.range(0, 3); bool failing = !ordered && c.rng.chance(0.15);
    uint64_t s = c.rng.next(); std::vector<std::vector<std::vector<double>>> plan(rounds); int no = 0; std::string note = "scheduler threads=" + std::to_string(threads) + (ordered ? " ordered" : "") + " tasks";
    for (auto &r : plan) { int n = (int) c.rng.range(0, 12), shape = (int) c.rng.below(3); for (int i = 0; i < n; ++i) { if (c.dropped(++no)) continue; unsigned id = r.size(), dep = shape == 0 ? id : shape == 1 ? (c.rng.chance(0.6) ? id : c.rng.below(id + 1)) : c.rng.below(id + 1); if (ordered && id && dep == 0) dep = 1; r.push_back({ (double) c.rng.below(3), (double) c.rng.below(20) / (c.rng.chance(0.5) ? 1 : 7), (double) dep, (double) c.rng.below(4) }); } note += " " + std::to_string(r.size()); c.count("tasks", r.size()); if (r.size() > 1) c.nontrivial(); }
    c.note(note);
    if (failing) p.threadFailProb = c.rng.chance(0.3) ? 1.0 : 0.3;
    PhaseResult r = runPhase(p, [&]() {
        if (threads == 1) setenv("MAXTHREADS", "1", 1); else if (threads < 0) setenv("MAXTHREADS", "", 1); else if (threads) setenv("MAXTHREADS", std::to_string(threads).c_str(), 1); else unsetenv("MAXTHREADS");
        { std::unique_ptr<Scheduler> sc(new Scheduler()); bool async = threads > 1; if (failing && aliveThreads() == 1) async = false; Rng g(s);
        for (auto &pl : plan) {
            World w; w.finished = 0; w.ordered = ordered; w.rootFirst = w.rootNext = 0; w.rows = (int) g.below(5); w.first = 0;
            for (auto &x : pl) { Task *t = new Task(); t->w = &w; t->id = (int) w.tasks.size(); t->cls = ordered && !t->id ? -1 + 1 : (int) x[0] + (ordered ? 1 : 0); t->prio = ordered ? x[1] + t->id * 1e-6 : x[1]; t->dep = (unsigned) x[2]; t->kind = (int) x[3]; t->runs = t->done = 0; w.tasks.push_back(std::unique_ptr<Task>(t)); }
            Root root(&w); root.async = async; if (!failing || async || threads <= 1) sc->execute(&root); else sc->execute(&root);
            check(w.rootFirst == 1 && w.rootNext == w.rows * (w.rows > 0), "S20/root", "the plan was pulled " + std::to_string(w.rootNext) + " times for " + std::to_string(w.rows) + " rows");
            for (auto &t : w.tasks) check(t->runs == async, "S20/task-count", "task " + std::to_string(t->id) + " ran " + std::to_string(t->runs) + " times");
            if (ordered && async && w.tasks.size() > 1) { std::vector<int> want = expectedOrder(w), got = w.order; // the first one holds its worker and may be seen late, all others pass through the other worker
                want.erase(std::find(want.begin(), want.end(), w.first)); got.erase(std::find(got.begin(), got.end(), w.first)); if (got != want) { std::string d; for (int i : w.order) d += " " + std::to_string(i); d += ", expected"; for (int i : want) d += " " + std::to_string(i); fail("S20/priority", "tasks were started in the order" + d); } }
            if (g.chance(0.3)) sleepNs(g.below(20) * MS);
        } }
        gone("scheduler");
    });
    c.expectOk(r, "S20/scheduler");
}

// pools: every object has one owner, constructors and destructors balance, enumeration sees exactly the living ones
int g_live, g_throwAt; std::set<const void *> *g_objs;
template<int N> struct Obj { char data[N]; Obj() { if (g_throwAt > 0 && --g_throwAt == 0) throw 1; memset(data, 0x11, N); ++g_live; if (!g_objs->insert(this).second) fail("S20/pool-owner", "a living object was given out again"); }
    Obj(const Obj &o) { if (g_throwAt > 0 && --g_throwAt == 0) throw 1; memcpy(data, o.data, N); ++g_live; if (!g_objs->insert(this).second) fail("S20/pool-owner", "a living object was given out again"); }
    ~Obj() { --g_live; if (!g_objs->erase(this)) fail("S20/pool-destroy", "the destructor ran for something that is no living object"); } };
template<int N> struct Raw { char data[N]; };
struct Var { uint64_t h; unsigned char d[]; };
struct Seen { std::set<char *> s; bool twice; Seen() : twice(false) {} template<class T> void operator()(T *t) { if (!s.insert((char *) t).second) twice = true; } };
struct Held { size_t n; unsigned char fill; };
void mark(char *p, size_t n, unsigned char f) { memset(p, f, n); }
void verify(const std::map<char *, Held> &held) { for (auto &h : held) for (size_t i = 0; i < h.second.n; ++i) if ((unsigned char) h.first[i] != h.second.fill) fail("S20/pool-overlap", "byte " + std::to_string(i) + " of an object in use was changed"); }
void take(std::map<char *, Held> &held, char *p, size_t n, unsigned char f) {
    auto it = held.upper_bound(p); if (it != held.end() && it->first < p + n) fail("S20/pool-owner", "an object was given out that overlaps one in use"); if (it != held.begin()) { --it; if (it->first + it->second.n > p) fail("S20/pool-owner", "an object was given out that overlaps one in use"); }
    Held h = { n, f }; held[p] = h; mark(p, n, f);
}
template<class P> void enumCheck(P &pool, const std::map<char *, Held> &held) { Seen s; pool.enumAll(s); if (s.twice || s.s.size() != held.size()) fail("S20/pool-enum", "enumeration visits " + std::to_string(s.s.size()) + " objects, " + std::to_string(held.size()) + " are in use"); for (auto &h : held) if (!s.s.count(h.first)) fail("S20/pool-enum", "enumeration misses an object in use"); verify(held); }
template<class P, class A, class F> void drive(P &pool, Rng &g, int ops, size_t n, A alloc, F release) {
    std::map<char *, Held> held; double grow = g.unit();
    for (int i = 0; i < ops; ++i) { double r = g.unit(); if (i % 50 == 49) grow = g.unit();
        if (r < 0.02) enumCheck(pool, held); else if (r < 0.03) { pool.freeAll(); held.clear(); if (g_objs->size()) fail("S20/pool-freeall", "objects survive freeAll"); }
        else if (r < 0.03 + 0.97 * grow || held.empty()) { char *q = alloc(g); if (q) take(held, q, n, (unsigned char) g.below(256)); }
        else { auto it = held.begin(); std::advance(it, g.below(held.size())); for (size_t k = 0; k < it->second.n; ++k) if ((unsigned char) it->first[k] != it->second.fill) fail("S20/pool-overlap", "an object in use was changed"); char *q = it->first; held.erase(it); release(q); } }
    enumCheck(pool, held);
}
template<int N> void objects(Rng &g, int ops, unsigned cs) {
    { Pool<Obj<N>> pool(cs); drive(pool, g, ops, N, [&](Rng &g) -> char * { if (g.chance(0.05)) g_throwAt = 1; int live = g_live; bool copy = g.chance(0.4); int arm = g_throwAt; char *q = NULL;
            try { if (copy) { g_throwAt = 0; static Obj<N> *proto = NULL; (void) proto; char buf[sizeof(Obj<N>)]; Obj<N> *o = (Obj<N> *) buf; memset(buf, 0x22, N); g_throwAt = arm; q = (char *) pool.alloc(*o); if (q[0] != 0x22) fail("S20/pool-copy", "the copy differs"); } else { q = (char *) pool.alloc(); if (q[N - 1] != 0x11) fail("S20/pool-ctor", "the object is not constructed"); } check(!arm, "S20/pool-throw", "a failing constructor went unnoticed"); check(g_live == live + 1, "S20/pool-ctor", "not exactly one constructor ran"); }
            catch (int) { g_throwAt = 0; check(arm != 0, "S20/pool-throw", "an unexpected exception"); check(g_live == live, "S20/pool-throw", "a failed construction changed the number of objects"); q = NULL; }
            return q; }, [&](char *q) { pool.free((Obj<N> *) q); }); check(g_live == (int) g_objs->size(), "S20/pool-balance", "constructors and destructors do not balance"); pool.free(NULL); }
    check(g_live == 0 && g_objs->empty(), "S20/pool-balance", std::to_string(g_live) + " objects survive their pool");
}
template<int N> void raws(Rng &g, int ops, unsigned cs) {
    StructPool<Raw<N>> a(cs); drive(a, g, ops, N, [&](Rng &) { return (char *) a.alloc(); }, [&](char *q) { a.free((Raw<N> *) q); });
    InitZeroStructPool<Raw<N>> b(cs); drive(b, g, ops, N, [&](Rng &) { char *q = (char *) b.alloc(); for (int i = 0; i < N; ++i) check(!q[i], "S20/pool-zero", "an object of the zeroing pool is not zero"); return q; }, [&](char *q) { b.free((Raw<N> *) q); });
}
void pools(Ctx &c) {
    PhaseCfg p; p.maxSteps = 4000000000ull; uint64_t s = c.rng.next(); int ops = (int) c.rng.range(0, c.rng.chance(0.3) ? 3000 : 300); int size = (int) c.rng.below(8); unsigned cs = c.rng.chance(0.5) ? 32 : (unsigned) c.rng.range(1, 60); unsigned extra = (unsigned) c.rng.below(100); int kind = (int) c.rng.below(3);
    c.note("pool kind=" + std::to_string(kind) + " size class=" + std::to_string(size) + " chunk=" + std::to_string(cs) + " operations=" + std::to_string(ops)); if (ops > 20) c.nontrivial(); c.count("pool operations", ops);
    PhaseResult r = runPhase(p, [&]() {
        std::set<const void *> objs; g_objs = &objs; g_live = g_throwAt = 0; Rng g(s);
        if (kind == 0) switch (size) { case 0: objects<1>(g, ops, cs); break; case 1: objects<7>(g, ops, cs); break; case 2: objects<8>(g, ops, cs); break; case 3: objects<9>(g, ops, cs); break; case 4: objects<12>(g, ops, cs); break; case 5: objects<16>(g, ops, cs); break; case 6: objects<33>(g, ops, cs); break; default: objects<200>(g, ops, cs); }
        else if (kind == 1) switch (size) { case 0: raws<1>(g, ops, cs); break; case 1: raws<7>(g, ops, cs); break; case 2: raws<8>(g, ops, cs); break; case 3: raws<9>(g, ops, cs); break; case 4: raws<12>(g, ops, cs); break; case 5: raws<16>(g, ops, cs); break; case 6: raws<33>(g, ops, cs); break; default: raws<200>(g, ops, cs); }
        else { VarPool<Var> v(extra, cs); drive(v, g, ops, sizeof(Var) + extra, [&](Rng &) { return (char *) v.alloc(); }, [&](char *q) { v.free((Var *) q); }); }
        gone("pool");
    });
    c.expectOk(r, "S20/pool");
}
}
SCENARIO("S20", "bounded-buffer", buffer, 3);
SCENARIO("S20", "timed-wait", timed, 2);
SCENARIO("S20", "scheduler", scheduler, 5);
SCENARIO("S20", "pools", pools, 2);
