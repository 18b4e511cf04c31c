// S10: parallel sort, parallel loop and concurrent queue against their sequential definitions.
#include "simrt.h"
#include <trident/utils/parallel.h>
#include <atomic>
using namespace sim;

struct Body { std::vector<int> *hits; std::vector<std::pair<size_t, size_t>> *rs; std::mutex *m;
    void operator()(const ParallelRange &r) { for (size_t i = r.begin(); i != r.end(); ++i) { if (i >= hits->size()) { sim::fail("S10/loop-out-of-range", "index " + std::to_string(i) + " visited, range end " + std::to_string(hits->size())); } (*hits)[i]++; } } };

static void forLoop(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.hwThreads = (int) c.rng.range(1, 9); p.maxSteps = 20000000;
    size_t end = c.rng.chance(0.7) ? c.rng.range(0, 40) : c.rng.range(0, 3000), begin = c.rng.chance(0.3) ? c.rng.range(0, end) : 0, grain = c.rng.chance(0.5) ? c.rng.range(1, 5) : c.rng.range(1, 500);
    int nt = c.rng.chance(0.2) ? -1 : (int) c.rng.range(1, 12); int def = c.rng.chance(0.5) ? -1 : (int) c.rng.range(1, 6);
    c.note("parallel_for begin=" + std::to_string(begin) + " end=" + std::to_string(end) + " grain=" + std::to_string(grain) + " nthreads=" + std::to_string(nt) + " default=" + std::to_string(def));
    if (end > begin) c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        ParallelTasks::setNThreads(def);
        std::vector<int> hits(end, 0); Body b = { &hits, NULL, NULL };
        ParallelTasks::parallel_for(begin, end, grain, b, nt);
        for (size_t i = 0; i < end; ++i) check(hits[i] == (i >= begin ? 1 : 0), "S10/loop-count", "element " + std::to_string(i) + " processed " + std::to_string(hits[i]) + " times; begin " + std::to_string(begin) + " end " + std::to_string(end));
        check(aliveThreads() == 1, "S10/loop-leaves-threads", "threads still running after parallel_for returned");
        observe(end * 31 + begin);
    });
    c.expectOk(r, "S10/parallel_for");
}
static bool lessCmp(const std::pair<int, int> &a, const std::pair<int, int> &b) { return a < b; }
static void sorts(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.hwThreads = (int) c.rng.range(1, 9); p.maxSteps = 60000000;
    if (p.preemptPeriod && p.preemptPeriod < 500) p.preemptPeriod = 500;
    size_t n = c.rng.chance(0.3) ? c.rng.range(0, 1100) : c.rng.range(1000, 7000); int nt = (int) c.rng.range(1, 12); bool withCmp = c.rng.chance(0.6); int dom = c.rng.chance(0.3) ? 3 : c.rng.chance(0.5) ? 100 : 1000000; int kind = (int) c.rng.below(4); uint64_t s = c.rng.next();
    int def = c.rng.chance(0.5) ? -1 : (int) c.rng.range(1, 6); bool defaulted = !withCmp && c.rng.chance(0.4);
    c.note("sort n=" + std::to_string(n) + " nthreads=" + std::to_string(nt) + " cmp=" + std::to_string(withCmp) + " domain=" + std::to_string(dom) + " shape=" + std::to_string(kind));
    if (n > 1024) c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        pause(); Rng g(s); std::vector<std::pair<int, int>> v(n); for (size_t i = 0; i < n; ++i) v[i] = std::make_pair(kind == 1 ? (int) i : kind == 2 ? (int) (n - i) : (int) g.below(dom), (int) g.below(3)); std::vector<std::pair<int, int>> e = v; std::stable_sort(e.begin(), e.end()); resume();
        ParallelTasks::setNThreads(def);
        if (withCmp) ParallelTasks::sort_int(v.begin(), v.end(), lessCmp, nt); else if (defaulted) ParallelTasks::sort_int(v.begin(), v.end()); else ParallelTasks::sort_int(v.begin(), v.end(), nt);
        pause();
        for (size_t i = 0; i < n; ++i) if (v[i] != e[i]) fail("S10/sort-wrong", "position " + std::to_string(i) + " of " + std::to_string(n) + " holds " + std::to_string(v[i].first) + " instead of " + std::to_string(e[i].first));
        resume();
        check(aliveThreads() == 1, "S10/sort-leaves-threads", "threads still running after the sort returned");
    });
    c.expectOk(r, "S10/sort");
}
static void queueRun(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 20000000;
    int np = (int) c.rng.range(1, 4), nc = (int) c.rng.range(1, 4), per = (int) c.rng.range(0, 25); int extra = (int) c.rng.below(3);
    c.note("queue producers=" + std::to_string(np) + " consumers=" + std::to_string(nc) + " items=" + std::to_string(per) + " pollers=" + std::to_string(extra));
    if (per > 0) c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        ConcurrentQueue<int> q; std::vector<std::vector<int>> got(nc); std::vector<std::thread> prod, cons, poll; volatile bool stop = false;
        for (int i = 0; i < nc; ++i) cons.push_back(std::thread([&q, &got, i]() { while (true) { int v; q.pop_wait(v); if (v < 0) break; got[i].push_back(v); } }));
        for (int i = 0; i < extra; ++i) poll.push_back(std::thread([&q, &stop]() { int k = 0; while (!stop && k++ < 200) { q.isEmpty(); std::this_thread::yield(); } }));
        for (int i = 0; i < np; ++i) prod.push_back(std::thread([&q, i, per]() { for (int k = 0; k < per; ++k) q.push(i * 1000 + k); }));
        for (auto &t : prod) t.join();
        for (int i = 0; i < nc; ++i) q.push(-1);
        for (auto &t : cons) t.join();
        stop = true; for (auto &t : poll) t.join();
        check(q.isEmpty(), "S10/queue-not-empty", "items left in the queue");
        std::vector<int> all; for (int i = 0; i < nc; ++i) { std::vector<int> last(np, -1); for (int v : got[i]) { check(v % 1000 > last[v / 1000], "S10/queue-order", "consumer saw items of one producer out of order"); last[v / 1000] = v % 1000; all.push_back(v); } }
        std::sort(all.begin(), all.end()); std::vector<int> want; for (int i = 0; i < np; ++i) for (int k = 0; k < per; ++k) want.push_back(i * 1000 + k);
        check(all == want, "S10/queue-items", "delivered " + std::to_string(all.size()) + " items, pushed " + std::to_string(want.size()) + " (or some twice)");
        // pop on a queue known to hold exactly what was pushed
        for (int i = 0; i < per; ++i) q.push(i); for (int i = 0; i < per; ++i) { int v = -1; q.pop(v); check(v == i, "S10/queue-fifo", "pop out of order"); }
    });
    c.expectOk(r, "S10/queue");
}
SCENARIO("S10", "parallel_for", forLoop, 2);
SCENARIO("S10", "sort", sorts, 1);
SCENARIO("S10", "queue", queueRun, 2);
