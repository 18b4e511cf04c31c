// S14: several threads query one open store, each with its own query object (multithreaded build, MT=1).
#include "kbutil.h"
using namespace sim; using namespace kbu;

static void readers(Ctx &c) {
    Store st(c, "S14"); bool weird = c.rng.chance(0.3); int n = c.rng.chance(0.7) ? (int) c.rng.range(1, 60) : c.rng.chance(0.8) ? (int) c.rng.range(60, 400) : (int) c.rng.range(400, 2000);
    int dom = std::max(2, (int) (n * c.rng.unit())); st.lo = loadOpts(c.rng); st.makeInput(n, weird, std::max(1, dom / 2), (int) c.rng.range(1, 6), std::max(1, dom)); PhaseResult r = st.load(calm()); c.expectOk(r, "S14/load");
    int ups = c.rng.chance(0.5) ? 0 : (int) c.rng.range(1, 3); Vocab ex = vocab(c.rng, 6, 2, 6, weird); for (auto *pv : {&ex.s, &ex.p, &ex.o}) for (auto &t : *pv) { if (t[0] == '<') t = "<x" + t.substr(1); else if (t[0] == '"') t = "\"x" + t.substr(1); else t += "x"; }
    for (int i = 0; i < ups; ++i) { bool add = c.rng.chance(0.6); std::vector<T3> ts = st.drawUpdate(add, (int) c.rng.range(1, 20), c.rng.chance(0.6) ? &ex : NULL); if (c.dropped(i)) continue; r = st.update(calm(), add, st.writeUpdate(ts), st.kb); c.expectOk(r, "S14/update"); st.apply(add, ts); }
    if (st.m.empty()) return;
    int threads = (int) c.rng.range(2, 5), rounds = (int) c.rng.range(1, 6); bool full = c.rng.chance(0.4); uint64_t s = c.rng.next(); std::string kbdir = st.kb; Model &m = st.m;
    PhaseCfg p = calm(); c.randomSched(p); if (n > 100 && p.preemptPeriod && p.preemptPeriod < 500) p.preemptPeriod = 1000; p.maxSteps *= 3; p.realTimeout = 200; p.hwThreads = (int) c.rng.range(1, 8);
    c.note(std::to_string(threads) + " readers, " + std::to_string(st.m.size()) + " triples, " + std::to_string(ups) + " updates");
    r = runPhase(p, [&]() {
        KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); std::vector<std::thread> ts; bool inside = s & 1;
        std::vector<Querier *> qs; if (!inside) for (int i = 0; i < threads; ++i) qs.push_back(kb.query());
        for (int i = 0; i < threads; ++i) { if (c.dropped(100 + i)) continue; Querier *q0 = inside ? NULL : qs[i]; ts.push_back(std::thread([&, i, q0]() { Querier *q = q0 ? q0 : kb.query(); Checker ck("S14", kb, q, m, s + i * 1000003); if (full) ck.all(rounds); else ck.core(rounds); delete q; })); }
        for (auto &t : ts) t.join();
    });
    c.nontrivial(); c.observe(r.hash); c.expectOk(r, "S14/readers"); c.count("readers", threads);
}
SCENARIO("S14", "concurrent-readers", readers, 1);
