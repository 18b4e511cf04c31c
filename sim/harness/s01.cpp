// S01: query answers after any history of loads, updates, merges and reopenings equal the net effect of that history.
#include "kbutil.h"
using namespace sim; using namespace kbu;

static void history(Ctx &c) {
    Store st(c, "S01"); bool weird = c.rng.chance(0.4); int n = c.rng.chance(0.75) ? (int) c.rng.range(1, 60) : c.rng.chance(0.7) ? (int) c.rng.range(60, 400) : (int) c.rng.range(400, 3000);
    int dom = std::max(2, (int) (n * c.rng.unit())); st.lo = loadOpts(c.rng); st.makeInput(n, weird, std::max(1, dom / 2), (int) c.rng.range(1, 8), std::max(1, dom));
    PhaseResult r = st.load(calm()); c.expectOk(r, "S01/load");
    int ops = (int) c.rng.range(0, 7); bool used = false; int rounds = c.thorough ? 40 : 18; Vocab ex = vocab(c.rng, 12, 3, 20, weird); for (auto *pv : {&ex.s, &ex.p, &ex.o}) for (auto &t : *pv) { if (t[0] == '<') t = "<x" + t.substr(1); else if (t[0] == '"') t = "\"x" + t.substr(1); else t += "x"; }
    if (ops == 0 || c.rng.chance(0.3)) st.verify(st.kb, rounds, true, "verify");
    for (int i = 0; i < ops; ++i) {
        int k = (int) c.rng.below(10); uint64_t keep = c.rng.next(); (void) keep;
        if (k < 8) {
            bool add = c.rng.chance(0.55); int un = c.rng.chance(0.8) ? (int) c.rng.range(1, 15) : (int) c.rng.range(15, 200); std::vector<T3> ts = st.drawUpdate(add, un, c.rng.chance(0.6) ? &ex : NULL);
            if (c.rng.chance(0.04) && !add) ts.assign(st.m.begin(), st.m.end());
            std::vector<T3> kept; for (size_t j = 0; j < ts.size(); ++j) if (!c.dropped(1000 * (i + 1) + j % 1000)) kept.push_back(ts[j]);
            bool vf = c.rng.chance(0.45); if (kept.empty() || c.dropped(i)) { continue; }
            c.note(std::string(add ? "add" : "remove") + " " + std::to_string(kept.size()) + " triples"); if (kept.size() <= 6) for (auto &t : kept) c.note("   " + show(t));
            r = st.update(calm(), add, st.writeUpdate(kept), st.kb); c.expectOk(r, "S01/update"); st.apply(add, kept); used = true; c.count(add ? "adds" : "removes");
            if (vf) st.verify(st.kb, rounds, true, "verify");
        } else { bool vf = c.rng.chance(0.6); if (c.dropped(i)) continue; c.note("merge pending updates"); r = st.merge(calm(), st.kb); c.expectOk(r, "S01/merge"); c.count("merges"); if (vf) st.verify(st.kb, rounds, true, "verify"); }
    }
    if (used) { c.nontrivial(); st.verify(st.kb, rounds, true, "verify"); }
}
SCENARIO("S01", "history", history, 1);
