// S16: embedding tables: initialisation by ranges on several threads, storing and loading, with interrupted and failing storage.
#include "simrt.h"
#include <trident/ml/embeddings.h>
#include <cmath>
#include <cstring>
using namespace sim;

namespace {
typedef Embeddings<double> Emb;
struct Shape { uint32_t n; uint16_t dim; };
Shape shape(Rng &r, bool thorough) {
    Shape s; double x = r.unit();
    s.n = (uint32_t) (x < 0.35 ? r.range(1, 12) : x < 0.9 ? r.range(1, 200) : r.range(200, thorough ? 6000 : 1500)); s.dim = (uint16_t) (r.chance(0.5) ? r.range(1, 6) : r.range(1, x < 0.9 ? 130 : 20)); return s;
}
std::string text(const Shape &s) { return std::to_string(s.n) + " x " + std::to_string(s.dim); }

void covered(Emb &e, const Shape &s, bool norm, const std::string &what) {
    double lim = 6.0 / std::sqrt((double) s.n + s.dim);
    for (uint32_t i = 0; i < s.n; ++i) {
        double *v = e.get(i), sum = 0;
        for (uint16_t j = 0; j < s.dim; ++j) {
            if (v[j] == 0) fail("S16/not-initialised", what + ": element " + std::to_string(j) + " of row " + std::to_string(i) + " was not set");
            if (!(std::fabs(v[j]) <= (norm ? 1.0 : lim) * (1 + 1e-12))) fail("S16/range", what + ": element " + std::to_string(j) + " of row " + std::to_string(i) + " is " + std::to_string(v[j]) + ", limit " + std::to_string(norm ? 1.0 : lim));
            sum += v[j] * v[j];
        }
        if (norm && !(std::fabs(sum - 1) < 1e-9)) fail("S16/norm", what + ": row " + std::to_string(i) + " has squared length " + std::to_string(sum));
    }
}
void initTable(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 60000000; Shape s = shape(c.rng, c.thorough); uint16_t nt = (uint16_t) (c.rng.chance(0.1) ? s.n + c.rng.range(0, 3) : c.rng.range(1, 16)); if (nt > 64) nt = 64;
    bool norm = c.rng.chance(0.5), mem = c.rng.chance(0.8); int again = c.rng.chance(0.2);
    std::string what = text(s) + ", " + std::to_string(nt) + " threads" + (norm ? ", normalised" : "") + (mem ? "" : ", in a file"); c.note("init " + what); if (nt > 1) c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        Emb e(s.n, s.dim, mem);
        for (int k = 0; k <= again; ++k) {
            sim::pause(); for (uint64_t i = 0; i < (uint64_t) s.n * s.dim; ++i) e.getRaw()[i] = 0; resume();
            e.init(nt, norm); check(aliveThreads() == 1, "S16/threads", what + ": threads still run after the initialisation returned");
            Paused pp; covered(e, s, norm, what);
        }
        check(e.getN() == s.n && e.getDim() == s.dim, "S16/shape", "shape changed");
    });
    c.expectOk(r, "S16/init");
}

struct Table { Shape s; std::vector<double> v; std::vector<uint32_t> conf, upd; };
Table table(Rng &r, Shape s) {
    Table t; t.s = s; t.v.resize((size_t) s.n * s.dim); t.conf.assign(s.n, 0); t.upd.assign(s.n, 0); int kind = (int) r.below(3);
    for (auto &x : t.v) { if (kind == 0) x = (r.unit() - 0.5) * 2; else if (kind == 1) { uint64_t b = r.next(); memcpy(&x, &b, 8); } else x = r.chance(0.3) ? 0 : r.chance(0.5) ? -1e300 : (double) r.range(0, 5); }
    for (uint32_t i = 0; i < s.n; ++i) if (r.chance(0.3)) { t.conf[i] = (uint32_t) r.below(4); t.upd[i] = (uint32_t) r.below(6); }
    return t;
}
void write(const Table &t, const std::string &path, bool mem, uint16_t nt, bool compress) {
    Emb e(t.s.n, t.s.dim, mem); sim::pause(); memcpy(e.getRaw(), t.v.data(), t.v.size() * 8);
    for (uint32_t i = 0; i < t.s.n; ++i) { for (uint32_t k = 0; k < t.conf[i]; ++k) e.incrConflict(i); for (uint32_t k = 0; k < t.upd[i]; ++k) e.incrUpdates(i); }
    resume(); if (t.s.n % 3 == 0) e.postprocessUpdates(); e.store(path, compress, nt);
}
// compares what was loaded with what was stored
void compare(Emb &e, const Table &t, const std::string &what, bool counters = true) {
    Paused pp;
    if (e.getN() != t.s.n || e.getDim() != t.s.dim) fail("S16/shape", what + ": loaded a table of " + std::to_string(e.getN()) + " x " + std::to_string(e.getDim()) + ", stored " + text(t.s));
    for (uint32_t i = 0; i < t.s.n; ++i) {
        if (memcmp(e.get(i), t.v.data() + (size_t) i * t.s.dim, t.s.dim * 8)) fail("S16/values", what + ": row " + std::to_string(i) + " differs from what was stored");
        if (counters && (e.getNConflicts(i) != t.conf[i] || e.getNUpdates(i) != t.upd[i])) fail("S16/counters", what + ": row " + std::to_string(i) + " has " + std::to_string(e.getNConflicts(i)) + " conflicts and " + std::to_string(e.getNUpdates(i)) + " updates, stored " + std::to_string(t.conf[i]) + " and " + std::to_string(t.upd[i]));
    }
    bool thrown = false; try { e.get(t.s.n); } catch (int) { thrown = true; } check(thrown, "S16/bounds", what + ": row past the end was handed out");
}
void storeLoad(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 60000000; Shape s = shape(c.rng, c.thorough); Table t = table(c.rng, s), older = table(c.rng, shape(c.rng, false));
    uint16_t nt = (uint16_t) (c.rng.chance(0.3) ? c.rng.range(0, 1) : c.rng.range(2, 20)); bool mem = c.rng.chance(0.7), compress = c.rng.chance(0.2), over = c.rng.chance(0.3);
    std::string path = c.dir + "/E", what = text(s) + ", " + std::to_string(nt) + " parts" + (mem ? "" : ", file backed") + (over ? ", over an older table of " + text(older.s) : ""); c.note("store " + what); c.nontrivial();
    PhaseResult r = runPhase(p, [&]() { if (over) write(older, path, true, 1, false); write(t, path, mem, nt, compress); });
    c.expectOk(r, "S16/store");
    PhaseCfg q; c.randomSched(q); q.maxSteps = 60000000; q.guardMaps = true;
    r = runPhase(q, [&]() {
        auto e = Emb::load(path); compare(*e, t, what);
        if (c.rng.chance(0.3)) { e->store(path + "2", false, 3); auto f = Emb::load(path + "2"); compare(*f, t, what + ", stored again after loading"); }
    });
    c.expectOk(r, "S16/load");
}
// storing fails or is cut at some point: success reported or a table that loads means the values are right
void storeFault(Ctx &c) {
    Shape s = shape(c.rng, c.thorough); Table t = table(c.rng, s); bool mem = c.rng.chance(0.7); uint16_t nt = (uint16_t) c.rng.range(1, 5); std::string path = c.dir + "/E", what = text(s) + (mem ? "" : ", file backed"); c.nontrivial();
    PhaseCfg d; d.maxSteps = 60000000; PhaseResult dry = runPhase(d, [&]() { setRoot(c.dir); write(t, c.dir + "/D", mem, nt, false); }); c.expectOk(dry, "S16/store");
    PhaseCfg p; c.randomSched(p); p.maxSteps = 60000000; int mode = (int) c.rng.below(3); uint64_t ops = dry.fileOps ? dry.fileOps : 1; bool reported = true;
    if (mode == 0) { p.crashAtOp = (int64_t) c.rng.below(ops); p.crashMode = (int) c.rng.below(3); c.note("cut at operation " + std::to_string(p.crashAtOp) + " mode " + std::to_string(p.crashMode)); }
    else { p.fileFaultProb = c.rng.chance(0.5) ? 0.05 : 0.3; p.fileFaultMask = (uint32_t) c.rng.next() | (1u << F_ENOSPC); p.diskFullSticky = c.rng.chance(0.5); c.note("failing storage"); }
    PhaseResult r = runPhase(p, [&]() { setRoot(c.dir); write(t, path, mem, nt, false); });
    if (r.outcome == O_OK) reported = false;
    else if (r.outcome != O_CRASHED && r.outcome != O_EXCEPTION) c.expectOk(r, "S16/store-fault");
    c.count(reported ? "store failed" : "store reported success");
    PhaseCfg q; c.randomSched(q); q.maxSteps = 60000000; q.guardMaps = true;
    r = runPhase(q, [&]() { auto e = Emb::load(path); compare(*e, t, what + (reported ? ", after an interrupted or failed store" : ", after a store that reported success"), !reported); });
    if (r.outcome == O_EXCEPTION && reported) { c.count("load refused"); return; }
    c.expectOk(r, "S16/load-after-fault");
}
// short or failing reads, and files cut at any length
void loadFault(Ctx &c) {
    Shape s = shape(c.rng, c.thorough); Table t = table(c.rng, s); std::string path = c.dir + "/E", what = text(s); c.nontrivial();
    PhaseCfg d; d.maxSteps = 60000000; PhaseResult dry = runPhase(d, [&]() { write(t, path, true, 1, false); }); c.expectOk(dry, "S16/store");
    bool cut = c.rng.chance(0.5), counters = true;
    if (cut) {
        static const char *names[] = { "", "-meta", "-conflicts", "-updates" }; int k = (int) c.rng.below(4); std::string f = path + names[k], b = readFile(f); size_t n = c.rng.below(b.size()); if (c.rng.chance(0.2)) b += "extra"; else b.resize(n); writeFile(f, b); what += std::string(", file E") + names[k] + " has " + std::to_string(b.size()) + " bytes"; c.note(what);
    }
    PhaseCfg q; c.randomSched(q); q.maxSteps = 60000000; q.guardMaps = true; if (!cut) { q.readFaultProb = 0.3; q.readFaultMask = (uint32_t) c.rng.next() | (1u << F_READEIO); }
    PhaseResult r = runPhase(q, [&]() { setRoot(c.dir); auto e = Emb::load(path); compare(*e, t, what, counters); });
    if (r.outcome == O_EXCEPTION) { c.count("load refused"); return; }
    c.expectOk(r, "S16/load-fault");
}
}
SCENARIO("S16", "init", initTable, 4);
SCENARIO("S16", "store", storeLoad, 3);
SCENARIO("S16", "store-fault", storeFault, 2);
SCENARIO("S16", "load-fault", loadFault, 2);
