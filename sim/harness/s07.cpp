// S07: the B+tree (Root and everything below it) against std::map, with node, leaf and file caches of random sizes.
#include "simrt.h"
#include <trident/tree/root.h>
#include <trident/tree/coordinates.h>
#include <trident/tree/leaf.h>
#include <trident/tree/stringbuffer.h>
#include <trident/tree/treecontext.h>
#include <trident/tree/nodemanager.h>
#include <trident/kb/statistics.h>
#include <cstring>
#include <memory>
#include <map>
using namespace sim;

namespace {
struct Cell { bool on; short file; int64_t pos, n; char strat; bool operator==(const Cell &o) const { return on == o.on && (!on || (file == o.file && pos == o.pos && n == o.n && strat == o.strat)); } };
struct Coord { Cell c[6]; bool operator==(const Coord &o) const { for (int i = 0; i < 6; ++i) if (!(c[i] == o.c[i])) return false; return true; } };
Coord rndCoord(Rng &g) { Coord c; bool any = false; for (int i = 0; i < 6; ++i) { c.c[i].on = g.chance(0.6); if (i == 5 && !any) c.c[i].on = true; any |= c.c[i].on; c.c[i].file = (short) g.below(g.chance(0.5) ? 3 : 4000); c.c[i].pos = g.below(g.chance(0.5) ? 300 : 1ull << g.range(1, 40)); c.c[i].n = 1 + g.below(g.chance(0.5) ? 100 : 1ull << g.range(1, 40)); c.c[i].strat = (char) g.below(256); } return c; }
void fill(TermCoordinates &t, const Coord &c) { t.clear(); for (int i = 0; i < 6; ++i) if (c.c[i].on) t.set(i, c.c[i].file, c.c[i].pos, c.c[i].n, c.c[i].strat); }
Coord read(TermCoordinates &t) { Coord c; memset(&c, 0, sizeof c); for (int i = 0; i < 6; ++i) { c.c[i].on = t.exists(i); if (c.c[i].on) { c.c[i].file = t.getFileIdx(i); c.c[i].pos = t.getMark(i); c.c[i].n = t.getNElements(i); c.c[i].strat = t.getStrategy(i); } } return c; }

struct Cfg { int maxEl, nodes, prealloc, leafFactory, arrays, keyFactory, keyPre, minBytes, fileMax, openFiles, lines; int64_t cacheMax; bool compressed; };
Cfg rndCfg(Rng &g) {
    Cfg k; k.maxEl = g.chance(0.6) ? (int) g.range(2, 8) * 2 : g.chance(0.7) ? (int) g.range(8, 128) * 2 : 2048;
    k.nodes = g.chance(0.6) ? (int) g.range(2, 6) : g.chance(0.5) ? (int) g.range(4, 50) : 100000;
    k.prealloc = g.chance(0.3) ? 0 : (int) g.below(20); k.leafFactory = (int) g.range(1, 20); k.arrays = (int) g.range(1, 20); k.keyFactory = (int) g.range(1, 20); k.keyPre = (int) g.below(20);
    k.minBytes = g.chance(0.5) ? 0 : (int) g.below(20000); k.fileMax = g.chance(0.6) ? 64 * 1024 * 1024 : (int) g.range(20000, 200000); k.openFiles = g.chance(0.6) ? 4096 : (int) g.range(2, 5); k.lines = (int) g.range(1, 30);
    k.cacheMax = g.chance(0.7) ? 32 * 1024 * 1024 * 8ll : g.range(1, 40) * 100000; k.compressed = g.chance(0.15); return k;
}
void conf(PropertyMap &m, const Cfg &k, bool tk, bool tv) {
    m.setBool(TEXT_KEYS, tk); m.setBool(TEXT_VALUES, tv); m.setBool(COMPRESSED_NODES, k.compressed); m.setInt(MAX_EL_PER_NODE, k.maxEl); m.setInt(MAX_NODES_IN_CACHE, k.nodes); m.setInt(LEAF_SIZE_PREALL_FACTORY, k.prealloc); m.setInt(LEAF_SIZE_FACTORY, k.leafFactory);
    m.setInt(NODE_MIN_BYTES, k.minBytes); m.setInt(FILE_MAX_SIZE, k.fileMax); m.setInt(MAX_N_OPENED_FILES, k.openFiles); m.setLong(CACHE_MAX_SIZE, k.cacheMax); m.setInt(LEAF_MAX_INTERNAL_LINES, k.lines); m.setInt(LEAF_MAX_PREALL_INTERNAL_LINES, k.lines);
    m.setInt(LEAF_ARRAYS_FACTORY_SIZE, k.arrays); m.setInt(LEAF_ARRAYS_PREALL_FACTORY_SIZE, k.arrays); m.setInt(NODE_KEYS_FACTORY_SIZE, k.keyFactory); m.setInt(NODE_KEYS_PREALL_FACTORY_SIZE, k.keyPre);
}
std::string show(const Cfg &k) { return "elements/node=" + std::to_string(k.maxEl) + " nodesCached=" + std::to_string(k.nodes) + " prealloc=" + std::to_string(k.prealloc) + " leafFactory=" + std::to_string(k.leafFactory) + " minBytes=" + std::to_string(k.minBytes) + " fileMax=" + std::to_string(k.fileMax) + " openFiles=" + std::to_string(k.openFiles) + " cacheBytes=" + std::to_string(k.cacheMax) + " compressed=" + std::to_string(k.compressed); }

// ---- keys: runs with steps, clusters, random, descending
struct KeyGen { Rng &g; int kind; int64_t cur, step; KeyGen(Rng &g, int kind) : g(g), kind(kind), cur(g.chance(0.5) ? 0 : g.below(1000000)), step(1) {}
    int64_t next() {
        if (kind == 0) { if (g.chance(0.03)) step = g.range(1, 300); int64_t k = cur; cur += step; return k; }
        if (kind == 1) return g.below(400);
        if (kind == 2) return g.below(1ull << g.range(1, 45));
        if (kind == 3) { cur -= g.range(0, 3); if (cur < 0) cur = g.below(1000000); return cur; }
        if (g.chance(0.1)) { cur = g.below(1ull << 30); step = g.chance(0.5) ? 1 : g.range(1, 260); } int64_t k = cur; cur += step; return k; } };
struct Scope { std::string dir; Cfg k, k2; int nops, kind, keykind; double pget, pappend; bool compress; std::vector<int> keep; uint64_t s, s2; int64_t sbCache; };

template<class V> struct IO;
template<> struct IO<Coord> {
    static Coord rnd(Rng &g) { return rndCoord(g); }
    static void put(Root &r, int64_t k, const Coord &v) { TermCoordinates t; fill(t, v); r.put((nTerm) k, &t); }
    static void append(Root &r, int64_t k, const Coord &v) { TermCoordinates t; fill(t, v); r.append((nTerm) k, &t); }
    static bool get(Root &r, int64_t k, Coord &v) { TermCoordinates t; t.clear(); if (!r.get((nTerm) k, &t)) return false; v = read(t); return true; }
    static int64_t next(TreeItr *i, Coord &v) { TermCoordinates t; t.clear(); int64_t k = i->next(&t); v = read(t); return k; }
};
template<> struct IO<int64_t> {
    static int64_t rnd(Rng &g) { return g.below(1ull << g.range(1, 50)); }
    static void put(Root &r, int64_t k, int64_t v) { r.put((nTerm) k, v); }
    static void append(Root &r, int64_t k, int64_t v) { r.append((nTerm) k, v); }
    static bool get(Root &r, int64_t k, int64_t &v) { return r.get((nTerm) k, v); }
    static int64_t next(TreeItr *i, int64_t &v) { return i->next(v); }
};
template<class V> void lookup(Root &r, const std::map<int64_t, V> &m, int64_t k, const char *when) {
    V v; memset(&v, 0, sizeof v); bool got = IO<V>::get(r, k, v); auto it = m.find(k);
    if (got != (it != m.end())) fail("S07/lookup", std::string(when) + ": key " + std::to_string(k) + (got ? " found, was never inserted" : " not found, was inserted") + ", " + std::to_string(m.size()) + " entries");
    if (got && !(v == it->second)) fail("S07/value", std::string(when) + ": key " + std::to_string(k) + " has another value than the one stored");
}
template<class V> void iterate(Root &r, const std::map<int64_t, V> &m, const char *when) {
    std::unique_ptr<TreeItr> it(r.itr()); auto e = m.begin(); size_t n = 0; Rng g(m.size() * 31 + 7); unsigned q = g.below(3) ? 0 : (unsigned) g.range(1, 6);
    auto other = [&]() { if (q && !m.empty() && g.below(q) == 0) { auto x = m.lower_bound((int64_t) (m.rbegin()->first * g.unit())); if (x != m.end()) lookup(r, m, x->first, "lookup during an iteration"); } };
    while (it->hasNext()) { other(); V v; int64_t k = IO<V>::next(it.get(), v); if (e == m.end() || k != e->first || !(v == e->second)) fail("S07/iterate", std::string(when) + ": entry " + std::to_string(n) + " of the iteration is key " + std::to_string(k) + (e == m.end() ? ", after the last one" : k != e->first ? ", expected " + std::to_string(e->first) : " with another value")); ++e; ++n; }
    if (e != m.end()) fail("S07/iterate", std::string(when) + ": iteration ended after " + std::to_string(n) + " of " + std::to_string(m.size()) + " entries");
}
template<class V> void numeric(Ctx &c, const Scope &sc, bool tv) {
    std::map<int64_t, V> model; PhaseCfg p; p.maxSteps = 400000000; p.realTimeout = 120;
    // the model is rebuilt identically in both phases from the operation stream
    auto replay = [&](Root *r, std::map<int64_t, V> &m) {
        Rng g(sc.s); KeyGen kg(g, sc.keykind); size_t q = 0;
        for (int i = 0; i < sc.nops; ++i) {
            double x = g.unit(); int64_t k = kg.next(); V v = IO<V>::rnd(g); uint64_t sel = g.next(); bool app = g.chance(sc.pappend);
            if (q >= sc.keep.size() || sc.keep[q] != i) continue; q++;
            if (x < sc.pget) { if (r) { if (m.size() && sel % 3) { auto it = m.lower_bound((int64_t) (sel % (uint64_t) (m.rbegin()->first + 2))); lookup(*r, m, it == m.end() || sel % 3 == 1 ? (int64_t) (sel % (uint64_t) (m.rbegin()->first + 2)) : it->first, "while writing"); } else lookup(*r, m, k, "while writing"); } }
            else { if (app) { if (m.size()) k = m.rbegin()->first + 1 + (kg.kind == 0 ? kg.step - 1 : (int64_t) (sel % 5)); if (r) IO<V>::append(*r, k, v); } else if (r) IO<V>::put(*r, k, v); m[k] = v; }
            if (r && sel % 499 == 7) iterate(*r, m, "while writing");
        }
    };
    PhaseResult a = runPhase(p, [&]() {
        setRoot(sc.dir); PropertyMap pm; conf(pm, sc.k, false, tv); std::map<int64_t, V> m; Root *r = new Root(sc.dir + "/tree", NULL, false, pm); replay(r, m);
        if (m.size() || sc.s2 % 2) { iterate(*r, m, "after writing"); for (auto &e : m) { if (m.size() > 500 && (e.first * 7 + sc.s2) % 4) continue; lookup(*r, m, e.first, "after writing"); } }
        delete r;
        if (sc.compress && m.size()) NodeManager::compressSpace(sc.dir + "/tree");
    });
    c.expectOk(a, "S07/write");
    replay(NULL, model); c.count("entries", model.size());
    if (model.empty()) return;
    PhaseResult b = runPhase(p, [&]() {
        setRoot(sc.dir); PropertyMap pm; conf(pm, sc.k2, false, tv); Root r(sc.dir + "/tree", NULL, true, pm); Rng g(sc.s2); std::vector<int64_t> ks; for (auto &e : model) ks.push_back(e.first);
        if (g.chance(0.5)) iterate(r, model, "after reopening");
        size_t n = std::min<size_t>(ks.size() * 2, 3000); for (size_t i = 0; i < n; ++i) { size_t j = g.below(ks.size()); lookup(r, model, g.chance(0.8) ? ks[j] : ks[j] + g.range(-1, 1) < 0 ? 0 : ks[j] + g.range(0, 1), "after reopening"); }
        iterate(r, model, "after reopening");
    });
    c.expectOk(b, "S07/reopen");
}

struct TextGen { Rng &g; int kind; std::string pre; long ctr; TextGen(Rng &g, int k) : g(g), kind(k), pre("http://example.org/some/long/prefix/"), ctr(0) {}
    std::string next() { std::string s;
        if (kind == 0) { char b[64]; snprintf(b, sizeof b, "k%08ld", ctr); ctr += g.range(1, 3); return b; }
        if (kind == 1) { size_t n = g.range(1, 3); for (size_t i = 0; i < n; ++i) s += (char) ('a' + g.below(n == 1 ? 26 : 6)); return s; }
        if (kind == 2) { if (g.chance(0.1)) { pre.resize(g.below(pre.size() + 1)); for (int i = (int) g.below(30); i-- > 0;) pre += (char) ('a' + g.below(3)); } s = pre; for (int i = (int) g.below(6); i-- > 0;) s += (char) ('a' + g.below(26)); if (s.empty()) s = "x"; return s; }
        size_t n = g.chance(0.02) ? g.range(1000, 32000) : g.range(1, 40); for (size_t i = 0; i < n; ++i) s += (char) g.below(256); return s; } };
typedef std::map<std::string, int64_t> TM;   // std::string orders by unsigned bytes
struct Buf { std::vector<char> b; Buf(const std::string &s) : b(s.begin(), s.end()) { b.push_back(0); } tTerm *t() { return (tTerm *) b.data(); } };
std::string printable(const std::string &s) { std::string o; for (unsigned char ch : s.substr(0, 40)) { if (ch >= 32 && ch < 127) o += ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); o += b; } } return "'" + o + "'(" + std::to_string(s.size()) + ")"; }
void tlookup(Root &r, const TM &m, const std::string &k, const char *when) {
    Buf b(k); nTerm v = -77; bool got = r.get(b.t(), (int) k.size(), &v); auto it = m.find(k);
    if (got != (it != m.end())) fail("S07/text-lookup", std::string(when) + ": key " + printable(k) + (got ? " found, was never inserted" : " not found, was inserted") + ", " + std::to_string(m.size()) + " entries");
    if (got && (int64_t) v != it->second) fail("S07/text-value", std::string(when) + ": key " + printable(k) + " has value " + std::to_string((int64_t) v) + ", stored " + std::to_string(it->second));
}
void titerate(Root &r, StringBuffer &sb, const TM &m, const char *when) {
    std::unique_ptr<TreeItr> it(r.itr()); auto e = m.begin(); size_t n = 0; static char out[40000]; Rng g(m.size() * 31 + 7); unsigned q = g.below(3) ? 0 : (unsigned) g.range(1, 6);
    std::vector<const std::string *> ks; if (q) for (auto &x : m) ks.push_back(&x.first);
    while (it->hasNext()) { if (q && g.below(q) == 0) tlookup(r, m, *ks[g.below(ks.size())], "lookup during an iteration"); int64_t v = -1; int64_t pos = it->next(v); int len = 0; sb.get(pos, out, len); std::string k(out, len); if (e == m.end() || k != e->first || v != e->second) fail("S07/text-iterate", std::string(when) + ": entry " + std::to_string(n) + " of the iteration is " + printable(k) + " value " + std::to_string(v) + (e == m.end() ? ", after the last one" : ", expected " + printable(e->first) + " value " + std::to_string(e->second))); ++e; ++n; }
    if (e != m.end()) fail("S07/text-iterate", std::string(when) + ": iteration ended after " + std::to_string(n) + " of " + std::to_string(m.size()) + " entries");
}
void text(Ctx &c, const Scope &sc) {
    TM model; PhaseCfg p; c.randomSched(p); p.preemptPeriod = p.preemptPeriod && p.preemptPeriod < 1000 ? 1000 : p.preemptPeriod; p.maxSteps = 8000000000LL; p.realTimeout = 120;
    auto replay = [&](Root *r, StringBuffer *sb, TM &m) {
        Rng g(sc.s); TextGen tg(g, sc.keykind % 4); size_t q = 0;
        for (int i = 0; i < sc.nops; ++i) {
            double x = g.unit(); std::string k = tg.next(); int64_t v = g.below(1ull << g.range(1, 40)); uint64_t sel = g.next(); bool app = g.chance(sc.pappend); int how = (int) g.below(2);
            if (q >= sc.keep.size() || sc.keep[q] != i) continue; q++;
            if (x < sc.pget) { if (r) { if (m.size() && sel % 3) { auto it = m.lower_bound(k); tlookup(*r, m, it == m.end() ? m.begin()->first : it->first, "while writing"); } else tlookup(*r, m, k, "while writing"); } }
            else if (app && (m.empty() || m.rbegin()->first < k || m.rbegin()->first.size() < 30000)) { if (m.size() && !(m.rbegin()->first < k)) { k = m.rbegin()->first; k += (char) (1 + sel % 255); } nTerm vv = v; if (r) { Buf b(k); r->append(b.t(), (int) k.size(), vv); } m[k] = v; }
            else if (how == 0) { if (r) { Buf b(k); r->put(b.t(), (int) k.size(), (nTerm) v); } m[k] = v; }
            else { bool fresh = !m.count(k); if (r) { Buf b(k); nTerm vv = v; bool ins = r->insertIfNotExists(b.t(), (int) k.size(), vv); if (ins != fresh) fail("S07/insert-if", std::string("conditional insertion of ") + printable(k) + (ins ? " claims it was new" : " claims it was there")); if (!fresh && (int64_t) vv != m[k]) fail("S07/insert-if", "conditional insertion of the existing " + printable(k) + " returned " + std::to_string((int64_t) vv) + " instead of its value " + std::to_string(m[k])); } if (fresh) m[k] = v; }
            if (r && sel % 499 == 7) titerate(*r, *sb, m, "while writing");
        }
    };
    PhaseResult a = runPhase(p, [&]() {
        setRoot(sc.dir); Stats st; std::unique_ptr<StringBuffer> sb(new StringBuffer(sc.dir, false, 10, sc.sbCache, &st)); PropertyMap pm; conf(pm, sc.k, true, false); TM m; Root *r = new Root(sc.dir + "/tree", sb.get(), false, pm); replay(r, sb.get(), m);
        titerate(*r, *sb, m, "after writing"); size_t i = 0; for (auto &e : m) { if (m.size() > 500 && (i++ + sc.s2) % 4) continue; tlookup(*r, m, e.first, "after writing"); }
        delete r; sb.reset();
    });
    c.expectOk(a, "S07/text-write");
    replay(NULL, NULL, model); c.count("entries", model.size());
    if (model.empty()) return;
    PhaseCfg p2; p2.maxSteps = 8000000000LL; p2.realTimeout = 120;
    PhaseResult b = runPhase(p2, [&]() {
        setRoot(sc.dir); Stats st; StringBuffer sb(sc.dir, true, 10, sc.sbCache, &st); PropertyMap pm; conf(pm, sc.k2, true, false); Root r(sc.dir + "/tree", &sb, true, pm); Rng g(sc.s2); std::vector<std::string> ks; for (auto &e : model) ks.push_back(e.first);
        if (g.chance(0.5)) titerate(r, sb, model, "after reopening");
        size_t n = std::min<size_t>(ks.size() * 2, 2000); for (size_t i = 0; i < n; ++i) { std::string k = ks[g.below(ks.size())]; if (g.chance(0.2)) { if (g.chance(0.5)) k += "a"; else k.resize(k.size() - (k.size() > 1)); } tlookup(r, model, k, "after reopening"); }
        titerate(r, sb, model, "after reopening");
    });
    c.expectOk(b, "S07/text-reopen");
}
Scope scope(Ctx &c, int maxOps) {
    Scope s; s.dir = c.dir + "/t"; mkdirs(s.dir); s.k = rndCfg(c.rng); s.k2 = rndCfg(c.rng); s.k2.compressed = s.k.compressed; s.k2.maxEl = s.k.maxEl;
    s.nops = c.rng.chance(0.4) ? (int) c.rng.range(1, 40) : c.rng.chance(0.6) ? (int) c.rng.range(40, 600) : (int) c.rng.range(600, maxOps); if (c.thorough) s.nops *= 2;
    if (s.k.fileMax < 1000000 && s.k.minBytes > 2000) s.nops = std::min(s.nops, 2000);
    s.keykind = (int) c.rng.below(5); s.pget = c.rng.chance(0.5) ? 0.3 : 0.05; s.pappend = c.rng.chance(0.4) ? 0 : c.rng.chance(0.5) ? 1 : 0.3; s.compress = c.rng.chance(0.4) && !s.k.compressed; s.s = c.rng.next(); s.s2 = c.rng.next(); s.sbCache = c.rng.chance(0.6) ? 1 : c.rng.range(5, 50) * 65536;
    for (int i = 0; i < s.nops; ++i) if (!c.dropped(i)) s.keep.push_back(i);
    c.note("ops=" + std::to_string(s.nops) + " keys=" + std::to_string(s.keykind) + " get=" + std::to_string(s.pget) + " append=" + std::to_string(s.pappend) + " compressSpace=" + std::to_string(s.compress)); c.note("write: " + show(s.k)); c.note("read:  " + show(s.k2));
    if (s.nops > 5) c.nontrivial();
    return s;
}
void coords(Ctx &c) { Scope s = scope(c, 3000); if (s.k.maxEl > 512) s.k.maxEl = s.k2.maxEl = 512; numeric<Coord>(c, s, false); }
void longs(Ctx &c) { Scope s = scope(c, 6000); numeric<int64_t>(c, s, true); }
void texts(Ctx &c) { Scope s = scope(c, 4000); text(c, s); }
}
SCENARIO("S07", "coordinates", coords, 2);
SCENARIO("S07", "numbers", longs, 2);
SCENARIO("S07", "texts", texts, 2);
