// Shared by the store scenarios: workload generation, the reference model (a set of string triples) and the full check of a store against it.
#ifndef KBUTIL_H
#define KBUTIL_H
#include "simrt.h"
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/updater.h>
#include <trident/kb/kbconfig.h>
#include <trident/tree/treeitr.h>
#include <trident/iterators/rmitr.h>
#include <trident/iterators/compositeitr.h>
#include <set>
#include <map>
#include <algorithm>
#include <memory>
#include <limits.h>
namespace kbu {
using namespace sim;
struct T3 { std::string t[3]; bool operator<(const T3 &o) const { for (int i = 0; i < 3; ++i) { int c = t[i].compare(o.t[i]); if (c) return c < 0; } return false; } bool operator==(const T3 &o) const { return t[0] == o.t[0] && t[1] == o.t[1] && t[2] == o.t[2]; } };
typedef std::set<T3> Model;
typedef std::map<std::string, uint64_t> IdMap;
inline std::string show(const T3 &x) { auto s = [](const std::string &a) { return a.size() > 60 ? a.substr(0, 25) + ".." + std::to_string(a.size()) + ".." + a.substr(a.size() - 25) : a; }; return s(x.t[0]) + " " + s(x.t[1]) + " " + s(x.t[2]); }

struct Vocab { std::vector<std::string> s, p, o; };
// kind: 0 plain IRIs, 1 with literals of every shape
inline std::string weirdTerm(Rng &r, int i, bool literal) {
    std::string n = std::to_string(i);
    static const std::string longp(300, 'q');
    if (!literal) {
        switch (r.below(6)) {
            case 0: return "<http://example.org/very/long/common/prefix/" + longp + "/" + n + ">";
            case 1: return "_:b" + n;
            case 2: return "<u:" + n + ">";
            case 3: return "<http://example.org/" + n + "/" + std::string(r.below(40), 'z') + ">";
            default: return "<http://example.org/r" + n + ">";
        }
    }
    switch (r.below(10)) {
        case 0: return "\"\"";
        case 1: return "\"text with spaces " + n + "\"";
        case 2: return "\"tab\\tand \\\"quote\\\" " + n + "\"@en";
        case 3: return "\"" + n + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
        case 4: return "\"" + std::string(r.range(1, 3000), (char) ('a' + r.below(26))) + n + "\"";
        case 5: return "\"\xc3\xa9\xe4\xb8\xad " + n + "\"";
        case 6: return "\"" + longp + n + "\"";
        case 7: return "\" lead " + n + "\"";
        case 8: return "\"" + n + " 7\"";
        default: return "\"v" + n + "\"";
    }
}
inline Vocab vocab(Rng &r, int ns, int np, int no, bool weird) {
    Vocab v; std::set<std::string> seen;
    auto add = [&](std::vector<std::string> &to, std::string t) { if (seen.insert(t).second) to.push_back(t); };
    for (int i = 0; i < np; ++i) add(v.p, weird && r.chance(0.3) ? "<http://example.org/p/" + std::string(r.below(280), 'p') + std::to_string(i) + ">" : "<p" + std::to_string(i) + ">");
    for (int i = 0; i < ns; ++i) add(v.s, weird ? weirdTerm(r, i, false) : "<s" + std::to_string(i) + ">");
    for (int i = 0; i < no; ++i) { if (r.chance(0.25) && !v.s.empty()) v.o.push_back(v.s[r.below(v.s.size())]); else if (r.chance(0.05) && !v.p.empty()) v.o.push_back(v.p[r.below(v.p.size())]); else add(v.o, weird && r.chance(0.6) ? weirdTerm(r, 1000 + i, true) : weird ? weirdTerm(r, 1000 + i, false) : "<o" + std::to_string(i) + ">"); }
    if (r.chance(0.2)) v.s.push_back(v.p[0]);
    if (v.o.empty()) v.o.push_back(v.s[0]);
    return v;
}
inline T3 randTriple(Rng &r, const Vocab &v) { T3 t; t.t[0] = v.s[r.below(v.s.size())]; t.t[1] = v.p[r.below(v.p.size())]; t.t[2] = v.o[r.below(v.o.size())]; return t; }
inline std::string ntLine(const T3 &t) { return t.t[0] + " " + t.t[1] + " " + t.t[2] + " .\n"; }
template<class C> inline std::string nt(const C &c) { std::string s; for (auto &t : c) s += ntLine(t); return s; }

struct LoadOpts { int threads, readThreads, nindices, fixedStrat, thr; bool aggr, skip, fixed, blocks, sample, plain, flat; std::string str() const { return "threads=" + std::to_string(threads) + " readers=" + std::to_string(readThreads) + " indices=" + std::to_string(nindices) + (aggr ? " aggr" : "") + (skip ? " skiptables<" + std::to_string(thr) : "") + (fixed ? " fixedstrat=" + std::to_string(fixedStrat) : "") + (blocks ? " blocks" : "") + (sample ? " sample" : "") + (plain ? " plain" : "") + (flat ? " flat" : ""); } };
// Smaller nodes and files than the defaults, so that a small store has several of them (read by the code through trident_sim_param)
struct SimParams { int el = 0, treeNodes = 0, dictNodes = 0; int64_t storageFile = 0, storageCache = 0; long keepMem = 0, globalFiles = 0, offload = 0; };
__attribute__((weak)) SimParams g_simParams;
extern "C" __attribute__((weak, noinline)) int64_t trident_sim_param(int key, int64_t v) {
    const SimParams &p = g_simParams;
    switch (key) {
        case TREE_MAXELEMENTSNODE: case DICT_MAXELEMENTSNODE: case INVDICT_MAXELEMENTSNODE: return p.el ? p.el : v;
        case TREE_MAXNODESINCACHE: return p.treeNodes ? p.treeNodes : v;
        case DICT_MAXNODESINCACHE: case INVDICT_MAXNODESINCACHE: return p.dictNodes ? p.dictNodes : v;
        case STORAGE_MAX_FILE_SIZE: return p.storageFile ? p.storageFile : v;
        case STORAGE_CACHE_SIZE: return p.storageCache ? p.storageCache : v;
    }
    return v;
}
extern "C" __attribute__((weak, noinline)) long trident_sim_const(int which, long v) { const SimParams &p = g_simParams; long o = which == 0 ? p.keepMem : which == 1 ? p.globalFiles : which == 2 ? p.offload : 0; return o ? o : v; }
inline void simParams(Rng &r) {
    SimParams p; static const char *only = getenv("SIMPARAMS"); int m = only ? atoi(only) : 127;
    if (r.chance(0.6)) {
        int el = (r.chance(0.6) ? (int) r.range(2, 8) : (int) r.range(8, 64)) * 2; if ((m & 1) && r.chance(0.8)) p.el = el;
        int tn = r.chance(0.7) ? (int) r.range(2, 6) : (int) r.range(6, 50), dn = r.chance(0.7) ? (int) r.range(2, 6) : (int) r.range(6, 50); if (r.chance(0.4) && (m & 2)) p.treeNodes = tn; if (r.chance(0.4) && (m & 4)) p.dictNodes = dn;
        int64_t sf = (int64_t) (r.chance(0.6) ? r.range(20, 600) : r.range(600, 20000)), sc = (int64_t) r.range(1, 50000); if (r.chance(0.4) && (m & 8)) { p.storageFile = sf; if (r.chance(0.5)) p.storageCache = sc; }
    }
    long km = (long) r.range(25, 120), gf = (long) r.range(1, 12), of = (long) (r.chance(0.6) ? r.range(1, 20) : r.range(20, 400)); if (r.chance(0.3) && (m & 16)) p.keepMem = km; if (r.chance(0.3) && (m & 32)) p.globalFiles = gf; if (r.chance(0.3) && (m & 64)) p.offload = of;
    g_simParams = p;
}
inline LoadOpts loadOpts(Rng &r) {
    LoadOpts o; static const int ths[] = {1, 1, 2, 3, 4, 6, 8}; o.threads = ths[r.below(7)]; o.readThreads = (int) r.range(1, 3); static const int ni[] = {6, 6, 6, 3, 4, 1}; o.nindices = ni[r.below(6)];
    o.aggr = o.nindices != 1 && o.nindices != 4 && r.chance(0.3); o.skip = r.chance(0.3); o.thr = (int) r.range(1, 20); o.fixed = r.chance(0.4); const int fs[] = {(int) FIXEDSTRAT5, (int) FIXEDSTRAT6, (int) FIXEDSTRAT7}; o.fixedStrat = fs[r.below(3)];
    o.blocks = r.chance(0.3); o.sample = r.chance(0.2); o.plain = r.chance(0.2); o.flat = o.nindices == 6 && !o.aggr && !o.skip && r.chance(0.12); simParams(r); return o;
}
inline ParamsLoad params(const LoadOpts &o, const std::string &in, const std::string &kb) {
    ParamsLoad p; p.triplesInputDir = in; p.tmpDir = kb; p.kbDir = kb; p.parallelThreads = o.threads; p.maxReadingThreads = o.readThreads; p.dictionaries = 1; p.nindices = o.nindices; p.aggrIndices = o.aggr; p.canSkipTables = o.skip; p.thresholdSkipTable = o.thr;
    p.enableFixedStrat = o.fixed; p.fixedStrat = o.fixedStrat; p.createIndicesInBlocks = o.blocks; p.sample = o.sample; p.sampleRate = 0.3; p.storePlainList = o.plain; p.flatTree = o.flat; return p;
}
inline void doLoad(const LoadOpts &o, const std::string &in, const std::string &kb) { Loader loader; loader.load(params(o, in, kb)); }

// ------------------------------------------------------------------ full check of an open store
static const int ORD[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}, {1, 0, 2}}; // by IDX_*: SPO OPS POS SOP OSP PSO
typedef std::array<int64_t, 3> I3;
inline const char *idxName(int i) { static const char *n[] = {"SPO", "OPS", "POS", "SOP", "OSP", "PSO"}; return n[i]; }

inline std::string describe(PairItr *it) { int t = it->getTypeItr(); std::string o = std::to_string(t); if (t == RM_ITR) o += "[" + describe(((RmItr*) it)->getMainItr()) + "-" + describe(((RmItr*) it)->getRmItr()) + "]"; else if (t == COMPOSITE_ITR) { o += "["; for (auto c : ((CompositeItr*) it)->getChildren()) o += describe(c) + " "; o += "]"; } return o; }
// mark()/reset() have no useful meaning over aggregated tables (AggrItr saves one of its two cursors only): not part of the property
inline bool hasAggr(PairItr *it) { int t = it->getTypeItr(); if (t == AGGR_ITR) return true; if (t == RM_ITR) return hasAggr(((RmItr*) it)->getMainItr()) || hasAggr(((RmItr*) it)->getRmItr()); if (t == COMPOSITE_ITR) for (auto c : ((CompositeItr*) it)->getChildren()) if (hasAggr(c)) return true; return false; }
struct Checker {
    std::string P; KB &kb; Querier *q; const Model &m; Rng r; std::map<std::string, int64_t> id; std::map<int64_t, std::string> rev; std::vector<I3> perm[6]; int nq; std::vector<int> miss;
    Checker(const std::string &P, KB &kb, Querier *q, const Model &m, uint64_t seed) : P(P), kb(kb), q(q), m(m), r(seed), nq(0) {}
    std::string key(const char *k) { return P + "/" + k; }
    std::string patStr(int idx, int64_t a, int64_t b, int64_t c) { return std::string(idxName(idx)) + "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + ")"; }
    void terms() {
        DictMgmt *d = kb.getDictMgmt(); std::set<std::string> all; for (auto &t : m) for (int i = 0; i < 3; ++i) all.insert(t.t[i]);
        std::vector<char> buf(MAX_TERM_SIZE + 100);
        for (auto &s : all) {
            nTerm n; if (!d->getNumber(s.data(), (int) s.size(), &n)) fail(key("term-without-id"), "term " + s.substr(0, 80) + " of a visible triple has no identifier");
            if (rev.count(n)) fail(key("id-shared"), "terms " + s.substr(0, 80) + " and " + rev[n].substr(0, 80) + " share identifier " + std::to_string(n));
            id[s] = n; rev[n] = s; int sz = -1;
            if (!d->getText(n, &buf[0], sz)) fail(key("id-without-text"), "identifier " + std::to_string(n) + " of " + s.substr(0, 80) + " has no text");
            if (sz != (int) s.size() || memcmp(&buf[0], s.data(), sz)) fail(key("text-differs"), "identifier " + std::to_string(n) + " maps back to '" + std::string(&buf[0], std::min(80, std::max(0, sz))) + "' instead of '" + s.substr(0, 80) + "'");
            std::string st; if (!d->getText(n, st) || st != s) fail(key("text-differs"), "getText(string) of " + std::to_string(n) + " gives '" + st.substr(0, 80) + "' instead of '" + s.substr(0, 80) + "'");
        }
        std::string un = "<http://no.such/term/" + std::to_string(r.below(1000)) + ">"; nTerm n; if (d->getNumber(un.data(), (int) un.size(), &n)) fail(key("unknown-term-has-id"), "a term that was never stored has identifier " + std::to_string(n));
        for (auto &t : m) for (int x = 0; x < 6; ++x) { I3 a; for (int k = 0; k < 3; ++k) a[k] = id[t.t[ORD[x][k]]]; perm[x].push_back(a); }
        for (int x = 0; x < 6; ++x) std::sort(perm[x].begin(), perm[x].end());
        miss.clear();
    }
    std::vector<I3> expect(int x, int64_t a, int64_t b, int64_t c) { std::vector<I3> o; for (auto &t : perm[x]) if ((a < 0 || t[0] == a) && (b < 0 || t[1] == b) && (c < 0 || t[2] == c)) o.push_back(t); return o; }
    void compare(int x, int64_t a, int64_t b, int64_t c, PairItr *it, const std::vector<I3> &e, const char *what) {
        size_t n = 0; std::vector<I3> got;
        while (it->hasNext()) { it->next(); I3 g = {{it->getKey(), it->getValue1(), it->getValue2()}}; got.push_back(g); if (++n > e.size() + 5) break; }
        if (got == e) return;
        std::vector<I3> s = got; std::sort(s.begin(), s.end());
        std::string det = patStr(x, a, b, c) + " " + what + ": got " + std::to_string(got.size()) + (n > e.size() + 4 ? "+" : "") + " expected " + std::to_string(e.size());
        for (size_t i = 0; i < std::max(got.size(), e.size()); ++i) if (i >= got.size() || i >= e.size() || got[i] != e[i]) { det += "; first difference at " + std::to_string(i) + ":"; if (i < got.size()) det += " got " + std::to_string(got[i][0]) + " " + std::to_string(got[i][1]) + " " + std::to_string(got[i][2]); if (i < e.size()) { det += " expected " + std::to_string(e[i][0]) + " " + std::to_string(e[i][1]) + " " + std::to_string(e[i][2]) + " = " + rev[e[i][0]].substr(0, 30); } break; }
        if (s == e) fail(key("order"), det); if (s.size() > e.size()) fail(key("extra-triples"), det); if (s.size() < e.size()) fail(key("missing-triples"), det); fail(key("wrong-triples"), det);
    }
    // draws a pattern bound to a prefix of the permutation
    void drawBound(int x, int nb, int64_t v[3]) {
        v[0] = v[1] = v[2] = -1; if (perm[x].empty() || r.chance(0.08)) { for (int k = 0; k < nb; ++k) v[k] = (!perm[x].empty() && r.chance(0.6)) ? perm[x][r.below(perm[x].size())][r.below(3)] : (int64_t) (kb.getNextID() + 3 + r.below(5)); return; }
        const I3 &t = perm[x][r.below(perm[x].size())]; for (int k = 0; k < nb; ++k) v[k] = t[k];
        if (nb && r.chance(0.2)) v[nb - 1] = perm[x][r.below(perm[x].size())][nb - 1];
    }
    void toSPO(int x, const int64_t v[3], int64_t o[3]) { for (int k = 0; k < 3; ++k) o[ORD[x][k]] = v[k]; }
    void scan(int x) { PairItr *it = q->getIterator(x, -1, -1, -1); compare(x, -1, -1, -1, it, perm[x], "scan"); q->releaseItr(it); }
    void scanNoLast(int x) {
        PairItr *it = q->getIterator(x, -1, -1, -1); it->ignoreSecondColumn(); std::vector<std::pair<int64_t, int64_t>> e; for (auto &t : perm[x]) { std::pair<int64_t, int64_t> p(t[0], t[1]); if (e.empty() || e.back() != p) e.push_back(p); }
        size_t i = 0; while (it->hasNext()) { it->next(); if (i >= e.size() || it->getKey() != e[i].first || it->getValue1() != e[i].second) fail(key("scan-first-columns"), patStr(x, -1, -1, -1) + " ignoring the last column: position " + std::to_string(i) + " of " + std::to_string(e.size()) + " gives " + std::to_string(it->getKey()) + " " + std::to_string(it->getValue1())); ++i; }
        if (i != e.size()) fail(key("scan-first-columns"), patStr(x, -1, -1, -1) + " ignoring the last column: " + std::to_string(i) + " instead of " + std::to_string(e.size())); q->releaseItr(it);
    }
    void pattern(int x, int nb) {
        int64_t v[3], o[3]; drawBound(x, nb, v); toSPO(x, v, o); std::vector<I3> e = expect(x, v[0], v[1], v[2]);
        PairItr *it = r.chance(0.5) ? q->getIterator(x, o[0], o[1], o[2]) : q->getPermuted(x, v[0], v[1], v[2]);
        compare(x, v[0], v[1], v[2], it, e, "pattern"); q->releaseItr(it);
    }
    void counts(int x, int nb) {
        int64_t v[3], o[3]; drawBound(x, nb, v); toSPO(x, v, o); std::vector<I3> e = expect(x, v[0], v[1], v[2]); std::string ps = patStr(x, v[0], v[1], v[2]); int64_t n;
        n = q->getCard(o[0], o[1], o[2]); if (n != (int64_t) e.size()) fail(key("count"), "getCard " + ps + " = " + std::to_string(n) + ", matching triples " + std::to_string(e.size()));
        n = (int64_t) q->getCardOnIndex(x, o[0], o[1], o[2]); if (n != (int64_t) e.size()) fail(key("count-on-index"), "getCardOnIndex " + ps + " = " + std::to_string(n) + ", matching triples " + std::to_string(e.size()));
        if (q->exists(o[0], o[1], o[2]) != !e.empty()) fail(key("exists"), "exists " + ps + " disagrees: matching triples " + std::to_string(e.size()));
        if (q->isEmpty(o[0], o[1], o[2]) != e.empty()) fail(key("is-empty"), "isEmpty " + ps + " disagrees: matching triples " + std::to_string(e.size()));
        if (nb == 0) { n = (int64_t) q->getInputSize(); if (n != (int64_t) m.size()) fail(key("size"), "getInputSize = " + std::to_string(n) + " triples in store " + std::to_string(m.size())); }
        if (nb == 1) {
            size_t d1 = 0; int64_t last = -1; for (auto &t : e) if (t[1] != last) { ++d1; last = t[1]; }
            n = (int64_t) q->getCardOnIndex(x, o[0], o[1], o[2], true); if (n != (int64_t) d1) fail(key("count-skip-last"), "getCardOnIndex(skipLast) " + ps + " = " + std::to_string(n) + ", distinct second values " + std::to_string(d1));
            n = q->getCard(o[0], o[1], o[2], (uint8_t) ORD[x][1]); if (n != (int64_t) d1) fail(key("count-distinct"), "getCard(pos=" + std::to_string(ORD[x][1]) + ") " + ps + " = " + std::to_string(n) + ", distinct values " + std::to_string(d1));
        }
        q->estCard(o[0], o[1], o[2]); q->estCardOnIndex(x, o[0], o[1], o[2]);
    }
    // next on a key bound iterator, with the last column ignored: distinct values and their counts
    // Full scan that skips forward (to a key, or within the current one) the way merge joins do. A skip may be partial, but it loses nothing at or after its target.
    void scanSkip(int x) {
        bool ign = r.chance(0.5); struct E { int64_t k, a, b; }; std::vector<E> e; for (auto &t : perm[x]) { if (ign && e.size() && e.back().k == t[0] && e.back().a == t[1]) e.back().b++; else e.push_back({t[0], t[1], ign ? 1 : t[2]}); }
        PairItr *it = q->getPermuted(x, -1, -1, -1, false); std::string ty = "iterator " + describe(it) + " ", tr; if (ign) { it->ignoreSecondColumn(); tr = " ignoring the last column:"; }
        long pos = -1, want = 0; for (int n = 0; n < 60; ++n) {
            if (pos >= 0 && pos + 1 < (long) e.size() && r.chance(0.4)) {
                if (r.chance(0.5)) { int64_t k = std::max(e[pos].k + 1, e[r.range(pos, e.size() - 1)].k + (int64_t) r.range(0, 1)); tr += " gotoKey(" + std::to_string(k) + ")"; it->gotoKey(k); while (want < (long) e.size() && e[want].k < k) want++; }
                else { long j = r.range(pos, e.size() - 1); int64_t a = e[pos].a + 1, b = 0; if (e[j].k == e[pos].k && e[j].a >= a) { a = e[j].a + (int64_t) r.range(0, 1); if (!ign && a == e[j].a && r.chance(0.5)) b = e[j].b; } tr += " moveto(" + std::to_string(a) + "," + std::to_string(b) + ")"; it->moveto(a, b); while (want < (long) e.size() && e[want].k == e[pos].k && (e[want].a < a || (!ign && e[want].a == a && e[want].b < b))) want++; }
            }
            if (!it->hasNext()) { if (want < (long) e.size()) fail(key("scan-skip"), ty + idxName(x) + tr + ": ended before " + std::to_string(e[want].k) + " " + std::to_string(e[want].a)); break; }
            it->next(); int64_t k = it->getKey(), a = it->getValue1(), b = ign ? it->getCount() : it->getValue2(); long j = pos + 1; while (j < (long) e.size() && j <= want && !(e[j].k == k && e[j].a == a && (ign || e[j].b == b))) j++;
            if (j >= (long) e.size() || j > want) fail(key("scan-skip"), ty + idxName(x) + tr + ": at " + std::to_string(k) + " " + std::to_string(a) + " " + std::to_string(b) + (want < (long) e.size() ? ", expected " + std::to_string(e[want].k) + " " + std::to_string(e[want].a) + " " + std::to_string(e[want].b) : std::string(", expected the end")));
            if (ign && (j == want ? e[j].b != b : b < 1 || b > e[j].b)) fail(key("scan-skip"), ty + idxName(x) + tr + ": " + std::to_string(k) + " " + std::to_string(a) + " counted " + std::to_string(b) + " times instead of " + std::to_string(e[j].b)); tr += " ."; if (tr.size() > 300) tr = tr.substr(tr.size() - 200); pos = j; want = std::max(want, pos + 1);
        }
        q->releaseItr(it);
    }
    void firstColumn(int x) {
        int64_t v[3], o[3]; drawBound(x, 1, v); toSPO(x, v, o); std::vector<I3> e = expect(x, v[0], -1, -1); std::vector<std::pair<int64_t, int64_t>> g; for (auto &t : e) { if (g.empty() || g.back().first != t[1]) g.push_back(std::make_pair(t[1], 0)); g.back().second++; }
        PairItr *it = q->getIterator(x, o[0], o[1], o[2]); std::string ty = "iterator " + describe(it) + " "; it->ignoreSecondColumn(); size_t i = 0;
        while (it->hasNext()) { it->next(); if (i >= g.size() || it->getValue1() != g[i].first) fail(key("first-column"), ty + patStr(x, v[0], -1, -1) + " ignoring the last column: position " + std::to_string(i) + " of " + std::to_string(g.size()) + " gives " + std::to_string(it->getValue1())); int64_t c = it->getCount(); if (c != g[i].second) fail(key("first-column-count"), ty + patStr(x, v[0], -1, -1) + " value " + std::to_string(g[i].first) + " count " + std::to_string(c) + " instead of " + std::to_string(g[i].second)); ++i; }
        if (i != g.size()) fail(key("first-column"), ty + patStr(x, v[0], -1, -1) + " ignoring the last column: " + std::to_string(i) + " values instead of " + std::to_string(g.size())); q->releaseItr(it);
        if (g.size() > 1 && r.chance(0.6)) { it = q->getPermuted(x, v[0], -1, -1); ty = "iterator " + describe(it) + " "; it->ignoreSecondColumn(); size_t cur = 0; if (!it->hasNext()) fail(key("first-column"), "empty"); it->next();
            for (int k = 0; k < 4; ++k) { size_t to = r.range(cur, g.size() - 1); int64_t target = g[to].first; size_t w = to; if (r.chance(0.3)) { target++; w = to + 1; if (w < g.size() && g[w].first < target) w = to; } it->moveto(target, 0); if (w >= g.size()) { if (it->hasNext()) fail(key("moveto-first-column"), ty + patStr(x, v[0], -1, -1) + " moveto(" + std::to_string(target) + ") beyond the end still has elements"); break; } if (!it->hasNext()) fail(key("moveto-first-column"), ty + patStr(x, v[0], -1, -1) + " moveto(" + std::to_string(target) + ") lost the remaining values"); it->next(); if (it->getValue1() != g[w].first) fail(key("moveto-first-column"), ty + patStr(x, v[0], -1, -1) + " moveto(" + std::to_string(target) + ") gives " + std::to_string(it->getValue1()) + " instead of " + std::to_string(g[w].first)); int64_t cc = it->getCount(); if (cc != g[w].second) fail(key("first-column-count"), ty + patStr(x, v[0], -1, -1) + " after moveto(" + std::to_string(target) + ") value " + std::to_string(g[w].first) + " count " + std::to_string(cc) + " instead of " + std::to_string(g[w].second)); cur = w; }
            q->releaseItr(it); }
    }
    // repositioning on a key bound iterator
    void moves(int x) {
        int64_t v[3]; drawBound(x, 1, v); std::vector<I3> e = expect(x, v[0], -1, -1); if (e.empty()) return;
        PairItr *it = q->getPermuted(x, v[0], -1, -1); if (!it->hasNext()) fail(key("missing-triples"), patStr(x, v[0], -1, -1) + " is empty"); it->next(); size_t cur = 0; bool marked = false, canMark = !hasAggr(it); size_t mk = 0; std::string tr, ty = "iterator " + describe(it) + " ";
        for (int k = 0; k < 6; ++k) {
            size_t to; int act = (int) r.below(10); size_t want;
            if (act < 5) { // forward or same position, exact or in a gap
                to = r.range(cur, e.size() - 1); int64_t a = e[to][1], b = e[to][2]; if (r.chance(0.35)) { int w = (int) r.below(4); if (w == 0) b++; else if (w == 1) { a++; b = 0; } else if (w == 2) b = b > 0 ? b - 1 : 0; else b = 0; }
                I3 t = {{v[0], a, b}}; want = std::lower_bound(e.begin(), e.end(), t) - e.begin(); if (want < cur) want = cur; tr += " moveto(" + std::to_string(a) + "," + std::to_string(b) + ")"; it->moveto(a, b);
            } else if (act < 8 || !canMark) { want = cur + 1; tr += " next"; }
            else if (act == 8 || !marked) { it->mark(); marked = true; mk = cur; tr += " mark"; continue; }
            else { it->reset(0); want = mk + 1; tr += " reset"; } // next() after reset() gives the element that followed the marked one
            if (want >= e.size()) { if (it->hasNext()) fail(key("moveto"), ty + patStr(x, v[0], -1, -1) + tr + ": iterator should be exhausted"); break; }
            if (!it->hasNext()) fail(key("moveto"), ty + patStr(x, v[0], -1, -1) + tr + ": iterator ended, expected " + std::to_string(e[want][1]) + " " + std::to_string(e[want][2]));
            it->next(); if (it->getValue1() != e[want][1] || it->getValue2() != e[want][2]) fail(key("moveto"), ty + patStr(x, v[0], -1, -1) + tr + ": at " + std::to_string(it->getValue1()) + " " + std::to_string(it->getValue2()) + ", expected " + std::to_string(e[want][1]) + " " + std::to_string(e[want][2])); cur = want;
        }
        q->releaseItr(it);
    }
    void termList(int x) {
        std::vector<std::pair<int64_t, int64_t>> g; for (auto &t : perm[x]) { if (g.empty() || g.back().first != t[0]) g.push_back(std::make_pair(t[0], 0)); g.back().second++; }
        PairItr *it = q->getTermList(x); if (!it) return; size_t i = 0; std::string d = std::string("term list of ") + idxName(x) + ": ";
        while (it->hasNext()) { it->next(); if (i >= g.size() || it->getKey() != g[i].first) fail(key("term-list"), d + "position " + std::to_string(i) + " of " + std::to_string(g.size()) + " gives " + std::to_string(it->getKey()) + (i < g.size() ? " instead of " + std::to_string(g[i].first) : "")); int64_t c = it->getCount(); if (c != g[i].second) fail(key("term-list-count"), d + "term " + std::to_string(g[i].first) + " count " + std::to_string(c) + " instead of " + std::to_string(g[i].second)); ++i; }
        if (i != g.size()) fail(key("term-list"), d + std::to_string(i) + " terms instead of " + std::to_string(g.size())); q->releaseItr(it);
    }
    void graphApi() {
        int msk = (int) r.below(8); int64_t v[3], o[3]; drawBound(IDX_SPO, 3, v); for (int k = 0; k < 3; ++k) o[k] = (msk >> k) & 1 ? v[k] : -1 - k; int ea = -1, eb = -1; if (r.chance(0.15)) { ea = (int) r.below(3); eb = (ea + 1 + (int) r.below(2)) % 3; if (o[ea] < 0 && o[eb] < 0) o[eb] = o[ea]; else ea = eb = -1; } int64_t s = o[0], p = o[1], d = o[2];
        std::vector<I3> all; for (auto &t : perm[0]) if ((s < 0 || t[0] == s) && (p < 0 || t[1] == p) && (d < 0 || t[2] == d) && (ea < 0 || t[ea] == t[eb])) all.push_back(t);
        static const int eo[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char *en[] = {"srd", "sdr", "rsd", "rds", "dsr", "drs"}; int w = (int) r.below(6);
        std::vector<I3> e; for (auto &t : all) { I3 a = {{t[eo[w][0]], t[eo[w][1]], t[eo[w][2]]}}; e.push_back(a); } std::sort(e.begin(), e.end()); std::string ps = std::string("edg_") + en[w] + "(" + std::to_string(s) + "," + std::to_string(p) + "," + std::to_string(d) + ")";
        EdgeItr *it = w == 0 ? q->edg_srd(s, p, d) : w == 1 ? q->edg_sdr(s, p, d) : w == 2 ? q->edg_rsd(s, p, d) : w == 3 ? q->edg_rds(s, p, d) : w == 4 ? q->edg_dsr(s, p, d) : q->edg_drs(s, p, d);
        std::vector<I3> g; while (it->hasNext() && g.size() <= e.size()) { it->next(); int64_t c[3] = {(int64_t) it->getSubject(), (int64_t) it->getPredicate(), (int64_t) it->getObject()}; I3 a = {{c[eo[w][0]], c[eo[w][1]], c[eo[w][2]]}}; g.push_back(a); }
        if (g != e) fail(key("edges"), ps + " returned " + std::to_string(g.size()) + " edges (or wrong ones), expected " + std::to_string(e.size())); delete it;
        uint64_t n = q->countEdges(s, p, d); if (n != all.size()) fail(key("count-edges"), "countEdges" + ps.substr(7) + " = " + std::to_string(n) + " expected " + std::to_string(all.size()));
        static const char *gn[] = {"s", "r", "d"}; int k1 = (int) r.below(3); std::map<int64_t, int64_t> grp; if (ea >= 0) return; for (auto &t : all) grp[t[k1]]++;
        KeyCardItr *ki = k1 == 0 ? q->grp_s(s, p, d) : k1 == 1 ? q->grp_r(s, p, d) : q->grp_d(s, p, d); auto gi = grp.begin(); std::string gs = std::string("grp_") + gn[k1] + ps.substr(7);
        while (ki->hasNext()) { ki->next(); if (gi == grp.end() || (int64_t) ki->getKey1() != gi->first || (int64_t) ki->getCard() != gi->second) fail(key("groups"), gs + " gives key " + std::to_string(ki->getKey1()) + " count " + std::to_string(ki->getCard()) + (gi == grp.end() ? " beyond the last group" : " instead of " + std::to_string(gi->first) + " count " + std::to_string(gi->second))); ++gi; } if (gi != grp.end()) fail(key("groups"), gs + " misses groups"); delete ki;
        static const int pr[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}}; w = (int) r.below(6); std::map<std::pair<int64_t, int64_t>, int64_t> g2; for (auto &t : all) g2[std::make_pair(t[pr[w][0]], t[pr[w][1]])]++;
        ki = w == 0 ? q->grp_sr(s, p, d) : w == 1 ? q->grp_sd(s, p, d) : w == 2 ? q->grp_rs(s, p, d) : w == 3 ? q->grp_rd(s, p, d) : w == 4 ? q->grp_ds(s, p, d) : q->grp_dr(s, p, d); auto g2i = g2.begin(); gs = std::string("grp_") + gn[pr[w][0]] + gn[pr[w][1]] + ps.substr(8);
        while (ki->hasNext()) { ki->next(); if (g2i == g2.end() || (int64_t) ki->getKey1() != g2i->first.first || (int64_t) ki->getKey2() != g2i->first.second || (int64_t) ki->getCard() != g2i->second) fail(key("groups2"), gs + " gives keys " + std::to_string(ki->getKey1()) + "," + std::to_string(ki->getKey2()) + " count " + std::to_string(ki->getCard()) + (g2i == g2.end() ? " beyond the last group" : " instead of " + std::to_string(g2i->first.first) + "," + std::to_string(g2i->first.second) + " count " + std::to_string(g2i->second))); ++g2i; } if (g2i != g2.end()) fail(key("groups2"), gs + " misses groups"); delete ki;
        if ((s >= 0 || p >= 0 || d >= 0) && ea < 0) { uint64_t c = k1 == 0 ? q->cnt_grp_s(s, p, d) : k1 == 1 ? q->cnt_grp_r(s, p, d) : q->cnt_grp_d(s, p, d); if (c != grp.size()) fail(key("count-groups"), std::string("cnt_grp_") + gn[k1] + ps.substr(8) + " = " + std::to_string(c) + " expected " + std::to_string(grp.size())); }
    }
    void core(int rounds) { // content only
        terms(); for (int x = 0; x < 6; ++x) scan(x); for (int i = 0; i < rounds; ++i) pattern((int) r.below(6), (int) r.range(1, 3)); if (rounds) counts(0, 0);
    }
    void all(int rounds) {
        terms(); for (int x = 0; x < 6; ++x) scan(x);
        for (int i = 0; i < rounds; ++i) { pattern((int) r.below(6), (int) r.range(1, 3)); counts((int) r.below(6), (int) r.range(0, 3)); moves((int) r.below(6)); firstColumn((int) r.below(6)); scanSkip((int) r.below(6)); if (i % 3 == 0) { termList((int) r.below(6)); scanNoLast((int) r.below(6)); graphApi(); } }
    }
};
inline std::string hex(const std::string &s) { static const char *h = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } return o; }
inline std::string unhex(const std::string &s) { std::string o; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char) (v(s[i]) * 16 + v(s[i + 1])); return o; }
inline void dumpIds(const std::map<std::string, int64_t> &id) { std::string o; for (auto &e : id) o += hex(e.first) + " " + std::to_string(e.second) + "\n"; payload(o); }
inline std::map<std::string, int64_t> readIds(const std::string &p) { std::map<std::string, int64_t> m; size_t i = 0; while (i < p.size()) { size_t e = p.find('\n', i); if (e == std::string::npos) break; std::string l = p.substr(i, e - i); size_t sp = l.find(' '); if (sp != std::string::npos) m[unhex(l.substr(0, sp))] = atoll(l.c_str() + sp + 1); i = e + 1; } return m; }
// All triples visible in a store, as strings (used where several outcomes are allowed)
inline Model readAll(KB &kb, Querier *q, const std::string &P) {
    Model m; PairItr *it = q->getIterator(IDX_SPO, -1, -1, -1); DictMgmt *d = kb.getDictMgmt(); std::map<int64_t, std::string> c; size_t n = 0;
    while (it->hasNext()) { it->next(); int64_t v[3] = {it->getKey(), it->getValue1(), it->getValue2()}; T3 t; for (int k = 0; k < 3; ++k) { if (!c.count(v[k])) { std::string s; if (!d->getText(v[k], s)) fail(P + "/visible-triple-without-text", "identifier " + std::to_string(v[k]) + " occurs in a visible triple but has no text"); c[v[k]] = s; } t.t[k] = c[v[k]]; } if (!m.insert(t).second) fail(P + "/duplicate-triple", "triple returned twice: " + show(t)); if (++n > 2000000) fail(P + "/endless-scan", "scan does not end"); }
    q->releaseItr(it); return m;
}
inline std::string encModel(const Model &m) { std::string o; for (auto &t : m) o += hex(t.t[0]) + " " + hex(t.t[1]) + " " + hex(t.t[2]) + "\n"; return o; }
inline Model decModel(const std::string &p) { Model m; size_t i = 0; while (i < p.size()) { size_t e = p.find('\n', i); if (e == std::string::npos) break; std::string l = p.substr(i, e - i); i = e + 1; size_t a = l.find(' '), b = l.find(' ', a + 1); if (a == std::string::npos || b == std::string::npos) continue; T3 t; t.t[0] = unhex(l.substr(0, a)); t.t[1] = unhex(l.substr(a + 1, b - a - 1)); t.t[2] = unhex(l.substr(b + 1)); m.insert(t); } return m; }

inline PhaseCfg calm() { PhaseCfg p; p.strategy = 0; p.switchProb = 0; p.preemptPeriod = 0; p.spuriousProb = 0; p.maxSteps = 3000000000ull; p.realTimeout = 60; return p; }
// ------------------------------------------------------------------ one store and its reference
struct Store {
    Ctx &c; std::string P, kb, in; Model m; std::map<std::string, int64_t> known; Vocab v; LoadOpts lo; int nOps;
    Store(Ctx &c, const std::string &P) : c(c), P(P), kb(c.dir + "/kb"), nOps(0) {}
    void makeInput(int n, bool weird, int ns, int np, int no) {
        v = vocab(c.rng, ns, np, no, weird); in = c.dir + "/in"; mkdirs(in); int nf = (int) c.rng.range(1, 3); std::vector<std::string> f(nf); for (int i = 0; i < n; ++i) { T3 t = randTriple(c.rng, v); size_t fa = c.rng.below(nf), fb = c.rng.below(nf); bool dup = c.rng.chance(0.05); if (c.dropped(100000 + i)) continue; m.insert(t); f[fa] += ntLine(t); if (dup) f[fb] += ntLine(t); }
        if (c.rng.chance(0.12)) { // one pair of terms that occurs together in hundreds of triples
            T3 t = randTriple(c.rng, v); int k = (int) c.rng.range(250, 400), pos = (int) c.rng.below(3); for (int i = 0; i < k; ++i) { t.t[pos] = "<http://star/" + std::to_string(i) + ">"; if (c.dropped(200000 + i)) continue; m.insert(t); f[0] += ntLine(t); } }
        if (m.empty()) { T3 t = randTriple(c.rng, v); m.insert(t); f[0] += ntLine(t); }
        for (int i = 0; i < nf; ++i) if (!f[i].empty()) writeFile(in + "/f" + std::to_string(i) + ".nt", f[i]);
    }
    PhaseResult load(PhaseCfg p) { if (g_simParams.storageFile) g_simParams.storageFile = std::max<int64_t>(g_simParams.storageFile, m.size() * 32 * 4 / MAX_N_FILES); /* the number of files of a table store is limited */ c.note("load " + std::to_string(m.size()) + " triples, " + lo.str()); std::string i = in, k = kb; LoadOpts o = lo; return runPhase(p, [=]() { setRoot(k); doLoad(o, i, k); }); }
    std::string writeUpdate(const std::vector<T3> &ts) { std::string d = c.dir + "/upd" + std::to_string(nOps++); mkdirs(d); std::string f; for (auto &t : ts) f += ntLine(t); writeFile(d + "/u.nt", f); return d; }
    PhaseResult update(PhaseCfg p, bool add, const std::string &dir, const std::string &kbdir) { return runPhase(p, [=]() { setRoot(kbdir); Updater u; u.creatediffupdate(add ? DiffIndex::TypeUpdate::ADDITION_df : DiffIndex::TypeUpdate::DELETE_df, kbdir, dir); }); }
    PhaseResult merge(PhaseCfg p, const std::string &kbdir) { return runPhase(p, [=]() { setRoot(kbdir); KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); kb.mergeUpdates(); }); }
    // draws an update; about half of it overlaps with what is stored
    std::vector<T3> drawUpdate(bool add, int n, Vocab *extra) {
        std::vector<T3> o; std::vector<T3> cur(m.begin(), m.end());
        for (int i = 0; i < n; ++i) { T3 t; double x = c.rng.unit(); if (!cur.empty() && x < (add ? 0.2 : 0.7)) t = cur[c.rng.below(cur.size())]; else t = randTriple(c.rng, v); if (extra) for (int k = 0; k < 3; ++k) if (c.rng.chance(0.3)) { auto &pool = k == 0 ? extra->s : k == 1 ? extra->p : extra->o; t.t[k] = pool[c.rng.below(pool.size())]; } o.push_back(t); }
        return o;
    }
    void apply(bool add, const std::vector<T3> &ts) { for (auto &t : ts) if (add) m.insert(t); else m.erase(t); }
    void verify(const std::string &kbdir, int rounds, bool full, const char *what) {
        std::string P = this->P; Model &mm = m; uint64_t s = c.rng.next(); std::map<std::string, int64_t> &kn = known;
        PhaseResult r = runPhase(calm(), [&]() { KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); Querier *q = kb.query(); Checker ck(P, kb, q, mm, s); if (full) ck.all(rounds); else ck.core(rounds);
            for (auto &e : ck.id) { auto k = kn.find(e.first); if (k != kn.end() && k->second != e.second) fail(P + "/id-changed", "identifier of " + e.first.substr(0, 80) + " changed from " + std::to_string(k->second) + " to " + std::to_string(e.second)); }
            dumpIds(ck.id); delete q; });
        if (!r.ok()) c.expectOk(r, P + std::string("/") + what);
        auto ids = readIds(r.payload); std::map<int64_t, std::string> owner; for (auto &e : known) owner[e.second] = e.first; for (auto &e : ids) { auto o = owner.find(e.second); if (o != owner.end() && o->second != e.first) c.violation(P + "/id-reused", "identifier " + std::to_string(e.second) + " of " + o->second.substr(0, 80) + " now belongs to " + e.first.substr(0, 80)); } for (auto &e : ids) known[e.first] = e.second;
    }
    Model readModel(const std::string &kbdir, const char *what) { std::string P = this->P; PhaseResult r = runPhase(calm(), [&]() { KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); Querier *q = kb.query(); Model mm = readAll(kb, q, P); payload(encModel(mm)); delete q; }); c.expectOk(r, P + std::string("/") + what); return decModel(r.payload); }
};
}
#endif
