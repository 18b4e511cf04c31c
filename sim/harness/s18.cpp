// S18: multi-threaded graph algorithms and table operations against their sequential definitions.
#include "snaputil.h"
#include <cmath>
#include <map>
#include <set>
#include <stdio.h>
#include <tuple>
using namespace sim;
using namespace snap;
__attribute__((weak)) void TStopwatch::Start(const TExperiment) {} __attribute__((weak)) void TStopwatch::Stop(const TExperiment) {} // util.cpp does not compile here
extern "C" void simgomp_config(int threads, int chunkDiv, int defer);

namespace {
struct G { int n; std::vector<int> ids; std::vector<std::pair<int, int>> e; bool loops; }; // ids: node identifiers; e: pairs of positions
struct Team { int threads, div; bool defer; };
PhaseCfg cfg(Ctx &c) { PhaseCfg p; c.randomSched(p); p.maxSteps = 2000000000ull; p.guardMaps = true; return p; }
Team team(Rng &r) { Team t; t.threads = r.chance(0.1) ? 1 : (int) r.range(2, 8); t.div = r.chance(0.2) ? 1 : r.chance(0.5) ? 10000 : (int) r.range(1, 5000); t.defer = r.chance(0.5); return t; }
std::string name(const Team &t) { return std::to_string(t.threads) + " threads, chunks / " + std::to_string(t.div); }
struct Mute { Mute() { Paused p; FILE *f = freopen("/dev/null", "w", stdout); (void) f; } };
void begin(const Team &t) { simgomp_config(t.threads, t.div, t.defer); }
G graph(Rng &r, bool thorough, bool sparseIds) {
    G g; double x = r.unit(); g.n = (int) (x < 0.1 ? r.range(1, 3) : x < 0.8 ? r.range(4, 40) : r.range(40, thorough ? 400 : 150)); g.loops = r.chance(0.4);
    std::set<int> ids; int gap = sparseIds && r.chance(0.6) ? (int) r.range(2, 30) : 1; while ((int) ids.size() < g.n) ids.insert(gap == 1 ? (int) ids.size() : (int) r.below((uint64_t) g.n * gap)); g.ids.assign(ids.begin(), ids.end());
    if (r.chance(0.5)) for (size_t i = g.ids.size(); i > 1; --i) std::swap(g.ids[i - 1], g.ids[r.below(i)]);
    int shape = (int) r.below(4); long m = r.chance(0.1) ? 0 : (long) (g.n * (shape == 3 ? 6 : 0.3 + 4 * r.unit())); std::set<std::pair<int, int>> seen;
    for (long k = 0; k < m; ++k) {
        int a = (int) r.below(g.n), b = (int) r.below(g.n); if (shape == 1) a = (int) (g.n * r.unit() * r.unit() * r.unit()); if (shape == 2) b = std::min(g.n - 1, a + (int) r.below(3));
        if (a == b && !g.loops) continue; if (seen.insert(std::make_pair(a, b)).second) g.e.push_back(std::make_pair(a, b));
    }
    return g;
}
std::string text(const G &g) { std::string s = std::to_string(g.n) + " nodes, edges"; for (size_t i = 0; i < g.e.size() && i < 40; ++i) s += " " + std::to_string(g.ids[g.e[i].first]) + ">" + std::to_string(g.ids[g.e[i].second]); return s; }
template <class P> P fill(const G &g) { P p = P::TObj::New(); for (int i : g.ids) p->AddNode(i); for (auto &x : g.e) p->AddEdge(g.ids[x.first], g.ids[x.second]); return p; }
PNGraphMP fillMP(const G &g) {
    std::vector<std::vector<int>> in(g.n), out(g.n); for (auto &x : g.e) { out[x.first].push_back(g.ids[x.second]); in[x.second].push_back(g.ids[x.first]); }
    PNGraphMP p = TNGraphMP::New(g.n, (int) g.e.size() + 1); for (int i = 0; i < g.n; ++i) { TIntV a, b; std::sort(in[i].begin(), in[i].end()); std::sort(out[i].begin(), out[i].end()); for (int x : in[i]) a.Add(x); for (int x : out[i]) b.Add(x); p->AddNodeWithEdges(g.ids[i], a, b); } p->SetNodes(g.n); return p;
}
// directed: as given; undirected: every edge once in each direction, loops once
std::vector<std::vector<int>> adj(const G &g, bool undirected) {
    std::vector<std::set<int>> s(g.n); for (auto &x : g.e) { s[x.first].insert(x.second); if (undirected) s[x.second].insert(x.first); }
    std::vector<std::vector<int>> r(g.n); for (int i = 0; i < g.n; ++i) r[i].assign(s[i].begin(), s[i].end()); return r;
}
bool close(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(a)) && !std::isnan(a) && !std::isnan(b); }
template <class H> void compare(const H &h, const G &g, const std::vector<double> &want, const std::string &key, const std::string &what) {
    if (h.Len() != g.n) fail(key, what + ": " + std::to_string(h.Len()) + " values for " + text(g));
    for (int i = 0; i < g.n; ++i) { double v = h.GetDat(g.ids[i]).Val; if (!close(want[i], v)) fail(key, what + ": node " + std::to_string(g.ids[i]) + " has " + std::to_string(v) + ", the definition gives " + std::to_string(want[i]) + "; " + text(g)); }
}
std::vector<double> rank(const G &g, const std::vector<std::vector<int>> &out, const std::vector<std::vector<double>> &w, double C, double eps, int iters, bool &edge) {
    std::vector<double> p(g.n, 1.0 / g.n), q(g.n); std::vector<double> tot(g.n, 0); for (int i = 0; i < g.n; ++i) for (double x : w[i]) tot[i] += x;
    for (int k = 0; k < iters; ++k) {
        std::fill(q.begin(), q.end(), 0.0); double sum = 0, diff = 0; for (int i = 0; i < g.n; ++i) if (tot[i] > 0) for (size_t j = 0; j < out[i].size(); ++j) q[out[i][j]] += C * p[i] * w[i][j] / tot[i];
        for (double x : q) sum += x; for (int i = 0; i < g.n; ++i) { q[i] += (1 - sum) / g.n; diff += std::fabs(q[i] - p[i]); } p = q; if (std::fabs(diff - eps) < 1e-12) edge = true; if (diff < eps) break;
    }
    return p;
}

void rankScenario(Ctx &c) {
    G g = graph(c.rng, c.thorough, true); Team t = team(c.rng); double C = c.rng.chance(0.5) ? 0.85 : 0.05 + 0.9 * c.rng.unit(); double eps = c.rng.chance(0.5) ? -1 : 1e-4; int iters = (int) c.rng.range(0, 12); int kind = (int) c.rng.below(4);
    std::vector<double> ws; for (size_t i = 0; i < g.e.size(); ++i) ws.push_back(c.rng.chance(0.1) ? 0 : c.rng.chance(0.5) ? 1 + (double) c.rng.below(5) : c.rng.unit() * 10);
    static const char *names[] = { "PageRank of a directed graph", "PageRank of an undirected graph", "PageRank of a parallel graph", "weighted PageRank" };
    std::string what = std::string(names[kind]) + ", " + std::to_string(iters) + " iterations, " + name(t); c.note(what); bool und = kind == 1, edge = false;
    std::vector<std::vector<int>> out = adj(g, und); std::vector<std::vector<double>> w(g.n); for (int i = 0; i < g.n; ++i) w[i].assign(out[i].size(), 1.0);
    if (kind == 3) { for (auto &x : w) for (double &y : x) y = 0; for (size_t k = 0; k < g.e.size(); ++k) { int a = g.e[k].first; size_t j = std::lower_bound(out[a].begin(), out[a].end(), g.e[k].second) - out[a].begin(); w[a][j] = ws[k]; } }
    std::vector<double> want = rank(g, out, w, C, eps, iters, edge); if (edge) return;
    PhaseResult r = runPhase(cfg(c), [&]() {
        Quiet q; Mute m; TIntFltH h; PNGraph d; PUNGraph u; PNGraphMP p; PNEANet e; { Paused pp; if (kind == 0) d = fill<PNGraph>(g); else if (kind == 1) u = fill<PUNGraph>(g); else if (kind == 2) p = fillMP(g); else { e = TNEANet::New(); for (int i : g.ids) e->AddNode(i); e->AddFltAttrE("w", 0); for (size_t k = 0; k < g.e.size(); ++k) { int id = e->AddEdge(g.ids[g.e[k].first], g.ids[g.e[k].second]); e->AddFltAttrDatE(id, ws[k], "w"); } } }
        begin(t); if (kind == 0) TSnap::GetPageRankMP<PNGraph>(d, h, C, eps, iters); else if (kind == 1) TSnap::GetPageRankMP<PUNGraph>(u, h, C, eps, iters); else if (kind == 2) TSnap::GetPageRankMP<PNGraphMP>(p, h, C, eps, iters); else if (TSnap::GetWeightedPageRankMP(e, h, "w", C, eps, iters) != 0) fail("S18/refused", what);
        Paused pp; compare(h, g, want, kind == 3 ? "S18/weighted-rank" : "S18/rank", what);
    });
    c.expectOk(r, "S18/rank"); if (g.e.size() > 3 && iters) c.nontrivial();
}

void hitsScenario(Ctx &c) {
    G g = graph(c.rng, c.thorough, true); if (g.e.empty()) g.e.push_back(std::make_pair(0, g.n - 1)); Team t = team(c.rng); int iters = (int) c.rng.range(0, 8); std::string what = "hubs and authorities, " + std::to_string(iters) + " iterations, " + name(t); c.note(what);
    std::vector<std::vector<int>> out = adj(g, false); std::vector<double> hub(g.n, 1), au(g.n, 1);
    auto norm = [&](std::vector<double> &v) { double s = 0; for (double x : v) s += x * x; s = std::sqrt(s); for (double &x : v) x /= s; };
    for (int k = 0; k < iters; ++k) { std::fill(au.begin(), au.end(), 0.0); for (int i = 0; i < g.n; ++i) for (int j : out[i]) au[j] += hub[i]; norm(au); for (int i = 0; i < g.n; ++i) { hub[i] = 0; for (int j : out[i]) hub[i] += au[j]; } norm(hub); }
    norm(hub); norm(au);
    PhaseResult r = runPhase(cfg(c), [&]() { Quiet q; Mute m; TIntFltH h, a; PNGraph d; { Paused pp; d = fill<PNGraph>(g); } begin(t); TSnap::GetHitsMP(d, h, a, iters); Paused pp; compare(h, g, hub, "S18/hubs", what); compare(a, g, au, "S18/authorities", what); });
    c.expectOk(r, "S18/hits"); if (g.e.size() > 3 && iters) c.nontrivial();
}

void triangleScenario(Ctx &c) {
    G g = graph(c.rng, c.thorough, true); g.loops = false; { std::vector<std::pair<int, int>> k; for (auto &x : g.e) if (x.first != x.second) k.push_back(x); g.e = k; } Team t = team(c.rng); int kind = (int) c.rng.below(3), how = (int) c.rng.below(2);
    std::string what = std::string(how ? "GetTriangleCnt" : "CountTriangles") + (kind == 0 ? " of an undirected graph, " : kind == 1 ? " of a directed graph, " : " of a parallel graph, ") + name(t); c.note(what);
    std::vector<std::vector<int>> a = adj(g, true); std::set<std::pair<int, int>> has; for (int i = 0; i < g.n; ++i) for (int j : a[i]) has.insert(std::make_pair(i, j)); long want = 0; for (int i = 0; i < g.n; ++i) for (int j : a[i]) if (j > i) for (int k : a[j]) if (k > j && has.count(std::make_pair(i, k))) want++;
    PhaseResult r = runPhase(cfg(c), [&]() {
        Quiet q; Mute m; PNGraph d; PUNGraph u; PNGraphMP p; { Paused pp; if (kind == 0) u = fill<PUNGraph>(g); else if (kind == 1) d = fill<PNGraph>(g); else p = fillMP(g); } begin(t); long got = 0;
        if (how) got = kind == 0 ? TSnap::GetTriangleCnt(u) : kind == 1 ? TSnap::GetTriangleCnt(d) : TSnap::GetTriangleCnt(p); else got = kind == 0 ? TSnap::CountTriangles(u) : kind == 1 ? TSnap::CountTriangles(d) : TSnap::CountTriangles(p);
        if (got != want) fail("S18/triangles", what + ": counted " + std::to_string(got) + ", the graph has " + std::to_string(want) + "; " + text(g));
    });
    c.expectOk(r, "S18/triangles"); if (want) c.nontrivial();
}

void distScenario(Ctx &c) {
    G g = graph(c.rng, c.thorough, true); Team t = team(c.rng); bool und = c.rng.chance(0.3); int s = (int) c.rng.below(g.n); std::string what = "distances from " + std::to_string(g.ids[s]) + (und ? ", undirected, " : ", directed, ") + name(t); c.note(what);
    std::vector<std::vector<int>> a = adj(g, und); std::vector<int> d(g.n, -1); d[s] = 0; std::vector<int> q(1, s); int far = 0; for (size_t i = 0; i < q.size(); ++i) for (int j : a[q[i]]) if (d[j] < 0) { d[j] = d[q[i]] + 1; far = d[j]; q.push_back(j); }
    PhaseResult r = runPhase(cfg(c), [&]() {
        Quiet qq; Mute m; PNGraph dg; PUNGraph ug; { Paused pp; if (und) ug = fill<PUNGraph>(g); else dg = fill<PNGraph>(g); } TIntV v; begin(t); int e = und ? TSnap::GetShortestDistancesMP2(ug, g.ids[s], true, und, v) : TSnap::GetShortestDistancesMP2(dg, g.ids[s], true, false, v); Paused pp;
        int mx = *std::max_element(g.ids.begin(), g.ids.end()); if (v.Len() < mx + 1) fail("S18/distances", what + ": " + std::to_string(v.Len()) + " values for identifiers up to " + std::to_string(mx));
        std::map<int, int> want; for (int i = 0; i < g.n; ++i) want[g.ids[i]] = d[i] < 0 ? 2147483646 : d[i]; for (int i = 0; i < v.Len(); ++i) { int w = want.count(i) ? want[i] : 2147483647; if (v[i].Val != w) fail("S18/distances", what + ": node " + std::to_string(i) + " at " + std::to_string(v[i].Val) + ", the definition gives " + std::to_string(w) + "; " + text(g)); }
        if (e != far) fail("S18/distances", what + ": the largest distance is reported as " + std::to_string(e) + " and is " + std::to_string(far) + "; " + text(g));
    });
    c.expectOk(r, "S18/distances"); if (q.size() > 3) c.nontrivial();
}

// graphs made from tables
struct Rows { std::vector<std::pair<int, int>> v; bool strings; };
Rows rows(Rng &r, bool thorough) { Rows x; x.strings = r.chance(0.3); long n = r.chance(0.1) ? r.range(1, 3) : r.range(4, thorough ? 600 : 150), k = r.chance(0.2) ? r.range(1, 3) : r.range(2, n + 2); bool skew = r.chance(0.5); for (long i = 0; i < n; ++i) x.v.push_back(std::make_pair((int) (skew ? k * r.unit() * r.unit() : r.below(k)), (int) r.below(k))); return x; }
PTable table(const Rows &x, TTableContext &ctx) {
    Schema s; s.Add(TPair<TStr, TAttrType>("a", x.strings ? atStr : atInt)); s.Add(TPair<TStr, TAttrType>("b", x.strings ? atStr : atInt)); PTable t = TTable::New(s, &ctx);
    for (auto &p : x.v) { TTableRow row; if (x.strings) { row.AddStr(TStr::Fmt("n%d", p.first)); row.AddStr(TStr::Fmt("n%d", p.second)); } else { row.AddInt(p.first); row.AddInt(p.second); } t->AddRow(row); } return t;
}
std::string text(const Rows &x) { std::string s = std::to_string(x.v.size()) + " rows"; for (size_t i = 0; i < x.v.size() && i < 40; ++i) s += " " + std::to_string(x.v[i].first) + ">" + std::to_string(x.v[i].second); return s; }
void buildScenario(Ctx &c) {
    Rows x = rows(c.rng, c.thorough); Team t = team(c.rng); int kind = (int) c.rng.below(2), how = (int) c.rng.below(2); std::string what = std::string(kind ? how ? "network (second method)" : "network" : "graph") + " from a table of " + (x.strings ? "strings, " : "numbers, ") + name(t); c.note(what);
    PhaseResult r = runPhase(cfg(c), [&]() {
        Quiet q; Mute m; TTableContext ctx; PTable tb; std::map<int, int> id; { Paused pp; tb = table(x, ctx); for (auto &p : x.v) for (int v : { p.first, p.second }) id[v] = x.strings ? (int) ctx.AddStr(TStr::Fmt("n%d", v)) : v; }
        begin(t); PNGraphMP g; PNEANetMP n; if (kind) { TStrV e1, e2, e3; n = how ? TSnap::ToNetworkMP2<PNEANetMP>(tb, "a", "b", e1, e2, e3, aaFirst) : TSnap::ToNetworkMP<PNEANetMP>(tb, "a", "b", e1, e2, e3, aaFirst); } else g = TSnap::ToGraphMP<PNGraphMP>(tb, "a", "b"); Paused pp;
        std::map<int, std::vector<int>> out, in; for (auto &p : x.v) { int a = id[p.first], b = id[p.second]; out[a].push_back(b); in[b].push_back(a); out[b]; in[a]; }
        for (auto *mm : { &out, &in }) for (auto &e : *mm) { std::sort(e.second.begin(), e.second.end()); if (!kind) e.second.erase(std::unique(e.second.begin(), e.second.end()), e.second.end()); }
        auto same = [&](int node, const char *dir, std::vector<int> got, std::vector<int> want) { if (kind) std::sort(got.begin(), got.end()); if (got != want) { std::string s; for (int v : got) s += " " + std::to_string(v); s += "; wanted"; for (int v : want) s += " " + std::to_string(v); fail("S18/build", what + ": the " + dir + " list of node " + std::to_string(node) + " is" + s + "; " + text(x)); } };
        int nodes = kind ? n->GetNodes() : g->GetNodes(); if (nodes != (int) out.size()) fail("S18/build", what + ": " + std::to_string(nodes) + " nodes, the table names " + std::to_string(out.size()) + "; " + text(x));
        std::set<int> seen;
        if (kind) { int cnt = 0; std::multiset<std::pair<int, int>> es, ws; for (TNEANetMP::TEdgeI e = n->BegEI(); e < n->EndEI(); e++) { es.insert(std::make_pair(e.GetSrcNId(), e.GetDstNId())); ++cnt; } for (auto &p : x.v) ws.insert(std::make_pair(id[p.first], id[p.second])); if (es != ws || n->GetEdges() != (int) x.v.size()) fail("S18/build", what + ": the edges are not the rows; " + text(x)); for (TNEANetMP::TNodeI i = n->BegNI(); i < n->EndNI(); i++) { std::vector<int> o, p; for (int k = 0; k < i.GetOutDeg(); ++k) o.push_back(i.GetOutNId(k)); for (int k = 0; k < i.GetInDeg(); ++k) p.push_back(i.GetInNId(k)); seen.insert(i.GetId()); same(i.GetId(), "outgoing", o, out[i.GetId()]); same(i.GetId(), "incoming", p, in[i.GetId()]); } }
        else for (TNGraphMP::TNodeI i = g->BegNI(); i < g->EndNI(); i++) { std::vector<int> o, p; for (int k = 0; k < i.GetOutDeg(); ++k) o.push_back(i.GetOutNId(k)); for (int k = 0; k < i.GetInDeg(); ++k) p.push_back(i.GetInNId(k)); seen.insert(i.GetId()); same(i.GetId(), "outgoing", o, out[i.GetId()]); same(i.GetId(), "incoming", p, in[i.GetId()]); }
        if (seen.size() != out.size()) fail("S18/build", what + ": some nodes are listed twice or not at all; " + text(x));
    });
    c.expectOk(r, "S18/build"); if (x.v.size() > 5) c.nontrivial();
}

// operations of tables, with the multi-threaded versions on
struct Row { int k, a; double f; std::string s; bool operator<(const Row &o) const { return std::tie(k, a, f, s) < std::tie(o.k, o.a, o.f, o.s); } bool operator==(const Row &o) const { return k == o.k && a == o.a && f == o.f && s == o.s; } };
std::string str(const Row &r) { return "(" + std::to_string(r.k) + "," + std::to_string(r.a) + "," + std::to_string(r.f) + "," + r.s + ")"; }
std::vector<Row> someRows(Rng &r, bool thorough) { std::vector<Row> v; long n = r.chance(0.15) ? r.range(1, 12) : r.range(12, thorough ? 900 : 250); uint64_t keys = 1 + r.below(r.chance(0.5) ? 6 : (uint64_t) n + 1); for (long i = 0; i < n; ++i) v.push_back(Row{ (int) r.below(keys) - 3, (int) r.range(-100, 100), (double) r.below(keys) / 4, "s" + std::to_string(r.below(keys)) }); return v; }
PTable make(const std::vector<Row> &v, TTableContext &ctx) { Schema s; s.Add(TPair<TStr, TAttrType>("k", atInt)); s.Add(TPair<TStr, TAttrType>("a", atInt)); s.Add(TPair<TStr, TAttrType>("f", atFlt)); s.Add(TPair<TStr, TAttrType>("s", atStr)); PTable t = TTable::New(s, &ctx); for (auto &x : v) { TTableRow row; row.AddInt(x.k); row.AddInt(x.a); row.AddFlt(x.f); row.AddStr(TStr(x.s.c_str())); t->AddRow(row); } return t; }
std::vector<Row> readAll(PTable &t, size_t bound) { std::vector<Row> v; for (TRowIterator i = t->BegRI(); i < t->EndRI(); i++) { v.push_back(Row{ i.GetIntAttr("k").Val, i.GetIntAttr("a").Val, i.GetFltAttr("f").Val, snap::str(i.GetStrAttr("s")) }); if (v.size() > bound) fail("S18/table", "the rows of a table do not end"); } return v; }
std::string firstDiff(const std::vector<Row> &got, const std::vector<Row> &want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; return std::to_string(got.size()) + " rows, wanted " + std::to_string(want.size()) + "; first difference " + (i < got.size() ? str(got[i]) : std::string("end")) + " instead of " + (i < want.size() ? str(want[i]) : std::string("end")); }
template <class T> bool cmp(const T &a, const T &b, int op) { return op == LT ? a < b : op == LTE ? a <= b : op == EQ ? a == b : op == NEQ ? a != b : op == GTE ? a >= b : a > b; }
struct Sel { int col, op; Row r; bool holds(const Row &x) const { return col == 0 ? cmp(x.k, r.k, op) : col == 1 ? cmp(x.f, r.f, op) : cmp(x.s, r.s, op); } std::string text() const { static const char *ops[] = { "<", "<=", "=", "!=", ">=", ">" }; return std::string(col == 0 ? "k" : col == 1 ? "f" : "s") + ops[op] + (col == 0 ? std::to_string(r.k) : col == 1 ? std::to_string(r.f) : r.s); }
    void run(PTable &t, PTable *to) const { TPredComp c = (TPredComp) op; if (col == 0) { TInt v(r.k); if (to) t->SelectAtomicConst("k", v, c, *to); else t->SelectAtomicConst("k", v, c); } else if (col == 1) { TFlt v(r.f); if (to) t->SelectAtomicConst("f", v, c, *to); else t->SelectAtomicConst("f", v, c); } else { TStr v(r.s.c_str()); if (to) t->SelectAtomicConst("s", v, c, *to); else t->SelectAtomicConst("s", v, c); } } };
Sel sel(Rng &r, const std::vector<Row> &v) { Sel s; s.col = (int) r.below(3); s.op = (int) r.below(6); s.r = v[r.below(v.size())]; return s; }
void tableScenario(Ctx &c) {
    Rng &r = c.rng; Team t = team(r); std::vector<Row> rows = someRows(r, c.thorough), other = someRows(r, false); int op = (int) r.below(6); bool dirty = r.chance(0.5); Sel first = sel(r, rows); std::vector<Row> model;
    for (auto &x : rows) if (!dirty || first.holds(x)) model.push_back(x); if (model.empty()) { dirty = false; model = rows; }
    static const char *names[] = { "selection in place", "selection into a table", "ordering", "aggregation", "arithmetic", "join" }; std::string what = std::string(names[op]) + (dirty ? " after selecting " + first.text() : "") + ", " + std::to_string(rows.size()) + " rows, " + name(t); Sel se = sel(r, rows); int x1 = (int) r.below(5), x2 = (int) r.below(5); bool asc = r.chance(0.5), rank = r.chance(0.5);
    if (op < 2) what += ": " + se.text(); c.note(what); size_t result = 1;
    PhaseResult res = runPhase(cfg(c), [&]() {
        Quiet q; Mute m; TTableContext ctx; PTable tb; { Paused pp; tb = make(rows, ctx); } TTable::SetMP(1); begin(t); if (dirty) first.run(tb, NULL);
        const std::string key = "S18/table"; size_t bound = rows.size() * (other.size() + 1);
        if (dirty) { Paused pp; std::vector<Row> got = readAll(tb, bound); if (!(got == model)) fail(key, what + ": after the first selection " + firstDiff(got, model)); }
        if (op == 0) { std::vector<Row> want; for (auto &x : model) if (se.holds(x)) want.push_back(x); se.run(tb, NULL); Paused pp; if (tb->GetNumValidRows() != (int) want.size()) fail(key, what + ": " + std::to_string(tb->GetNumValidRows()) + " rows counted, " + std::to_string(want.size()) + " wanted"); if (want.empty()) return; std::vector<Row> got = readAll(tb, bound); if (!(got == want)) fail(key, what + ": " + firstDiff(got, want)); }
        else if (op == 1) { std::vector<Row> want; for (auto &x : model) if (se.holds(x)) want.push_back(x); PTable to = TTable::New(tb->GetSchema(), &ctx); se.run(tb, &to); Paused pp; if (to->GetNumValidRows() != (int) want.size()) fail(key, what + ": " + std::to_string(to->GetNumValidRows()) + " rows counted, " + std::to_string(want.size()) + " wanted"); if (want.empty()) return; std::vector<Row> got = readAll(to, bound); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (!(got == want)) fail(key, what + ": " + firstDiff(got, want)); if (!(readAll(tb, bound) == model)) fail(key, what + " changed the table it selects from"); }
        else if (op == 2) {
            TStrV by; std::vector<int> cols(1, x1 % 3); if (x2 % 3 != x1 % 3) cols.push_back(x2 % 3); for (int k : cols) by.Add(k == 0 ? "k" : k == 1 ? "f" : "s"); tb->Order(by, rank ? "rank" : "", false, asc); Paused pp; std::vector<Row> got = readAll(tb, bound), want = model, sorted = got; std::sort(sorted.begin(), sorted.end()); std::sort(want.begin(), want.end()); if (!(sorted == want)) fail(key, what + ": " + firstDiff(sorted, want));
            for (size_t i = 1; i < got.size(); ++i) { int d = 0; for (int k : cols) if (!d) { Row &a = got[i - 1], &b = got[i]; d = k == 0 ? (a.k < b.k ? -1 : a.k > b.k) : k == 1 ? (a.f < b.f ? -1 : a.f > b.f) : (a.s < b.s ? -1 : a.s > b.s); } if (asc ? d > 0 : d < 0) fail(key, what + ": " + str(got[i - 1]) + " comes before " + str(got[i])); }
            if (rank) { int n = 0; for (TRowIterator i = tb->BegRI(); i < tb->EndRI(); i++, ++n) if (i.GetIntAttr("rank").Val != n) fail(key, what + ": row " + std::to_string(n) + " has rank " + std::to_string(i.GetIntAttr("rank").Val)); }
        } else if (op == 3) {
            TStrV by; int g = x1 % 3; by.Add(g == 0 ? "k" : g == 1 ? "f" : "s"); bool flt = rank; static const TAttrAggr aggs[] = { aaMin, aaMax, aaSum, aaCount, aaMean }; TAttrAggr ag = aggs[x2]; tb->Aggregate(by, ag, flt ? "f" : "a", "res"); Paused pp;
            std::map<std::string, std::vector<double>> groups; auto id = [&](const Row &x) { return g == 0 ? std::to_string(x.k) : g == 1 ? std::to_string(x.f) : x.s; }; for (auto &x : model) groups[id(x)].push_back(flt ? x.f : x.a); size_t n = 0; if (tb->GetNumValidRows() != (int) model.size()) fail(key, what + ": the number of rows changed");
            for (TRowIterator i = tb->BegRI(); i < tb->EndRI(); i++, ++n) { Row x{ i.GetIntAttr("k").Val, i.GetIntAttr("a").Val, i.GetFltAttr("f").Val, snap::str(i.GetStrAttr("s")) }; if (n >= model.size() || !(x == model[n])) fail(key, what + ": rows changed at " + str(x)); std::vector<double> &v = groups[id(x)]; double want = ag == aaMin ? *std::min_element(v.begin(), v.end()) : ag == aaMax ? *std::max_element(v.begin(), v.end()) : ag == aaCount ? (double) v.size() : 0; if (ag == aaSum || ag == aaMean) { for (double y : v) want += y; if (ag == aaMean) { if (flt) want /= v.size(); else want = (double) ((int) want / (int) v.size()); } }
                double got = ag == aaCount || !flt ? i.GetIntAttr("res").Val : i.GetFltAttr("res").Val; if (!close(want, got)) fail(key, what + " by " + by[0].CStr() + ", function " + std::to_string((int) ag) + " of " + (flt ? "f" : "a") + ": " + str(x) + " has " + std::to_string(got) + ", wanted " + std::to_string(want)); }
        } else if (op == 4) {
            const char *c1 = x1 % 2 ? "a" : "f", *c2 = x2 % 2 ? "k" : "f"; bool ints = x1 % 2 && x2 % 2, number = asc; int fn = (x1 + x2) % 3; if (number) { if (fn == 0) tb->ColAdd(c1, TFlt(3), "res"); else if (fn == 1) tb->ColSub(c1, TFlt(3), "res"); else tb->ColMul(c1, TFlt(3), "res"); ints = x1 % 2; } else { if (fn == 0) tb->ColAdd(c1, c2, "res"); else if (fn == 1) tb->ColMin(c1, c2, "res"); else tb->ColMul(c1, c2, "res"); } Paused pp; size_t n = 0;
            for (TRowIterator i = tb->BegRI(); i < tb->EndRI(); i++, ++n) { Row x{ i.GetIntAttr("k").Val, i.GetIntAttr("a").Val, i.GetFltAttr("f").Val, snap::str(i.GetStrAttr("s")) }; if (n >= model.size() || !(x == model[n])) fail(key, what + ": rows changed at " + str(x)); double a = x1 % 2 ? x.a : x.f, b = number ? 3 : x2 % 2 ? x.k : x.f, want = fn == 0 ? a + b : fn == 2 ? a * b : number ? a - b : std::min(a, b), got = ints ? i.GetIntAttr("res").Val : i.GetFltAttr("res").Val; if (!close(want, got)) fail(key, what + ": " + str(x) + " gives " + std::to_string(got) + ", wanted " + std::to_string(want)); }
            if (n != model.size()) fail(key, what + ": the number of rows changed");
        } else {
            PTable o; { Paused pp; o = make(other, ctx); } const char *col = x1 % 3 == 0 ? "k" : x1 % 3 == 1 ? "f" : "s"; std::vector<std::pair<Row, Row>> want, got; for (auto &x : model) for (auto &y : other) if (x1 % 3 == 0 ? x.k == y.k : x1 % 3 == 1 ? x.f == y.f : x.s == y.s) want.push_back(std::make_pair(x, y)); PTable j;
            try { j = tb->Join(col, *o, col); } catch (PExcept e) { if (want.empty()) return; fail(key, what + ": refused: " + snap::str(e->GetMsgStr())); } if (want.empty()) return; Paused pp;
            for (TRowIterator i = j->BegRI(); i < j->EndRI(); i++) { got.push_back(std::make_pair(Row{ i.GetIntAttr(TInt(0)).Val, i.GetIntAttr(TInt(1)).Val, i.GetFltAttr(TInt(0)).Val, snap::str(i.GetStrAttr(TInt(0))) }, Row{ i.GetIntAttr(TInt(2)).Val, i.GetIntAttr(TInt(3)).Val, i.GetFltAttr(TInt(1)).Val, snap::str(i.GetStrAttr(TInt(1))) })); if (got.size() > want.size()) break; }
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (!(got == want) || j->GetNumValidRows() != (int) want.size()) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; fail(key, what + " on " + col + ": " + std::to_string(got.size()) + " rows (" + std::to_string(j->GetNumValidRows()) + " counted), wanted " + std::to_string(want.size()) + "; first difference " + (i < got.size() ? str(got[i].first) + str(got[i].second) : std::string("end")) + " instead of " + (i < want.size() ? str(want[i].first) + str(want[i].second) : std::string("end"))); }
        }
    });
    c.expectOk(res, "S18/table"); (void) result; if (rows.size() > 12) c.nontrivial();
}
void edgeTableScenario(Ctx &c) {
    G g = graph(c.rng, c.thorough, true); if (g.e.empty()) g.e.push_back(std::make_pair(0, g.n - 1)); Team t = team(c.rng); std::string what = "table of the edges of a parallel graph, " + std::to_string(g.e.size()) + " edges, " + name(t); c.note(what);
    PhaseResult res = runPhase(cfg(c), [&]() {
        Quiet q; Mute m; TTableContext ctx; PNGraphMP p; { Paused pp; p = fillMP(g); } begin(t); PTable tb = TTable::GetEdgeTablePN(p, &ctx); Paused pp; std::multiset<std::pair<int, int>> want, got; for (auto &x : g.e) want.insert(std::make_pair(g.ids[x.first], g.ids[x.second]));
        for (TRowIterator i = tb->BegRI(); i < tb->EndRI(); i++) { got.insert(std::make_pair(i.GetIntAttr("src_id").Val, i.GetIntAttr("dst_id").Val)); if (got.size() > want.size()) break; } if (got != want || tb->GetNumValidRows() != (int) want.size()) fail("S18/edge-table", what + ": " + std::to_string(got.size()) + " rows (" + std::to_string(tb->GetNumValidRows()) + " counted), wanted " + std::to_string(want.size()) + "; " + text(g));
    });
    c.expectOk(res, "S18/edge-table"); if (g.e.size() > 5) c.nontrivial();
}
SCENARIO("S18", "rank", rankScenario, 2);
SCENARIO("S18", "hits", hitsScenario, 1);
SCENARIO("S18", "triangles", triangleScenario, 2);
SCENARIO("S18", "distances", distScenario, 2);
SCENARIO("S18", "build", buildScenario, 3);
SCENARIO("S18", "tables", tableScenario, 4);
SCENARIO("S18", "edgetable", edgeTableScenario, 1);
}
