// Random SNAP graphs and containers with a semantic digest each.
#pragma once
#include "simrt.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace snap {
typedef sim::Rng Rng;
inline bool stopHandler(char *msg) { TExcept::Throw(TStr(msg)); return true; }
struct Quiet { Quiet() { TOnExeStop::PutOnExeStopF(stopHandler); } };
inline std::string str(const TStr &s) { return std::string(s.CStr(), s.Len()); }
inline TStr rstr(Rng &r) { std::string s; int n = r.chance(0.1) ? 0 : r.chance(0.05) ? (int) r.range(100, 5000) : (int) r.range(1, 12); for (int i = 0; i < n; ++i) s += r.chance(0.1) ? (char) r.range(1, 255) : (char) ('a' + r.below(26)); return TStr(s.c_str()); }
struct Out { std::string s; Out &operator<<(const std::string &x) { s += x; s += ' '; return *this; } Out &operator<<(const char *x) { s += x; s += ' '; return *this; } Out &operator<<(int x) { s += std::to_string(x); s += ' '; return *this; }
    Out &operator<<(double x) { char b[40]; snprintf(b, 40, "%a ", x); s += b; return *this; } };

// an object: made from a seed, changed by further random operations, saved and loaded
struct Obj {
    virtual ~Obj() {} virtual void make(Rng &r, int size) = 0; virtual void change(Rng &r, int ops) = 0; virtual std::string digest() = 0; virtual void save(TSOut &o) = 0; virtual void load(TSIn &i) = 0;
};
template <class P> void listBasic(P &g, Out &o) { // nodes and neighbours in stored order
    o << "nodes" << (int) g->GetNodes() << "edges" << (int) g->GetEdges() << "\n";
    for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) { o << n.GetId() << ":"; for (int i = 0; i < n.GetOutDeg(); ++i) o << n.GetOutNId(i); o << "|"; for (int i = 0; i < n.GetInDeg(); ++i) o << n.GetInNId(i); o << "\n"; }
}
template <class P> int anyNode(P &g, Rng &r) { if (g->GetNodes() == 0) return -1; std::vector<int> v; for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) { v.push_back(n.GetId()); if (v.size() > 4000) break; } return v[r.below(v.size())]; }
template <class P> int freshNode(P &g, Rng &r) { for (int k = 0; k < 5; ++k) { int id = r.chance(0.05) ? (int) r.range(0, 1000000) : (int) r.range(0, 3 * g->GetNodes() + 5); if (!g->IsNode(id)) return id; } return -1; }
struct TSimple { template <class P> static int addNode(P &g, int id, Rng &) { return g->AddNode(id); } template <class P> static void addEdge(P &g, int a, int b, Rng &) { g->AddEdge(a, b); } template <class P> static void extra(P &, Rng &, int) {} template <class P> static void list(P &g, Out &o) { listBasic(g, o); } };

template <class P, class A> struct GraphObj : Obj {
    P g;
    void make(Rng &r, int size) { g = P::TObj::New(); A::extra(g, r, 0); change(r, size); }
    void change(Rng &r, int ops) {
        std::vector<int> ids; for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) ids.push_back(n.GetId());
        double del = r.chance(0.5) ? 0 : 0.15;
        for (int k = 0; k < ops; ++k) {
            double x = r.unit();
            if (ids.empty() || x < 0.35) { int id = r.chance(0.5) ? -1 : freshNode(g, r); ids.push_back(A::addNode(g, id, r)); }
            else if (x < 1 - del) { int a = ids[r.below(ids.size())], b = ids[r.below(ids.size())]; A::addEdge(g, a, b, r); if (r.chance(0.3)) A::extra(g, r, 1); }
            else if (r.chance(0.5)) { size_t i = r.below(ids.size()); g->DelNode(ids[i]); ids[i] = ids.back(); ids.pop_back(); }
            else { int a = ids[r.below(ids.size())]; typename P::TObj::TNodeI n = g->GetNI(a); if (n.GetOutDeg()) { int b = n.GetOutNId(r.below(n.GetOutDeg())); g->DelEdge(a, b); } }
        }
    }
    std::string digest() { Out o; A::list(g, o); return o.s; }
    void save(TSOut &o) { g->Save(o); }
    void load(TSIn &i) { g = P::TObj::Load(i); }
};
struct ABip : TSimple {
    template <class P> static int addNode(P &g, int id, Rng &r) { return g->AddNode(id, r.chance(0.5)); }
    template <class P> static void addEdge(P &g, int a, int b, Rng &) { bool la = g->IsLNode(a), lb = g->IsLNode(b); if (la && !lb) g->AddEdge(a, b); else if (lb && !la) g->AddEdge(b, a); }
    template <class P> static void list(P &g, Out &o) { o << g->GetLNodes() << g->GetRNodes(); std::vector<int> ids; for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) ids.push_back(n.GetId()); for (int id : ids) { typename P::TObj::TNodeI n = g->GetNI(id); o << id << (g->IsLNode(id) ? "L" : "R"); for (int i = 0; i < n.GetOutDeg(); ++i) o << n.GetOutNId(i); o << "|"; for (int i = 0; i < n.GetInDeg(); ++i) o << n.GetInNId(i); o << "\n"; } }
};
template <class P> void listEdges(P &g, Out &o) { o << "E"; for (typename P::TObj::TEdgeI e = g->BegEI(); e < g->EndEI(); e++) o << e.GetId() << e.GetSrcNId() << e.GetDstNId() << ","; }
struct AEId : TSimple { template <class P> static void list(P &g, Out &o) { listBasic(g, o); listEdges(g, o); } };
struct ANodeStr : TSimple {
    template <class P> static int addNode(P &g, int id, Rng &r) { return g->AddNode(id, rstr(r)); }
    template <class P> static void list(P &g, Out &o) { listBasic(g, o); for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) o << str(n.GetDat()); }
};
struct ATime : TSimple {
    template <class P> static int addNode(P &g, int id, Rng &r) { return g->AddNode(id, TSecTm((int) r.range(0, 2000000000))); }
    template <class P> static void list(P &g, Out &o) { listBasic(g, o); for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) o << (int) n.GetDat().GetAbsSecs(); }
};
struct AEDat : TSimple {
    template <class P> static int addNode(P &g, int id, Rng &r) { return g->AddNode(id, TInt((int) r.next())); }
    template <class P> static void addEdge(P &g, int a, int b, Rng &r) { g->AddEdge(a, b, TFlt(r.unit() * 1e6)); }
    template <class P> static void list(P &g, Out &o) { listBasic(g, o); for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) { o << (int) n.GetDat(); for (int i = 0; i < n.GetOutDeg(); ++i) o << (double) n.GetOutEDat(i); } }
};
struct AEdgeNet : TSimple {
    template <class P> static int addNode(P &g, int id, Rng &r) { return g->AddNode(id, rstr(r)); }
    template <class P> static void addEdge(P &g, int a, int b, Rng &r) { g->AddEdge(a, b, -1, TInt((int) r.next())); }
    template <class P> static void list(P &g, Out &o) { listBasic(g, o); listEdges(g, o); for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) o << str(n.GetDat()); for (typename P::TObj::TEdgeI e = g->BegEI(); e < g->EndEI(); e++) o << (int) e.GetDat(); }
};
// sparse attributes of the directed and undirected networks
struct ASparse : TSimple {
    template <class P> static void extra(P &g, Rng &r, int when) {
        if (when == 0) { TInt id; g->AddSAttrN("i", atInt, id); g->AddSAttrN("s", atStr, id); g->AddSAttrN("f", atFlt, id); return; }
        int n = anyNode(g, r); if (n < 0) return; int k = (int) r.below(3);
        if (k == 0) g->AddSAttrDatN(TInt(n), TStr("i"), TInt((int) r.next())); else if (k == 1) g->AddSAttrDatN(TInt(n), TStr("s"), rstr(r)); else g->AddSAttrDatN(TInt(n), TStr("f"), TFlt(r.unit()));
    }
    template <class P> static void list(P &g, Out &o) { listBasic(g, o); attrs(g, o); }
    template <class P> static void attrs(P &g, Out &o) { for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) { TInt i; TStr s; TFlt f; TInt id(n.GetId()); if (g->GetSAttrDatN(id, TStr("i"), i) == 0) o << "i" << i.Val; if (g->GetSAttrDatN(id, TStr("s"), s) == 0) o << "s" << str(s); if (g->GetSAttrDatN(id, TStr("f"), f) == 0) o << "f" << f.Val; o << ";"; } }
};
struct AAttr : TSimple {
    template <class P> static void declare(P &g) { g->AddIntAttrN("in", 7); g->AddStrAttrN("sn", "dflt"); g->AddFltAttrN("fn", 0.25); g->AddIntAttrE("ie", -3); g->AddStrAttrE("se"); g->AddFltAttrE("fe", 1.5); }
    template <class P> static void dense(P &g, Rng &r) {
        int n = anyNode(g, r); if (n < 0) return; int k = (int) r.below(6);
        if (k == 0) g->AddIntAttrDatN(n, (int) r.next(), "in"); else if (k == 1) g->AddStrAttrDatN(n, rstr(r), "sn"); else if (k == 2) g->AddFltAttrDatN(n, r.unit(), "fn");
        else { typename P::TObj::TNodeI ni = g->GetNI(n); if (!ni.GetOutDeg()) return; int e = g->GetEId(n, ni.GetOutNId(r.below(ni.GetOutDeg()))); if (e < 0) return; if (k == 3) g->AddIntAttrDatE(e, (int) r.next(), "ie"); else if (k == 4) g->AddStrAttrDatE(e, rstr(r), "se"); else g->AddFltAttrDatE(e, r.unit(), "fe"); }
    }
    template <class P> static void listDense(P &g, Out &o) {
        for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) o << g->GetIntAttrDatN(n, "in").Val << str(g->GetStrAttrDatN(n, "sn")) << g->GetFltAttrDatN(n, "fn").Val;
        for (typename P::TObj::TEdgeI e = g->BegEI(); e < g->EndEI(); e++) o << g->GetIntAttrDatE(e, "ie").Val << str(g->GetStrAttrDatE(e, "se")) << g->GetFltAttrDatE(e, "fe").Val;
    }
    template <class P> static void extra(P &g, Rng &r, int when) {
        if (when == 0) { declare(g); g->AddIntVAttrN("vn"); ASparse::extra(g, r, 0); return; }
        if (r.chance(0.5)) { dense(g, r); return; } int n = anyNode(g, r); if (n < 0) return;
        if (r.chance(0.5)) { TIntV v; for (int i = (int) r.below(6); i > 0; --i) v.Add((int) r.next()); g->AddIntVAttrDatN(n, v, "vn"); } else ASparse::extra(g, r, 1);
    }
    template <class P> static void list(P &g, Out &o) { listBasic(g, o); listEdges(g, o); listDense(g, o); for (typename P::TObj::TNodeI n = g->BegNI(); n < g->EndNI(); n++) { TIntV v = g->GetIntVAttrDatN(n, "vn"); o << "["; for (int i = 0; i < v.Len(); ++i) o << v[i].Val; } ASparse::attrs(g, o); }
};
struct MPObj : Obj { // the parallel graph: nodes with complete edge lists
    PNGraphMP g;
    void make(Rng &r, int size) { int n = 1 + size / 3; g = TNGraphMP::New(n, 3 * n); g->SetNodes(0); std::vector<std::vector<int>> in(n), out(n); for (int k = 0; k < size; ++k) { int a = (int) r.below(n), b = (int) r.below(n); out[a].push_back(b); in[b].push_back(a); }
        int nodes = 0; for (int i = 0; i < n; ++i) { TIntV a, b; std::sort(in[i].begin(), in[i].end()); std::sort(out[i].begin(), out[i].end()); for (int x : in[i]) a.Add(x); for (int x : out[i]) b.Add(x); g->AddNodeWithEdges(i, a, b); ++nodes; } g->SetNodes(nodes); }
    void change(Rng &, int) {}
    std::string digest() { Out o; o << "nodes" << g->GetNodes(); for (TNGraphMP::TNodeI n = g->BegNI(); n < g->EndNI(); n++) { o << n.GetId() << ":"; for (int i = 0; i < n.GetOutDeg(); ++i) o << n.GetOutNId(i); o << "|"; for (int i = 0; i < n.GetInDeg(); ++i) o << n.GetInNId(i); } return o.s; }
    void save(TSOut &o) { g->Save(o); } void load(TSIn &i) { g = TNGraphMP::Load(i); }
};
struct MMObj : Obj {
    PMMNet g; static TStr mn(int i) { return TStr::Fmt("mode%d", i); } static TStr cn(int i) { return TStr::Fmt("cross%d", i); }
    void make(Rng &r, int size) {
        g = TMMNet::New(); int m = (int) r.range(1, 4), c = (int) r.range(0, 5); for (int i = 0; i < m; ++i) g->AddModeNet(mn(i)); for (int i = 0; i < c; ++i) g->AddCrossNet(mn(r.below(m)), mn(r.below(m)), cn(i), r.chance(0.5)); change(r, size);
    }
    void change(Rng &r, int ops) {
        for (int k = 0; k < ops; ++k) {
            if (r.chance(0.4) || g->GetCrossNets() == 0) { TModeNet &t = g->GetModeNetByName(mn(r.below(g->GetModeNets()))); t.AddNode(-1); }
            else { std::vector<int> ids; for (TMMNet::TCrossNetI i = g->BegCrossNetI(); i < g->EndCrossNetI(); i++) ids.push_back(i.GetCrossId()); TCrossNet &t = g->GetCrossNetById(ids[r.below(ids.size())]); TModeNet &a = g->GetModeNetById(t.GetMode1()), &b = g->GetModeNetById(t.GetMode2()); if (a.GetNodes() && b.GetNodes()) t.AddEdge((int) r.below(a.GetNodes()), (int) r.below(b.GetNodes())); }
        }
    }
    std::string digest() {
        Out o; for (TMMNet::TModeNetI i = g->BegModeNetI(); i < g->EndModeNetI(); i++) { TModeNet &t = i.GetModeNet(); o << i.GetModeId() << str(g->GetModeName(i.GetModeId())) << t.GetNodes(); for (TModeNet::TNodeI n = t.BegMMNI(); n < t.EndMMNI(); n++) { TStrV names; n.GetCrossNetNames(names); o << n.GetId() << "("; for (int k = 0; k < names.Len(); ++k) { if (!g->GetCrossNetByName(names[k]).GetEdges()) continue; /* not defined before the first edge */ TIntV nb; n.GetNeighborsByCrossNet(names[k], nb); nb.Sort(); o << str(names[k]); for (int j = 0; j < nb.Len(); ++j) o << nb[j].Val; } o << ")"; } }
        for (TMMNet::TCrossNetI i = g->BegCrossNetI(); i < g->EndCrossNetI(); i++) { TCrossNet &t = i.GetCrossNet(); o << i.GetCrossId() << t.GetMode1() << t.GetMode2() << (int) t.IsDirected() << t.GetEdges(); for (TCrossNet::TCrossEdgeI e = t.BegEdgeI(); e < t.EndEdgeI(); e++) o << e.GetId() << e.GetSrcNId() << e.GetDstNId(); }
        return o.s;
    }
    void save(TSOut &o) { g->Save(o); } void load(TSIn &i) { g = TMMNet::Load(i); }
};
struct TableObj : Obj {
    std::shared_ptr<TTableContext> ctx; PTable t;
    void make(Rng &r, int size) {
        ctx.reset(new TTableContext()); Schema s; s.Add(TPair<TStr, TAttrType>("a", atInt)); s.Add(TPair<TStr, TAttrType>("b", atStr)); s.Add(TPair<TStr, TAttrType>("c", atFlt)); t = TTable::New(s, ctx.get()); change(r, size + 1);
    }
    void change(Rng &r, int ops) { for (int k = 0; k < ops; ++k) { TTableRow row; row.AddInt((int) r.range(-50, 50)); row.AddStr(rstr(r)); row.AddFlt(r.unit()); t->AddRow(row); } }
    std::string digest() { Out o; o << t->GetNumRows().Val << t->GetNumValidRows().Val; for (TRowIterator i = t->BegRI(); i < t->EndRI(); i++) o << i.GetIntAttr(TStr("a")).Val << str(i.GetStrAttr(TStr("b"))) << i.GetFltAttr(TStr("c")).Val; return o.s; }
    void save(TSOut &o) { ctx->Save(o); t->Save(o); } void load(TSIn &i) { ctx.reset(new TTableContext(i)); t = TTable::Load(i, ctx.get()); }
};
struct BoxObj : Obj { // containers
    THash<TStr, TInt> h; TStrHash<TInt> sh; THashSet<TInt> hs; TVec<TFlt> fv; TStrV sv; TVec<TPair<TInt, TStr>> pv; TQQueue<TInt> q; THash<TInt, TIntV> hv; typedef TPt<TVecPool<TInt> > PVecPoolT; TVecPool<TInt> pool; TVVec<TInt> vv; TChA ch; TStr one; TBool b; TUInt64 u; TFlt f; TCh c;
    void make(Rng &r, int size) { f = r.unit() * 1e300; u = r.next(); b = r.chance(0.5); c = (char) r.range(1, 255); one = rstr(r); ch = rstr(r); vv.Gen(1 + (int) r.below(5), 1 + (int) r.below(5)); for (int i = 0; i < vv.GetXDim(); ++i) for (int j = 0; j < vv.GetYDim(); ++j) vv(i, j) = (int) r.next(); change(r, size); }
    void change(Rng &r, int ops) {
        for (int k = 0; k < ops; ++k) switch (r.below(9)) {
            case 0: h.AddDat(rstr(r), (int) r.next()); break;
            case 1: if (h.Len()) { TStr key; int id = h.FFirstKeyId(), n = (int) r.below(h.Len()) + 1; while (n-- && h.FNextKeyId(id)) key = h.GetKey(id); h.DelKey(key); } break;
            case 2: sh.AddDat(rstr(r).CStr(), (int) r.next()); break;
            case 3: hs.AddKey((int) r.range(0, 50)); break;
            case 4: fv.Add(r.unit()); sv.Add(rstr(r)); break;
            case 5: pv.Add(TPair<TInt, TStr>((int) r.next(), rstr(r))); break;
            case 6: q.Push((int) r.next()); if (r.chance(0.3) && !q.Empty()) q.Pop(); break;
            case 7: hv.AddDat((int) r.below(20)).Add((int) r.next()); break;
            case 8: { TIntV v; for (int i = 1 + (int) r.below(7); i > 0; --i) v.Add((int) r.next()); pool.AddV(v); } break;
        }
    }
    std::string digest() {
        Out o; for (int id = h.FFirstKeyId(); h.FNextKeyId(id);) o << str(h.GetKey(id)) << h[id].Val << h.GetKeyId(h.GetKey(id)); for (int id = sh.FFirstKeyId(); sh.FNextKeyId(id);) o << sh.GetKey(id) << sh[id].Val << sh.GetKeyId(sh.GetKey(id)); for (int id = hs.FFirstKeyId(); hs.FNextKeyId(id);) o << hs.GetKey(id).Val << (int) hs.IsKey(hs.GetKey(id));
        for (int i = 0; i < fv.Len(); ++i) o << fv[i].Val; for (int i = 0; i < sv.Len(); ++i) o << str(sv[i]); for (int i = 0; i < pv.Len(); ++i) o << pv[i].Val1.Val << str(pv[i].Val2); o << q.Len(); for (int i = 0; i < q.Len(); ++i) o << q[i].Val;
        for (int id = hv.FFirstKeyId(); hv.FNextKeyId(id);) { o << hv.GetKey(id).Val; for (int i = 0; i < hv[id].Len(); ++i) o << hv[id][i].Val; } o << (int) pool.GetVecs(); for (int i = 1; i < pool.GetVecs(); ++i) { TIntV v; pool.GetV(i, v); for (int j = 0; j < v.Len(); ++j) o << v[j].Val; o << ","; }
        for (int i = 0; i < vv.GetXDim(); ++i) for (int j = 0; j < vv.GetYDim(); ++j) o << vv(i, j).Val; o << std::string(ch.CStr()) << str(one) << (int) b.Val << (double) u.Val << f.Val << (int) c.Val; return o.s;
    }
    void save(TSOut &o) { h.Save(o); sh.Save(o); hs.Save(o); fv.Save(o); sv.Save(o); pv.Save(o); q.Save(o); hv.Save(o); pool.Save(o); vv.Save(o); ch.Save(o); one.Save(o); b.Save(o); u.Save(o); f.Save(o); c.Save(o); }
    void load(TSIn &i) { h = THash<TStr, TInt>(i); sh = TStrHash<TInt>(i); hs.Load(i); fv.Load(i); sv.Load(i); pv.Load(i); q = TQQueue<TInt>(i); hv.Load(i); { PVecPoolT pp = TVecPool<TInt>::Load(i); pool = *pp; } vv.Load(i); ch = TChA(i); one = TStr(i); b = TBool(i); u = TUInt64(i); f = TFlt(i); c = TCh(i); }
};
struct Kind { const char *name; Obj *(*fn)(); };
template <class T> Obj *mk() { return new T(); }
static const Kind kinds[] = {
    { "undirected graph", mk<GraphObj<PUNGraph, TSimple>> }, { "directed graph", mk<GraphObj<PNGraph, TSimple>> }, { "multigraph", mk<GraphObj<PNEGraph, AEId>> }, { "bipartite graph", mk<GraphObj<PBPGraph, ABip>> },
    { "network with text nodes", mk<GraphObj<TPt<TNodeNet<TStr>>, ANodeStr>> }, { "network with edge data", mk<GraphObj<TPt<TNodeEDatNet<TInt, TFlt>>, AEDat>> }, { "multigraph network", mk<GraphObj<TPt<TNodeEdgeNet<TStr, TInt>>, AEdgeNet>> },
    { "attributed multigraph", mk<GraphObj<PNEANet, AAttr>> }, { "attributed directed network", mk<GraphObj<PDirNet, ASparse>> }, { "attributed undirected network", mk<GraphObj<PUndirNet, ASparse>> },
    { "time network", mk<GraphObj<PTimeNet, ATime>> }, { "parallel graph", mk<MPObj> }, { "multimodal network", mk<MMObj> }, { "table", mk<TableObj> }, { "containers", mk<BoxObj> } };
enum { NKINDS = sizeof kinds / sizeof kinds[0] };
}
