// S19: graphs and containers saved and loaded: contents around the buffer size, several objects in a stream, truncated files,
// failing and interrupted writes, failing reads, text edge lists.
#include "snaputil.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
using namespace snap;

namespace {
const long BUF = 16 * 1024;
struct Item { int kind; uint64_t seed; int size; };
struct Plan { std::vector<Item> v; long pad; long total; };
typedef std::vector<std::unique_ptr<Obj>> Objs;
std::string text(const Plan &p) { std::string s; for (auto &i : p.v) s += std::string(s.empty() ? "" : ", ") + kinds[i.kind].name + " of size " + std::to_string(i.size); return s + "; " + std::to_string(p.total) + " bytes"; }
PhaseCfg calm() { PhaseCfg p; p.maxSteps = 2000000000ull; p.guardMaps = true; return p; }
Plan draw(Rng &r, bool thorough) {
    Plan p; int n = r.chance(0.6) ? 1 : (int) r.range(2, 4); p.pad = 0; p.total = 0;
    for (int i = 0; i < n; ++i) { Item t; t.kind = (int) r.below(NKINDS); t.seed = r.next(); double x = r.unit(); t.size = (int) (x < 0.1 ? r.range(0, 3) : x < 0.7 ? r.range(1, 60) : x < 0.95 ? r.range(60, 400) : r.range(400, thorough ? 5000 : 1500)); p.v.push_back(t); }
    return p;
}
void build(const Plan &p, Objs &o) { for (auto &i : p.v) { o.push_back(std::unique_ptr<Obj>(kinds[i.kind].fn())); Rng r(i.seed); o.back()->make(r, i.size); } }
std::string digest(Objs &o) { std::string s; for (auto &x : o) s += x->digest() + "\n--\n"; return s; }
void change(const Plan &p, Objs &o) { for (size_t i = 0; i < o.size(); ++i) { Rng r(p.v[i].seed + 1); o[i]->change(r, 10 + p.v[i].size / 3); } }
void saveItems(Objs &o, size_t a, size_t b, TSOut &s) { for (size_t i = a; i < b; ++i) { o[i]->save(s); TInt((int) i).Save(s); } }
void savePad(const Plan &p, TSOut &s) { std::string x((size_t) p.pad, 'p'); TStr(x.c_str()).Save(s); }
void loadAll(const Plan &p, Objs &o, TSIn &s) {
    TStr pad(s); if (pad.Len() != (int) p.pad) sim::fail("S19/content", "the text before the objects has length " + std::to_string(pad.Len()) + ", saved was " + std::to_string(p.pad));
    for (size_t i = 0; i < p.v.size(); ++i) { o.push_back(std::unique_ptr<Obj>(kinds[p.v[i].kind].fn())); o.back()->load(s); TInt m(s); if (m.Val != (int) i) sim::fail("S19/position", "after loading " + std::string(kinds[p.v[i].kind].name) + " the stream is not where the object ended"); }
}
// chooses the length of the text in front so that the whole is near a multiple of the buffer size
void place(Ctx &c, Plan &p) {
    std::string len; bool near = c.rng.chance(0.6); int64_t d = c.rng.chance(0.4) ? 0 : c.rng.range(-9, 9); uint64_t any = c.rng.below(40000);
    PhaseResult r = runPhase(calm(), [&]() { Quiet q; Paused pp; Objs o; build(p, o); Plan e = p; e.pad = 1; TMOut m; savePad(e, m); saveItems(o, 0, o.size(), m); payload(std::to_string(m.Len() - 1)); });
    c.expectOk(r, "S19/prepare"); long t = atol(r.payload.c_str());
    p.pad = near ? ((BUF - t % BUF) + d + 2 * BUF) % BUF : (long) any; if (p.pad < 1) p.pad = 1; p.total = t + p.pad;
}
enum { W_FILE, W_FLUSH, W_INOUT, W_N };
void write(const Plan &p, Objs &o, const std::string &f, int how) {
    TStr n(f.c_str());
    if (how == W_INOUT) { PSInOut s = TFInOut::New(n, faCreate, true); savePad(p, *s); saveItems(o, 0, o.size(), *s); return; }
    TFOut s(n); savePad(p, s); for (size_t i = 0; i < o.size(); ++i) { saveItems(o, i, i + 1, s); if (how == W_FLUSH) s.Flush(); }
}
enum { R_FILE, R_MAP, R_INOUT, R_COPY, R_N };
void read(const Plan &p, Objs &o, const std::string &f, int how) {
    TStr n(f.c_str());
    if (how == R_FILE) { TFIn s(n); loadAll(p, o, s); if (!s.Eof()) sim::fail("S19/rest", "the file is not at its end after everything was loaded"); }
    else if (how == R_MAP) { TMIn s(n, true); loadAll(p, o, s); if (!s.Eof()) sim::fail("S19/rest", "the mapped file is not at its end after everything was loaded"); }
    else if (how == R_INOUT) { PSInOut s = TFInOut::New(n, faRdOnly, false); loadAll(p, o, *s); }
    else { TFIn g(n); TMIn s(g); loadAll(p, o, s); }
}
std::string diffAt(const std::string &a, const std::string &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "saved ..." + a.substr(i > 30 ? i - 30 : 0, 80) + " loaded ..." + b.substr(i > 30 ? i - 30 : 0, 80); }
// loads; true if refused
bool loads(const Plan &p, const std::string &f, int how, bool further, bool complete, const std::string &what) {
    Quiet q; Objs o; std::string err; bool refused = false;
    try { read(p, o, f, how); } catch (PExcept e) { refused = true; err = str(e->GetMsgStr()); }
    if (refused) { if (complete) sim::fail("S19/refused", what + ": " + err); return true; }
    Paused pp; Objs w; build(p, w); std::string a = digest(w), b = digest(o); if (a != b) sim::fail("S19/content", what + ": " + diffAt(a, b));
    if (further) { change(p, w); change(p, o); a = digest(w); b = digest(o); if (a != b) sim::fail("S19/after-load", what + ", then the same changes on both: " + diffAt(a, b)); }
    return false;
}
void save(Ctx &c, const Plan &p, const std::string &f, int how) { c.expectOk(runPhase(calm(), [&]() { Quiet q; Objs o; { Paused pp; build(p, o); } write(p, o, f, how); }), "S19/save"); }

void roundTrip(Ctx &c) {
    Plan p = draw(c.rng, c.thorough); place(c, p); int wr = (int) c.rng.below(W_N); std::string f = c.dir + "/g"; c.note(text(p)); save(c, p, f, wr);
    if (sim::readFile(f).size() != (size_t) p.total) c.violation("S19/length", "the file has " + std::to_string(sim::readFile(f).size()) + " bytes, expected " + std::to_string(p.total));
    for (int rd = 0; rd < R_N; ++rd) { PhaseResult r = runPhase(calm(), [&]() { loads(p, f, rd, rd == R_FILE, true, text(p) + " way " + std::to_string(wr) + "/" + std::to_string(rd)); }); c.expectOk(r, "S19/load"); }
    c.nontrivial(); c.observe(p.total);
}
void truncated(Ctx &c) {
    Plan p = draw(c.rng, false); place(c, p); std::string f = c.dir + "/g"; save(c, p, f, W_FILE); std::string full = sim::readFile(f); if (full.empty()) c.violation("S19/length", "empty file");
    int n = c.thorough ? 40 : 12; std::vector<long> cut; for (int i = 0; i < n; ++i) cut.push_back((long) c.rng.below(full.size())); for (long b = BUF; b < (long) full.size(); b += BUF) if (c.rng.chance(0.5)) cut.push_back(b); cut.push_back((long) full.size() - 1); if (c.rng.chance(0.2)) cut.push_back(0);
    c.note(text(p));
    for (long k : cut) {
        sim::writeFile(f, full.substr(0, (size_t) k)); int rd = (int) c.rng.below(R_N); if (k % BUF == 0 && c.rng.chance(0.7)) rd = R_FILE;
        PhaseResult r = runPhase(calm(), [&]() { payload(loads(p, f, rd, false, false, "a file cut to " + std::to_string(k) + " of " + std::to_string(full.size()) + " bytes, way " + std::to_string(rd) + "; " + text(p)) ? "refused" : "read"); });
        c.expectOk(r, "S19/truncated"); c.count("truncated file " + r.payload); c.observe(mix(k, rd));
    }
    c.nontrivial();
}
// true if the failure was reported to the caller: an exception, or the end of the process with an error
bool reported(const PhaseResult &r) { return (r.outcome == O_OK && r.payload == "reported") || (r.outcome == O_SIGNAL && r.code == SIGABRT) || (r.outcome == O_EXIT && r.code != 0); }
void failing(Ctx &c) {
    Plan p = draw(c.rng, false); place(c, p); std::string f = c.dir + "/g"; int wr = (int) c.rng.below(W_N); PhaseCfg q = calm(); q.closeFaults = true; bool crash = c.rng.chance(0.35);
    if (crash) { q.crashAtOp = (int64_t) c.rng.below(4 + p.total / BUF); q.crashMode = (int) c.rng.below(3); } else { q.fileFaultProb = c.rng.chance(0.5) ? 0.03 : 0.3; q.fileFaultMask = 0xffffffff; q.diskFullSticky = c.rng.chance(0.3); }
    c.note(text(p) + " way " + std::to_string(wr));
    PhaseResult r = runPhase(q, [&]() { Quiet z; setRoot(c.dir); Objs o; { Paused pp; build(p, o); } try { write(p, o, f, wr); payload("written"); } catch (PExcept e) { payload("reported"); } });
    if (r.outcome == O_CRASHED) { c.count("save cut"); } else if (reported(r)) { c.count("save reported a failure"); c.nontrivial(); return; } else { c.expectOk(r, "S19/save-fault"); c.count("save succeeded"); }
    bool whole = r.outcome == O_OK; if (!whole && !fileExists(f)) return; c.nontrivial(); int rd = (int) c.rng.below(R_N);
    PhaseResult l = runPhase(calm(), [&]() { bool no = loads(p, f, rd, false, whole, whole ? "after a save that reported success while operations failed; " + text(p) : "after a save that was cut; " + text(p)); payload(no ? "refused" : "read"); });
    c.expectOk(l, "S19/load-after"); c.count(std::string("file after a save that ") + (whole ? "succeeded: " : "was cut: ") + l.payload);
}
void failingRead(Ctx &c) {
    Plan p = draw(c.rng, false); place(c, p); std::string f = c.dir + "/g"; save(c, p, f, W_FILE); c.note(text(p)); c.nontrivial();
    for (int k = 0; k < 4; ++k) {
        int rd = (int) c.rng.below(R_N); PhaseCfg q = calm(); q.readFaultProb = c.rng.chance(0.5) ? 0.1 : 0.6; q.readFaultMask = 1u << F_READEIO; if (rd == R_MAP) { q.fileFaultProb = 0.5; q.fileFaultMask = 1u << F_MMAPFAIL; }
        PhaseResult r = runPhase(q, [&]() { setRoot(c.dir); payload(loads(p, f, rd, false, false, "with failing reads, way " + std::to_string(rd) + "; " + text(p)) ? "refused" : "read"); });
        c.expectOk(r, "S19/read-fault"); c.count("load with failing reads: " + r.payload);
    }
}
// values added to an existing file by a second and third stream (no hash tables: their checksums belong to one stream)
void append(Ctx &c) {
    int n = (int) c.rng.range(2, 4); std::vector<std::vector<std::string>> parts; for (int i = 0; i < n; ++i) { std::vector<std::string> v; int k = (int) (c.rng.chance(0.1) ? 0 : c.rng.chance(0.2) ? c.rng.range(100, 2000) : c.rng.range(1, 30)); for (int j = 0; j < k; ++j) v.push_back(std::string(c.rng.below(40), (char) ('a' + c.rng.below(26)))); parts.push_back(v); }
    std::string f = c.dir + "/a"; std::vector<int> how; for (int i = 0; i < n; ++i) how.push_back((int) c.rng.below(2)); c.note("append " + std::to_string(n) + " parts"); c.nontrivial();
    for (int i = 0; i < n; ++i) c.expectOk(runPhase(calm(), [&]() { Quiet q; TStr name(f.c_str()); TStrV v; for (auto &x : parts[i]) v.Add(TStr(x.c_str())); if (how[i]) { PSInOut s = TFInOut::New(name, i ? faAppend : faCreate, false); v.Save(*s); TInt(i).Save(*s); } else { TFOut s(name, i > 0); v.Save(s); TInt(i).Save(s); } }), "S19/append");
    for (int rd = 0; rd < 3; ++rd) { PhaseResult r = runPhase(calm(), [&]() { Quiet q; TStr name(f.c_str()); PSIn s; PSInOut io; if (rd == 0) s = TFIn::New(name); else if (rd == 1) s = PSIn(new TMIn(name, true)); else io = TFInOut::New(name, faRdOnly, false); TSIn &in = rd == 2 ? (TSIn &) *io : *s;
        try { for (int i = 0; i < n; ++i) { TStrV v(in); TInt m(in); bool ok = v.Len() == (int) parts[i].size() && m.Val == i; for (int j = 0; ok && j < v.Len(); ++j) ok = str(v[j]) == parts[i][j]; if (!ok) sim::fail("S19/append", "part " + std::to_string(i) + " of " + std::to_string(n) + " written to the file one after the other is not read back"); } } catch (PExcept e) { sim::fail("S19/append", "parts written one after the other are refused: " + str(e->GetMsgStr())); } });
        c.expectOk(r, "S19/append"); }
}
// lines of a text file for every position of line ends and buffers
void lines(Ctx &c) {
    std::string t; std::vector<std::string> want; bool cr = c.rng.chance(0.5), lone = c.rng.chance(0.3); int nl = (int) c.rng.range(1, 200); long aim = c.rng.chance(0.8) ? BUF * c.rng.range(1, 2) + c.rng.range(-3, 3) : -1;
    for (int i = 0; i < nl; ++i) {
        std::string l; int n = (int) (c.rng.chance(0.1) ? 0 : c.rng.chance(0.05) ? c.rng.range(100, 20000) : c.rng.range(1, 400)); if (aim >= 0 && (long) t.size() < aim && (long) t.size() + n + 400 > aim) { n = (int) (aim - (long) t.size()); aim = -1; }
        for (int k = 0; k < n; ++k) l += (char) ('a' + (i + k) % 26); if (lone && n > 1 && c.rng.chance(0.4)) l[c.rng.chance(0.5) ? n - 1 : c.rng.below(n)] = '\r';
        bool last = i == nl - 1, end = !last || c.rng.chance(0.5); std::string e = end ? (cr && c.rng.chance(0.7) ? "\r\n" : "\n") : "";
        if (e == "\n" && !l.empty() && l.back() == '\r') l.back() = 'x'; // would be the other line end
        t += l + e; if (end || !l.empty()) want.push_back(l);
    }
    std::string f = c.dir + "/t"; sim::writeFile(f, t); int how = (int) c.rng.below(3); c.note("text of " + std::to_string(t.size()) + " bytes, way " + std::to_string(how)); if (t.empty()) return; c.nontrivial();
    PhaseResult r = runPhase(calm(), [&]() {
        Quiet q; std::vector<std::string> got; TFIn in(TStr(f.c_str())); TMIn mm(TStr(f.c_str()), true);
        if (how == 0) { TChA l; while (in.GetNextLnBf(l)) got.push_back(std::string(l.CStr(), l.Len())); } else if (how == 1) { TStr l; while (in.GetNextLn(l)) got.push_back(str(l)); }
        else { std::string all; while (!in.Eof()) { char p = in.PeekCh(), g = in.GetCh(); if (p != g) sim::fail("S19/peek", "the character looked at is not the one read at " + std::to_string(all.size())); all += g; } if (all != t) sim::fail("S19/chars", "reading single characters gives " + std::to_string(all.size()) + " of " + std::to_string(t.size()) + " bytes, or others"); return; }
        for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) if (i >= got.size() || i >= want.size() || got[i] != want[i]) sim::fail("S19/line", "line " + std::to_string(i) + (i >= got.size() ? " is missing" : i >= want.size() ? " is not in the file" : " has length " + std::to_string(got[i].size()) + ", expected " + std::to_string(want[i].size())) + ", way " + std::to_string(how));
    });
    c.expectOk(r, "S19/lines");
}
// edge lists as text
template <class P> void edges(Ctx &c, bool directed) {
    Rng g(c.rng.next()); uint64_t s = c.rng.next(); int size = (int) (c.rng.chance(0.2) ? c.rng.range(500, 3000) : c.rng.range(1, 200)); std::string f = c.dir + "/e"; PhaseCfg q = calm(); q.closeFaults = true; bool faulty = c.rng.chance(0.5); if (faulty) { q.fileFaultProb = c.rng.chance(0.5) ? 0.005 : 0.2; q.fileFaultMask = 0xffffffff; q.diskFullSticky = c.rng.chance(0.3); }
    auto list = [](P &gr) { std::vector<std::pair<int, int>> v; for (typename P::TObj::TEdgeI e = gr->BegEI(); e < gr->EndEI(); e++) v.push_back(std::make_pair(e.GetSrcNId(), e.GetDstNId())); std::sort(v.begin(), v.end()); return v; };
    auto mkg = [&]() { GraphObj<P, TSimple> o; Rng r(s); o.make(r, size); return o.g; }; c.note("edge list, size " + std::to_string(size));
    PhaseResult r = runPhase(q, [&]() { Quiet z; setRoot(c.dir); P gr; { Paused pp; gr = mkg(); } try { TSnap::SaveEdgeList(gr, TStr(f.c_str()), TStr("d")); payload("written"); } catch (PExcept e) { payload("reported"); } });
    if (faulty && reported(r)) { c.count("edge list: failure reported"); c.nontrivial(); return; } c.expectOk(r, "S19/save-text"); if (r.payload != "written") c.violation("S19/refused", "saving an edge list failed without a fault");
    PhaseCfg l = calm(); bool rf = c.rng.chance(0.3); if (rf) { l.readFaultProb = 0.3; l.readFaultMask = 1u << F_READEIO; }
    r = runPhase(l, [&]() { Quiet z; setRoot(c.dir); P a; try { a = TSnap::LoadEdgeList<P>(TStr(f.c_str()), 0, 1); } catch (PExcept e) { if (!rf) sim::fail("S19/refused", "the edge list is refused: " + str(e->GetMsgStr())); payload("refused"); return; }
        Paused pp; P b = mkg(); if (list(a) != list(b)) sim::fail("S19/edge-list", "an edge list with " + std::to_string(list(b).size()) + " edges was read as " + std::to_string(list(a).size()) + " edges" + (faulty ? " after a save that reported success while operations failed" : "")); payload("read"); });
    c.expectOk(r, "S19/load-text"); c.nontrivial(); c.count("edge list " + r.payload);
}
void edgeList(Ctx &c) { if (c.rng.chance(0.5)) edges<PUNGraph>(c, false); else edges<PNGraph>(c, true); }
}
SCENARIO("S19", "roundtrip", roundTrip, 3);
SCENARIO("S19", "truncated", truncated, 3);
SCENARIO("S19", "failing", failing, 3);
SCENARIO("S19", "failingread", failingRead, 1);
SCENARIO("S19", "append", append, 1);
SCENARIO("S19", "lines", lines, 1);
SCENARIO("S19", "edgelist", edgeList, 1);
