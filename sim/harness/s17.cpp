// S17: training of embeddings: the real batch creator, training loop, learners and tester on a real store, with recording subclasses.
#include "kbutil.h"
#include <trident/ml/trainworkflow.h>
#include <trident/ml/transe.h>
#include <trident/ml/transetester.h>
#include <trident/ml/distmul.h>
#include <trident/ml/distmultester.h>
#include <trident/ml/hole.h>
#include <trident/ml/holetester.h>
#include <trident/ml/batch.h>
#include <cmath>
#include <cstring>
using namespace sim; using namespace kbu;

namespace {
typedef std::array<uint64_t, 3> Tr;
struct Log { std::map<uint32_t, std::vector<std::vector<Tr>>> epochs; std::map<std::string, std::string> stored; std::map<int, std::string> tested; int active = 0, maxActive = 0; } *g_log = NULL;
std::string bits(Embeddings<double> &E, Embeddings<double> &R) { std::string s((const char*) E.getRaw(), (size_t) E.getN() * E.getDim() * 8); s.append((const char*) R.getRaw(), (size_t) R.getN() * R.getDim() * 8); return s; }

template<class B> struct Rec : B {
    Rec(KB &kb, LearnParams &p) : B(kb, p) {}
    void process_batch(BatchIO &io, const uint32_t epoch, const uint16_t nb) {
        { Paused pp; std::vector<Tr> v; if (io.field1.size() != io.field2.size() || io.field1.size() != io.field3.size()) fail("S17/batch-shape", "columns of a batch have different lengths");
          for (size_t i = 0; i < io.field1.size(); ++i) v.push_back(Tr{{ io.field1[i], io.field2[i], io.field3[i] }});
          if (io.epoch != epoch) fail("S17/epoch", "a batch of epoch " + std::to_string(io.epoch) + " was processed in epoch " + std::to_string(epoch));
          g_log->epochs[epoch].push_back(v); g_log->maxActive = std::max(g_log->maxActive, ++g_log->active); }
        B::process_batch(io, epoch, nb); { Paused pp; --g_log->active; }
    }
    void store_model(std::string path, const bool gz, const uint16_t nt) { { Paused pp; g_log->stored[path] = bits(*this->getE(), *this->getR()); } B::store_model(path, gz, nt); }
};
template<class T> struct RecTest : T {
    RecTest(std::shared_ptr<Embeddings<double>> E, std::shared_ptr<Embeddings<double>> R) : T(E, R) { Paused pp; int k = g_log->epochs.empty() ? 0 : (int) g_log->epochs.rbegin()->first; g_log->tested[k] = bits(*E, *R); }
};
struct Cfg { int algo; uint16_t epochs, dim, batch, threads, evalThreads, storeThreads; uint32_t evalits, storeits, numneg; float margin, lr, valid, test; bool adagrad, feedback, file, store, compress; uint32_t fbThr, fbMin; };
Cfg draw(Rng &r, size_t n, bool thorough) {
    Cfg f; f.algo = r.chance(0.7) ? 0 : r.chance(0.5) ? 1 : 2; f.epochs = (uint16_t) r.range(1, thorough ? 6 : 4); f.dim = (uint16_t) r.range(2, 10); double x = r.unit();
    f.batch = (uint16_t) (x < 0.2 ? 1 + r.below(3) : x < 0.7 ? r.range(1, std::max<size_t>(2, n)) : x < 0.85 ? n : r.range(n, n * 3)); if (!f.batch) f.batch = 1; f.threads = (uint16_t) (r.chance(0.3) ? 1 : r.range(2, 6)); f.evalThreads = (uint16_t) r.range(1, 4); f.storeThreads = (uint16_t) r.range(1, 4);
    f.evalits = r.chance(0.15) ? 0 : (uint32_t) r.range(1, 3); f.storeits = r.chance(0.15) ? 0 : (uint32_t) r.range(1, 3); f.numneg = (uint32_t) r.range(1, 5); f.margin = (float) r.range(1, 20) / 10; f.lr = r.chance(0.5) ? 0.1f : (float) r.range(1, 100) / 73; if (f.algo == 1) { f.lr = (float) r.range(1, 10) / 100; f.adagrad = false; }
    f.valid = r.chance(0.4) ? 0 : (float) r.range(1, 6) / 10; f.test = r.chance(0.5) ? 0 : (float) r.range(1, 5) / 10; f.adagrad = r.chance(0.4); if (f.algo == 1) f.adagrad = false; f.feedback = r.chance(0.2); f.file = r.chance(0.8); f.store = r.chance(0.7); f.compress = false; f.fbThr = (uint32_t) r.range(1, 20); f.fbMin = (uint32_t) r.range(0, 3);
    return f;
}
std::string text(const Cfg &f) { static const char *a[] = { "transe", "distmul", "hole" }; return std::string(a[f.algo]) + " epochs=" + std::to_string(f.epochs) + " dim=" + std::to_string(f.dim) + " batch=" + std::to_string(f.batch) + " threads=" + std::to_string(f.threads) + "/" + std::to_string(f.evalThreads) + "/" + std::to_string(f.storeThreads) + " evalits=" + std::to_string(f.evalits) + " storeits=" + std::to_string(f.storeits) + " valid=" + std::to_string(f.valid) + " test=" + std::to_string(f.test) + (f.adagrad ? " adagrad" : "") + (f.feedback ? " feedback" : "") + (f.file ? "" : " no batch file") + (f.store ? " store" : ""); }
void fill(LearnParams &p, const Cfg &f, const std::string &folder) {
    p.epochs = f.epochs; p.dim = f.dim; p.batchsize = f.batch; p.nthreads = f.threads; p.nevalthreads = f.evalThreads; p.nstorethreads = f.storeThreads; p.evalits = f.evalits; p.storeits = f.storeits; p.numneg = f.numneg; p.margin = f.margin; p.learningrate = f.lr; p.valid = f.valid; p.test = f.test;
    p.adagrad = f.adagrad; p.feedbacks = f.feedback; p.feedbacks_threshold = f.fbThr; p.feedbacks_minfulle = f.fbMin; p.regeneratebatch = f.file; p.storefolder = f.store ? folder : ""; p.compresstorage = f.compress;
}
void launch(const std::string &kbdir, const Cfg &f, const std::string &folder) {
    KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); LearnParams p; fill(p, f, folder); p.ne = kb.getNTerms();
    if (kb.areRelIDsSeparated()) p.nr = kb.getDictMgmt()->getNRels(); else { Querier *q = kb.query(); auto it = q->getTermList(IDX_POS); { p.nr = 0; while (it->hasNext()) { it->next(); p.nr++; } } q->releaseItr(it); delete q; }
    if (f.algo == 0) TrainWorkflow<Rec<TranseLearner>, RecTest<TranseTester<double>>>::launchLearning(kb, p);
    else if (f.algo == 1) TrainWorkflow<Rec<DistMulLearner>, RecTest<DistMulTester<double>>>::launchLearning(kb, p);
    else TrainWorkflow<Rec<HoleLearner>, RecTest<HoleTester<double>>>::launchLearning(kb, p);
}
// every triple of the store with the identifiers training uses: predicates numbered in their order unless they have their own identifiers
std::vector<Tr> allTriples(const std::string &kbdir, std::vector<uint64_t> *preds = NULL) {
    KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); Querier *q = kb.query(); std::vector<Tr> o; std::set<uint64_t> ps; auto it = q->getIterator(IDX_SPO, -1, -1, -1);
    while (it->hasNext()) { it->next(); o.push_back(Tr{{ (uint64_t) it->getKey(), (uint64_t) it->getValue1(), (uint64_t) it->getValue2() }}); ps.insert(o.back()[1]); } q->releaseItr(it);
    if (!kb.areRelIDsSeparated()) for (auto &t : o) t[1] = (uint64_t) std::distance(ps.begin(), ps.find(t[1])); 
    if (preds) preds->assign(ps.begin(), ps.end());
    delete q; std::sort(o.begin(), o.end()); return o;
}
std::string str(const Tr &t) { return "(" + std::to_string(t[0]) + "," + std::to_string(t[1]) + "," + std::to_string(t[2]) + ")"; }
std::vector<Tr> readFile15(const std::string &path) { std::vector<Tr> o; if (access(path.c_str(), F_OK)) return o; std::string b = readFile(path); if (b.size() % 15) fail("S17/file-size", path + " has " + std::to_string(b.size()) + " bytes"); for (size_t i = 0; i < b.size(); i += 15) { Tr t; for (int k = 0; k < 3; ++k) { t[k] = 0; memcpy(&t[k], b.data() + i + 5 * k, 5); } o.push_back(t); } std::sort(o.begin(), o.end()); return o; }
void same(const std::vector<Tr> &want, std::vector<Tr> got, const std::string &key, const std::string &what) {
    std::sort(got.begin(), got.end()); std::vector<Tr> a, b; std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(a)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(b));
    if (!a.empty()) fail(key, what + ": " + std::to_string(a.size()) + " of " + std::to_string(want.size()) + " triples are missing, e.g. " + str(a[0]));
    if (!b.empty()) fail(key, what + ": " + std::to_string(b.size()) + " triples are not expected or repeated, e.g. " + str(b[0]));
}
// checks files and recorded batches against the triples of the store; returns the training set
std::vector<Tr> checkSplit(const std::string &kbdir, const Cfg &f, const std::vector<Tr> &all, const std::string &what) {
    if (!f.file) return all;
    std::vector<Tr> tr = readFile15(kbdir + "/_batch2"), va = f.valid > 0 ? readFile15(kbdir + "/_batch_valid2") : std::vector<Tr>(), te = f.test > 0 ? readFile15(kbdir + "/_batch_test2") : std::vector<Tr>(), u = tr;
    u.insert(u.end(), va.begin(), va.end()); u.insert(u.end(), te.begin(), te.end()); same(all, u, "S17/split", what + ": training, validation and test triples together"); return tr;
}
void checkEpochs(const Log &l, const Cfg &f, const std::vector<Tr> &train, const std::string &what) {
    std::set<Tr> in(train.begin(), train.end());
    for (uint32_t e = 0; e < f.epochs; ++e) {
        auto it = l.epochs.find(e); std::vector<Tr> u; size_t shorter = 0; if (it != l.epochs.end()) for (auto &b : it->second) { if (b.empty() || b.size() > f.batch) fail("S17/batch-size", what + ": a batch of " + std::to_string(b.size()) + " triples"); if (b.size() < f.batch) shorter++; u.insert(u.end(), b.begin(), b.end()); }
        if (shorter > 1) fail("S17/batch-size", what + ": " + std::to_string(shorter) + " incomplete batches in epoch " + std::to_string(e));
        if (f.feedback && e >= f.fbMin) { std::sort(u.begin(), u.end()); for (size_t i = 0; i < u.size(); ++i) if (!in.count(u[i]) || (i && u[i] == u[i - 1])) fail("S17/epoch", what + ": unexpected or repeated triple " + str(u[i]) + " in epoch " + std::to_string(e)); }
        else same(train, u, "S17/epoch", what + ": batches of epoch " + std::to_string(e));
    }
    for (auto &e : l.epochs) if (e.first >= f.epochs) fail("S17/epoch", what + ": epoch " + std::to_string(e.first) + " of " + std::to_string(f.epochs));
}
std::string loadBits(const std::string &path) { auto m = std::make_pair(Embeddings<double>::load(path + "/E"), Embeddings<double>::load(path + "/R")); Paused pp; return bits(*m.first, *m.second); }
void checkModels(const Log &l, const Cfg &f, const std::string &folder, const std::vector<Tr> &valid, const std::string &what) {
    if (!f.store || !f.evalits) return;
    for (uint32_t e = 1; e <= f.epochs; ++e) { std::string m = folder + "/model-" + std::to_string(e); bool want = f.storeits && e % f.storeits == 0; if (!want) continue;
        auto s = l.stored.find(m); if (s == l.stored.end()) fail("S17/not-stored", what + ": the model of epoch " + std::to_string(e) + " was not stored"); if (loadBits(m) != s->second) fail("S17/model", what + ": " + m.substr(m.rfind('/') + 1) + " does not load as it was"); }
    if (!f.valid) return; long best = -1; int at = -1;
    for (uint32_t e = f.evalits; e <= f.epochs; e += f.evalits) {
        std::string t = readFile(folder + "/results-" + std::to_string(e)), line; std::istringstream is(t); std::getline(is, line); long sum = 0; std::vector<Tr> rows;
        while (std::getline(is, line)) { Tr r; unsigned long s, o; if (sscanf(line.c_str(), "%lu %lu %lu\t%lu\t%lu", &r[0], &r[1], &r[2], &s, &o) != 5) fail("S17/results", what + ": line " + line); sum += (long) (s + o); rows.push_back(r); }
        same(valid, rows, "S17/results", what + ": validation results after epoch " + std::to_string(e)); if (at < 0 || sum < best) { best = sum; at = (int) e; }
    }
    if (at > 0) { auto t = l.tested.find(at - 1); if (t == l.tested.end()) return; if (loadBits(folder + "/best-model") != t->second) fail("S17/best-model", what + ": the model kept as the best is not that of epoch " + std::to_string(at)); }
}
void input(Ctx &c, Store &st, int maxn) {
    double x = c.rng.unit(); int n = (int) (x < 0.2 ? c.rng.range(1, 4) : x < 0.9 ? c.rng.range(2, 60) : c.rng.range(60, maxn)); int dom = std::max(2, (int) (n * (0.3 + c.rng.unit()))); st.lo = loadOpts(c.rng); simParams(c.rng); st.makeInput(n, false, std::max(1, dom), (int) c.rng.range(1, std::min(12, 1 + n / 2)), dom);
    c.expectOk(st.load(calm()), "S17/load");
    if (c.rng.chance(0.25)) { int k = (int) c.rng.range(1, 2); for (int i = 0; i < k; ++i) { bool add = c.rng.chance(0.6); auto u = st.drawUpdate(add, (int) c.rng.range(1, 8), NULL); Model keep = st.m; st.apply(add, u); if (st.m.empty()) { st.m = keep; continue; } c.expectOk(st.update(calm(), add, st.writeUpdate(u), st.kb), "S17/update"); c.note(add ? "added triples" : "removed triples"); } }
}
void sched(Ctx &c, PhaseCfg &p) { c.randomSched(p); if (p.preemptPeriod && p.preemptPeriod < 100) p.preemptPeriod = 100; p.maxSteps = 2000000000ull; p.realTimeout = 100; p.guardMaps = true; p.rdSeed = c.rng.next(); }

void train(Ctx &c) {
    Store st(c, "S17"); input(c, st, c.thorough ? 400 : 150); bool updated = st.nOps > 0; Cfg f = draw(c.rng, st.m.size(), c.thorough); if (updated) f.file = true; if (!f.file) f.valid = f.test = 0; std::string folder = c.dir + "/model", what = text(f); c.note("train " + what); if (f.threads > 1) c.nontrivial();
    PhaseCfg p; sched(c, p); std::string kbdir = st.kb; bool again = c.rng.chance(0.3), predict = f.valid > 0 && f.store && f.file;
    PhaseResult r = runPhase(p, [&]() {
        Log l; g_log = &l; std::vector<Tr> all; { Paused pp; all = allTriples(kbdir); }
        if (all.size() != st.m.size()) fail("S17/store", "the store has " + std::to_string(all.size()) + " triples, expected " + std::to_string(st.m.size()));
        for (int k = 0; k <= again; ++k) { // the second time the batch files exist
            l = Log(); launch(kbdir, f, folder + std::to_string(k)); check(aliveThreads() == 1, "S17/threads", "threads still run after the training returned"); check(l.maxActive <= f.threads, "S17/threads", "more batches at a time than workers");
            std::vector<Tr> tr, va; { Paused pp; tr = checkSplit(kbdir, f, all, what); if (f.file && f.valid > 0) va = readFile15(kbdir + "/_batch_valid2"); checkEpochs(l, f, tr, what); }
            checkModels(l, f, folder + std::to_string(k), va, what);
        }
        if (predict && !access((folder + "0/best-model").c_str(), F_OK)) { KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); PredictParams pp; pp.nametestset = "valid"; pp.nthreads = f.evalThreads; pp.path_modele = folder + "0/best-model/E"; pp.path_modelr = folder + "0/best-model/R"; if (f.algo != 1) Predictor::launchPrediction(kb, f.algo ? "hole" : "transe", pp); }
    });
    if (!f.file && r.outcome == O_EXCEPTION) { c.count("training without a batch file refused"); return; } // documented: only for column and row tables
    c.expectOk(r, "S17/train"); c.observe(r.hash);
}
// the same seed and one worker: the same model whatever the schedule
void repeat(Ctx &c) {
    Store st(c, "S17"); input(c, st, 80); Cfg f = draw(c.rng, st.m.size(), false); f.threads = 1; f.file = true; f.store = false; std::string kbdir = st.kb, what = text(f), first; c.note("train twice " + what); uint64_t rd = c.rng.next();
    for (int k = 0; k < 2; ++k) {
        PhaseCfg p; sched(c, p); p.rdSeed = rd; PhaseResult r = runPhase(p, [&]() { Log l; g_log = &l; for (const char *n : { "/_batch2", "/_batch_valid2", "/_batch_test2" }) ::unlink((kbdir + n).c_str());
            Cfg g = f; g.store = true; g.storeits = g.epochs; g.evalits = g.evalits ? g.evalits : 1; launch(kbdir, g, c.dir + "/m" + std::to_string(k)); std::string o; for (auto &s : l.stored) o += s.first.substr(s.first.rfind('/')) + s.second; Paused pp; std::string h; for (char ch : o) { h += "0123456789abcdef"[(unsigned char) ch >> 4]; h += "0123456789abcdef"[ch & 15]; } payload(h); });
        c.expectOk(r, "S17/train"); if (!k) first = r.payload; else if (first != r.payload) c.violation("S17/repeat", "one worker and the same seed gave two different models: " + what);
    }
    c.nontrivial();
}
// creation of the batch files is cut or fails; the next training must again use every triple
void faulty(Ctx &c) {
    Store st(c, "S17"); input(c, st, 300); Cfg f = draw(c.rng, st.m.size(), false); f.file = true; f.feedback = false; f.epochs = 1; std::string kbdir = st.kb, what = text(f), folder = c.dir + "/model"; c.note("train " + what); c.nontrivial();
    PhaseCfg p; sched(c, p); p.guardMaps = true; bool crash = c.rng.chance(0.5);
    { PhaseCfg d = calm(); d.rdSeed = p.rdSeed; c.expectOk(runPhase(d, [&]() { writeFile(c.dir + "/x", "x"); }), "S17/dry"); }
    if (crash) { p.crashAtOp = (int64_t) c.rng.below(c.rng.chance(0.7) ? 8 : 40); p.crashMode = (int) c.rng.below(3); c.note("cut at operation " + std::to_string(p.crashAtOp)); } else { p.fileFaultProb = c.rng.chance(0.5) ? 0.1 : 0.4; p.fileFaultMask = (uint32_t) c.rng.next() | (1u << F_ENOSPC); p.diskFullSticky = c.rng.chance(0.5); c.note("failing storage"); }
    PhaseResult r = runPhase(p, [&]() {
        Log l; g_log = &l; std::vector<Tr> all; { Paused pp; all = allTriples(kbdir); } setRoot(c.dir); launch(kbdir, f, folder); std::vector<Tr> tr, va; { Paused pp; tr = checkSplit(kbdir, f, all, what + ", reported as done"); if (f.valid > 0) va = readFile15(kbdir + "/_batch_valid2"); checkEpochs(l, f, tr, what + ", reported as done"); } });
    if (r.outcome != O_CRASHED && r.outcome != O_EXCEPTION && !(r.outcome == O_SIGNAL && r.msg.compare(0, 9, "uncaught ") == 0)) c.expectOk(r, "S17/train-fault"); else c.count("training cut or failed");
    PhaseCfg q; sched(c, q); std::string w2 = what + ", after a training that was cut or failed";
    r = runPhase(q, [&]() { Log l; g_log = &l; std::vector<Tr> all; { Paused pp; all = allTriples(kbdir); } launch(kbdir, f, folder + "2"); std::vector<Tr> tr, va; { Paused pp; tr = checkSplit(kbdir, f, all, w2); if (f.valid > 0) va = readFile15(kbdir + "/_batch_valid2"); checkEpochs(l, f, tr, w2); } checkModels(l, f, folder + "2", va, w2); });
    c.expectOk(r, "S17/train-again");
}
// the batch creator alone, also restricted to a pattern
void batches(Ctx &c) {
    Store st(c, "S17"); input(c, st, c.thorough ? 1500 : 400); std::string kbdir = st.kb; uint64_t s = c.rng.next(); bool thorough = c.thorough; PhaseCfg p = calm(); p.guardMaps = true; p.rdSeed = c.rng.next(); if (c.rng.chance(0.1)) c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        Rng g(s); std::vector<Tr> all; { Paused pp; all = allTriples(kbdir); } std::string out;
        for (int k = 0; k < (thorough ? 12 : 5); ++k) {
            int64_t pt[3] = { -1, -1, -1 }; bool pattern = k > 0 || g.chance(0.5); if (pattern) { const Tr &t = all[g.below(all.size())]; int m = (int) g.range(1, 7); for (int i = 0; i < 3; ++i) if (m >> i & 1) pt[i] = (int64_t) (g.chance(0.8) ? t[i] : all[g.below(all.size())][g.chance(0.7) ? i : g.below(3)]); }
            uint64_t bs = g.chance(0.3) ? g.range(1, 3) : g.range(1, all.size() + 5); std::string what = "pattern (" + std::to_string(pt[0]) + "," + std::to_string(pt[1]) + "," + std::to_string(pt[2]) + "), batches of " + std::to_string(bs) + " of " + std::to_string(all.size());
            std::vector<Tr> want; for (auto &t : all) if ((pt[0] < 0 || (int64_t) t[0] == pt[0]) && (pt[1] < 0 || (int64_t) t[1] == pt[1]) && (pt[2] < 0 || (int64_t) t[2] == pt[2])) want.push_back(t);
            BatchCreator b(kbdir, bs, 1); b.start(pt[0], pt[1], pt[2]); uint64_t nb = (want.size() + bs - 1) / bs; if (b.getNBatches() != nb) fail("S17/batches", what + ": " + std::to_string(b.getNBatches()) + " batches instead of " + std::to_string(nb));
            for (int round = 0; round < 3; ++round) {
                std::vector<Tr> got; std::vector<uint64_t> a, d, e;
                if (round == 0) while (b.getBatch(a, d, e)) { if (a.size() > bs) fail("S17/batches", what + ": batch too large"); for (size_t i = 0; i < a.size(); ++i) got.push_back(Tr{{ a[i], d[i], e[i] }}); if (got.size() > want.size() + bs) break; }
                else if (round == 1) for (uint64_t i = 0; i < nb; ++i) { if (!b.getBatchNr(i, a, d, e)) fail("S17/batches", what + ": batch " + std::to_string(i) + " is empty"); for (size_t j = 0; j < a.size(); ++j) got.push_back(Tr{{ a[j], d[j], e[j] }}); }
                else while (b.getBatch(a)) { for (size_t i = 0; i + 2 < a.size(); i += 3) got.push_back(Tr{{ a[i], a[i + 1], a[i + 2] }}); if (got.size() > want.size() + bs) break; }
                Paused pp; same(want, got, "S17/batches", what + (round == 0 ? ", in turn" : round == 1 ? ", by number" : ", as one list")); resume(); b.shuffle(); sim::pause();
            }
        }
    });
    c.expectOk(r, "S17/batches");
}
}
SCENARIO("S17", "train", train, 5);
SCENARIO("S17", "repeat", repeat, 1);
SCENARIO("S17", "train-fault", faulty, 2);
SCENARIO("S17", "batches", batches, 2);
