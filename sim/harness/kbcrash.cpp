// S02 (interrupted updates), S03 (merges, interrupted or not), S04 (dictionary), S05 (loading under any schedule), S06 (interrupted loads), S22 (failing I/O).
#include "kbutil.h"
using namespace sim; using namespace kbu;

static Vocab extraVocab(Ctx &c, bool weird) { Vocab ex = vocab(c.rng, 12, 3, 20, weird); for (auto *pv : {&ex.s, &ex.p, &ex.o}) for (auto &t : *pv) { if (t[0] == '<') t = "<x" + t.substr(1); else if (t[0] == '"') t = "\"x" + t.substr(1); else t += "x"; } return ex; }
static std::vector<T3> keepOps(Ctx &c, const std::vector<T3> &ts, int op) { std::vector<T3> k; for (size_t j = 0; j < ts.size(); ++j) if (!c.dropped(1000 * (op + 1) + j % 1000)) k.push_back(ts[j]); return k; }
// an addition that brings so many new terms that it gets its own dictionary
static std::vector<T3> bigUpdate(Ctx &c) { std::vector<T3> o; int n = (int) c.rng.range(5000, 6000), tag = (int) c.rng.below(100000); for (int i = 0; i < n; ++i) { T3 t; t.t[0] = "<big" + std::to_string(tag) + "/" + std::to_string(i) + ">"; t.t[1] = "<bp>"; t.t[2] = i % 7 ? "\"big object " + std::to_string(tag) + " " + std::to_string(i) + "\"" : "<bo" + std::to_string(i % 5) + ">"; if (i % 7 == 0) t.t[1] = "<bp" + std::to_string(tag) + "_" + std::to_string(i) + ">"; o.push_back(t); } return o; }

static void base(Ctx &c, Store &st, bool weird, int maxN) {
    int n = (int) c.rng.range(1, maxN), dom = std::max(2, (int) (n * c.rng.unit())); st.lo = loadOpts(c.rng); st.makeInput(n, weird, std::max(1, dom / 2), (int) c.rng.range(1, 6), std::max(1, dom));
    PhaseResult r = st.load(calm()); c.expectOk(r, st.P + "/load");
}
// runs ops updates/merges without faults
static void history(Ctx &c, Store &st, int ops, Vocab *ex, double mergeProb, double bigProb) {
    for (int i = 0; i < ops; ++i) {
        if (c.rng.chance(mergeProb)) { if (c.dropped(i)) continue; c.note("merge"); PhaseResult r = st.merge(calm(), st.kb); c.expectOk(r, st.P + "/merge"); continue; }
        bool add = c.rng.chance(0.6); std::vector<T3> ts = add && c.rng.chance(bigProb) ? bigUpdate(c) : st.drawUpdate(add, (int) c.rng.range(1, 12), ex); ts = keepOps(c, ts, i); if (ts.empty() || c.dropped(i)) continue;
        c.note(std::string(add ? "add" : "remove") + " " + std::to_string(ts.size()) + " triples"); if (ts.size() <= 4) for (auto &t : ts) c.note("   " + show(t));
        PhaseResult r = st.update(calm(), add, st.writeUpdate(ts), st.kb); c.expectOk(r, st.P + "/update"); st.apply(add, ts);
    }
}
static bool drawCrash(Ctx &c, PhaseCfg &p, const PhaseResult &dry, std::string &d) { // false: no crash point
    if (dry.fileOps == 0) return false;
    double x = c.rng.unit();
    if (x < 0.75) { uint64_t n = dry.fileOps; p.crashAtOp = (int64_t) (c.rng.chance(0.3) ? n - 1 - c.rng.below(std::min<uint64_t>(n, 12)) : c.rng.below(n)); p.crashMode = (int) c.rng.below(3); d = "crash " + std::string(p.crashMode == 0 ? "before" : p.crashMode == 1 ? "after" : "in the middle of") + " file operation " + std::to_string(p.crashAtOp) + " of " + std::to_string(n); }
    else { p.crashAtStep = (int64_t) c.rng.below(dry.steps); d = "crash at step " + std::to_string(p.crashAtStep) + " of " + std::to_string(dry.steps); }
    return true;
}
// content after a crash must be one of two models
static bool settle(Ctx &c, Store &st, const Model &before, const Model &after, const std::string &what) {
    Model got = st.readModel(st.kb, "reopen");
    if (got == after) { st.m = after; return true; } if (got == before) { st.m = before; return false; }
    size_t missB = 0, extraB = 0, missA = 0, extraA = 0; T3 ex; for (auto &t : before) if (!got.count(t)) { missB++; ex = t; } for (auto &t : got) if (!before.count(t)) { extraB++; ex = t; } for (auto &t : after) if (!got.count(t)) missA++; for (auto &t : got) if (!after.count(t)) extraA++;
    c.violation(st.P + "/mixed-state", what + ": the reopened store holds neither the state before (misses " + std::to_string(missB) + ", has " + std::to_string(extraB) + " more) nor the state after (misses " + std::to_string(missA) + ", has " + std::to_string(extraA) + " more); e.g. " + show(ex));
}

// ---------------------------------------------------------------- S02
static void interruptedUpdate(Ctx &c) {
    Store st(c, "S02"); bool weird = c.rng.chance(0.4); Vocab ex = extraVocab(c, weird); base(c, st, weird, 60); history(c, st, (int) c.rng.range(0, 3), &ex, 0.15, 0.0); st.verify(st.kb, 2, false, "verify");
    int rounds = (int) c.rng.range(2, 5); std::string bak = c.dir + "/bak";
    for (int k = 0; k < rounds; ++k) {
        bool add = c.rng.chance(0.6); bool big = add && c.rng.chance(0.02); std::vector<T3> ts = big ? bigUpdate(c) : st.drawUpdate(add, (int) c.rng.range(1, 15), c.rng.chance(0.7) ? &ex : NULL); ts = keepOps(c, ts, k);
        uint64_t s1 = c.rng.next(); Rng sub(s1); if (ts.empty() || c.dropped(k)) continue;
        Model before = st.m; st.apply(add, ts); Model after = st.m; st.m = before; std::string ud = st.writeUpdate(ts);
        copyTree(st.kb, bak); PhaseResult dry = st.update(calm(), add, ud, st.kb); c.expectOk(dry, "S02/update"); rmTree(st.kb); 
        int points = big ? 2 : (int) sub.range(1, 4); c.note(std::string(add ? "add" : "remove") + " " + std::to_string(ts.size()) + " triples"); if (ts.size() <= 4) for (auto &t : ts) c.note("   " + show(t));
        std::map<std::string, int64_t> known = st.known;
        for (int j = 0; j < points; ++j) {
            if (fileExists(st.kb)) rmTree(st.kb); copyTree(bak, st.kb); st.m = before; st.known = known;
            PhaseCfg p = calm(); std::string d; if (!drawCrash(c, p, dry, d)) break; c.note(d); PhaseResult r = st.update(p, add, ud, st.kb);
            if (r.outcome != O_CRASHED) c.expectOk(r, "S02/update"); else { c.nontrivial(); c.count("crashes"); }
            bool done = settle(c, st, before, after, std::string(add ? "addition" : "removal") + ", " + d); if (r.ok() && !done && !(before == after)) c.violation("S02/lost-update", "the update reported success but the reopened store does not hold it"); c.count(done ? "after-state" : "before-state");
            st.verify(st.kb, 3, c.rng.chance(0.3), "verify-after-crash");
            if (c.rng.chance(0.6)) { bool a2 = c.rng.chance(0.6); std::vector<T3> t2 = c.rng.chance(0.4) ? ts : st.drawUpdate(a2, (int) c.rng.range(1, 8), &ex); if (!c.dropped(500 + k * 10 + j)) { c.note(std::string("then ") + (a2 ? "add " : "remove ") + std::to_string(t2.size()) + " triples"); r = st.update(calm(), a2, st.writeUpdate(t2), st.kb); c.expectOk(r, "S02/later-update"); st.apply(a2, t2); st.verify(st.kb, 3, c.rng.chance(0.3), "verify-later-update"); } }
        }
        rmTree(bak);
    }
}
SCENARIO("S02", "interrupted-update", interruptedUpdate, 1);

// ---------------------------------------------------------------- S03
static void mergeStore(Ctx &c) {
    Store st(c, "S03"); bool weird = c.rng.chance(0.4); Vocab ex = extraVocab(c, weird); base(c, st, weird, 60); history(c, st, (int) c.rng.range(2, 7), &ex, 0.05, 0.02); st.verify(st.kb, 3, true, "verify");
    std::string bak = c.dir + "/bak"; copyTree(st.kb, bak); PhaseResult dry = st.merge(calm(), st.kb); c.expectOk(dry, "S03/merge"); c.note("merge"); st.verify(st.kb, 4, true, "verify-after-merge"); if (dry.fileOps) c.nontrivial();
    int points = (int) c.rng.range(1, 4); Model base0 = st.m; std::map<std::string, int64_t> known0 = st.known;
    for (int j = 0; j < points && dry.fileOps; ++j) {
        bool drop = c.dropped(200 + j); if (!drop) { rmTree(st.kb); copyTree(bak, st.kb); } st.m = base0; st.known = known0;
        int again = (int) c.rng.range(1, 2); Model before = st.m;
        for (int k = 0; k < again; ++k) { PhaseCfg p = calm(); std::string d; drawCrash(c, p, dry, d); if (drop) continue; c.note(d); PhaseResult r = st.merge(p, st.kb); if (r.outcome == O_CRASHED) c.count("crashes"); else c.expectOk(r, "S03/merge"); bool vf = k + 1 == again || c.rng.chance(0.5); if (vf) { settle(c, st, before, before, "interrupted merge, " + d); st.verify(st.kb, 3, c.rng.chance(0.4), "verify-after-crash"); } }
        if (drop) continue; c.note("merge again"); PhaseResult r = st.merge(calm(), st.kb); c.expectOk(r, "S03/merge-again"); st.verify(st.kb, 3, c.rng.chance(0.4), "verify-merge-again");
        if (c.rng.chance(0.5)) { int n = (int) c.rng.range(1, 3); history(c, st, n, &ex, 0.3, 0.0); st.verify(st.kb, 3, true, "verify-later"); }
    }
}
SCENARIO("S03", "merge", mergeStore, 1);

// ---------------------------------------------------------------- S04
static void dictionary(Ctx &c) {
    Store st(c, "S04"); Vocab ex = extraVocab(c, true); bool longs = c.rng.chance(0.3); base(c, st, true, c.rng.chance(0.85) ? 80 : 1500); st.verify(st.kb, 0, false, "verify");
    auto lengthen = [&](std::vector<T3> &ts) { if (longs) for (auto &t : ts) if (c.rng.chance(0.2)) { std::string l((size_t) c.rng.range(200, c.rng.chance(0.3) ? 32000 : 9000), (char) ('a' + c.rng.below(3))); t.t[2] = "\"" + l + std::to_string(c.rng.below(4)) + "\""; } };
    int ops = (int) c.rng.range(1, 8); bool used = false;
    for (int i = 0; i < ops; ++i) {
        double x = c.rng.unit();
        if (x < 0.12) { if (!c.dropped(i)) { c.note("merge"); PhaseResult r = st.merge(calm(), st.kb); c.expectOk(r, "S04/merge"); } }
        else {
            bool add = c.rng.chance(0.75), crash = c.rng.chance(0.25), big = add && c.rng.chance(0.03); std::vector<T3> ts = big ? bigUpdate(c) : st.drawUpdate(add, (int) c.rng.range(1, 25), &ex); if (add) lengthen(ts); if (!add && c.rng.chance(0.2)) ts.assign(st.m.begin(), st.m.end()); ts = keepOps(c, ts, i); uint64_t at = c.rng.next(); if (ts.empty() || c.dropped(i)) continue;
            c.note(std::string(add ? "add " : "remove ") + std::to_string(ts.size()) + " triples" + (crash ? ", interrupted" : "")); if (ts.size() <= 4) for (auto &t : ts) c.note("   " + show(t));
            Model before = st.m; st.apply(add, ts); Model after = st.m; PhaseCfg p = calm(); if (crash) { p.crashAtOp = (int64_t) (at % 90); p.crashMode = (int) (at / 90 % 3); } PhaseResult r = st.update(p, add, st.writeUpdate(ts), st.kb);
            if (r.outcome == O_CRASHED) { c.count("crashes"); settle(c, st, before, after, "interrupted update"); } else c.expectOk(r, "S04/update"); used = true;
        }
        if (c.rng.chance(0.5)) st.verify(st.kb, 0, false, "verify");
    }
    if (used) c.nontrivial(); st.verify(st.kb, 2, false, "verify");
}
SCENARIO("S04", "dictionary", dictionary, 1);

// ---------------------------------------------------------------- S05
static void loadAnySchedule(Ctx &c) {
    Store st(c, "S05"); bool weird = c.rng.chance(0.3); double x = c.rng.unit(); int n = (int) (x < 0.7 ? c.rng.range(1, 60) : x < 0.95 ? c.rng.range(60, 500) : c.rng.range(500, 4000)); int dom = std::max(2, (int) (n * c.rng.unit())); bool many = c.rng.chance(0.1); if (many) { n = (int) (c.rng.chance(0.4) ? c.rng.range(5500, 9000) : c.rng.range(11500, 13500)); dom = n * 16; weird = false; } // more terms than fit in the buffers between the loader's threads
    st.lo = loadOpts(c.rng); if (many) { st.lo.sample = false; st.lo.nindices = 6; st.lo.aggr = false; } st.lo.threads = c.rng.chance(0.9) ? (int) c.rng.range(2, 8) : 1; st.makeInput(n, weird, std::max(1, dom / 2), (int) c.rng.range(1, 6), std::max(1, dom));
    PhaseCfg p = calm(); c.randomSched(p); if (n > 200 && p.preemptPeriod && p.preemptPeriod < 500) p.preemptPeriod = 3000; if (many) { p.preemptPeriod = (int) c.rng.range(2000, 30000); if (c.rng.chance(0.75)) { p.strategy = 3; p.switchProb = c.rng.pick(std::vector<double>{0.05, 0.2, 0.5}); p.preemptPeriod = 0; } } p.hwThreads = (int) c.rng.range(1, 8); p.clockJumpProb = c.rng.chance(0.1) ? 0.05 : 0;
    PhaseResult r = st.load(p); c.expectOk(r, "S05/load"); if (st.lo.threads > 1) c.nontrivial(); c.observe(r.hash); st.verify(st.kb, 4, c.rng.chance(0.25), "verify");
}
SCENARIO("S05", "load-any-schedule", loadAnySchedule, 1);

// ---------------------------------------------------------------- S06
// opens a directory for reading; refusing is fine, a subset is not
static void openAfterCutLoad(Ctx &c, Store &st, const std::string &what) {
    std::string kbdir = st.kb, P = st.P; PhaseResult r = runPhase(calm(), [=]() { KBConfig cf; bool opened = false; try { KB kb(kbdir.c_str(), true, false, true, cf); opened = true; Querier *q = kb.query(); Model m = readAll(kb, q, P); payload("OPEN\n" + encModel(m)); delete q; } catch (...) { if (opened) throw; payload("REFUSED\n"); } });
    if (r.outcome == O_EXCEPTION || r.outcome == O_EXIT) { c.count("refused"); return; }
    if (!r.ok()) c.expectOk(r, P + "/open");
    if (r.payload.compare(0, 7, "REFUSED") == 0) { c.count("refused"); return; }
    Model got = decModel(r.payload.substr(5)); c.count("opened"); size_t miss = 0, extra = 0; for (auto &t : st.m) if (!got.count(t)) miss++; for (auto &t : got) if (!st.m.count(t)) extra++;
    if (miss || extra) c.violation(P + "/served-incomplete", what + ": the target directory opens and serves " + std::to_string(got.size()) + " of " + std::to_string(st.m.size()) + " triples (" + std::to_string(miss) + " missing, " + std::to_string(extra) + " invented)");
}
static void interruptedLoad(Ctx &c) {
    Store st(c, "S06"); bool weird = c.rng.chance(0.2); int n = (int) (c.rng.chance(0.85) ? c.rng.range(1, 60) : c.rng.range(60, 600)), dom = std::max(2, (int) (n * c.rng.unit())); st.lo = loadOpts(c.rng); st.makeInput(n, weird, std::max(1, dom / 2), (int) c.rng.range(1, 6), std::max(1, dom));
    PhaseCfg sch = calm(); if (c.rng.chance(0.4)) { c.randomSched(sch); if (sch.preemptPeriod && sch.preemptPeriod < 100) sch.preemptPeriod = 100; }
    PhaseResult dry = st.load(calm()); c.expectOk(dry, "S06/load"); int points = (int) c.rng.range(3, 8);
    for (int j = 0; j < points; ++j) {
        PhaseCfg p = sch; std::string d; drawCrash(c, p, dry, d); if (c.dropped(200 + j)) continue; rmTree(st.kb); c.note(d); PhaseResult r = st.load(p);
        if (r.outcome == O_CRASHED) { c.count("crashes"); c.nontrivial(); } else c.expectOk(r, "S06/load");
        if (fileExists(st.kb)) openAfterCutLoad(c, st, d);
        if (c.rng.chance(0.15)) { rmTree(st.kb); r = st.load(calm()); c.expectOk(r, "S06/load-again"); openAfterCutLoad(c, st, "load again"); }
    }
}
SCENARIO("S06", "interrupted-load", interruptedLoad, 1);

// ---------------------------------------------------------------- S22
static void drawIo(Ctx &c, PhaseCfg &p, const PhaseResult &dry, std::string &d) {
    static const int kinds[] = {F_ENOSPC, F_ENOSPC, F_EIO, F_SHORT, F_OPENFAIL, F_RENAMEFAIL, F_MKDIRFAIL, F_TRUNCFAIL, F_MMAPFAIL};
    if (c.rng.chance(0.7)) { p.faultAtOp = (int64_t) (c.rng.chance(0.3) ? dry.fileOps - 1 - c.rng.below(std::min<uint64_t>(dry.fileOps, 12)) : c.rng.below(dry.fileOps)); p.faultAtKind = kinds[c.rng.below(9)]; p.diskFullSticky = c.rng.chance(0.4); d = std::string("fault ") + faultName[p.faultAtKind] + " at file operation " + std::to_string(p.faultAtOp) + (p.diskFullSticky ? ", disk stays full" : ""); }
    else { p.fileFaultProb = c.rng.pick(std::vector<double>{0.005, 0.02, 0.1}); p.fileFaultMask = 0; for (int k : kinds) if (c.rng.chance(0.4)) p.fileFaultMask |= 1u << k; p.diskFullSticky = c.rng.chance(0.3); d = "random faults"; }
}
static void failingIo(Ctx &c) {
    Store st(c, "S22"); bool weird = c.rng.chance(0.3); Vocab ex = extraVocab(c, weird); int mode = (int) c.rng.below(4);
    if (mode == 3) { // load
        int n = (int) c.rng.range(1, 60), dom = std::max(2, (int) (n * c.rng.unit())); st.lo = loadOpts(c.rng); st.makeInput(n, weird, std::max(1, dom / 2), (int) c.rng.range(1, 6), std::max(1, dom)); PhaseResult dry = st.load(calm()); c.expectOk(dry, "S22/load");
        int points = (int) c.rng.range(2, 6);
        for (int j = 0; j < points; ++j) { PhaseCfg p = calm(); std::string d; drawIo(c, p, dry, d); if (c.dropped(200 + j)) continue; rmTree(st.kb); c.note(d); PhaseResult r = st.load(p); c.nontrivial(); if (r.ok()) { c.count("reported-success"); st.verify(st.kb, 0, false, "load-reported-success"); } else { if (r.outcome == O_HANG || r.outcome == O_STEPLIMIT || r.outcome == O_TIMEOUT) c.expectOk(r, "S22/load"); c.count("reported-failure"); openAfterCutLoad(c, st, d); } }
        return;
    }
    base(c, st, weird, 50); history(c, st, mode == 2 ? (int) c.rng.range(2, 5) : (int) c.rng.range(0, 3), &ex, 0.1, 0.0); st.verify(st.kb, 2, false, "verify");
    bool add = mode == 0 || c.rng.chance(0.4); std::vector<T3> ts; std::string ud; Model before = st.m, after = st.m;
    if (mode < 2) { ts = keepOps(c, st.drawUpdate(add, (int) c.rng.range(1, 15), &ex), 90); if (ts.empty()) return; st.apply(add, ts); after = st.m; st.m = before; ud = st.writeUpdate(ts); c.note(std::string(add ? "add " : "remove ") + std::to_string(ts.size())); } else c.note("merge");
    std::string bak = c.dir + "/bak"; copyTree(st.kb, bak); auto run = [&](PhaseCfg p) { return mode < 2 ? st.update(p, add, ud, st.kb) : st.merge(p, st.kb); };
    PhaseResult dry = run(calm()); c.expectOk(dry, "S22/operation"); if (!dry.fileOps) return; int points = (int) c.rng.range(2, 6); std::map<std::string, int64_t> known = st.known;
    for (int j = 0; j < points; ++j) {
        PhaseCfg p = calm(); std::string d; drawIo(c, p, dry, d); uint64_t s2 = c.rng.next(); Rng sub(s2); if (c.dropped(200 + j)) continue; rmTree(st.kb); copyTree(bak, st.kb); st.m = before; st.known = known; c.note(d); PhaseResult r = run(p); c.nontrivial(); if (r.outcome == O_HANG || r.outcome == O_STEPLIMIT || r.outcome == O_TIMEOUT) c.expectOk(r, "S22/operation");
        bool done = settle(c, st, before, after, d + (r.ok() ? " (success reported)" : " (failure reported)")); c.count(r.ok() ? "reported-success" : "reported-failure"); if (r.ok() && !done && !(before == after)) c.violation("S22/lost-update", d + ": the operation reported success but the reopened store does not hold the update");
        st.verify(st.kb, 2, false, "verify-after-fault");
        if (sub.chance(0.4)) { r = run(calm()); c.expectOk(r, "S22/retry"); st.m = after; st.verify(st.kb, 2, false, "verify-after-retry"); }
    }
}
SCENARIO("S22", "failing-io", failingIo, 1);
