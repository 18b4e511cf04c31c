// S09: paged, memory mapped file storage (FileManager, FileDescriptor, MemoryManager) against plain byte vectors.
#include "simrt.h"
#include <trident/files/filedescriptor.h>
#include <trident/files/filemanager.h>
#include <trident/utils/memorymgr.h>
#include <kognac/utils.h>
#include <cstring>
#include <memory>
#include <stdio.h>
using namespace sim;

namespace {
typedef FileManager<FileDescriptor, FileDescriptor> FM; typedef MemoryManager<FileDescriptor> MM;
struct Bytes { std::string b; std::vector<bool> known; void add(const std::string &s) { b += s; known.resize(b.size(), true); } void reserve(size_t n) { b.append(n, 0); known.resize(b.size(), false); } };
struct Store { std::vector<Bytes> f; Store() : f(1) {} };

uint64_t mapped(const std::string &dir) {   // bytes of storage files mapped right now
    std::string tail = dir.compare(0, 14, "/proc/self/cwd") == 0 ? dir.substr(14) : dir; Paused pp; FILE *fp = fopen("/proc/self/maps", "r"); if (!fp) return 0; char l[700]; uint64_t n = 0; while (fgets(l, sizeof l, fp)) if (strstr(l, tail.c_str())) { unsigned long a, b; if (sscanf(l, "%lx-%lx", &a, &b) == 2) n += b - a; } fclose(fp); return n;
}
std::string rnd(Rng &g, size_t n) { std::string s(n, 0); uint64_t x = g.next(); for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char) (x >> 56); } return s; }
void same(const char *p, const Bytes &m, uint64_t off, uint64_t len, const std::string &what) {
    for (uint64_t i = 0; i < len; ++i) if (m.known[off + i] && p[i] != m.b[off + i]) fail("S09/read", what + ": byte " + std::to_string(off + i) + " of " + std::to_string(m.b.size()) + " is " + std::to_string((int) (unsigned char) p[i]) + ", written " + std::to_string((int) (unsigned char) m.b[off + i]));
}
struct Pin { int mgr, ses; bool on; short id; uint64_t off, len; const char *p; };

struct Scope { std::string dir; int managers, maxFiles, maxFilesR; uint64_t fileMax, budget, budgetR; int nops, nopsR, sessions; bool big, reopenWrite; uint64_t s, s2, s3; std::vector<int> keep, keepR; };

struct Sys {
    const Scope &sc; std::unique_ptr<MM> mm; std::vector<FM *> fm; std::vector<Store> &st; std::vector<Pin> pins; bool ro; uint64_t largest;
    Sys(const Scope &sc, std::vector<Store> &st, bool ro) : sc(sc), mm(new MM(ro ? sc.budgetR : sc.budget)), st(st), ro(ro), largest(0) {
        for (int i = 0; i < sc.managers; ++i) { FM *m = (FM *) malloc(sizeof(FM)); new (m) FM(sc.dir + "/" + std::to_string(i), ro, sc.fileMax, ro ? sc.maxFilesR : sc.maxFiles, (int) st[i].f.size() - 1, mm.get(), NULL); fm.push_back(m); }
    }
    void close() { for (auto &p : pins) if (p.ses >= 0) fm[p.mgr]->closeSession(p.ses); pins.clear(); for (auto m : fm) { m->~FM(); free(m); } fm.clear(); mm.reset(); }
    void read(int g, short id, Rng &r, const char *when) {
        Bytes &m = st[g].f[id]; if (m.b.empty()) return; uint64_t off = r.below(m.b.size()), len = r.chance(0.1) ? m.b.size() * 2 : 1 + r.below(r.chance(0.5) ? 20 : 3000), want = std::min<uint64_t>(len, m.b.size() - off), got = len;
        char *p = fm[g]->getBuffer(id, off, &got); if (got != want) fail("S09/length", std::string(when) + ": asked for " + std::to_string(len) + " bytes at " + std::to_string(off) + " of file " + std::to_string(id) + " with " + std::to_string(m.b.size()) + " bytes, offered " + std::to_string(got));
        same(p, m, off, got, std::string(when) + ": storage " + std::to_string(g) + " file " + std::to_string(id));
    }
    void pin(Pin &p, short id, Rng &r) {
        Bytes &m = st[p.mgr].f[id]; if (m.b.empty()) return; uint64_t off = r.below(m.b.size()), len = 1 + r.below(2000), got = len; char *b = fm[p.mgr]->getBuffer(id, off, &got, p.ses);
        p.on = true; p.id = id; p.off = off; p.len = got; p.p = b; check(got == std::min<uint64_t>(len, m.b.size() - off), "S09/length", "pinned region has the wrong length");
    }
    void pinsHold() { for (auto &p : pins) if (p.on) same(p.p, st[p.mgr].f[p.id], p.off, p.len, "pinned region of storage " + std::to_string(p.mgr) + " file " + std::to_string(p.id)); }
    void sizes(int g, short id) { uint64_t n = fm[g]->sizeFile(id); if (n != st[g].f[id].b.size()) fail("S09/size", "file " + std::to_string(id) + " reports " + std::to_string(n) + " bytes, written " + std::to_string(st[g].f[id].b.size())); }
};
void budgetCheck(Sys &s, uint64_t budget, Rng &g, const std::string &dir) {
    // all pins released: the next load must bring what is mapped back under the budget (apart from the file just loaded)
    for (auto &p : s.pins) { s.fm[p.mgr]->closeSession(p.ses); p.ses = -1; p.on = false; } s.pins.clear();
    size_t total = 0; for (auto &t : s.st) total += t.f.size();
    for (size_t k = 0; k < total + 2; ++k) { int m = (int) g.below(s.st.size()); short id = (short) g.below(s.st[m].f.size()); s.read(m, id, g, "after releasing"); }
    FM probe(dir + "/probe", true, 1000, 10, 0, s.mm.get(), NULL); uint64_t pl = 4; char *pp = probe.getBuffer(0, 0, &pl); check(pl == 4 && !memcmp(pp, "prob", 4), "S09/read", "wrong bytes in a file nobody used before");
    uint64_t inuse = mapped(dir), pages = 4096 * (total + 2);
    if (inuse > budget + pages) fail("S09/budget", std::to_string(inuse) + " bytes stay mapped with no pins left after another load, the budget is " + std::to_string(budget));
}
void writer(const Scope &sc, std::vector<Store> &st, bool real, uint64_t seed, const std::vector<int> &keep, int nops) {
    Sys *sys = real ? new Sys(sc, st, false) : NULL; Rng g(seed); size_t q = 0;
    for (int i = 0; i < nops; ++i) {
        Rng r(g.next()); bool skip = q >= keep.size() || keep[q] != i; if (skip) continue; q++;
        int m = (int) r.below(sc.managers); std::vector<Bytes> &fs = st[m].f; Bytes &f = fs.back(); FM *fm = sys ? sys->fm[m] : NULL; double x = r.unit(); char buf[16]; int64_t v = (int64_t) (r.next() >> r.range(8, 63));
        if (f.b.size() >= sc.fileMax && fs.size() < 40) { if (fm) { short id = fm->createNewFile(); check(id == (short) fs.size(), "S09/new-file", "new file has number " + std::to_string(id) + ", expected " + std::to_string(fs.size())); } fs.push_back(Bytes()); continue; }
        if (x < 0.3) { const uint64_t first = 1024 * 1024 + 1; std::string s = rnd(r, sc.big && f.b.size() + 1000 < first && r.chance(0.25) ? first - f.b.size() - r.below(16) : sc.big && r.chance(0.3) ? r.range(100000, 700000) : r.chance(0.3) ? r.range(500, 30000) : r.range(1, 200)); if (fm) { std::vector<char> c(s.begin(), s.end()); fm->append(c.data(), (int) s.size()); } f.add(s); }
        else if (x < 0.36) { int n = Utils::encode_vlong(buf, v); if (n > 8) continue; if (fm) { uint64_t e = fm->appendVLong(v); check(e == f.b.size() + n, "S09/offset", "append reports the wrong end of file"); } f.add(std::string(buf, n)); }
        else if (x < 0.42) { int n = Utils::encode_vlong2(buf, v); if (n > 8) continue; if (fm) { uint64_t e = fm->appendVLong2(v); check(e == f.b.size() + n, "S09/offset", "append reports the wrong end of file"); } f.add(std::string(buf, n)); }
        else if (x < 0.46) { Utils::encode_long(buf, 0, v); if (fm) fm->appendLong(v); f.add(std::string(buf, 8)); }
        else if (x < 0.5) { v &= 0x7fffffff; Utils::encode_int(buf, 0, (int) v); if (fm) fm->appendInt(v); f.add(std::string(buf, 4)); }
        else if (x < 0.54) { v &= 0x7fff; Utils::encode_short(buf, 0, (int) v); if (fm) fm->appendShort(v); f.add(std::string(buf, 2)); }
        else if (x < 0.6) { int nb = (int) r.range(1, 7); v &= (1ll << (nb * 8)) - 1; Utils::encode_longNBytes(buf, (uint8_t) nb, v); if (fm) fm->appendLong((uint8_t) nb, (uint64_t) v); f.add(std::string(buf, nb)); }
        else if (x < 0.64) { int n = (int) r.range(1, 60); if (fm) fm->reserveBytes((uint8_t) n); f.reserve(n); }
        else if (x < 0.7) { short id = (short) r.below(fs.size()); Bytes &t = fs[id]; if (t.b.empty()) continue; uint64_t pos = r.below(t.b.size()); char c = (char) r.below(256); if (fm) fm->overwriteAt(id, pos, c); t.b[pos] = c; t.known[pos] = true; }
        else if (x < 0.74) { short id = (short) r.below(fs.size()); Bytes &t = fs[id]; int n = Utils::encode_vlong2(buf, v); if (t.b.size() < (size_t) n) continue; uint64_t pos = r.below(t.b.size() - n + 1); if (fm) fm->overwriteVLong2At(id, pos, v); for (int k = 0; k < n; ++k) { t.b[pos + k] = buf[k]; t.known[pos + k] = true; } }
        else if (x < 0.77) { short id = (short) r.below(fs.size()); Bytes &t = fs[id]; if (t.b.empty()) continue; uint64_t pos = r.below(t.b.size()), d = r.range(1, r.chance(0.1) && sc.big ? 200000 : 2000); if (fm) fm->shiftRemainingFile(id, pos, d); t.b.insert(pos, d, 0); t.known.insert(t.known.begin() + pos, d, false); }
        else if (fm) {
            if (x < 0.9) sys->read(m, (short) r.below(fs.size()), r, "while writing"); else sys->sizes(m, (short) r.below(fs.size()));
        }
    }
    if (!sys) return;
    for (int m = 0; m < sc.managers; ++m) for (size_t i = 0; i < st[m].f.size(); ++i) sys->read(m, (short) i, g, "after writing");
    sys->close(); delete sys;
}
void reader(const Scope &sc, std::vector<Store> &st) {
    Sys s(sc, st, true); Rng g(sc.s3); size_t q = 0;
    for (int i = 0; i < sc.nopsR; ++i) {
        Rng r(g.next()); bool skip = q >= sc.keepR.size() || sc.keepR[q] != i; if (skip) continue; q++;
        int m = (int) r.below(sc.managers); short id = (short) r.below(st[m].f.size()); if (st[m].f[id].b.empty()) continue; double x = r.unit();
        if (x < 0.35) s.read(m, id, r, "after reopening");
        else if (x < 0.4) s.sizes(m, id);
        else if (x < 0.55 && (int) s.pins.size() < sc.sessions) { Pin p; memset(&p, 0, sizeof p); p.mgr = m; p.ses = s.fm[m]->newSession(); for (auto &o : s.pins) check(o.mgr != m || o.ses != p.ses, "S09/session-twice", "the same session was given out twice"); s.pins.push_back(p); s.pin(s.pins.back(), id, r); }
        else if (x < 0.85 && s.pins.size()) { Pin &p = s.pins[r.below(s.pins.size())]; short o = (short) r.below(st[p.mgr].f.size()); s.pin(p, o, r); }
        else if (s.pins.size()) { size_t k = r.below(s.pins.size()); s.fm[s.pins[k].mgr]->closeSession(s.pins[k].ses); s.pins.erase(s.pins.begin() + k); }
        s.pinsHold();
    }
    s.pinsHold(); if (st.size()) budgetCheck(s, sc.budgetR, g, sc.dir);
    s.close(); uint64_t left = mapped(sc.dir); check(left == 0, "S09/left-mapped", std::to_string(left) + " bytes stay mapped after everything was closed");
}
void run(Ctx &c) {
    Scope sc; sc.dir = c.dir + "/f"; sc.managers = (int) c.rng.range(1, 3); sc.maxFiles = c.rng.chance(0.5) ? (int) c.rng.range(1, 4) : 4096; sc.maxFilesR = c.rng.chance(0.5) ? (int) c.rng.range(1, 4) : 4096; sc.big = c.rng.chance(0.25);
    sc.fileMax = sc.big ? c.rng.range(200000, 3000000) : c.rng.range(50, 30000); sc.budget = c.rng.chance(0.4) ? c.rng.range(1, 2000000) : c.rng.range(1000000, 80000000); sc.budgetR = c.rng.chance(0.2) ? c.rng.range(1, 5000) : c.rng.chance(0.6) ? c.rng.range(1, (int64_t) sc.fileMax * 3) : c.rng.range(1, 80000000); sc.nops = (int) c.rng.range(1, sc.big ? 120 : 400); sc.nopsR = (int) c.rng.range(5, 300); sc.sessions = (int) c.rng.range(1, 12); sc.reopenWrite = c.rng.chance(0.3); sc.s = c.rng.next(); sc.s2 = c.rng.next(); sc.s3 = c.rng.next(); if (c.thorough) { sc.nops *= 2; sc.nopsR *= 2; }
    mkdirs(sc.dir + "/probe"); writeFile(sc.dir + "/probe/0", "probe"); for (int i = 0; i < sc.managers; ++i) mkdirs(sc.dir + "/" + std::to_string(i));
    for (int i = 0; i < sc.nops; ++i) if (!c.dropped(i)) sc.keep.push_back(i);
    for (int i = 0; i < sc.nopsR; ++i) if (!c.dropped(100000 + i)) sc.keepR.push_back(i);
    c.note("storages=" + std::to_string(sc.managers) + " maxFiles=" + std::to_string(sc.maxFiles) + "/" + std::to_string(sc.maxFilesR) + " fileMax=" + std::to_string(sc.fileMax) + " budget=" + std::to_string(sc.budget) + "/" + std::to_string(sc.budgetR) + " writes=" + std::to_string(sc.nops) + " reads=" + std::to_string(sc.nopsR) + " sessions=" + std::to_string(sc.sessions) + " reopenForWriting=" + std::to_string(sc.reopenWrite));
    c.nontrivial(); PhaseCfg p; p.maxSteps = 2000000000; p.realTimeout = 60;
    std::vector<Store> st(sc.managers);
    PhaseResult a = runPhase(p, [&]() { setRoot(sc.dir); std::vector<Store> mine(sc.managers); writer(sc, mine, true, sc.s, sc.keep, sc.nops); }); c.expectOk(a, "S09/write"); writer(sc, st, false, sc.s, sc.keep, sc.nops);
    // a last file nothing was written to is removed when it is closed: give it something to keep the model simple
    if (sc.reopenWrite) { for (auto &t : st) if (t.f.back().b.empty() && t.f.size() > 1) t.f.pop_back(); PhaseResult b = runPhase(p, [&]() { setRoot(sc.dir); std::vector<Store> mine = st; writer(sc, mine, true, sc.s2, sc.keep, sc.nops); }); c.expectOk(b, "S09/write-again"); writer(sc, st, false, sc.s2, sc.keep, sc.nops); }
    uint64_t n = 0, bytes = 0; for (auto &t : st) { while (t.f.size() > 1 && t.f.back().b.empty()) t.f.pop_back(); n += t.f.size(); for (auto &f : t.f) bytes += f.b.size(); } c.count("files", n); c.count("bytes", bytes);
    PhaseResult r = runPhase(p, [&]() { setRoot(sc.dir); std::vector<Store> mine = st; reader(sc, mine); }); c.expectOk(r, "S09/read");
}
}
SCENARIO("S09", "paged-files", run, 1);
