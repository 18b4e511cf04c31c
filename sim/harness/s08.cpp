// S08: the string store (StringBuffer with its background compression thread) against a list of strings.
#include "simrt.h"
#include <trident/tree/stringbuffer.h>
#include <trident/kb/consts.h>
#include <trident/kb/statistics.h>
#include <cstring>
#include <memory>
using namespace sim;

namespace {
struct Gen {
    Rng g; int profile; std::vector<std::string> bases; std::string last;
    Gen(uint64_t s, int p) : g(s), profile(p) { for (int i = 0; i < 6; ++i) bases.push_back(bytes(g.range(5, 60))); }
    std::string bytes(size_t n) { std::string s(n, 0); int k = (int) g.below(4); char c = (char) g.below(256); for (auto &x : s) x = k == 0 ? (char) g.below(256) : k == 1 ? (char) ('a' + g.below(26)) : k == 2 ? c : (char) ('a' + g.below(2)); return s; }
    // strings of the size classes that matter: tiny, sharing a prefix with the previous one, long, and just as long as what is left of the 64 kB block
    std::string next(int64_t pos) {
        int64_t left = SB_BLOCK_SIZE - pos % SB_BLOCK_SIZE; std::string s; double r = g.unit();
        if (profile == 1 && r < 0.7) s = bytes(g.range(1000, 32000));
        else if (profile == 2 && r < 0.5 && left < 33000) { int64_t n = left - g.range(0, 16) + (g.chance(0.3) ? g.range(0, 16) : 0); s = bytes(n < 0 ? g.below(20) : n > 32767 ? 32767 : n); }
        else if (profile == 2 && r < 0.8) s = bytes(g.range(8000, 30000));
        else if (r < 0.35) { s = last; if (s.size() > 3000) s.resize(g.range(1, 3000)); if (s.size() > 1 && g.chance(0.7)) s.resize(g.range(1, s.size())); s += bytes(g.below(20)); }
        else if (r < 0.6) s = g.pick(bases) + bytes(g.below(30));
        else if (r < 0.63) s = "";
        else if (r < 0.9) s = bytes(g.below(60));
        else if (r < 0.98) s = bytes(g.range(100, 3000));
        else s = bytes(g.range(3000, 32700));
        if (s.size() > 32767) s.resize(32767);
        last = s; return s;
    }
};
int sgn(int x) { return x < 0 ? -1 : x > 0; }
int refcmp(const std::string &a, const std::string &b) { return sgn(a.compare(b)); }  // char_traits<char> compares as unsigned bytes
std::string probe(Gen &g, const std::vector<std::string> &all, size_t i) {
    double r = g.g.unit(); std::string s = all[i];
    if (r < 0.25) return s;
    if (r < 0.4) return all[g.g.below(all.size())];
    if (r < 0.55) { s.resize(g.g.below(s.size() + 1)); return s; }
    if (r < 0.7) { std::string t = s + g.bytes(1 + g.g.below(3)); return t.size() > 32767 ? s : t; }
    if (r < 0.9 && s.size()) { s[g.g.below(s.size())] ^= (char) (1 << g.g.below(8)); return s; }
    return g.bytes(g.g.below(40));
}
std::string show(const std::string &s) { char b[64]; snprintf(b, sizeof b, "%zu bytes hash %016llx", s.size(), (unsigned long long) hashStr(s)); return b; }
void readCheck(StringBuffer &sb, const std::vector<std::string> &all, const std::vector<int64_t> &pos, size_t i, Gen &g, const char *when) {
    static char out[40000]; int n = -1; std::string got;
    if (g.g.chance(0.5)) { sb.get(pos[i], out, n); got.assign(out, n < 0 ? 0 : n > 39999 ? 39999 : n); }
    else if (all[i].size() < 32767) { char *p = sb.get(pos[i], n); if (n >= 0 && n < 40000) got.assign(p, n); check(p[n] == 0, "S08/terminator", "returned string is not zero terminated"); }
    else { sb.get(pos[i], out, n); got.assign(out, n < 0 ? 0 : n > 39999 ? 39999 : n); }
    if (got != all[i]) fail("S08/read", std::string(when) + ": string " + std::to_string(i) + " at position " + std::to_string(pos[i]) + " of " + std::to_string(all.size()) + " reads " + show(got) + ", appended " + show(all[i]));
}
void cmpCheck(StringBuffer &sb, const std::vector<std::string> &all, const std::vector<int64_t> &pos, size_t i, Gen &g, const char *when) {
    std::string q = probe(g, all, i); std::vector<char> b(q.begin(), q.end()); b.push_back(0);
    int r = sb.cmp(pos[i], b.data(), (int) q.size());
    if (sgn(r) != refcmp(all[i], q)) fail("S08/cmp", std::string(when) + ": comparing string " + std::to_string(i) + " (" + show(all[i]) + ") with " + show(q) + " gives " + std::to_string(r) + ", expected sign " + std::to_string(refcmp(all[i], q)));
}

void run(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 400000000; p.realTimeout = 120;
    if (p.preemptPeriod && p.preemptPeriod < 300) p.preemptPeriod = 300;
    int profile = (int) c.rng.below(4); int nops = (int) (profile == 1 || profile == 2 ? c.rng.range(1, 70) : c.rng.chance(0.3) ? c.rng.range(0, 5000) : c.rng.range(0, 300)); if (c.thorough) nops *= 2;
    int factory = (int) c.rng.range(1, 12); int64_t cache = c.rng.chance(0.7) ? c.rng.range(1, 6 * 65536) : c.rng.range(6, 40) * 65536; double pread = c.rng.chance(0.5) ? 0.3 : 0.02; int exact = (int) c.rng.below(3); uint64_t s = c.rng.next(), s2 = c.rng.next();
    // exact 1: fill the store up to a multiple of the block size at the end; 2: leave an empty string as the last thing of a block
    c.note("string store: profile=" + std::to_string(profile) + " appends=" + std::to_string(nops) + " factory=" + std::to_string(factory) + " cache=" + std::to_string(cache) + " readsWhileWriting=" + std::to_string(pread) + " end=" + std::to_string(exact));
    if (nops > 0) c.nontrivial();
    std::string dir = c.dir + "/sb"; mkdirs(dir);
    std::vector<int> keep; for (int i = 0; i < nops; ++i) if (!c.dropped(i)) keep.push_back(i);
    bool checkAfter = c.rng.chance(0.5);
    PhaseResult r = runPhase(p, [&]() {
        setRoot(dir); Gen g(s, profile); std::vector<std::string> all; std::vector<int64_t> pos; Stats st;
        StringBuffer *sb = new StringBuffer(dir, false, factory, cache, &st);
        auto add = [&](const std::string &str) { std::vector<char> b(str.begin(), str.end()); b.push_back(0); pos.push_back(sb->getSize()); all.push_back(str); sb->append(b.data(), (int) str.size()); };
        size_t k = 0;
        for (int i = 0; i < nops; ++i) {
            std::string str; { Paused pp; str = g.next(sb->getSize()); }
            if (k >= keep.size() || keep[k] != i) continue; k++;
            add(str);
            while (g.g.chance(pread)) { size_t j = g.g.chance(0.5) ? all.size() - 1 - g.g.below(all.size() < 8 ? all.size() : 8) : g.g.below(all.size()); if (g.g.chance(0.6)) readCheck(*sb, all, pos, j, g, "while writing"); else cmpCheck(*sb, all, pos, j, g, "while writing"); }
        }
        if (exact && keep.size()) {
            int64_t left = SB_BLOCK_SIZE - sb->getSize() % SB_BLOCK_SIZE;
            while (left > 30000) { add(g.bytes(20000)); left = SB_BLOCK_SIZE - sb->getSize() % SB_BLOCK_SIZE; }
            // an entry takes a length of 1 to 3 bytes, a flag and the bytes
            for (int64_t h = 2; h <= 4 && left >= 2; ++h) { int64_t n = left - h; if (n < 0) continue; int64_t vint = n < 128 ? 1 : n < 16384 ? 2 : 3; if (vint + 1 != h) continue; std::string q = g.bytes(n); if (exact == 2 && n > 6) { q.resize(n - 2); } if (q.size()) q[0] = (char) (g.last.size() ? ~g.last[0] : 1); add(q); if (exact == 2) add(""); break; }
        }
        if (checkAfter) for (size_t i = 0; i < all.size(); ++i) { if (all.size() > 400 && g.g.chance(0.8)) continue; readCheck(*sb, all, pos, i, g, "after writing"); }
        int64_t total = sb->getSize();
        delete sb;
        check(aliveThreads() == 1, "S08/thread-left", "the compression thread is still running after the store was closed");
        Paused pp; std::string out; for (size_t i = 0; i < all.size(); ++i) { uint32_t n = (uint32_t) all[i].size(); out.append((char *) &pos[i], 8); out.append((char *) &n, 4); out += all[i]; }
        writeFile(c.dir + "/model", out); observe(total);
    });
    c.expectOk(r, "S08/write");
    std::vector<std::string> all; std::vector<int64_t> pos; std::string m = readFile(c.dir + "/model");
    for (size_t o = 0; o < m.size();) { int64_t q; uint32_t n; memcpy(&q, &m[o], 8); memcpy(&n, &m[o + 8], 4); pos.push_back(q); all.push_back(m.substr(o + 12, n)); o += 12 + n; }
    c.count("strings", all.size()); c.count("blocks", all.size() ? pos.back() / SB_BLOCK_SIZE + 1 : 0);
    PhaseCfg p2; p2.maxSteps = 400000000; p2.realTimeout = 120; int64_t cache2 = c.rng.chance(0.6) ? 1 : c.rng.range(6, 40) * 65536; int order = (int) c.rng.below(3);
    PhaseResult r2 = runPhase(p2, [&]() {
        setRoot(dir); Gen g(s2, profile); Stats st; StringBuffer sb(dir, true, factory, cache2, &st);
        for (size_t i = 0; i < all.size(); ++i) { size_t j = order == 0 ? i : order == 1 ? all.size() - 1 - i : g.g.below(all.size()); if (all.size() > 1000 && g.g.chance(0.6)) continue; readCheck(sb, all, pos, j, g, "after reopening"); if (g.g.chance(0.3)) cmpCheck(sb, all, pos, g.g.below(all.size()), g, "after reopening"); }
        if (all.size()) readCheck(sb, all, pos, all.size() - 1, g, "after reopening");
    });
    c.expectOk(r2, "S08/reopen");
}
}
SCENARIO("S08", "store", run, 1);
