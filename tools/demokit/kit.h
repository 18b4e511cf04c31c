// Small driver around the real store for the demonstrations: every step runs in a child process with only the disk in common.
#pragma once
#include <trident/loader.h>
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/updater.h>
#include <trident/kb/kbconfig.h>
#include <set>
#include <map>
#include <array>
#include <vector>
#include <string>
#include <fstream>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <stdlib.h>
#include <stdio.h>
typedef std::array<std::string, 3> T;
typedef std::set<T> Set;
extern volatile long kit_ops, kit_crash_at, kit_fail_at; extern volatile bool kit_armed;
inline std::string num(long i) { return std::to_string(i); }
inline T tr(std::string s, std::string p, std::string o) { T t = {{s, p, o}}; return t; }
struct Kit {
    std::string dir, kb, in; int n = 0;
    Kit() { char b[] = "/tmp/vpdemoXXXXXX"; if (!mkdtemp(b)) abort(); dir = b; kb = dir + "/kb"; in = dir + "/in"; }
    ~Kit() { if (dir.compare(0, 12, "/tmp/vpdemo") >= 0 && dir.size() > 12) { std::string c = "rm -rf " + dir; if (system(c.c_str())) {} } }
    // runs f in a child; returns the exit status (0 ok, 77 simulated crash, 1 exception, >=128 signal)
    static int run(std::function<void()> f, int seconds = 60) {
        fflush(NULL); pid_t p = fork(); if (p == 0) { alarm(seconds); int rc = 0; try { f(); } catch (...) { rc = 1; } kit_armed = false; _exit(rc); }
        int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    }
    void file(std::string d, const std::vector<T> &ts) { if (system(("mkdir -p " + d).c_str())) {} std::ofstream o(d + "/f.nt"); for (auto &t : ts) o << t[0] << " " << t[1] << " " << t[2] << " .\n"; }
    int load(const std::vector<T> &ts, std::function<void(ParamsLoad &)> tweak = nullptr) {
        file(in, ts); std::string i = in, k = kb;
        return run([=]() { ParamsLoad p; p.triplesInputDir = i; p.tmpDir = k; p.kbDir = k; p.parallelThreads = 2; p.maxReadingThreads = 1; p.dictionaries = 1; p.nindices = 6; p.sample = false; if (tweak) tweak(p); Loader l; l.load(p); });
    }
    int update(bool add, const std::vector<T> &ts, long crashAt = -1, long failAt = -1) {
        std::string d = dir + "/u" + num(n++), k = kb; file(d, ts);
        return run([=]() { kit_crash_at = crashAt; kit_fail_at = failAt; kit_ops = 0; kit_armed = crashAt >= 0 || failAt >= 0; Updater u; u.creatediffupdate(add ? DiffIndex::TypeUpdate::ADDITION_df : DiffIndex::TypeUpdate::DELETE_df, k, d); kit_armed = false; });
    }
    int merge(long crashAt = -1) { std::string k = kb; return run([=]() { kit_crash_at = crashAt; kit_ops = 0; kit_armed = crashAt >= 0; { KBConfig c; KB kb(k.c_str(), true, false, true, c); kb.mergeUpdates(); } kit_armed = false; }); }
    int with(std::function<void(KB &, Querier *)> f) { std::string k = kb; return run([=]() { KBConfig c; KB kb(k.c_str(), true, false, true, c); Querier *q = kb.query(); f(kb, q); delete q; }); }
    static int64_t id(KB &kb, std::string s) { nTerm v; return kb.getDictMgmt()->getNumber(s.c_str(), s.size(), &v) ? (int64_t) v : -1; }
    static std::string text(KB &kb, int64_t v) { std::string s; if (!kb.getDictMgmt()->getText(v, s)) return "?" + num(v); return s; }
    // does the store hold exactly these triples (full scan of an order)? 0 yes
    int expect(const Set &want, int idx = IDX_SPO, bool quiet = false) {
        static const int ORD[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}, {1, 0, 2}};
        return with([&](KB &kb, Querier *q) { Set got; PairItr *it = q->getIterator(idx, -1, -1, -1); long n = 0; while (it->hasNext()) { it->next(); ++n; int64_t v[3] = {it->getKey(), it->getValue1(), it->getValue2()}; T t; for (int k = 0; k < 3; ++k) t[ORD[idx][k]] = text(kb, v[k]); got.insert(t); }
            if (got != want || n != (long) want.size()) { if (!quiet) { fprintf(stderr, "store holds %ld triples (%zu distinct), expected %zu\n", n, got.size(), want.size()); for (auto &t : want) if (!got.count(t)) { fprintf(stderr, "missing: %s %s %s\n", t[0].c_str(), t[1].c_str(), t[2].c_str()); break; } } _exit(3); } });
    }
};
#define CHECK(x, what) do { int rc_ = (x); if (rc_) { fprintf(stderr, "DEMO FAILS: %s (%d)\n", what, rc_); return 1; } } while (0)
