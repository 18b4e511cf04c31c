#ifndef KS_FILEMERGER_H
#define KS_FILEMERGER_H
#include <kognac/lz4io.h>
#include <kognac/triple.h>
#include <memory>
#include <vector>
template<class K> class FileMerger {
    struct S { std::string base; int part; bool multi, done, del; std::string cur; std::unique_ptr<LZ4Reader> r; K el; };
    std::vector<S> ss;
    bool open(S &s) { for (;;) {
            if (s.r && !s.r->isEof()) return true;
            if (s.r) { s.r.reset(); if (s.del && s.multi) Utils::remove(s.cur); }
            if (s.part < 0) { if (Utils::exists(s.base) && !Utils::isDirectory(s.base)) { s.cur = s.base; s.part = 1 << 30; s.multi = false; } else { s.part = 0; s.multi = true; continue; } }
            else if (s.part >= (1 << 30)) { if (s.part > (1 << 30)) return false; s.part++; return false; }
            else { s.cur = s.base + "." + std::to_string(s.part++); if (!Utils::exists(s.cur)) return false; }
            s.r.reset(new LZ4Reader(s.cur)); } }
    void next(S &s) { if (open(s)) s.el.readFrom(s.r.get()); else s.done = true; }
public:
    FileMerger(std::vector<std::string> f, bool = false, bool del = false) { ss.resize(f.size()); for (size_t i = 0; i < f.size(); ++i) { S &s = ss[i]; s.base = f[i]; s.part = -1; s.done = false; s.del = del; s.multi = false; next(s); } }
    bool isEmpty() { for (size_t i = 0; i < ss.size(); ++i) if (!ss[i].done) return false; return true; }
    K get() { int b = -1; for (size_t i = 0; i < ss.size(); ++i) if (!ss[i].done && (b < 0 || ss[b].el.greater(ss[i].el))) b = (int) i; if (b < 0) throw 10; K r = ss[b].el; next(ss[b]); return r; }
};
template<int N, class K> class FastFileMerger : public FileMerger<K> { public: FastFileMerger(std::vector<std::string> f, bool a = false, bool b = false): FileMerger<K>(f, a, b) {} };
#endif
