#ifndef KS_MDLZ4R_H
#define KS_MDLZ4R_H
#include <kognac/lz4io.h>
#include <memory>
class MultiDiskLZ4Reader {
    struct P { std::vector<std::string> f; size_t next; std::unique_ptr<LZ4Reader> r; P(): next(0) {} };
    std::vector<P> parts;
    bool adv(P &p) { while (!p.r || p.r->isEof()) { if (p.next >= p.f.size()) return false; p.r.reset(new LZ4Reader(p.f[p.next++])); } return true; }
public:
    MultiDiskLZ4Reader(int n, int, int): parts(n) {}
    void start() {}
    void stop() {}
    void addInput(int i, std::vector<std::string> &f) { parts.at(i).f = f; }
    bool isEOF(int i) { return !adv(parts.at(i)); }
    bool isEof(int i) { return isEOF(i); }
    bool isOpened(int i) { return !parts.at(i).f.empty(); }
    int64_t readLong(int i) { if (!adv(parts.at(i))) throw 10; return parts[i].r->parseLong(); }
    int64_t readVLong(int i) { if (!adv(parts.at(i))) throw 10; return parts[i].r->parseVLong(); }
    char readByte(int i) { if (!adv(parts.at(i))) throw 10; return parts[i].r->parseByte(); }
    const char *readString(int i, int &n) { if (!adv(parts.at(i))) throw 10; return parts[i].r->parseString(n); }
};
#endif
