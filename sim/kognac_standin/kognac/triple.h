#ifndef KS_TRIPLE_H
#define KS_TRIPLE_H
#include <kognac/lz4io.h>
#include <kognac/multidisklz4reader.h>
#include <kognac/multidisklz4writer.h>
typedef struct Triple {
    int64_t s, p, o, count;
    Triple(int64_t s, int64_t p, int64_t o): s(s), p(p), o(o), count(0) {}
    Triple(): s(0), p(0), o(0), count(0) {}
    bool less(const Triple &t) const { if (s != t.s) return s < t.s; if (p != t.p) return p < t.p; return o < t.o; }
    bool greater(const Triple &t) const { return t.less(*this); }
    static bool sLess(const Triple &a, const Triple &b) { return a.less(b); }
    void readFrom(LZ4Reader *r) { s = r->parseLong(); p = r->parseLong(); o = r->parseLong(); count = r->parseLong(); }
    void readFrom(int i, MultiDiskLZ4Reader *r) { s = r->readLong(i); p = r->readLong(i); o = r->readLong(i); count = r->readLong(i); }
    void writeTo(LZ4Writer *w) { w->writeLong(s); w->writeLong(p); w->writeLong(o); w->writeLong(count); }
    void writeTo(int i, DiskLZ4Writer *w) { w->writeLong(i, s); w->writeLong(i, p); w->writeLong(i, o); w->writeLong(i, count); }
    std::string toString() const { return std::to_string(s) + " " + std::to_string(p) + " " + std::to_string(o); }
} Triple;
#include <kognac/triplewriters.h>
#endif
