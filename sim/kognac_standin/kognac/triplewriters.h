#ifndef KS_TRIPLEWRITERS_H
#define KS_TRIPLEWRITERS_H
#include <kognac/lz4io.h>
class TripleWriter { public:
    virtual void write(const int64_t s, const int64_t p, const int64_t o) = 0;
    virtual void write(const int64_t s, const int64_t p, const int64_t o, const int64_t count) = 0;
    virtual ~TripleWriter() {} };
class SimpleTripleWriter : public TripleWriter { LZ4Writer w; public:
    SimpleTripleWriter(std::string dir, std::string prefix, bool quad): w(dir + "/" + prefix + "0") { w.writeByte(quad ? 1 : 0); }
    void write(const int64_t s, const int64_t p, const int64_t o) { w.writeLong(s); w.writeLong(p); w.writeLong(o); }
    void write(const int64_t s, const int64_t p, const int64_t o, const int64_t c) { write(s, p, o); w.writeLong(c); } };
#endif
