// Stand-in: same API, uncompressed bytes on disk (the codec itself is KOGNAC's, not trident's).
#ifndef KS_LZ4IO_H
#define KS_LZ4IO_H
#include <kognac/utils.h>
#include <fstream>
#include <string>
#include <vector>
#include <lz4.h>
class LZ4Writer {
    std::ofstream os; std::string path;
public:
    LZ4Writer(std::string p): os(p, std::ios::binary | std::ios::trunc), path(p) { if (!os.good()) throw 10; }
    void writeByte(char c) { os.put(c); }
    void writeLong(int64_t n) { char b[8]; Utils::encode_long(b, n); os.write(b, 8); }
    void writeVLong(int64_t n) { char b[16]; int l = Utils::encode_vlong2(b, 0, n); os.write(b, l); }
    void writeString(const char *s, int n) { writeVLong(n); os.write(s, n); }
    void writeRawArray(const char *s, int n) { os.write(s, n); }
    ~LZ4Writer() { os.close(); if (!os) { LOG(ERRORL) << "error writing " << path; throw 10; } }
};
class LZ4Reader {
    std::string d; size_t pos;
    void need(size_t n) { if (pos + n > d.size()) throw 10; }
public:
    LZ4Reader(std::string p): pos(0) { std::ifstream is(p, std::ios::binary); if (!is.good()) throw 10; std::ostringstream o; o << is.rdbuf(); d = o.str(); }
    bool isEof() { return pos >= d.size(); }
    char parseByte() { need(1); return d[pos++]; }
    int64_t parseLong() { need(8); int64_t r = Utils::decode_long(&d[pos]); pos += 8; return r; }
    int64_t parseVLong() { need(1); return Utils::decode_vlong2(d.data(), &pos); }
    int parseInt() { return (int) parseVLong(); }
    const char *parseString(int &n) { n = (int) parseVLong(); need(n); const char *r = d.data() + pos; pos += n; return r; }
};
#endif
