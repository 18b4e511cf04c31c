// Stand-in for zstr: gzip streams over zlib, plain pass-through on non-gzip input.
#ifndef KS_ZSTR_H
#define KS_ZSTR_H
#include <zlib.h>
#include <fstream>
#include <sstream>
#include <string>
namespace zstr {
inline std::string slurp(std::istream &is) { std::ostringstream o; o << is.rdbuf(); return o.str(); }
inline std::string inflate_all(const std::string &in) {
    if (in.size() < 2 || (unsigned char) in[0] != 0x1f || (unsigned char) in[1] != 0x8b) return in;
    z_stream z = z_stream(); if (inflateInit2(&z, 15 + 32) != Z_OK) throw 10; z.next_in = (Bytef*) in.data(); z.avail_in = (uInt) in.size();
    std::string out; char buf[65536]; int r;
    do { z.next_out = (Bytef*) buf; z.avail_out = sizeof buf; r = ::inflate(&z, Z_NO_FLUSH); out.append(buf, sizeof buf - z.avail_out); if (r == Z_STREAM_END && z.avail_in) { inflateReset(&z); r = Z_OK; } } while (r == Z_OK);
    inflateEnd(&z); return out; }
inline std::string deflate_all(const std::string &in) {
    z_stream z = z_stream(); if (deflateInit2(&z, 6, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) != Z_OK) throw 10; z.next_in = (Bytef*) in.data(); z.avail_in = (uInt) in.size();
    std::string out; char buf[65536]; int r; do { z.next_out = (Bytef*) buf; z.avail_out = sizeof buf; r = ::deflate(&z, Z_FINISH); out.append(buf, sizeof buf - z.avail_out); } while (r == Z_OK); deflateEnd(&z); return out; }
class istream : public std::istream { std::stringbuf b; public: istream(std::istream &is): std::istream(&b) { b.str(inflate_all(slurp(is))); } };
class ifstream : public std::istream { std::stringbuf b; public: ifstream(const std::string f, std::ios_base::openmode = std::ios_base::in): std::istream(&b) { std::ifstream is(f, std::ios::binary); if (!is.good()) setstate(std::ios::failbit); else b.str(inflate_all(slurp(is))); } void close() {} };
class ostream : public std::ostream { std::stringbuf b; std::ostream &o; public: ostream(std::ostream &o): std::ostream(&b), o(o) {} ~ostream() { std::string d = deflate_all(b.str()); o.write(d.data(), d.size()); o.flush(); } };
class ofstream : public std::ostream { std::stringbuf b; std::string f; bool done; public: ofstream(const std::string f, std::ios_base::openmode = std::ios_base::out): std::ostream(&b), f(f), done(false) { std::ofstream os(f, std::ios::binary); } void close() { if (done) return; done = true; std::ofstream os(f, std::ios::binary); std::string d = deflate_all(b.str()); os.write(d.data(), d.size()); os.close(); if (!os) throw 10; } ~ofstream() { close(); } };
}
#endif
