// Stand-in for the external KOGNAC library: byte coding and file helpers.
#ifndef KS_UTILS_H
#define KS_UTILS_H
#include <kognac/logs.h>
#include <kognac/consts.h>
#include <string>
#include <vector>
#include <sstream>
#include <stdint.h>
#include <typeinfo>
#include <stdexcept>
class Utils {
public:
    // ---- fixed width, big endian
    static void encode_long(char *b, int off, const int64_t n) { encode_long(b + off, n); }
    static void encode_long(char *b, const int64_t n) { for (int i = 0; i < 8; ++i) b[i] = (char)((uint64_t) n >> (56 - 8 * i)); }
    static int64_t decode_long(const char *b, int off) { return decode_long(b + off); }
    static int64_t decode_long(const char *b) { uint64_t r = 0; for (int i = 0; i < 8; ++i) r = (r << 8) | (unsigned char) b[i]; return (int64_t) r; }
    static void encode_int(char *b, int off, const int32_t n) { encode_int(b + off, n); }
    static void encode_int(char *b, const int32_t n) { for (int i = 0; i < 4; ++i) b[i] = (char)((uint32_t) n >> (24 - 8 * i)); }
    static int32_t decode_int(const char *b, int off) { return decode_int(b + off); }
    static int32_t decode_int(const char *b) { uint32_t r = 0; for (int i = 0; i < 4; ++i) r = (r << 8) | (unsigned char) b[i]; return (int32_t) r; }
    static void encode_short(char *b, int off, int n) { encode_short(b + off, n); }
    static void encode_short(char *b, int n) { b[0] = (char)((n >> 8) & 255); b[1] = (char)(n & 255); }
    static int16_t decode_short(const char *b, int off) { return decode_short(b + off); }
    static int16_t decode_short(const char *b) { return (int16_t)(((unsigned char) b[0] << 8) | (unsigned char) b[1]); }
    static void encode_longNBytes(char *b, const uint8_t nbytes, const uint64_t n) { for (int i = 0; i < nbytes; ++i) b[i] = (char)(n >> (8 * (nbytes - 1 - i))); }
    static uint64_t decode_longFixedBytes(const char *b, const uint8_t nbytes) { uint64_t r = 0; for (int i = 0; i < nbytes; ++i) r = (r << 8) | (unsigned char) b[i]; return r; }
    static uint8_t numBytesFixedLength(uint64_t n) { uint8_t c = 1; while (n > 255) { n >>= 8; ++c; } return c; }
    // ---- variable width: 3 bits of length, 5 + 8k bits of value
    static int numBytes(uint64_t n) { int c = 1; n >>= 5; while (n) { ++c; n >>= 8; } if (c > 8) throw 10; return c; }
    static int encode_vlong(char *b, const uint64_t n) { return encode_vlong(b, 0, n); }
    static uint16_t encode_vlong(char *b, int off, const uint64_t n) {
        int c = numBytes(n); b[off] = (char)(((c - 1) << 5) | (n & 31)); uint64_t m = n >> 5;
        for (int i = 1; i < c; ++i) { b[off + i] = (char)(m & 255); m >>= 8; } return (uint16_t)(off + c); }
    template<class O> static int64_t decode_vlong_t(const char *b, O *off) {
        const unsigned char *p = (const unsigned char*) b + *off; int c = (p[0] >> 5) + 1; uint64_t r = p[0] & 31;
        for (int i = 1; i < c; ++i) r |= (uint64_t) p[i] << (5 + 8 * (i - 1)); *off = (O)(*off + c); return (int64_t) r; }
    static int64_t decode_vlong(const char *b, int *off) { return decode_vlong_t(b, off); }
    // ---- variable width: 7 bits per byte
    static int numBytes2(uint64_t n) { int c = 1; while (n > 127) { n >>= 7; ++c; } return c; }
    static int encode_vlong2(char *b, const uint64_t n) { return encode_vlong2(b, 0, n); }
    static int encode_vlong2(char *b, int off, uint64_t n) {
        while (n > 127) { b[off++] = (char)((n & 127) | 128); n >>= 7; } b[off++] = (char) n; return off; }
    static void encode_vlong2_fixedLen(char *b, const uint64_t n, const uint8_t len) {
        uint64_t m = n; for (int i = 0; i < len; ++i) { unsigned char x = m & 127; m >>= 7; if (i + 1 < len) x |= 128; b[i] = (char) x; } if (m) throw 10; }
    template<class O> static int64_t decode_vlong2_t(const char *b, O *off) {
        uint64_t r = 0; int sh = 0; unsigned char x; O o = *off;
        do { x = (unsigned char) b[o++]; r |= (uint64_t)(x & 127) << sh; sh += 7; } while (x & 128); *off = o; return (int64_t) r; }
    static int64_t decode_vlong2(const char *b, int *off) { return decode_vlong2_t(b, off); }
    static int64_t decode_vlong2(const char *b, size_t *off) { return decode_vlong2_t(b, off); }
    static int64_t decode_vlong2(const char *b, int64_t *off) { return decode_vlong2_t(b, off); }
    static int encode_vint2(char *b, int off, const uint32_t n) { return encode_vlong2(b, off, n); }
    static int32_t decode_vint2(const char *b, int *off) { return (int32_t) decode_vlong2_t(b, off); }
    // ---- strings
    static bool starts_with(const std::string s, const std::string p) { return s.compare(0, p.size(), p) == 0; }
    static bool ends_with(const std::string s, const std::string p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
    static bool contains(const std::string s, const std::string p) { return s.find(p) != std::string::npos; }
    static int commonPrefix(const char *a, int sa, int ea, const char *b, int sb, int eb) { int l = 0; while (sa + l < ea && sb + l < eb && a[sa + l] == b[sb + l]) ++l; return l; }
    static int commonPrefix(const unsigned char *a, int sa, int ea, const unsigned char *b, int sb, int eb) { return commonPrefix((const char*) a, sa, ea, (const char*) b, sb, eb); }
    static int prefixEquals(const char *o1, int len1, const char *o2, int len2) { // 0 if o2 starts with o1, else sign
        int i = 0; for (; i < len1 && i < len2; ++i) if (o1[i] != o2[i]) return ((unsigned char) o1[i]) - ((unsigned char) o2[i]);
        if (i == len1) return 0; return 1; }
    static int prefixEquals(const char *o1, int len, const char *o2) { for (int i = 0; i < len; ++i) if (o1[i] != o2[i]) return ((unsigned char) o1[i]) - ((unsigned char) o2[i]); return 0; }
    template<class T> static T lexical_cast(const std::string &s) { std::istringstream is(s); T t; is >> t; if (is.fail()) throw std::invalid_argument("lexical_cast"); return t; }
    // ---- files
    static bool exists(std::string p);
    static bool isDirectory(std::string p);
    static bool isFile(std::string p);
    static bool isEmpty(std::string p);
    static bool isLink(std::string p);
    static uint64_t fileSize(std::string p);
    static std::vector<std::string> getFiles(std::string dir, bool ignoreExtension = false);
    static std::vector<std::string> getSubdirs(std::string dir);
    static std::vector<std::string> getFilesWithPrefix(std::string dir, std::string prefix);
    static std::vector<std::string> getFilesWithSuffix(std::string dir, std::string suffix);
    static bool hasExtension(const std::string &f);
    static std::string extension(const std::string &f);
    static std::string removeExtension(std::string f);
    static std::string removeLastExtension(std::string f) { return removeExtension(f); }
    static std::string filename(std::string p);
    static std::string parentDir(std::string p);
    static void create_directories(std::string p);
    static void remove(std::string p);
    static void remove_all(std::string p);
    static void rename(std::string a, std::string b);
    static void copy(std::string a, std::string b);
    static void resizeFile(std::string p, uint64_t n);
    static void linkdir(std::string a, std::string b);
    static void rmlink(std::string p);
    // ---- machine
    static int64_t getSystemMemory();
    static int64_t getUsedMemory() { return 100 * 1024 * 1024; }
    static int64_t get_max_mem() { return 100; }
    static int64_t getIOReadBytes() { return 0; }
    static int64_t getIOReadChars() { return 0; }
    static int getNumberPhysicalCores();
    static double getCPUUsage() { return 0; }
};
#endif
