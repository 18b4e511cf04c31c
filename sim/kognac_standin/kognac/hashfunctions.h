#ifndef KS_HASHF_H
#define KS_HASHF_H
#include <stdint.h>
#include <stddef.h>
#include <string>
class Hashes {
public:
    static int64_t getCodeWithDefaultFunction(const char *t, int l) { return fnv(t, l); }
    static int64_t fnv(const char *t, size_t l) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < l; ++i) { h ^= (unsigned char) t[i]; h *= 1099511628211ULL; } return (int64_t) h; }
    static int64_t murmur3_56(const char *t, int l) { return fnv(t, l) & 0xFFFFFFFFFFFFFFLL; }
    static int dbj2s_56(const char *t, int l) { return (int) fnv(t, l); }
};
#endif
