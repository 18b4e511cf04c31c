#ifndef KS_HASHMAP_H
#define KS_HASHMAP_H
#include <kognac/utils.h>
#include <kognac/hashfunctions.h>
#include <sparsehash/dense_hash_map>
#include <string.h>
extern char KS_EMPTY[2], KS_DELETED[2];
#define EMPTY_KEY ((const char*) KS_EMPTY)
#define DELETED_KEY ((const char*) KS_DELETED)
struct hashstr { size_t operator()(const char *v) const { if (v == EMPTY_KEY || v == DELETED_KEY) return 0; return (size_t) Hashes::fnv(v + 2, (unsigned short) Utils::decode_short(v)); } };
struct eqstr { bool operator()(const char *a, const char *b) const {
    if (a == b) return true; if (a == EMPTY_KEY || b == EMPTY_KEY || a == DELETED_KEY || b == DELETED_KEY) return false;
    int la = Utils::decode_short(a), lb = Utils::decode_short(b); return la == lb && !memcmp(a + 2, b + 2, la); } };
typedef google::dense_hash_map<const char *, nTerm, hashstr, eqstr> ByteArrayToNumberMap;
#endif
