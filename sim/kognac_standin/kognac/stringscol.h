#ifndef KS_STRINGSCOL_H
#define KS_STRINGSCOL_H
#include <vector>
#include <string.h>
class StringCollection {
    std::vector<char*> pool; const size_t seg; size_t idx, pos;
public:
    StringCollection(int s): seg(s < 16 ? 16 : s), idx(0), pos(0) {}
    const char *addNew(const char *t, int n) {
        if ((size_t) n > seg) { char *p = new char[n]; memcpy(p, t, n); pool.insert(pool.begin() , p); idx++; return p; }
        if (pool.empty() || idx >= pool.size()) { pool.push_back(new char[seg]); idx = pool.size() - 1; pos = 0; }
        if (pos + n > seg) { pool.push_back(new char[seg]); idx = pool.size() - 1; pos = 0; }
        char *d = pool[idx] + pos; memcpy(d, t, n); pos += n; return d; }
    void clear() { for (size_t i = 0; i < pool.size(); ++i) delete[] pool[i]; pool.clear(); idx = pos = 0; }
    ~StringCollection() { clear(); }
};
#endif
