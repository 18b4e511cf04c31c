#ifndef KS_SORTER_H
#define KS_SORTER_H
#include <kognac/lz4io.h>
#include <kognac/triple.h>
#include <algorithm>
class Sorter { public:
    template<class K> static std::vector<std::string> sortFiles(std::vector<std::string> in, std::string prefix) {
        std::vector<K> v; for (size_t i = 0; i < in.size(); ++i) { LZ4Reader r(in[i]); while (!r.isEof()) { K k; k.readFrom(&r); v.push_back(k); } }
        std::stable_sort(v.begin(), v.end(), K::less); std::string o = prefix + ".sorted"; { LZ4Writer w(o); for (size_t i = 0; i < v.size(); ++i) v[i].writeTo(&w); }
        return std::vector<std::string>(1, o); } };
#endif
