#ifndef KS_FACTORY_H
#define KS_FACTORY_H
#include <kognac/logs.h>
#include <vector>
#include <cstdlib>
template<class T> class Factory {
    std::vector<T*> els;
public:
    T *get() { if (els.empty()) return new T(); T *e = els.back(); els.pop_back(); return e; }
    void release(T *e) { els.push_back(e); }
    ~Factory() { for (size_t i = 0; i < els.size(); ++i) delete els[i]; }
};
template<class T> class PreallocatedFactory {
    std::vector<T*> els; size_t maxSize; std::vector<T*> owned;
public:
    PreallocatedFactory(int maxSize, int) : maxSize(maxSize < 0 ? 0 : (size_t) maxSize) {}
    PreallocatedFactory(int maxSize) : maxSize(maxSize < 0 ? 0 : (size_t) maxSize) {}
    T *get() { if (els.empty()) return new T(); T *e = els.back(); els.pop_back(); return e; }
    void release(T *e) { if (els.size() < maxSize) els.push_back(e); else delete e; }
    ~PreallocatedFactory() { for (size_t i = 0; i < els.size(); ++i) delete els[i]; }
};
template<class T> class PreallocatedArraysFactory {
    std::vector<T*> els; size_t maxSize; int arraySize;
public:
    PreallocatedArraysFactory(int arraySize, int maxSize, int) : maxSize(maxSize < 0 ? 0 : (size_t) maxSize), arraySize(arraySize) {}
    PreallocatedArraysFactory(int arraySize, int maxSize) : maxSize(maxSize < 0 ? 0 : (size_t) maxSize), arraySize(arraySize) {}
    T *get() { if (els.empty()) return new T[arraySize](); T *e = els.back(); els.pop_back(); return e; }
    void release(T *e) { if (els.size() < maxSize) els.push_back(e); else delete[] e; }
    ~PreallocatedArraysFactory() { for (size_t i = 0; i < els.size(); ++i) delete[] els[i]; }
};
template<class T> class PreallocatedStratArraysFactory : public PreallocatedArraysFactory<T> {
public:
    PreallocatedStratArraysFactory(int a, int b, int c, int) : PreallocatedArraysFactory<T>(a, b, c) {}
    PreallocatedStratArraysFactory(int a, int b, int c) : PreallocatedArraysFactory<T>(a, b, c) {}
    PreallocatedStratArraysFactory(int a, int b) : PreallocatedArraysFactory<T>(a, b) {}
};
#endif
