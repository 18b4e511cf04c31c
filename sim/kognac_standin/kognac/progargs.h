#ifndef KS_PROGARGS_H
#define KS_PROGARGS_H
#include <kognac/utils.h>
#include <map>
class ProgramArgs { public:
    struct V { std::string v; bool set; V(): set(false) {} template<class T> T as() const { return Utils::lexical_cast<T>(v); } bool empty() const { return !set; } };
    std::map<std::string, V> m; V &operator[](std::string k) { return m[k]; } size_t count(std::string k) { return m.count(k) && m[k].set; } };
template<> inline std::string ProgramArgs::V::as<std::string>() const { return v; }
#endif
