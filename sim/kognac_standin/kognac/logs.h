// Stand-in for the external KOGNAC library (not part of /repo): logging.
#ifndef KS_LOGS_H
#define KS_LOGS_H
#include <sstream>
#include <iostream>
#include <string>
#define TRACEL 0
#define DEBUGL 1
#define INFOL 2
#define WARNL 3
#define ERRORL 4
#ifndef DDLEXPORT
#define DDLEXPORT
#endif
#ifndef DIR_SEP
#define DIR_SEP std::string("/")
#define CDIR_SEP '/'
#endif
#ifndef LIBEXP
#define LIBEXP
#endif
#ifndef VLIBEXP
#define VLIBEXP
#endif
class Logger {
    std::ostringstream os; int lvl;
public:
    Logger(int l): lvl(l) {}
    ~Logger() { if (lvl >= getMinLevel()) { std::string s = "[log] " + os.str() + "\n"; std::cerr << s; } }
    template<class T> Logger &operator<<(const T &v) { if (lvl >= getMinLevel()) os << v; return *this; }
    Logger &operator<<(std::ostream &(*f)(std::ostream &)) { if (lvl >= getMinLevel()) os << f; return *this; }
    static int &minLevel();
    static int getMinLevel() { return minLevel(); }
    static void setMinLevel(int l) { minLevel() = l; }
    static void logToFile(std::string) {}
    static bool check(int l) { return l >= minLevel(); }
};
#define LOG(X) if (!Logger::check(X)) ; else Logger(X)
#endif
