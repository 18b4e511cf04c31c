#ifndef KS_DISKREADER_H
#define KS_DISKREADER_H
#include <kognac/filereader.h>
#include <mutex>
#include <condition_variable>
#include <list>
class DiskReader { public:
    struct Buffer { size_t size, maxsize; char *b; bool gzipped; const char *filename; };
    DiskReader(int nbuffers, std::vector<FileInfo> *files): files(files), maxb(nbuffers), out(0), fin(false) {}
    void run(); Buffer getfile(); void releasefile(Buffer b);
    ~DiskReader() {}
private:
    std::vector<FileInfo> *files; int maxb, out; bool fin; std::list<Buffer> q; std::mutex m; std::condition_variable c;
};
#endif
