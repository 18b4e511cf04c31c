#ifndef KS_FILEREADER_H
#define KS_FILEREADER_H
#include <kognac/utils.h>
typedef struct FileInfo { int64_t size, start; bool splittable; std::string path; FileInfo(): size(0), start(0), splittable(false) {} } FileInfo;
class FileReader { // N-Triples lines; a line that is not a triple is reported invalid
    std::string data; size_t pos, end; bool valid; size_t so, sl, po, pl, oo, ol;
    bool term(size_t &i, size_t e, size_t &o, size_t &l);
public:
    FileReader(FileInfo f);
    FileReader(char *buffer, size_t n, bool gz);
    bool parseTriple();
    bool isTripleValid() { return valid; }
    const char *getCurrentS(int &l) { l = (int) sl; return data.data() + so; }
    const char *getCurrentP(int &l) { l = (int) pl; return data.data() + po; }
    const char *getCurrentO(int &l) { l = (int) ol; return data.data() + oo; }
};
#endif
