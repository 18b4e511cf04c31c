#ifndef KS_COMPRESSOR_H
#define KS_COMPRESSOR_H
#include <kognac/filereader.h>
#include <kognac/hashmap.h>
#include <kognac/lz4io.h>
#include <kognac/triple.h>
#include <vector>
#include <string>
#ifndef IDX_SPO
#define IDX_SPO 0
#define IDX_OPS 1
#define IDX_POS 2
#define IDX_SOP 3
#define IDX_OSP 4
#define IDX_PSO 5
#endif
class SchemaExtractor;
class Compressor {
    std::string input, kbPath; int64_t total; std::vector<std::vector<std::string> > triples;
public:
    Compressor(std::string input, std::string kbPath): input(input), kbPath(kbPath), total(0) {}
    static void addPermutation(const int perm, int &out) { out |= 1 << perm; }
    static void parsePermutationSignature(int sig, int *out) { int n = 0; for (int i = 0; i < 6; ++i) if (sig & (1 << i)) out[n++] = i; }
    static std::vector<std::string> getAllDictFiles(std::string prefix);
    static std::vector<FileInfo> *splitInputInChunks(const std::string &dir, int nchunks, std::string prefix = "");
    void parse(int dicts, int sampleMethod, int sampleArg, int samplePerc, int threads, int readThreads, bool copyHash, SchemaExtractor *, bool onlySample, bool ignorePredicates = false);
    void compress(std::string *permDirs, int nperms, int sig, std::string *dictFiles, int ndicts, int threads, int readThreads, bool graph);
    int64_t getTotalCount() { return total; }
};
#endif
