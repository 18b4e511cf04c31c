#ifndef KS_KOGNAC_H
#define KS_KOGNAC_H
#include <kognac/compressor.h>
class Kognac { public: static void sortCompressedGraph(std::string inputDir, std::string outputFile, int v = 0); };
#endif
