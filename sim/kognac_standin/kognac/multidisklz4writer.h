#ifndef KS_MDLZ4W_H
#define KS_MDLZ4W_H
#include <kognac/disklz4writer.h>
class MultiDiskLZ4Writer : public DiskLZ4Writer { public: MultiDiskLZ4Writer(std::vector<std::string> f, int a, int b): DiskLZ4Writer(f, a, b) {} };
#endif
