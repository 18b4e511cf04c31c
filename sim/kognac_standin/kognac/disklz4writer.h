#ifndef KS_DLZ4W_H
#define KS_DLZ4W_H
#include <kognac/lz4io.h>
#include <memory>
class DiskLZ4Writer { // an output that never receives data is never created
protected:
    std::vector<std::string> names; std::vector<std::unique_ptr<LZ4Writer> > w;
    LZ4Writer *o(int id) { if (!w.at(id)) w[id].reset(new LZ4Writer(names[id])); return w[id].get(); }
public:
    DiskLZ4Writer(std::vector<std::string> files, int, int): names(files) { w.resize(files.size()); }
    virtual ~DiskLZ4Writer() {}
    void writeByte(int id, char v) { o(id)->writeByte(v); }
    void writeLong(int id, int64_t v) { o(id)->writeLong(v); }
    void writeVLong(int id, int64_t v) { o(id)->writeVLong(v); }
    void writeString(int id, const char *s, int n) { o(id)->writeString(s, n); }
    void setTerminated(int id) { if (id < (int) w.size()) w[id].reset(); }
};
#endif
