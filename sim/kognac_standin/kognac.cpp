// Stand-in for the external KOGNAC library. Everything here is a stub of code that is not in /repo.
#include <kognac/logs.h>
#include <kognac/utils.h>
#include <kognac/filereader.h>
#include <kognac/diskreader.h>
#include <kognac/compressor.h>
#include <kognac/kognac.h>
#include <kognac/hashmap.h>
#include <kognac/triplewriters.h>
#include <zstr/zstr.hpp>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include <algorithm>
#include <fstream>
#include <unordered_map>
using namespace std;
char KS_EMPTY[2] = {0, 0}, KS_DELETED[2] = {0, 0};
int &Logger::minLevel() { static int l = getenv("KS_LOG") ? atoi(getenv("KS_LOG")) : 100; return l; }

bool Utils::exists(string p) { struct stat s; return ::stat(p.c_str(), &s) == 0; }
bool Utils::isDirectory(string p) { struct stat s; return ::stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
bool Utils::isFile(string p) { struct stat s; return ::stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
bool Utils::isLink(string p) { struct stat s; return ::lstat(p.c_str(), &s) == 0 && S_ISLNK(s.st_mode); }
uint64_t Utils::fileSize(string p) { struct stat s; if (::stat(p.c_str(), &s)) throw 10; return s.st_size; }
static vector<string> ls(const string &d) {
    vector<string> v; DIR *x = opendir(d.c_str()); if (!x) return v;
    while (struct dirent *e = readdir(x)) { string n = e->d_name; if (n[0] != '.') v.push_back(n); }
    closedir(x); sort(v.begin(), v.end()); return v; }
bool Utils::isEmpty(string p) { return ls(p).empty(); }
vector<string> Utils::getFiles(string d, bool ignoreExt) {
    vector<string> out; for (auto &n : ls(d)) { string f = d + "/" + n; if (!isFile(f)) continue;
        if (ignoreExt) f = removeExtension(f); if (out.empty() || find(out.begin(), out.end(), f) == out.end()) out.push_back(f); } return out; }
vector<string> Utils::getSubdirs(string d) { vector<string> out; for (auto &n : ls(d)) if (isDirectory(d + "/" + n)) out.push_back(d + "/" + n); return out; }
vector<string> Utils::getFilesWithPrefix(string d, string p) { vector<string> out; for (auto &n : ls(d)) if (starts_with(n, p)) out.push_back(n); return out; }
vector<string> Utils::getFilesWithSuffix(string d, string p) { vector<string> out; for (auto &n : ls(d)) if (ends_with(n, p)) out.push_back(n); return out; }
string Utils::filename(string p) { size_t i = p.rfind('/'); return i == string::npos ? p : p.substr(i + 1); }
string Utils::parentDir(string p) { size_t i = p.rfind('/'); return i == string::npos ? string(".") : p.substr(0, i); }
bool Utils::hasExtension(const string &f) { return filename(f).find('.') != string::npos; }
string Utils::extension(const string &f) { string n = filename(f); size_t i = n.rfind('.'); return i == string::npos ? "" : n.substr(i); }
string Utils::removeExtension(string f) { size_t s = f.rfind('/'), i = f.rfind('.'); if (i == string::npos || (s != string::npos && i < s)) return f; return f.substr(0, i); }
void Utils::create_directories(string p) {
    if (p.empty() || exists(p)) return; string par = parentDir(p); if (par != p && par != "" && par != ".") create_directories(par);
    if (::mkdir(p.c_str(), 0777) && errno != EEXIST) { LOG(ERRORL) << "mkdir " << p; throw 10; } }
void Utils::remove(string p) { if (::unlink(p.c_str())) { if (errno == EISDIR || errno == EPERM) ::rmdir(p.c_str()); else LOG(WARNL) << "cannot remove " << p; } }
void Utils::remove_all(string p) {
    if (isLink(p) || !isDirectory(p)) { if (exists(p) || isLink(p)) ::unlink(p.c_str()); return; }
    DIR *x = opendir(p.c_str()); vector<string> v; if (x) { while (struct dirent *e = readdir(x)) { string n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(x); }
    sort(v.begin(), v.end()); for (auto &n : v) remove_all(p + "/" + n); ::rmdir(p.c_str()); }
void Utils::rename(string a, string b) { if (::rename(a.c_str(), b.c_str())) { LOG(ERRORL) << "rename " << a << " " << b; throw 10; } }
void Utils::copy(string a, string b) { ifstream i(a, ios::binary); ofstream o(b, ios::binary); string d((istreambuf_iterator<char>(i)), istreambuf_iterator<char>()); o.write(d.data(), d.size()); o.close(); if (!o) throw 10; }
void Utils::resizeFile(string p, uint64_t n) {
    if (!exists(p)) { FILE *f = fopen(p.c_str(), "w"); if (!f) throw 10; fclose(f); }
    if (::truncate(p.c_str(), n)) { LOG(ERRORL) << "resize " << p; throw 10; } }
void Utils::linkdir(string a, string b) { rmlink(b); if (::symlink(a.c_str(), b.c_str())) throw 10; }
void Utils::rmlink(string p) { if (isLink(p)) ::unlink(p.c_str()); }
int64_t Utils::getSystemMemory() { return 4LL * 1024 * 1024 * 1024; }
int Utils::getNumberPhysicalCores() { return 8; }

// ---- N-Triples reader
FileReader::FileReader(FileInfo f): pos(0), end(0), valid(false) {
    ifstream is(f.path, ios::binary); if (!is.good()) { LOG(ERRORL) << "cannot open " << f.path; throw 10; }
    data = string((istreambuf_iterator<char>(is)), istreambuf_iterator<char>());
    if (Utils::ends_with(f.path, ".gz")) data = zstr::inflate_all(data);
    end = data.size(); }
FileReader::FileReader(char *b, size_t n, bool gz): data(b, n), pos(0), end(n), valid(false) { if (gz) { data = zstr::inflate_all(data); end = data.size(); } }
bool FileReader::term(size_t &i, size_t e, size_t &o, size_t &l) {
    while (i < e && (data[i] == ' ' || data[i] == '\t')) ++i; if (i >= e) return false; o = i;
    if (data[i] == '<') { while (i < e && data[i] != '>') ++i; if (i >= e) return false; ++i; }
    else if (data[i] == '"') { ++i; while (i < e && data[i] != '"') { if (data[i] == '\\') ++i; ++i; } if (i >= e) return false; ++i; while (i < e && data[i] != ' ' && data[i] != '\t') ++i; }
    else if (data[i] == '_') { while (i < e && data[i] != ' ' && data[i] != '\t') ++i; }
    else return false;
    l = i - o; return true; }
bool FileReader::parseTriple() {
    while (pos < end) {
        size_t e = data.find('\n', pos); if (e == string::npos || e > end) e = end; size_t i = pos; pos = e + 1;
        size_t j = i; while (j < e && (data[j] == ' ' || data[j] == '\t' || data[j] == '\r')) ++j; if (j >= e || data[j] == '#') continue;
        valid = term(i, e, so, sl) && term(i, e, po, pl) && term(i, e, oo, ol) && sl < MAX_TERM_SIZE && pl < MAX_TERM_SIZE && ol < MAX_TERM_SIZE;
        return true; }
    return false; }

void DiskReader::run() {
    for (auto &f : *files) {
        ifstream is(f.path, ios::binary); string d((istreambuf_iterator<char>(is)), istreambuf_iterator<char>()); if (d.empty()) continue;
        bool gz = Utils::ends_with(f.path, ".gz");
        Buffer b; b.size = b.maxsize = d.size(); b.b = new char[d.size()]; memcpy(b.b, d.data(), d.size()); b.gzipped = gz; b.filename = f.path.c_str();
        unique_lock<mutex> l(m); while (out >= maxb) c.wait(l); q.push_back(b); out++; c.notify_all(); }
    unique_lock<mutex> l(m); fin = true; c.notify_all(); }
DiskReader::Buffer DiskReader::getfile() { unique_lock<mutex> l(m); while (q.empty() && !fin) c.wait(l); Buffer b; b.b = NULL; b.size = 0; if (q.empty()) return b; b = q.front(); q.pop_front(); return b; }
void DiskReader::releasefile(Buffer b) { delete[] b.b; unique_lock<mutex> l(m); out--; c.notify_all(); }

vector<string> Compressor::getAllDictFiles(string prefix) {
    vector<string> out; string d = Utils::parentDir(prefix); for (auto &n : Utils::getFilesWithPrefix(d, Utils::filename(prefix) + "-")) out.push_back(d + "/" + n); return out; }
vector<FileInfo> *Compressor::splitInputInChunks(const string &in, int n, string prefix) {
    vector<FileInfo> *o = new vector<FileInfo>[n]; vector<string> fs;
    if (Utils::isDirectory(in)) { for (auto &f : Utils::getFiles(in)) if (Utils::starts_with(Utils::filename(f), prefix)) fs.push_back(f); } else fs.push_back(in);
    for (size_t i = 0; i < fs.size(); ++i) { FileInfo fi; fi.path = fs[i]; fi.size = Utils::fileSize(fs[i]); fi.start = 0; o[i % n].push_back(fi); } return o; }
void Compressor::parse(int, int, int, int, int, int, bool, SchemaExtractor *, bool, bool) {
    vector<FileInfo> *fi = splitInputInChunks(input, 1);
    for (auto &f : fi[0]) { FileReader r(f); while (r.parseTriple()) if (r.isTripleValid()) { int l; vector<string> t; const char *x = r.getCurrentS(l); t.push_back(string(x, l)); x = r.getCurrentP(l); t.push_back(string(x, l)); x = r.getCurrentO(l); t.push_back(string(x, l)); triples.push_back(t); } }
    delete[] fi; total = triples.size(); }
void Compressor::compress(string *permDirs, int nperms, int sig, string *dictFiles, int ndicts, int threads, int, bool graph) {
    if (nperms != 1) throw 10;
    unordered_map<string, int64_t> freq; for (auto &t : triples) for (int i = 0; i < 3; ++i) if (!graph || i != 1) freq[t[i]]++;
    vector<string> all; for (auto &p : freq) all.push_back(p.first); sort(all.begin(), all.end());
    vector<string> pop(all); stable_sort(pop.begin(), pop.end(), [&](const string &a, const string &b) { return freq[a] > freq[b]; });
    size_t np = min<size_t>(pop.size() / 10, 64); pop.resize(np);
    unordered_map<string, int64_t> ids; int64_t n = 0; string sup;
    { LZ4Writer w(dictFiles[0]); for (auto &t : pop) { ids[t] = n; char b[2]; Utils::encode_short(b, (int) t.size()); string x(b, 2); x += t; w.writeLong(n); w.writeString(x.data(), (int) x.size()); n++; } }
    { LZ4Writer w(dictFiles[0] + "-np1-0"); int64_t k = 0; for (auto &t : all) if (!ids.count(t)) { ids[t] = n++; w.writeLong(k++); w.writeString(t.data(), (int) t.size()); } }
    int nf = max(1, threads); vector<unique_ptr<LZ4Writer> > w; for (int i = 0; i < nf; ++i) w.push_back(unique_ptr<LZ4Writer>(new LZ4Writer(permDirs[0] + "/input-" + to_string(i))));
    size_t k = 0; for (auto &t : triples) { LZ4Writer &x = *w[k++ % nf]; int64_t s = ids[t[0]], p = graph ? 0 : ids[t[1]], o = ids[t[2]]; if (graph) { x.writeLong(s); x.writeLong(o); x.writeLong(p); } else { x.writeLong(s); x.writeLong(p); x.writeLong(o); } } }
void Kognac::sortCompressedGraph(string in, string out, int) {
    vector<Triple> v; for (auto &f : Utils::getFiles(in)) { LZ4Reader r(f); while (!r.isEof()) { Triple t; t.s = r.parseLong(); t.p = r.parseLong(); t.o = r.parseLong(); v.push_back(t); } }
    sort(v.begin(), v.end(), Triple::sLess); zstr::ofstream o(out); for (auto &t : v) o << t.s << " " << t.p << " " << t.o << endl; }
