// S21: the Turtle and N-Triples parser under every way a stream can deliver, break off or fail.
#include "simrt.h"
#include <cts/parser/TurtleParser.hpp>
#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
using namespace sim;

namespace {
const char *RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"; const char *XSD = "http://www.w3.org/2001/XMLSchema#";
struct Row { std::string s, p, o, sub; int type; bool operator<(const Row &r) const { return std::tie(s, p, o, sub, type) < std::tie(r.s, r.p, r.o, r.sub, r.type); } bool operator==(const Row &r) const { return s == r.s && p == r.p && o == r.o && sub == r.sub && type == r.type; } };
struct Doc { std::string text; std::vector<size_t> end; std::vector<std::vector<Row>> rows; };   // text, end of each statement, what each statement says

std::string utf8(unsigned c) { std::string r; if (c < 0x80) r += (char) c; else if (c < 0x800) { r += (char) (0xC0 | c >> 6); r += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { r += (char) (0xE0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); } else { r += (char) (0xF0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); } return r; }
struct Gen {
    Rng g; Doc d; bool nt; int anon; std::map<std::string, std::string> prefixes; std::string base; std::vector<std::string> labels; std::vector<Row> *out; int longStr;
    Gen(uint64_t s, bool n) : g(s), nt(n), anon(0), out(NULL), longStr(0) {}
    void put(const std::string &s) { d.text += s; }
    void ws(bool need = true) { int n = (int) g.below(need ? 2 : 2) + need; if (g.chance(0.03)) n += g.below(40); for (int i = 0; i < n; ++i) { double r = g.unit(); if (nt) put(r < 0.8 ? " " : "\t"); else if (r < 0.6) put(" "); else if (r < 0.7) put("\t"); else if (r < 0.9) put("\n"); else if (r < 0.95) put("\r\n"); else { put(" #"); int k = (int) g.below(30); for (int j = 0; j < k; ++j) put(g.chance(0.1) ? "." : g.chance(0.1) ? "\"" : g.chance(0.1) ? "<" : g.chance(0.05) ? "\xC3\xA9" : "c"); put(g.chance(0.2) ? "\r\n" : "\n"); } } }
    std::string word(int n) { static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_"; std::string s(1, (char) ('a' + g.below(26))); for (int i = 0; i < n; ++i) s += cs[g.below(sizeof cs - 1)]; return s; }
    // one character of text: its value goes to v, its spelling is written
    void chr(unsigned c, bool uri, bool raw) {
        char b[16]; bool must = c == '\\' || (uri ? c == '>' : c == '"' && !raw) || (!uri && !raw && nt && (c == '\n' || c == '\r' || c == '\t'));
        if (!must && g.chance(0.93)) { put(utf8(c)); return; }
        if (c == '\\') put("\\\\"); else if (c == '"' && !uri) put("\\\""); else if (c == '>' && g.chance(0.5)) put("\\>"); else if (c == '\n' && !uri) put("\\n"); else if (c == '\r' && !uri) put("\\r"); else if (c == '\t' && !uri) put("\\t");
        else { if (c < 0x10000 && g.chance(0.6)) snprintf(b, sizeof b, g.chance(0.5) ? "\\u%04X" : "\\u%04x", c); else snprintf(b, sizeof b, "\\U%08X", c); put(b); }
    }
    unsigned pick() { double r = g.unit(); return r < 0.7 ? 'a' + g.below(26) : r < 0.78 ? ' ' : r < 0.82 ? '\\' : r < 0.85 ? '\'' : r < 0.88 ? 0xE9 : r < 0.9 ? 0x20AC : r < 0.93 ? 0x1F600 + g.below(20) : r < 0.94 ? 0x10FFFF : r < 0.96 ? '#' : r < 0.98 ? '.' : '<'; }
    std::string iri() { // spelled in full, absolute or below the base
        put("<"); std::string v; if (!nt && !base.empty() && g.chance(0.3)) { std::string w = word((int) g.below(6)); for (char c : w) chr((unsigned char) c, true, true); put(">"); return base + w; }
        static const char *heads[] = { "http://e/", "http://example.org/a?b=", "urn:x:", "https://long.example.org/path/to/", "mailto:a@" }; v = heads[g.below(5)]; put(v); int n = (int) g.below(g.chance(0.02) ? 1500 : 12);
        for (int i = 0; i < n; ++i) { unsigned c = pick(); if (c == ' ' || c == '<') c = '>'; chr(c, true, true); v += utf8(c); } put(">"); return v; }
    std::string name() { // an IRI in any notation
        if (nt || prefixes.empty() || g.chance(0.4)) return iri(); auto it = prefixes.begin(); std::advance(it, g.below(prefixes.size())); put(it->first + ":"); if (g.chance(0.1)) { put(" "); return it->second; } static const char *ks[] = { "a", "true", "false" }; std::string l = g.chance(0.1) ? ks[g.below(3)] : word((int) g.below(8)); put(l); put(" "); return it->second + l; }
    std::string label() { std::string l = labels[g.below(labels.size())]; put("_:" + l); put(" "); return "_:@" + l; }
    std::string fresh() { return "_:#" + std::to_string(anon++); }
    void say(const std::string &s, const std::string &p, const Row &o) { Row r = o; r.s = s; r.p = p; out->push_back(r); }
    Row uri(const std::string &u) { Row r; r.o = u; r.type = Type::URI; return r; }
    std::string text() { std::string v; bool lng = !nt && g.chance(0.3); int n = (int) g.below(g.chance(0.03) ? 3000 : 15); put(lng ? "\"\"\"" : "\""); int quotes = 0;
        for (int i = 0; i < n; ++i) { unsigned c = pick(); if (g.chance(0.05)) c = g.chance(0.5) ? '\n' : '\t'; if (lng && quotes < 2 && i + 1 < n && g.chance(0.15)) { put("\""); v += "\""; ++quotes; continue; } if (g.chance(0.05)) c = '"';
            bool q = c == '"'; if (q) { put("\\\""); v += "\""; quotes = 0; continue; } quotes = 0; chr(c, false, lng); v += utf8(c); }
        if (quotes) { put("x"); v += "x"; } put(lng ? "\"\"\"" : "\""); return v; }
    Row object(int depth) {
        Row r; r.type = Type::URI; double x = g.unit();
        if (x < 0.35) { r.o = name(); return r; } if (x < 0.45 && !labels.empty()) { r.o = label(); return r; }
        if (x < 0.75 || nt) { r.o = text(); r.type = Type::Literal; double y = g.unit();
            if (y < 0.25) { static const char *ls[] = { "en", "en-US", "de", "x-a1" }; r.sub = ls[g.below(4)]; put("@" + r.sub); put(" "); r.type = Type::CustomLanguage; }
            else if (y < 0.5) { put("^^"); std::string t; if (g.chance(0.6)) { static const char *ts[] = { "string", "integer", "decimal", "double", "boolean" }; t = std::string(XSD) + ts[g.below(5)]; put("<" + t + ">"); } else if (g.chance(0.5) || nt) { t = "http://e/t#" + word(3); put("<" + t + ">"); } else { std::string b = base; base = ""; t = name(); base = b; }
                std::string x = XSD; if (t == x + "string") r.type = Type::String; else if (t == x + "integer") r.type = Type::Integer; else if (t == x + "decimal") r.type = Type::Decimal; else if (t == x + "double") r.type = Type::Double; else if (t == x + "boolean") r.type = Type::Boolean; else { r.type = Type::CustomType; r.sub = t; } }
            return r; }
        if (x < 0.8) { r.o = (g.chance(0.3) ? "-" : g.chance(0.2) ? "+" : "") + std::to_string(g.below(100000)); r.type = Type::Integer; if (g.chance(0.4)) { r.o += "." + std::to_string(g.below(1000)); r.type = Type::Decimal; } if (g.chance(0.3)) { r.o += (g.chance(0.5) ? "e" : "E-") + std::to_string(g.below(30)); r.type = Type::Double; } put(r.o); put(" "); return r; }
        if (x < 0.83) { r.o = g.chance(0.5) ? "true" : "false"; r.type = Type::Boolean; put(r.o); put(" "); return r; }
        if (x < 0.86) { put("a "); r.o = std::string(RDF) + "type"; return r; }
        if (depth > 4) { r.o = iri(); return r; }
        r.o = bracket(depth + 1); return r;
    }
    std::string bracket(int depth) {
        if (g.chance(0.6)) { put("["); ws(false); std::string b = fresh(); if (g.chance(0.8)) list(b, depth); ws(false); put("]"); return b; }
        put("("); int n = (int) g.below(4); std::vector<Row> os; for (int i = 0; i < n; ++i) { ws(i > 0); os.push_back(object(depth)); } ws(false); put(")"); std::string nil = std::string(RDF) + "nil"; if (!n) return nil;
        std::vector<std::string> ids; for (int i = 0; i < n; ++i) ids.push_back(fresh()); for (int i = 0; i < n; ++i) { say(ids[i], std::string(RDF) + "first", os[i]); say(ids[i], std::string(RDF) + "rest", uri(i + 1 < n ? ids[i + 1] : nil)); } return ids[0];
    }
    void list(const std::string &s, int depth) {
        int n = nt ? 1 : 1 + (g.chance(0.3) ? (int) g.below(4) : 0);
        for (int i = 0; i < n; ++i) { if (i) { ws(false); put(";"); ws(false); } std::string p; if (!nt && g.chance(0.15)) { put("a "); p = std::string(RDF) + "type"; } else p = name(); ws(); int m = nt ? 1 : 1 + (g.chance(0.3) ? (int) g.below(4) : 0); for (int k = 0; k < m; ++k) { if (k) { ws(false); put(","); ws(false); } Row o = object(depth); say(s, p, o); } }
        if (!nt && g.chance(0.1)) { ws(false); put(";"); }
    }
    void begin() { d.rows.push_back(std::vector<Row>()); out = &d.rows.back(); }
    void finish() { ws(); put("."); d.end.push_back(d.text.size()); put(nt ? "\n" : g.chance(0.7) ? "\n" : " "); }
    void directive() {
        begin(); if (g.chance(0.25)) { base = "http://base.example/" + word(3) + "/"; put("@base"); ws(); put("<" + base + ">"); finish(); return; }
        static const char *ps[] = { "", "ex", "e2", "a", "true", "x-y", "foaf" }; std::string p = ps[g.below(7)], u = g.chance(0.7) ? "http://p.example/" + word(4) + "#" : std::string(XSD); put("@prefix"); ws(); put(p + ":"); ws(false); put("<" + u + ">"); prefixes[p] = u; finish();
    }
    void statement() {
        begin(); std::string s; double r = g.unit(); if (r < 0.15 && !labels.empty()) s = label(); else if (r < 0.3 && !nt) s = bracket(0); else s = name(); ws(); list(s, 0); finish();
    }
    void build(int n) {
        if (!nt) for (int k = (int) g.below(4); k > 0; --k) directive();
        static const char *ls[] = { "b", "_0", "_1", "__0", "x1", "genid" }; for (int k = (int) g.below(4); k > 0; --k) { std::string l = ls[g.below(6)]; if (std::find(labels.begin(), labels.end(), l) != labels.end()) continue; labels.push_back(l); begin(); put("_:" + l + " <http://mark> \"" + l + "\" "); Row o; o.o = l; o.type = Type::Literal; say("_:@" + l, "http://mark", o); finish(); }
        for (int i = 0; i < n; ++i) { if (!nt && g.chance(0.08)) directive(); else statement(); }
    }
};
const char *bad[] = { "<http://s> <http://p> .", "<http://s> .", "<http://s> <http://p> <http://o> <http://x> .", "nope:x <http://p> <http://o> .", "<http://s> \"l\" <http://o> .", "\"l\" <http://p> <http://o> .", "<http://s> <http://p> \"x\"^^ .", "<http://s> <http://p> \"x\"@ .", "<http://s> <http://p> [ <http://q> <http://r> .", "<http://s> <http://p> ( <http://q> .",
    "<http://s> _:b <http://o> .", "<http://s> <http://p> 5x .", "<http://s> <http://p> 1e .", "<http://s> <http://p> \"\\q\" .", "<http://s> <http://p> \"\\u12G4\" .", "@foo <http://x> .", "@prefix ex <http://x> .", "@prefix ex: \"x\" .", "<http://s> <http://p> , <http://o> .", "% <http://p> <http://o> .", "<http://s> <http://p> ^ <http://o> .", "<http://s> <http://p> <http://o> ] .", "<http://s> <http://p> <http://o> , .", ". <http://s> <http://p> <http://o> .", "<http://s> <http://p> \"\\U00110000\" ." };

// a stream whose buffer arrives in pieces and may fail at one byte
struct Pieces : std::streambuf { const std::string &s; size_t at, failAt; Rng g; size_t maxPiece; Pieces(const std::string &t, uint64_t seed, size_t mp, size_t f) : s(t), at(0), failAt(f), g(seed), maxPiece(mp) {}
    int_type underflow() { if (at >= failAt) { countFault(F_READEIO); throw std::ios_base::failure("read error"); } if (at >= s.size()) return traits_type::eof(); size_t n = std::min(std::min(s.size() - at, failAt - at), (size_t) 1 + g.below(maxPiece)); if (n < s.size() - at) countFault(F_READSHORT); char *b = const_cast<char *>(s.data()) + at; setg(b, b, b + n); at += n; return traits_type::to_int_type(*b); } };
struct Out { std::vector<Row> rows; bool error; std::string message; };
Out parse(std::istream &in, size_t limit) {
    Out o; o.error = false; TurtleParser p(in); Row r; Type::ID t;
    try { while (p.parse(r.s, r.p, r.o, t, r.sub)) { r.type = t; if (t != Type::CustomType && t != Type::CustomLanguage) r.sub = ""; o.rows.push_back(r); if (o.rows.size() > limit) fail("S21/invented", "the parser returns more triples than the document can hold"); } }
    catch (const TurtleParser::Exception &e) { o.error = true; o.message = e.message; }
    return o;
}
std::string q(const std::string &s) { std::string r; for (unsigned char c : s.substr(0, 80)) r += c >= 32 && c < 127 ? (char) c : '?'; return r; }
std::string show(const Row &r) { return "(" + q(r.s) + " | " + q(r.p) + " | " + q(r.o) + " | " + std::to_string(r.type) + " " + q(r.sub) + ")"; }
// blank nodes are compared by what is said about them
struct Canon { std::map<std::string, std::vector<const Row *>> by; std::map<std::string, std::string> memo; std::set<std::string> nodes;
    static bool blank(const std::string &s) { return s.compare(0, 2, "_:") == 0; }
    std::string name(const std::string &s, int depth) { if (!blank(s)) return s; nodes.insert(s); auto it = memo.find(s); if (it != memo.end()) return it->second; if (depth > 200) return "_:deep"; std::vector<std::string> parts; for (const Row *r : by[s]) { if (r->p == "http://mark") return memo[s] = "_:marked " + r->o; parts.push_back(r->p + "\1" + (r->type == Type::URI ? name(r->o, depth + 1) : r->o) + "\1" + std::to_string(r->type) + r->sub); } std::sort(parts.begin(), parts.end()); std::string v = "_:["; for (auto &p : parts) v += p + "\2"; return memo[s] = v + "]"; }
    std::vector<Row> run(const std::vector<Row> &rs) { for (auto &r : rs) if (blank(r.s)) by[r.s].push_back(&r); std::vector<Row> o; for (auto &r : rs) { Row x = r; x.s = name(r.s, 0); if (r.type == Type::URI) x.o = name(r.o, 0); o.push_back(x); } std::sort(o.begin(), o.end()); return o; } };
void same(const std::vector<Row> &want, const std::vector<Row> &got, const std::string &what) {
    Canon a, b; std::vector<Row> x = a.run(want), y = b.run(got); if (x == y && a.nodes.size() == b.nodes.size()) return;
    std::vector<Row> miss, more; std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(miss)); std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(more));
    fail("S21/triples", what + ": " + std::to_string(got.size()) + " triples instead of " + std::to_string(want.size()) + (miss.empty() ? "" : ", missing " + show(miss[0])) + (more.empty() ? "" : ", additional " + show(more[0])));
}
std::vector<Row> upTo(const Doc &d, size_t n) { std::vector<Row> r; for (size_t i = 0; i < n && i < d.rows.size(); ++i) r.insert(r.end(), d.rows[i].begin(), d.rows[i].end()); return r; }
// anything but white space and comments between two places of the text?
bool content(const std::string &s, size_t a, size_t b) { bool c = false; for (size_t i = a; i < b; ++i) { if (c) { if (s[i] == '\n' || s[i] == '\r') c = false; } else if (s[i] == '#') c = true; else if (s[i] != ' ' && s[i] != '\t' && s[i] != '\n' && s[i] != '\r') return true; } return false; }
std::string filler(Rng &g, size_t n) { if (!n) return ""; if (n > 3 && g.chance(0.4)) return "#" + std::string(n - 2, 'f') + "\n"; return std::string(n, g.chance(0.5) ? ' ' : '\n'); }

void run(Ctx &c) {
    PhaseCfg p; p.maxSteps = 2000000000ull; bool nt = c.rng.chance(0.3); Gen gen(c.rng.next(), nt); int n = (int) (c.rng.chance(0.2) ? c.rng.range(0, 2) : c.rng.chance(0.7) ? c.rng.range(1, 12) : c.rng.range(10, c.thorough ? 200 : 60)); gen.build(n); Doc &d = gen.d; Rng g(c.rng.next());
    // place block boundaries and the end of the document where they hurt
    if (g.chance(0.5)) { size_t k = g.chance(0.5) ? (1024 - d.text.size() % 1024) % 1024 : (1024 + g.below(5) - 2 - d.text.size() % 1024) % 1024; if (g.chance(0.5)) d.text += filler(g, k); else { std::string f = filler(g, k); d.text = f + d.text; for (auto &e : d.end) e += f.size(); } }
    else if (g.chance(0.5)) { std::string f = filler(g, g.below(1030)); d.text = f + d.text; for (auto &e : d.end) e += f.size(); }
    if (!nt && g.chance(0.2)) { while (d.text.size() && (d.text.back() == ' ' || d.text.back() == '\n') && d.text.size() > (d.end.empty() ? 0 : d.end.back())) d.text.pop_back(); }
    int mode = (int) g.below(5); std::string text = d.text; size_t total = upTo(d, d.rows.size()).size(), whole = d.rows.size(); bool mustFail = false, exact = true; std::string what = "whole document";
    if (mode == 1 && text.size()) { // cut off
        size_t k = g.chance(0.3) ? std::min(text.size(), (size_t) 1024 * g.below(text.size() / 1024 + 1)) : g.chance(0.4) && whole ? std::min(text.size(), d.end[g.below(whole)] - g.below(3)) : g.below(text.size()); text.resize(k); whole = 0; while (whole < d.end.size() && d.end[whole] <= k) ++whole; mustFail = content(d.text, whole ? d.end[whole - 1] : 0, k); what = "document cut at byte " + std::to_string(k); c.count("cut documents");
    } else if (mode == 2) { // a malformed statement
        size_t at = g.below(d.end.size() + 1); size_t pos = at ? d.end[at - 1] : 0; const char *b = bad[g.below(sizeof bad / sizeof *bad)]; text = d.text.substr(0, pos) + "\n" + b + (g.chance(0.5) ? "\n" + d.text.substr(pos) : ""); 
        if (std::string(b).find("nope:") == std::string::npos || true) { whole = at; mustFail = true; what = std::string("malformed statement ") + b; c.count("malformed documents"); }
    } else if (mode == 3 && text.size()) { // arbitrary damage: only the deliveries are compared, and what comes before the damage
        size_t k = g.below(text.size()); static const char cs[] = "<>\"\\.,;:[]()@^#_ \n\taZ09+-\x80\xFF"; double x = g.unit(); if (x < 0.4) text[k] = cs[g.below(sizeof cs)]; else if (x < 0.7) text.erase(k, 1 + g.below(3)); else text.insert(k, 1, cs[g.below(sizeof cs)]); exact = false; whole = 0; while (whole < d.end.size() && d.end[whole] < k) ++whole; // a dot and what follows it may become a number
        what = "document changed at byte " + std::to_string(k); c.count("damaged documents");
    }
    std::vector<Row> want = upTo(d, whole); size_t limit = total * 3 + text.size() + 10; uint64_t s = g.next(); int deliver = (int) g.below(3); size_t failAt = std::string::npos; if (mode == 4 && deliver == 0) failAt = g.below(text.size() + 1); size_t piece = g.chance(0.5) ? 1 + g.below(20) : 1 + g.below(3000); std::string file = c.dir + "/doc.ttl";
    if (deliver == 2) { writeFile(file, text); p.readFaultProb = 0.3; p.readFaultMask = (1u << F_READSHORT) | (1u << F_READEINTR) | (mode == 4 ? 1u << F_READEIO : 0); }
    c.note(what + (nt ? " (N-Triples)" : "") + ", " + std::to_string(text.size()) + " bytes, " + std::to_string(d.rows.size()) + " statements, delivery " + std::to_string(deliver)); if (total) c.nontrivial(); c.count("bytes", text.size()); c.count("triples", want.size());
    if (text.size() < 1500) { std::string t; for (char ch : text) t += ch == '\n' ? std::string("\\n") : ch == '\r' ? "\\r" : std::string(1, ch); c.note(t); }
    if (getenv("S21_DUMP")) writeFile(getenv("S21_DUMP"), text);
    PhaseResult r = runPhase(p, [&]() {
        if (deliver == 2) setRoot(c.dir);
        Out o; if (deliver == 0) { Pieces b(text, s, piece, failAt); std::istream in(&b); o = parse(in, limit); } else if (deliver == 1) { std::istringstream in(text); o = parse(in, limit); } else { std::ifstream in(file.c_str(), std::ios_base::in | (s & 1 ? std::ios_base::binary : std::ios_base::in)); check(in.good(), "S21/harness", "file cannot be opened"); o = parse(in, limit); }
        Paused quiet;
        if (mode == 4) { // reading fails somewhere: complete, or the triples of some first statements and an error
            if (!o.error) { same(want, o.rows, what + " although reading failed"); check(failAt == std::string::npos, "S21/read-error", "the end of the document was reported although reading failed at byte " + std::to_string(failAt) + " of " + std::to_string(text.size())); }
            else { check(deliver != 1, "S21/refused", "a valid document is refused: " + o.message); size_t k = 0, m = 0; while (m < o.rows.size() && k < d.rows.size()) m += d.rows[k++].size(); same(upTo(d, k), o.rows, what + " up to the read error"); if (deliver == 0 && k) check(d.end[k - 1] <= failAt || d.rows[k - 1].empty(), "S21/invented", "triples of a statement that was not read"); }
        } else if (exact) {
            if (!mustFail && o.error) fail("S21/refused", what + ": refused with " + q(o.message)); if (mustFail && !o.error) fail("S21/accepted", what + ": accepted, " + std::to_string(o.rows.size()) + " triples"); same(want, o.rows, what);
        } else {
            std::istringstream in2(text); Out a = parse(in2, limit); if (!(a.rows == o.rows) || a.error != o.error || a.message != o.message) fail("S21/delivery", what + ": the result depends on how the stream is delivered");
            std::string shifted = std::string(1 + s % 1500, ' ') + text; std::istringstream in3(shifted); Out b = parse(in3, limit); if (!(a.rows == b.rows) || a.error != b.error || a.message != b.message) fail("S21/delivery", what + ": the result depends on where the blocks begin");
            if (a.rows.size() < want.size()) fail("S21/triples", what + ": " + std::to_string(a.rows.size()) + " triples, " + std::to_string(want.size()) + " precede the damage"); a.rows.resize(want.size()); same(want, a.rows, what + ": before the damage");
        }
    });
    c.expectOk(r, "S21/parse"); c.observe(hashStr(text));
}
}
SCENARIO("S21", "turtle", run, 1);
