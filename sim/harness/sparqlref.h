// A small reference evaluator for the SPARQL fragment the store supports, with a query generator.
#ifndef SPARQLREF_H
#define SPARQLREF_H
#include "kbutil.h"
#include <unordered_map>
namespace sq {
using namespace sim; using kbu::T3; using kbu::Model;
typedef std::map<std::string, std::string> Sol;     // variable -> term; a missing variable is unbound
struct Pat { std::string t[3]; };                   // "?x", "<iri>" or a literal
struct Filt { int kind; std::string a, b; std::vector<Filt> sub; };  // 0 = ,1 !=, 2 bound, 3 isIRI, 4 isLiteral, 5 sameTerm, 6 and, 7 or, 8 not
struct Group { std::vector<Pat> pats; std::vector<std::vector<Group>> unions; std::vector<Group> optionals, minuses; std::vector<Filt> filters; };
struct Query { Group g; bool star, distinct; std::vector<std::string> proj; long limit, offset; int style; std::string countVar; bool countDistinct; std::vector<std::pair<std::string, bool>> order; Query() : star(false), distinct(false), limit(-1), offset(0), style(0), countDistinct(false) {} };
inline bool isVar(const std::string &s) { return s[0] == '?'; }
inline void vars(const Group &g, std::set<std::string> &o) { for (auto &p : g.pats) for (auto &t : p.t) if (isVar(t)) o.insert(t.substr(1)); for (auto &u : g.unions) for (auto &x : u) vars(x, o); for (auto &x : g.optionals) vars(x, o); }
// ------------------------------------------------------------ text
inline std::string ftext(const Filt &f) {
    switch (f.kind) { case 0: return f.a + " = " + f.b; case 1: return f.a + " != " + f.b; case 2: return "bound(" + f.a + ")"; case 3: return "isIRI(" + f.a + ")"; case 4: return "isLiteral(" + f.a + ")"; case 5: return "sameTerm(" + f.a + ", " + f.b + ")"; case 6: return "(" + ftext(f.sub[0]) + ") && (" + ftext(f.sub[1]) + ")"; case 7: return "(" + ftext(f.sub[0]) + ") || (" + ftext(f.sub[1]) + ")"; default: return "!(" + ftext(f.sub[0]) + ")"; }
}
inline std::string gtext(const Group &g) {
    std::string s = "{ "; for (auto &p : g.pats) s += p.t[0] + " " + p.t[1] + " " + p.t[2] + " . ";
    for (auto &u : g.unions) { for (size_t i = 0; i < u.size(); ++i) s += (i ? " UNION " : "") + gtext(u[i]); s += " . "; }
    for (auto &o : g.optionals) s += "OPTIONAL " + gtext(o) + " "; for (auto &o : g.minuses) s += "MINUS " + gtext(o) + " "; for (auto &f : g.filters) s += "FILTER (" + ftext(f) + ") "; return s + "}";
}
inline std::string text(const Query &q) {
    std::string s = "SELECT "; if (q.distinct) s += "DISTINCT "; if (q.star) s += "*"; else for (auto &v : q.proj) if (q.countVar.empty() || v != "cnt") s += "?" + v + " "; else s += std::string("(COUNT(") + (q.countDistinct ? "DISTINCT " : "") + q.countVar + ") AS ?cnt) ";
    s += " WHERE " + gtext(q.g); if (q.countVar.size() && q.proj.size() > 1) { s += " GROUP BY"; for (auto &v : q.proj) if (v != "cnt") s += " ?" + v; }
    if (q.order.size()) { s += " ORDER BY"; for (auto &o : q.order) s += (o.second ? " desc(?" : " asc(?") + o.first + ")"; }
    if (q.limit >= 0) s += " LIMIT " + std::to_string(q.limit); if (q.offset) s += " OFFSET " + std::to_string(q.offset); return s;
}
// ------------------------------------------------------------ evaluation
inline bool compatible(const Sol &a, const Sol &b) { for (auto &e : a) { auto i = b.find(e.first); if (i != b.end() && i->second != e.second) return false; } return true; }
inline Sol join(Sol a, const Sol &b) { a.insert(b.begin(), b.end()); return a; }
struct TooBig {};
typedef std::vector<Sol> Bag;
inline Bag matchOne(const Pat &p, const Model &m, const Bag &in, size_t limit = 4000) {
    Bag out; if (in.empty()) return out; std::vector<const T3 *> fit; for (auto &t : m) { bool ok = true; for (int k = 0; k < 3 && ok; ++k) if (!isVar(p.t[k])) ok = p.t[k] == t.t[k]; if (ok) fit.push_back(&t); }
    int key = -1; std::string kv; for (int k = 0; k < 3 && key < 0; ++k) if (isVar(p.t[k])) { kv = p.t[k].substr(1); bool all = true; for (auto &s : in) if (!s.count(kv)) { all = false; break; } if (all) key = k; }
    std::unordered_map<std::string, std::vector<const T3 *>> ix; if (key >= 0) for (auto t : fit) ix[t->t[key]].push_back(t); static const std::vector<const T3 *> none;
    for (auto &s : in) { const std::vector<const T3 *> *c = &fit; if (key >= 0) { auto i = ix.find(s.at(kv)); c = i == ix.end() ? &none : &i->second; } for (auto t : *c) { Sol r = s; bool ok = true; for (int k = 0; k < 3 && ok; ++k) if (isVar(p.t[k])) { auto i = r.insert(std::make_pair(p.t[k].substr(1), t->t[k])); ok = i.first->second == t->t[k]; } if (ok) { out.push_back(r); if (out.size() > limit) throw TooBig(); } } } return out;
}
inline int truth(const Filt &f, const Sol &s) { // 1 true, 0 false, -1 error
    auto val = [&](const std::string &x, std::string &o) { if (!isVar(x)) { o = x; return true; } auto i = s.find(x.substr(1)); if (i == s.end()) return false; o = i->second; return true; };
    std::string a, b; switch (f.kind) {
        case 0: case 5: if (!val(f.a, a) || !val(f.b, b)) return -1; return a == b; case 1: if (!val(f.a, a) || !val(f.b, b)) return -1; return a != b; case 2: return s.count(f.a.substr(1)) ? 1 : 0;
        case 3: if (!val(f.a, a)) return -1; return a[0] == '<'; case 4: if (!val(f.a, a)) return -1; return a[0] == '"';
        case 6: { int x = truth(f.sub[0], s), y = truth(f.sub[1], s); return x == 0 || y == 0 ? 0 : x < 0 || y < 0 ? -1 : 1; } case 7: { int x = truth(f.sub[0], s), y = truth(f.sub[1], s); return x == 1 || y == 1 ? 1 : x < 0 || y < 0 ? -1 : 0; }
        default: { int x = truth(f.sub[0], s); return x < 0 ? -1 : !x; } }
}
inline Bag eval(const Group &g, const Model &m) {
    Bag cur(1); for (auto &p : g.pats) cur = matchOne(p, m, cur);
    for (auto &u : g.unions) { Bag all; for (auto &x : u) { Bag b = eval(x, m); all.insert(all.end(), b.begin(), b.end()); } Bag out; for (auto &s : cur) for (auto &t : all) if (compatible(s, t)) { out.push_back(join(s, t)); if (out.size() > 4000) throw TooBig(); } cur = out; }
    for (auto &o : g.optionals) { Group inner = o; std::vector<Filt> fs; fs.swap(inner.filters); Bag b = eval(inner, m), out; for (auto &s : cur) { bool any = false; for (auto &t : b) if (compatible(s, t)) { Sol j = join(s, t); bool ok = true; for (auto &f : fs) if (truth(f, j) != 1) ok = false; if (ok) { any = true; out.push_back(j); if (out.size() > 4000) throw TooBig(); } } if (!any) out.push_back(s); } cur = out; }
    for (auto &o : g.minuses) { Bag b = eval(o, m), out; for (auto &s : cur) { bool gone = false; for (auto &t : b) { bool shared = false; for (auto &e : s) if (t.count(e.first)) shared = true; if (shared && compatible(s, t)) gone = true; } if (!gone) out.push_back(s); } cur = out; }
    Bag out; for (auto &s : cur) { bool ok = true; for (auto &f : g.filters) if (truth(f, s) != 1) ok = false; if (ok) out.push_back(s); } return out;
}
// whatever order the patterns are joined in, the intermediate results stay small (the engine may choose any order, also a cross product)
inline void bounded(const Group &g, const Model &m, Rng r) {
    std::vector<Pat> ps; for (auto &p : g.pats) if (!matchOne(p, m, Bag(1)).empty()) ps.push_back(p);
    for (int k = 0; k < 4; ++k) { Bag b(1); for (auto &p : ps) { Bag n = matchOne(p, m, b, 4000); if (!n.empty()) b.swap(n); } if (k == 0) std::reverse(ps.begin(), ps.end()); else for (size_t i = 1; i < ps.size(); ++i) std::swap(ps[i], ps[r.below(i + 1)]); }
    for (auto &u : g.unions) for (auto &x : u) bounded(x, m, r); for (auto &x : g.optionals) bounded(x, m, r); for (auto &x : g.minuses) bounded(x, m, r);
}
typedef std::vector<std::string> Row;
inline std::string rowText(const Row &r) { std::string s = "("; for (auto &x : r) s += (x.empty() ? std::string("unbound") : x.substr(0, 60)) + " "; s += ")"; return s; }
// The order of two terms: IRIs before literals, then by their text. 0 when they are equal or when comparing with and without quotes would differ.
inline int cmpTerm(const std::string &a, const std::string &b) { if (a == b) return 0; bool la = a[0] != '<', lb = b[0] != '<'; if (la != lb) return la ? 1 : -1; if (!la) return a.substr(1, a.size() - 2).compare(b.substr(1, b.size() - 2)) < 0 ? -1 : 1; size_t n = std::min(a.size(), b.size()); for (size_t i = 1; i < n; ++i) if (a[i] != b[i]) return a[i] == '"' || b[i] == '"' ? 0 : (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1; return 0; }
inline std::string orderError(const Query &q, std::vector<Row>, const std::vector<Row> &got) {
    std::vector<std::pair<size_t, bool>> ks; for (auto &o : q.order) ks.push_back(std::make_pair(std::find(q.proj.begin(), q.proj.end(), o.first) - q.proj.begin(), o.second));
    for (size_t i = 1; i < got.size(); ++i) for (auto &k : ks) { if (got[i - 1][k.first] == got[i][k.first]) continue; int c = cmpTerm(got[i - 1][k.first], got[i][k.first]); if (k.second) c = -c; if (c > 0) return "order row " + rowText(got[i - 1]) + " precedes " + rowText(got[i]); break; }
    return "";
}
// empty when the rows are right
inline std::string compare(const Query &q, const Model &m, std::vector<Row> got) {
    std::vector<Row> e; if (q.countVar.size()) {
        std::map<Row, std::pair<long, std::set<std::string>>> gs; if (q.proj.size() == 1) gs[Row()];
        for (auto &s : eval(q.g, m)) { Row k; for (auto &v : q.proj) if (v != "cnt") k.push_back(s.at(v)); auto &x = gs[k]; x.first++; x.second.insert(s.at(q.countVar.substr(1))); }
        for (auto &g : gs) { if (q.proj.size() == 1 && !g.second.first && got.empty()) continue; Row r = g.first; r.push_back(std::to_string(q.countDistinct ? (long) g.second.second.size() : g.second.first)); e.push_back(r); }
    } else for (auto &s : eval(q.g, m)) { Row r; for (auto &v : q.proj) { auto i = s.find(v); r.push_back(i == s.end() ? "" : i->second); } e.push_back(r); }
    if (q.order.size() && q.countVar.empty()) { std::string x = orderError(q, e, got); if (x.size()) return x; }
    std::sort(e.begin(), e.end()); if (q.distinct) e.erase(std::unique(e.begin(), e.end()), e.end()); std::sort(got.begin(), got.end());
    if (q.limit >= 0 || q.offset) { size_t want = e.size() > (size_t) q.offset ? e.size() - q.offset : 0; if (q.limit >= 0 && want > (size_t) q.limit) want = q.limit; if (got.size() != want) return "limit " + std::to_string(got.size()) + " rows, expected " + std::to_string(want) + " of " + std::to_string(e.size()); for (auto &r : got) { auto i = std::lower_bound(e.begin(), e.end(), r); if (i == e.end() || *i != r) return "extra-rows row " + rowText(r) + " is not an answer"; e.erase(i); } return ""; }
    if (got == e) return "";
    std::string d = std::to_string(got.size()) + " rows, expected " + std::to_string(e.size()); std::vector<Row> miss, extra; std::set_difference(e.begin(), e.end(), got.begin(), got.end(), std::back_inserter(miss)); std::set_difference(got.begin(), got.end(), e.begin(), e.end(), std::back_inserter(extra));
    if (miss.size()) d += "; missing " + rowText(miss[0]); if (extra.size()) d += "; not expected " + rowText(extra[0]); return (extra.empty() ? "missing-rows " : miss.empty() ? "extra-rows " : "wrong-rows ") + d;
}
// ------------------------------------------------------------ generation
struct Gen {
    Rng &r; const Model &m; const std::vector<std::string> &S, &P, &O; std::vector<T3> ts; int nv; int feat;
    Gen(Rng &r, const Model &m, const std::vector<std::string> &S, const std::vector<std::string> &P, const std::vector<std::string> &O) : r(r), m(m), S(S), P(P), O(O), ts(m.begin(), m.end()), nv(0), feat(~6) { const char *f = getenv("S15_FEAT"); if (f) feat = atoi(f); }
    std::string fresh() { return "?v" + std::to_string(nv++); }
    // patterns that follow a walk over existing triples, so that most queries have answers; vt remembers the term a variable stands for
    std::map<std::string, std::string> vt;
    std::string slot(const std::string &term, int k, double pconst) {
        if (r.chance(pconst)) { if (r.chance(0.06)) return k == 1 ? P[r.below(P.size())] : k == 0 ? S[r.below(S.size())] : O[r.below(O.size())]; if (r.chance(0.01)) return "<no-such-term>"; return term; }
        std::vector<std::string> same; for (auto &e : vt) if (e.second == term) same.push_back(e.first); if (!same.empty() && r.chance(0.9)) return same[r.below(same.size())];
        std::string v = fresh(); vt[v] = term; return v;
    }
    Pat pat() {
        T3 t = ts[r.below(ts.size())]; if (!vt.empty() && r.chance(0.93)) for (int k = 0; k < 30; ++k) { T3 x = ts[r.below(ts.size())]; bool touch = false; for (auto &e : vt) if (e.second == x.t[0] || e.second == x.t[2]) touch = true; if (touch) { t = x; break; } }
        Pat p; for (int k = 0; k < 3; ++k) p.t[k] = slot(t.t[k], k, k == 1 ? 0.8 : k == 0 ? 0.2 : 0.3); return p;
    }
    Filt filt(const Group &g, int depth) {
        std::set<std::string> vs; vars(g, vs); std::vector<std::string> v; for (auto &x : vs) v.push_back("?" + x); Filt f; if (v.empty()) { f.kind = 3; f.a = "<x>"; return f; } f.a = v[r.below(v.size())];
        double x = r.unit(); if (depth && x < 0.25) { f.kind = 6 + (int) r.below(3); f.sub.push_back(filt(g, depth - 1)); if (f.kind < 8) f.sub.push_back(filt(g, depth - 1)); return f; }
        f.kind = x < 0.45 ? 0 : x < 0.7 ? 1 : (int) r.range(2, 5); f.b = r.chance(0.4) ? v[r.below(v.size())] : r.chance(0.7) && vt.count(f.a) ? vt[f.a] : r.chance(0.5) ? S[r.below(S.size())] : O[r.below(O.size())]; return f;
    }
    Group group(int depth, int maxp) {
        Group g; int n = (int) r.range(1, maxp); for (int i = 0; i < n; ++i) g.pats.push_back(pat());
        if ((feat & 2) && depth && r.chance(0.2)) { std::vector<Group> u; int k = (int) r.range(2, 3); for (int i = 0; i < k; ++i) u.push_back(group(depth - 1, 2)); g.unions.push_back(u); if (r.chance(0.3)) g.pats.clear(); }
        if ((feat & 1) && r.chance(0.3)) { int k = (int) r.range(1, 2); for (int i = 0; i < k; ++i) g.filters.push_back(filt(g, 1)); }
        if ((feat & 4) && depth && r.chance(0.25)) { int k = r.chance(0.8) ? 1 : 2; for (int i = 0; i < k; ++i) g.optionals.push_back(group(depth - 1, 2)); }
        if ((feat & 8) && depth && r.chance(0.1)) g.minuses.push_back(group(depth - 1, 2));
        return g;
    }
    Query query() {
        for (;;) {
            nv = 0; vt.clear(); Query q; q.g = group(1, r.chance(0.2) ? 6 : 3); std::set<std::string> vs; vars(q.g, vs); if (vs.empty()) continue; std::vector<std::string> v(vs.begin(), vs.end());
            q.star = r.chance(0.25); if (q.star) q.proj = v; else { size_t n = 1 + r.below(v.size()); for (size_t i = 0; i < n; ++i) { size_t j = i + r.below(v.size() - i); std::swap(v[i], v[j]); q.proj.push_back(v[i]); } }
            if (feat & 16) q.distinct = r.chance(0.3); if ((feat & 32) && r.chance(0.15)) { q.limit = (long) r.range(1, 12); if (r.chance(0.3)) q.offset = (long) r.range(1, 5); }
            if ((feat & 128) && r.chance(0.15)) { q.star = false; q.distinct = false; q.proj.resize(std::min<size_t>(q.proj.size(), r.below(3))); q.proj.push_back("cnt"); q.countVar = "?" + v[r.below(v.size())]; q.countDistinct = r.chance(0.3); }
            if ((feat & 64) && q.countVar.empty() && r.chance(0.2)) { std::vector<std::string> pv = q.proj; size_t n = r.range(1, std::min<size_t>(3, pv.size())); for (size_t i = 0; i < n; ++i) { size_t j = i + r.below(pv.size() - i); std::swap(pv[i], pv[j]); q.order.push_back(std::make_pair(pv[i], r.chance(0.5))); } }
            try { eval(q.g, m); bounded(q.g, m, Rng(q.g.pats.size() + ts.size())); } catch (TooBig &) { continue; } return q;
        }
    }
};
}
#endif
