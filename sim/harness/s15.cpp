// S15: SPARQL answers against a direct evaluation of the query over the triples that are logically in the store.
#include "kbutil.h"
#include "sparqlref.h"
#include <layers/TridentLayer.hpp>
#include <trident/sparql/sparql.h>
using namespace sim; using namespace kbu;

namespace {
int qno;
struct Job { sq::Query q; std::string text; };
void runQueries(Ctx &c, Store &st, int n, const char *when) {
    std::vector<Job> jobs; Rng g(c.rng.next()); sq::Gen gen(g, st.m, st.v.s, st.v.p, st.v.o);
    for (int i = 0; i < n; ++i) { Job j; j.q = gen.query(); j.text = sq::text(j.q); if (c.dropped(500000 + qno++)) continue; jobs.push_back(j); }
    if (jobs.empty()) return; if (jobs.size() <= 3) for (auto &j : jobs) c.note("query " + j.text);
    bool bifocal = g.chance(0.7); Model &m = st.m; std::string kbdir = st.kb;
    PhaseCfg pc = calm(); pc.maxSteps *= 3; pc.realTimeout = 200; PhaseResult r = runPhase(pc, [&]() {
        KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); TridentLayer layer(kb); if (!bifocal) layer.disableBifocalSampling(); std::string sizes;
        for (auto &j : jobs) {
            JSON vars, res, stats; observe(std::hash<std::string>()(j.text)); if (getenv("SIM_STDERR")) fprintf(stderr, "QUERY %s\n", j.text.c_str());
            SPARQLUtils::execSPARQLQuery(j.text, false, kb.getNTerms(), layer, false, true, &vars, &res, &stats);
            std::vector<std::vector<std::string>> got;
            for (auto row : res.getListChildren()) { std::vector<std::string> r; for (auto &v : j.q.proj) { if (!row.containsChild(v)) fail("S15/columns", "a result row has no column " + v + ": " + j.text); JSON b = row.getChild(v); std::string s = b.get("value"); r.push_back(b.get("type") == "uri" ? "<" + s + ">" : s == "NULL" ? "" : s); } got.push_back(r); }
            std::string e = sq::compare(j.q, m, got); if (!e.empty() && getenv("S15_Q")) { JSON a, b, d; SPARQLUtils::execSPARQLQuery(getenv("S15_Q"), false, kb.getNTerms(), layer, false, true, &a, &b, &d); JSON::write(std::cerr, b); } if (!e.empty() && getenv("S15_DUMP")) SPARQLUtils::execSPARQLQuery(j.text, true, kb.getNTerms(), layer, false, true, &vars, &res, &stats); if (!e.empty() && getenv("S15_DUMP")) for (auto &t : m) fprintf(stderr, "MODEL %s\n", show(t).c_str()); if (!e.empty()) fail("S15/" + e.substr(0, e.find(' ')), e.substr(e.find(' ') + 1) + " for " + j.text);
            if (got.size()) sizes += "x";
        }
        payload(sizes);
    });
    c.expectOk(r, std::string("S15/query")); c.count("queries-with-answers", r.payload.size()); c.nontrivial(); (void) when;
}
void history(Ctx &c) {
    qno = 0; Store st(c, "S15"); int n = c.rng.chance(0.7) ? (int) c.rng.range(1, 40) : (int) c.rng.range(40, 300); int dom = std::max(2, (int) (n * c.rng.unit())); st.lo = loadOpts(c.rng); 
    st.makeInput(n, false, std::max(1, dom / 2), (int) c.rng.range(1, 5), std::max(1, dom)); PhaseResult r = st.load(calm()); c.expectOk(r, "S15/load");
    int ops = (int) c.rng.range(0, 4), nq = c.thorough ? 30 : 12; Vocab ex = vocab(c.rng, 6, 2, 6, false); for (auto *pv : {&ex.s, &ex.p, &ex.o}) for (auto &t : *pv) { if (t[0] == '<') t = "<x" + t.substr(1); else if (t[0] == '"') t = "\"x" + t.substr(1); else t += "x"; }
    runQueries(c, st, nq, "loaded");
    for (int i = 0; i < ops; ++i) {
        if (c.rng.below(10) < 8) {
            bool add = c.rng.chance(0.55); std::vector<T3> ts = st.drawUpdate(add, (int) c.rng.range(1, 25), c.rng.chance(0.6) ? &ex : NULL), kept; for (size_t j = 0; j < ts.size(); ++j) if (!c.dropped(1000 * (i + 1) + j % 1000)) kept.push_back(ts[j]);
            if (kept.empty() || c.dropped(i)) continue;
            c.note(std::string(add ? "add" : "remove") + " " + std::to_string(kept.size()) + " triples"); if (kept.size() <= 6) for (auto &t : kept) c.note("   " + show(t));
            r = st.update(calm(), add, st.writeUpdate(kept), st.kb); c.expectOk(r, "S15/update"); st.apply(add, kept); c.count(add ? "adds" : "removes");
        } else { if (c.dropped(i)) continue; c.note("merge pending updates"); r = st.merge(calm(), st.kb); c.expectOk(r, "S15/merge"); c.count("merges"); }
        if (!st.m.empty()) runQueries(c, st, nq, "updated");
    }
}
// Comparisons and functions in filters, over values whose meaning is clear: integers, plain strings and IRIs
void filters(Ctx &c) {
    Store st(c, "S15"); st.lo = loadOpts(c.rng); st.in = c.dir + "/in"; mkdirs(st.in); Rng &r = c.rng; std::string in; const std::string XI = "^^<http://www.w3.org/2001/XMLSchema#integer>";
    std::vector<std::pair<std::string, long>> nums; std::vector<std::pair<std::string, std::string>> txts; int n = (int) r.range(2, 40); long span = r.chance(0.5) ? 20 : 100000; std::string alpha = r.chance(0.5) ? "ab" : "abcdefgh";
    for (int i = 0; i < n; ++i) {
        std::string x = "<s" + std::to_string(i) + ">"; T3 t; t.t[0] = x; bool num = r.chance(0.5); long v = (long) r.range(0, span) - (r.chance(0.3) ? span / 2 : 0); std::string w; int k = (int) r.range(1, 4); for (int j = 0; j < k; ++j) w += alpha[r.below(alpha.size())];
        if (c.dropped(i)) continue; if (num) { nums.push_back({x, v}); t.t[1] = "<num>"; t.t[2] = "\"" + std::to_string(v) + "\"" + XI; } else { txts.push_back({x, w}); t.t[1] = "<txt>"; t.t[2] = "\"" + w + "\""; } st.m.insert(t); in += ntLine(t);
    }
    T3 z; z.t[0] = "<z>"; z.t[1] = "<type>"; z.t[2] = "<c>"; st.m.insert(z); in += ntLine(z); writeFile(st.in + "/f.nt", in); PhaseResult pr = st.load(calm()); c.expectOk(pr, "S15/load");
    static const char *ops[] = {"<", "<=", ">", ">=", "=", "!="}; auto holds = [](int o, int cmp) { return o == 0 ? cmp < 0 : o == 1 ? cmp <= 0 : o == 2 ? cmp > 0 : o == 3 ? cmp >= 0 : o == 4 ? cmp == 0 : cmp != 0; }; auto sgn = [](long x) { return x < 0 ? -1 : x > 0; };
    struct Q { std::string text; std::vector<std::string> vars; std::vector<std::vector<std::string>> want; }; std::vector<Q> qs; const char *only = getenv("S15_T");
    for (int i = 0; i < 12; ++i) {
        Q q; int o = (int) r.below(6), kind = (int) r.below(9); if (only) kind = atoi(only); std::string op = ops[o];
        if (kind == 0 && nums.size()) { long k = nums[r.below(nums.size())].second;  q.text = "SELECT ?x WHERE { ?x <num> ?a . FILTER (?a " + op + " \"" + std::to_string(k) + "\"" + XI + ") }"; q.vars = {"x"}; for (auto &e : nums) if (holds(o, sgn(e.second - k))) q.want.push_back({e.first}); }
        else if (kind == 1) { q.text = "SELECT ?x ?y WHERE { ?x <num> ?a . ?y <num> ?b . FILTER (?a " + op + " ?b) }"; q.vars = {"x", "y"}; for (auto &e : nums) for (auto &f : nums) if (holds(o, sgn(e.second - f.second))) q.want.push_back({e.first, f.first}); }
        else if (kind == 2 && txts.size()) { std::string k = txts[r.below(txts.size())].second; q.text = "SELECT ?x WHERE { ?x <txt> ?a . FILTER (?a " + op + " \"" + k + "\") }"; q.vars = {"x"}; for (auto &e : txts) if (holds(o, sgn(e.second.compare(k)))) q.want.push_back({e.first}); }
        else if (kind == 3) { q.text = "SELECT ?x ?y WHERE { ?x <txt> ?a . ?y <txt> ?b . FILTER (?a " + op + " ?b) }"; q.vars = {"x", "y"}; for (auto &e : txts) for (auto &f : txts) if (holds(o, sgn(e.second.compare(f.second)))) q.want.push_back({e.first, f.first}); }
        else if (kind == 4 && txts.size()) { std::set<std::string> in; int k = (int) r.range(1, 4); for (int j = 0; j < k; ++j) in.insert(r.chance(0.8) ? txts[r.below(txts.size())].second : "zz"); std::string l; for (auto &e : in) l += ", \"" + e + "\""; q.text = "SELECT ?x WHERE { ?x <txt> ?a . FILTER (in(?a" + l + ")) }"; q.vars = {"x"}; for (auto &e : txts) if (in.count(e.second)) q.want.push_back({e.first}); }
        else if (kind == 5 && n) { std::set<std::string> in; int k = (int) r.range(1, 4); for (int j = 0; j < k; ++j) in.insert("<s" + std::to_string(r.below(n + 2)) + ">"); std::string l; for (auto &e : in) l += ", " + e; q.text = "SELECT ?x WHERE { ?x <txt> ?a . FILTER (in(?x" + l + ")) }"; q.vars = {"x"}; for (auto &e : txts) if (in.count(e.first)) q.want.push_back({e.first}); }
        else if (kind == 7) { q.text = "SELECT ?x WHERE { ?x ?p ?a . FILTER (" + std::string(o < 2 ? "isLiteral(?a)" : o < 4 ? "isIRI(?a)" : "isBlank(?a)") + ") }"; q.vars = {"x"}; if (o < 2) { for (auto &e : nums) q.want.push_back({e.first}); for (auto &e : txts) q.want.push_back({e.first}); } else if (o < 4) q.want.push_back({"<z>"}); }
        else if (kind == 8 && nums.size()) { long k = nums[r.below(nums.size())].second, d = nums[r.below(nums.size())].second - k; int w = (int) r.below(2); q.text = "SELECT ?x WHERE { ?x <num> ?a . FILTER (!(?a < \"" + std::to_string(k) + "\"" + XI + ") " + (w ? "||" : "&&") + " ?a < \"" + std::to_string(k + d) + "\"" + XI + ") }"; q.vars = {"x"}; for (auto &e : nums) if (w ? (!(e.second < k) || e.second < k + d) : (!(e.second < k) && e.second < k + d)) q.want.push_back({e.first}); }
        else continue;
        if (c.dropped(1000 + i)) continue; std::sort(q.want.begin(), q.want.end()); qs.push_back(q);
    }
    if (qs.size() <= 2) for (auto &q : qs) c.note("query " + q.text); std::string kbdir = st.kb; PhaseCfg pc = calm();
    pr = runPhase(pc, [&]() {
        KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); TridentLayer layer(kb);
        for (auto &q : qs) {
            JSON jv, res, stats; observe(std::hash<std::string>()(q.text)); SPARQLUtils::execSPARQLQuery(q.text, false, kb.getNTerms(), layer, false, true, &jv, &res, &stats); std::vector<std::vector<std::string>> got;
            for (auto row : res.getListChildren()) { std::vector<std::string> g; for (auto &v : q.vars) { JSON b = row.getChild(v); g.push_back(b.get("type") == "uri" ? "<" + b.get("value") + ">" : b.get("value")); } got.push_back(g); }
            std::sort(got.begin(), got.end()); if (got != q.want) { std::vector<std::vector<std::string>> miss, extra; std::set_difference(q.want.begin(), q.want.end(), got.begin(), got.end(), std::back_inserter(miss)); std::set_difference(got.begin(), got.end(), q.want.begin(), q.want.end(), std::back_inserter(extra));
                fail("S15/filter", std::to_string(got.size()) + " rows, expected " + std::to_string(q.want.size()) + (miss.size() ? "; missing " + sq::rowText(miss[0]) : "") + (extra.size() ? "; not expected " + sq::rowText(extra[0]) : "") + ": " + q.text); }
        }
    });
    c.expectOk(pr, "S15/filters"); c.count("filter-queries", qs.size()); c.nontrivial();
}
// Two fixed queries whose wrong answers are listed as known findings (UNION and OPTIONAL are not part of the random queries)
void fixedQuery(Ctx &c, const char *name, const char *qtext, std::set<std::vector<std::string>> want, const std::vector<std::string> &vars) {
    Store st(c, "S15"); Rng fixed(1); st.lo = loadOpts(fixed); st.in = c.dir + "/in"; mkdirs(st.in); std::string in;
    for (const char *t : {"a p b", "b p a", "b p c", "c p d", "a q c", "d q d"}) { T3 x; for (int k = 0; k < 3; ++k) x.t[k] = std::string("<") + t[2 * k] + ">"; st.m.insert(x); in += ntLine(x); }
    writeFile(st.in + "/f.nt", in); PhaseResult r = st.load(calm()); c.expectOk(r, "S15/load"); std::string kbdir = st.kb, q = qtext, key = std::string("S15/fixed-") + name;
    PhaseCfg pc = calm(); pc.maxSteps /= 8; r = runPhase(pc, [&]() {
        KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); TridentLayer layer(kb); JSON jv, res, stats; SPARQLUtils::execSPARQLQuery(q, false, kb.getNTerms(), layer, false, true, &jv, &res, &stats);
        std::set<std::vector<std::string>> got; size_t n = 0; for (auto row : res.getListChildren()) { std::vector<std::string> g; for (auto &v : vars) g.push_back(row.containsChild(v) ? row.getChild(v).get("value") : ""); for (auto &x : g) if (x == "NULL") x = ""; got.insert(g); ++n; }
        if (got != want || n != want.size()) fail(key, std::to_string(n) + " rows, expected " + std::to_string(want.size()) + " for " + q);
    });
    c.expectOk(r, key); c.nontrivial();
}
void fixedOptional(Ctx &c) { fixedQuery(c, "optional", "SELECT ?x ?y ?z WHERE { ?x <p> ?y . OPTIONAL { ?y <q> ?z . ?z <p> ?w . } }", {{"a", "b", ""}, {"b", "a", "c"}, {"b", "c", ""}, {"c", "d", ""}}, {"x", "y", "z"}); }
void fixedUnion(Ctx &c) { fixedQuery(c, "union", "SELECT ?x ?y ?z WHERE { ?x <p> ?y . { ?y <p> ?z . } UNION { ?y <q> ?z . ?x <p> ?y . } }", {{"a", "b", "a"}, {"a", "b", "c"}, {"b", "a", "b"}, {"b", "a", "c"}, {"b", "c", "d"}, {"c", "d", "d"}}, {"x", "y", "z"}); }
}
SCENARIO("S15", "sparql-history", history, 20);
SCENARIO("S15", "sparql-filters", filters, 6);
SCENARIO("S15", "sparql-fixed-optional", fixedOptional, 1);
SCENARIO("S15", "sparql-fixed-union", fixedUnion, 1);
