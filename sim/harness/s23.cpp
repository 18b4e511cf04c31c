// S23: the web endpoint (real TridentServer, HttpServer, SPARQL engine and store) with concurrent clients on simulated sockets.
#include "kbutil.h"
#include "sparqlref.h"
#include "simnet.h"
#include <trident/server/server.h>
#include <rapidjson/document.h>
#include <arpa/inet.h>
#include <errno.h>
#include <poll.h>
#include <string.h>
using namespace sim; using namespace kbu;

namespace {
const int PORT = 8080; const uint64_t MS = 1000000ull, SEC = 1000 * MS; const char *SECRET = "TOPSECRET-outside-of-the-web-directory";
int dial(uint64_t tmo) {
    for (uint64_t end = now() + tmo; now() < end;) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(PORT); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(fd, (sockaddr *) &a, sizeof a) == 0) return fd; close(fd); sleepNs(10 * MS); }
    return -1;
}
bool put(int fd, const std::string &s, Rng &g, bool split) {
    size_t o = 0; while (o < s.size()) { size_t n = s.size() - o; if (split) { n = 1 + g.below(s.size()); n = std::min(n, s.size() - o); if (g.chance(0.3)) sleepNs(g.below(300) * MS + 1); } ssize_t r = send(fd, s.data() + o, n, MSG_NOSIGNAL); if (r < 0) { if (errno == EINTR) continue; return false; } o += r; } return true;
}
// one response: header, then as many bytes as it announces; status 0 = closed before a whole response arrived, -1 = nothing in time
struct Resp { int status; std::string head, body; };
Resp takeResponse(int fd, uint64_t deadline) {
    Resp r; r.status = -1; std::string s; char b[4096]; size_t want = std::string::npos;
    while (now() < deadline) {
        size_t e = s.find("\r\n\r\n"); if (want == std::string::npos && e != std::string::npos) {
            std::string h = s.substr(0, e + 2), l; for (char ch : h) l += (char) tolower(ch); size_t p = l.find("content-length:"); if (p == std::string::npos) fail("S23/no-length", "a response without a length: " + h.substr(0, 100));
            want = e + 4 + strtoull(h.c_str() + p + 15, NULL, 10); }
        if (want != std::string::npos && s.size() >= want) { r.head = s.substr(0, e); r.body = s.substr(e + 4); r.status = atoi(s.c_str() + 9); return r; }
        pollfd p; p.fd = fd; p.events = POLLIN; int k = poll(&p, 1, 500); if (k <= 0) continue; ssize_t n = recv(fd, b, sizeof b, 0); if (n < 0 && errno == EINTR) continue; if (n <= 0) { r.status = 0; r.body = s; return r; } s.append(b, n);
    }
    return r;
}
std::string urlenc(const std::string &s, Rng &g) { std::string r; char h[4]; for (unsigned char ch : s) if (isalnum(ch)) r += (char) ch; else if (ch == ' ' && g.chance(0.5)) r += '+'; else { snprintf(h, sizeof h, g.chance(0.5) ? "%%%02X" : "%%%02x", ch); r += h; } return r; }
std::string show1(const std::string &s) { std::string r; for (unsigned char ch : s.substr(0, 120)) r += ch >= 32 && ch < 127 ? (char) ch : '.'; return r; }

struct Req { int kind; std::string what, wire, expect; sq::Query q; std::string qtext; bool free; };   // kind 0 page, 1 not a page, 2 lookup, 3 query, 4 junk
struct World { std::map<std::string, std::string> pages; std::vector<std::string> secrets; std::vector<std::pair<uint64_t, std::string>> terms; Model *m; Store *st; };

std::string form(const std::string &path, const std::string &body, Rng &g) {
    std::string s = "POST " + path + " HTTP/1.1\r\n"; std::vector<std::string> h; h.push_back("Host: localhost"); if (g.chance(0.4)) h.push_back("User-Agent: query=x&print=false id=77"); if (g.chance(0.3)) h.push_back("Accept: */*");
    h.push_back("Content-Type: application/x-www-form-urlencoded"); h.push_back("Content-Length: " + std::to_string(body.size())); if (g.chance(0.3)) h.push_back("X-id: 3");
    for (size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[g.below(i)]); for (auto &x : h) s += x + "\r\n"; return s + "\r\n" + body;
}
std::string jstr(const rapidjson::Value &v) { return std::string(v.GetString(), v.GetStringLength()); }

void checkQuery(const Req &rq, const Model &m, const std::string &body) {
    rapidjson::Document d; d.Parse(body.c_str()); if (d.HasParseError() || !d.IsObject() || !d.HasMember("results")) fail("S23/query-json", "the answer to a query is not a result document: " + show1(body));
    std::vector<std::vector<std::string>> got; const rapidjson::Value &b = d["results"]["bindings"];
    if (b.IsArray()) for (rapidjson::SizeType i = 0; i < b.Size(); ++i) { std::vector<std::string> row; for (auto &v : rq.q.proj) { if (!b[i].HasMember(v.c_str())) fail("S23/query-columns", "a result row has no column " + v); const rapidjson::Value &x = b[i][v.c_str()]; std::string s = jstr(x["value"]); row.push_back(jstr(x["type"]) == "uri" ? "<" + s + ">" : s == "NULL" ? "" : s); } got.push_back(row); }
    std::string e = sq::compare(rq.q, m, got); if (!e.empty()) fail("S23/query-answer", e + " for " + rq.qtext);
}
void client(World *w, Rng g, std::vector<Req> rqs, uint64_t bound, uint64_t *answered) {
    int fd = -1; bool split = g.chance(0.4);
    for (auto &rq : rqs) {
        if (fd < 0) { fd = dial(bound); check(fd >= 0, "S23/no-connection", "a client could not connect in time"); }
        uint64_t t0 = now(); bool sent = put(fd, rq.wire, g, split); Resp r; if (sent) r = takeResponse(fd, t0 + bound); else { r.status = 0; }
        // a connection that was idle for too long may be closed by the server while the request is under way: ask again on a new one
        for (int again = 0; again < 2 && r.status == 0 && r.body.empty() && rq.kind != 4; ++again) { close(fd); fd = dial(bound); check(fd >= 0, "S23/no-connection", "a client could not connect in time"); t0 = now(); r = Resp(); r.status = 0; if (put(fd, rq.wire, g, false)) r = takeResponse(fd, t0 + bound); }
        if (r.status == -1) fail("S23/no-answer", "no complete answer within " + std::to_string(bound / SEC) + " simulated seconds to " + rq.what);
        if ((r.head + r.body).find(SECRET) != std::string::npos) fail("S23/escape", "the content of a file outside the web directory was returned for " + rq.what);
        if (rq.kind == 0) { if (r.status != 200 || r.body != rq.expect) fail("S23/page", "wrong content (" + std::to_string(r.body.size()) + " instead of " + std::to_string(rq.expect.size()) + " bytes, status " + std::to_string(r.status) + ") for " + rq.what + ": " + show1(r.body)); }
        else if (rq.kind == 2) { rapidjson::Document d; if (r.status == 200) d.Parse(r.body.c_str()); if (r.status != 200 || d.HasParseError() || !d.IsObject() || !d.HasMember("value")) fail("S23/lookup-json", "unexpected answer to " + rq.what + ": " + show1(r.body)); if (jstr(d["value"]) != rq.expect) fail("S23/lookup", rq.what + " returned '" + show1(jstr(d["value"])) + "' instead of '" + show1(rq.expect) + "'"); }
        else if (rq.kind == 3) { if (r.status != 200) fail("S23/query-status", "no answer to a query (" + std::to_string(r.status) + "): " + rq.qtext); checkQuery(rq, *w->m, r.body); }
        else if (rq.kind == 1) { if (r.status == 200) for (auto &p : w->pages) if (r.body == p.second && p.second.size() > 20 && p.first != "/index.html" && !rq.free) fail("S23/other-page", rq.what + " was answered with the page " + p.first); }
        ++*answered; if (r.status == 0 || g.chance(0.4)) { close(fd); fd = -1; } if (g.chance(0.3)) sleepNs(g.below(1500) * MS + 1);
    }
    if (fd >= 0) close(fd);
}
Req draw(World &w, Rng &g, sq::Gen &gen, const std::string &dir) {
    Req r; r.free = false; int k = (int) g.below(20);
    if (k < 6) { auto it = w.pages.begin(); std::advance(it, g.below(w.pages.size())); std::string path = it->first; r.kind = 0; r.expect = it->second; if (g.chance(0.15)) path = "/", r.expect = w.pages["/index.html"]; r.what = "GET " + path; r.wire = "GET " + path + " HTTP/1.1\r\nHost: localhost\r\n\r\n"; }
    else if (k < 11) { // outside or missing
        r.kind = 1; std::string s = w.secrets[g.below(w.secrets.size())], up; static const char *ups[] = { "/..", "/sub/../..", "/./..", "//..", "/sub//../..", "/sub/./../.." , "/sub/../sub/../.." }; up = ups[g.below(7)]; std::string path; double x = g.unit();
        if (x < 0.6) path = up + s; else if (x < 0.7) { path = up + s; std::string p2; for (size_t i = 0; i < path.size(); ++i) if (path[i] == '.' && g.chance(0.7)) p2 += "%2e"; else if (path[i] == '/' && i && g.chance(0.2)) p2 += "%2F"; else p2 += path[i]; path = p2; }
        else if (x < 0.78) path = dir + s; else if (x < 0.82) path = "/" + dir + s; else if (x < 0.86) { path = "/sub/../a.html"; r.free = true; } else if (x < 0.92) path = up + "/web" + (g.chance(0.5) ? "2/x.html" : "/a.html"), r.free = true; else if (x < 0.96) { path = up + s + " HTTP/1.1 "; } else path = "/missing" + std::to_string(g.below(5)) + ".html";
        r.what = "GET " + path; r.wire = "GET " + path + " HTTP/1.1\r\nHost: localhost\r\n\r\n"; }
    else if (k < 14 && !w.terms.empty()) { auto &t = w.terms[g.below(w.terms.size())]; r.kind = 2; r.expect = t.second; r.what = "lookup of " + std::to_string(t.first); r.wire = form("/lookup", (g.chance(0.2) ? "idx=5&" : "") + std::string("id=") + std::to_string(t.first) + (g.chance(0.3) ? "&x=1" : ""), g); }
    else if (k < 19) { r.kind = 3; r.q = gen.query(); r.qtext = sq::text(r.q); r.what = "query " + r.qtext; std::string q = "query=" + urlenc(r.qtext, g); r.wire = form("/sparql", g.chance(0.5) ? "print=true&" + q : g.chance(0.5) ? q + "&print=true" : q, g); }
    else { r.kind = 4; switch (g.below(6)) { case 0: r.wire = "POST /sparql HTTP/1.1\r\nContent-Length: 0\r\n\r\n"; break; case 1: r.wire = form("/nothing", "a=b", g); break; case 2: r.wire = form("/lookup", "id=abc", g); break; case 3: r.wire = form("/lookup", "id=99999999999999999999999", g); break; case 4: r.wire = form("/sparql", "query=SELECT+%7B+nonsense", g); break; default: r.wire = "DELETE / HTTP/1.1\r\n\r\n"; } r.what = "request " + show1(r.wire); }
    return r;
}
void web(Ctx &c) {
    Store st(c, "S23"); int n = (int) c.rng.range(1, 40), dom = std::max(2, (int) (n * c.rng.unit())); st.lo = loadOpts(c.rng); st.makeInput(n, false, std::max(1, dom / 2), (int) c.rng.range(1, 4), std::max(1, dom)); if (c.rng.chance(0.7)) { // text that needs care in a form
        std::string more; for (const char *o : { "\"a+b\"", "\"x=1&id=2\"", "\"100%41\"", "<http://e/?query=1&print=false#HTTP>" }) { T3 t; t.t[0] = st.v.s[0]; t.t[1] = st.v.p[0]; t.t[2] = o; st.m.insert(t); more += ntLine(t); }
        writeFile(st.in + "/more.nt", more);
    }
    PhaseResult r = st.load(calm()); c.expectOk(r, "S23/load");
    World w; w.m = &st.m; w.st = &st; std::string dir = c.dir + "/web"; mkdirs(dir + "/sub"); mkdirs(c.dir + "/web2"); Rng g(c.rng.next());
    auto text = [&](size_t k, const char *who) { std::string s = std::string("<html>") + who + " "; while (s.size() < k) s += (char) (' ' + 1 + g.below(90)); return s; };
    static const char *names[] = { "/index.html", "/a.html", "/sub/b.css", "/HTTP.html", "/sub/c..d.js", "/..e.html", "/big.html" };
    for (int i = 0; i < 7; ++i) if (i == 0 || g.chance(0.8)) { std::string s = text(i == 6 ? g.range(4000, 60000) : g.range(10, 300), names[i]), e = s; if (g.chance(0.4)) { s += " WEB_PORT end"; e += " 8080 end"; } writeFile(dir + names[i], s); w.pages[names[i]] = e; }
    for (const char *s : { "/secret.txt", "/web2/x.html", "/HTTPsecret", "/websecret" }) { writeFile(c.dir + s, SECRET); w.secrets.push_back(s); }
    int threads = (int) g.range(1, 4), clients = (int) g.range(1, 5), per = (int) g.range(1, c.thorough ? 8 : 4); sq::Gen gen(g, st.m, st.v.s, st.v.p, st.v.o); std::string kbdir = st.kb;
    { // identifiers, asked for directly
        PhaseResult a = runPhase(calm(), [&]() { KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); std::string o; std::set<std::string> ts; for (auto &t : st.m) for (int k = 0; k < 3; ++k) ts.insert(t.t[k]); nTerm id; for (auto &t : ts) if (kb.getDictMgmt()->getNumber(t.c_str(), t.size(), &id)) o += std::to_string((uint64_t) id) + " " + t + "\n"; payload(o); });
        c.expectOk(a, "S23/ids"); size_t p = 0; while (p < a.payload.size()) { size_t e = a.payload.find('\n', p); std::string l = a.payload.substr(p, e - p); size_t s = l.find(' '); std::string t = l.substr(s + 1); if (t[0] == '<') t = t.substr(1, t.size() - 2); w.terms.push_back(std::make_pair(strtoull(l.c_str(), 0, 10), t)); p = e + 1; }
    }
    std::vector<std::vector<Req>> plan(clients); int no = 0; for (auto &p : plan) for (int i = 0; i < per; ++i) { Req q = draw(w, g, gen, c.dir); if (c.dropped(++no)) continue; p.push_back(q); c.note("client " + std::to_string(&p - &plan[0]) + ": " + q.what); if (q.kind == 3) c.count("queries"); if (q.kind == 0) c.count("pages"); if (q.kind == 1) c.count("foreign-paths"); if (q.kind == 2) c.count("lookups"); }
    PhaseCfg p = calm(); c.randomSched(p); if (p.preemptPeriod && p.preemptPeriod < 500) p.preemptPeriod = 500; p.maxSteps *= 3; p.realTimeout = 200; p.hwThreads = (int) g.range(1, 8);
    if (g.chance(0.5)) { p.netFaultProb = g.chance(0.5) ? 0.05 : 0.2; p.netFaultMask = (1u << F_NETSHORTREAD) | (1u << F_NETSHORTWRITE) | (1u << F_NETDELAY) | (1u << F_NETEINTR); }
    uint64_t bound = 120 * SEC; bool bifocal = false; (void) bifocal;
    r = runPhase(p, [&]() {
        uint64_t answered = 0; { KBConfig cf; KB kb(kbdir.c_str(), true, false, true, cf); TridentServer srv(kb, dir, threads); srv.start(PORT);
        std::vector<std::thread> ts; for (int i = 0; i < clients; ++i) if (!plan[i].empty()) { Rng cg(g.s + i * 77 + 5); World *wp = &w; std::vector<Req> *pl = &plan[i]; ts.push_back(std::thread([=, &answered]() { client(wp, cg, *pl, bound, &answered); })); }
        for (auto &t : ts) t.join(); uint64_t t0 = now(); srv.stop(); srv.join(); check(now() - t0 < 200 * SEC, "S23/stop", "stopping the server took " + std::to_string((now() - t0) / SEC) + " simulated seconds"); }
        payload(std::to_string(answered));
    });
    c.expectOk(r, "S23/serve"); if (clients > 1) c.nontrivial(); c.observe(r.hash); c.count("answers", strtoull(r.payload.c_str(), 0, 10));
}
}
SCENARIO("S23", "web-endpoint", web, 1);
