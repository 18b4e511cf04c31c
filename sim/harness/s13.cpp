// S13: the HTTP client (real code) against a scripted server on simulated sockets.
#include "simrt.h"
#include "simnet.h"
#include <trident/utils/httpclient.h>
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace sim;

namespace {
const int PORT = 8099; const uint64_t MS = 1000000ull, SEC = 1000 * MS;
std::string bytes(Rng &g, size_t n) { std::string s(n, 0); int kind = (int) g.below(3); for (size_t i = 0; i < n; ++i) s[i] = kind == 0 ? (char) (32 + g.below(95)) : kind == 1 ? (char) g.below(256) : "\r\n0aHTTP/1 :"[g.below(12)]; return s; }
std::string cased(Rng &g, const std::string &s) { int k = (int) g.below(3); std::string r = s; for (auto &ch : r) ch = k == 0 ? ch : k == 1 ? (char) tolower(ch) : (char) toupper(ch); return r; }
struct Reply {
    std::string head, body, wire; bool ok200, keep; int framing; size_t cut; bool reset, isCut;   // cut: bytes sent before the connection ends
    bool post; std::string path, params; int id;
};
Reply make(Rng &g, int idx, bool last) {
    Reply r; r.id = idx; r.post = g.chance(0.4); r.path = "/r" + std::to_string(idx) + (g.chance(0.3) ? "?a=" + std::to_string(g.below(1000)) : ""); r.params = r.post ? bytes(g, g.chance(0.2) ? 0 : g.below(g.chance(0.2) ? 20000 : 300)) : "";
    r.framing = (int) g.below(last ? 3 : 2); r.ok200 = !g.chance(0.12); r.body = bytes(g, g.chance(0.15) ? 0 : g.chance(0.2) ? g.range(5000, 60000) : g.chance(0.5) ? g.range(1, 30) : g.range(30, 3000));
    r.head = std::string("HTTP/1.1 ") + (r.ok200 ? "200 OK" : g.chance(0.5) ? "404 Not Found" : "500 Oops"); int extra = (int) g.range(0, 5);
    std::string fr; if (r.framing == 0) fr = cased(g, "Content-Length:") + (g.chance(0.85) ? " " : "") + std::to_string(r.body.size()); else if (r.framing == 1) fr = cased(g, "Transfer-Encoding: chunked");
    int pos = (int) g.range(0, extra); for (int i = 0; i <= extra; ++i) { if (i == pos) { if (!fr.empty()) r.head += "\r\n" + fr; } else r.head += "\r\nX-H" + std::to_string(i) + ": " + std::string(g.chance(0.1) ? g.range(300, 2200) : g.range(0, 40), 'a' + (char) g.below(26)); }
    r.wire = r.head + "\r\n\r\n";
    if (r.framing == 1) {
        size_t o = 0; while (o < r.body.size()) { size_t n = std::min<size_t>(r.body.size() - o, g.chance(0.4) ? 1 + g.below(5) : 1 + g.below(3000)); char h[40]; snprintf(h, sizeof h, g.chance(0.5) ? "%zx" : g.chance(0.5) ? "%zX" : "0%zx", n); r.wire += std::string(h) + (g.chance(0.15) ? ";name=value" : "") + "\r\n" + r.body.substr(o, n) + "\r\n"; o += n; }
        r.wire += g.chance(0.8) ? "0\r\n" : "000\r\n"; if (g.chance(0.2)) r.wire += "X-Trailer: 5\r\n"; r.wire += "\r\n";
    } else r.wire += r.body;
    r.cut = r.wire.size(); r.isCut = false; r.reset = false; r.keep = !last && r.framing != 2;
    return r;
}
bool sendAll(int fd, const std::string &s, Rng &g, bool split) { size_t o = 0; while (o < s.size()) { size_t n = s.size() - o; if (split) { n = std::min<size_t>(n, g.chance(0.4) ? 1 + g.below(3) : 1 + g.below(s.size())); if (g.chance(0.4)) sleepNs(g.below(1500) * MS + 1); } ssize_t r = send(fd, s.data() + o, n, MSG_NOSIGNAL); if (r < 0) { if (errno == EINTR) continue; return false; } o += r; } return true; }
struct Conn { std::vector<Reply> rep; bool lateListen; };
void run(Ctx &c) {
    PhaseCfg p; c.randomSched(p); p.maxSteps = 60000000; p.realTimeout = 60; p.fairness = 300000; p.netFaultProb = c.rng.chance(0.2) ? 0 : c.rng.chance(0.5) ? 0.05 : 0.3; int k[] = { F_NETSHORTREAD, F_NETSHORTWRITE, F_NETDELAY, F_NETEINTR }; for (int i = 0; i < 4; ++i) if (c.rng.chance(0.7)) p.netFaultMask |= 1u << k[i];
    SimNetCfg nc; nc.buffer = c.rng.chance(0.4) ? c.rng.range(100, 5000) : 0; nc.addresses = (int) c.rng.range(1, 3); nc.refuse = c.rng.chance(0.2); nc.resolveFails = c.rng.chance(0.2); if (nc.refuse || nc.resolveFails) p.netFaultMask |= 1u << F_CONNFAIL;
    std::vector<Conn> cs; int nconn = (int) c.rng.range(1, 3), id = 0; std::string d; bool anyCut = false;
    for (int i = 0; i < nconn; ++i) {
        Conn cn; int n = (int) c.rng.range(1, 4); bool cutConn = c.rng.chance(0.4); if (c.dropped(i)) { id += 10; Rng skip(c.rng.next()); continue; } Rng g(c.rng.next());
        for (int j = 0; j < n; ++j) { Reply r = make(g, id++, j + 1 == n); if (!c.dropped(100 + i * 10 + j)) cn.rep.push_back(r); }
        if (cn.rep.empty()) continue; cn.rep.back().keep = false;
        if (cutConn) { Reply &r = cn.rep.back(); r.isCut = true; r.reset = g.chance(0.4); double x = g.unit(); size_t hl = r.head.size() + 4; r.cut = x < 0.15 ? 0 : x < 0.4 ? g.below(hl) : x < 0.5 ? hl : x < 0.7 && r.wire.size() > 8 ? r.wire.size() - 1 - g.below(8) : g.below(r.wire.size()); anyCut = true; }
        for (auto &r : cn.rep) d += std::string(d.empty() ? "" : " ") + (r.framing == 0 ? "length" : r.framing == 1 ? "chunked" : "close") + (r.ok200 ? "" : "!200") + ":" + std::to_string(r.body.size()) + (r.isCut ? (r.reset ? "/reset@" : "/cut@") + std::to_string(r.cut) + "of" + std::to_string(r.wire.size()) : ""); cs.push_back(cn);
    }
    c.note(d); c.nontrivial(); uint64_t seed = c.rng.next(); bool split = c.rng.chance(0.6); if (anyCut) c.count("responses-cut");
    PhaseResult r = runPhase(p, [&]() {
        sim_net_config(nc); volatile bool ready = false, stop = false; volatile uint64_t finished = 0; volatile int finishedId = -1, callId = -2;   // time when the server was done with a response, and which one; the response the client waits for
        std::thread server([&]() {
            Rng g(seed); int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(PORT); bind(l, (sockaddr *) &a, sizeof a); listen(l, 5); ready = true;
            for (auto &cn : cs) {
                int fd; do fd = accept(l, NULL, NULL); while (fd < 0); std::string in;
                for (auto &rp : cn.rep) {
                    std::string want = std::string(rp.post ? "POST " : "GET ") + rp.path + " HTTP/1.1\r\n"; size_t h; char b[2000]; bool gone = false;
                    while (!gone && ((h = in.find("\r\n\r\n")) == std::string::npos || in.size() < h + 4 + rp.params.size())) { ssize_t n = recv(fd, b, sizeof b, 0); if (n < 0 && errno == EINTR) continue; if (n <= 0) gone = true; else in.append(b, n); }
                    if (gone && in.empty()) { if (fd >= 0) close(fd); fd = -1; break; } if (gone) fail("S13/request", "the client ended the connection before its request was complete (" + std::to_string(in.size()) + " bytes came)");
                    if (in.compare(0, want.size(), want)) fail("S13/request", "the server received a different request line than was asked for: " + in.substr(0, want.size())); if (in.substr(h + 4) != rp.params) fail("S13/request", "the parameters arrived differently: " + std::to_string(in.size() - h - 4) + " bytes instead of " + std::to_string(rp.params.size()));
                    in.clear(); if (g.chance(0.3)) sleepNs(g.below(3000) * MS + 1);
                    bool alive = sendAll(fd, rp.wire.substr(0, rp.cut), g, split); (void) alive; finished = now(); finishedId = rp.id;
                    if (rp.isCut && rp.reset) { if (g.chance(0.5)) sleepNs(g.below(2000) * MS + 1); sim_net_abort(fd); fd = -1; finished = now(); }
                    if (rp.keep) { if (g.chance(0.5)) sleepNs(5 * SEC); } // the connection stays open
                    else if (fd >= 0) { if (rp.framing != 2 && !rp.isCut && g.chance(0.5)) { uint64_t end = now() + 100 * SEC; while (now() < end && !stop) sleepNs(500 * MS); } close(fd); fd = -1; finished = now(); }
                }
            }
            close(l);
        });
        while (!ready) sleepNs(MS);
        volatile uint64_t callSince = 0; volatile bool over = false;
        std::thread watch([&]() { while (!over) { sleepNs(SEC); uint64_t f = finished, cs0 = callSince; if (f < cs0) f = cs0; if (cs0 && callId == finishedId && now() > f + 40 * SEC) fail("S13/hang", "the client still waits 40 simulated seconds after the server finished its response"); } });
        int done = 0; std::string sum;
        for (auto &cn : cs) {
            HttpClient cl("localhost", PORT); bool up = false; for (int t = 0; t < 200 && !up; ++t) up = cl.connect(); check(up, "S13/connect", "the client could not connect to a listening server");
            for (auto &rp : cn.rep) {
                std::string h = "old", b = "old"; callId = rp.id; callSince = now() ? now() : 1; bool ok = rp.post ? cl.post(rp.path, rp.params, h, b) : cl.get(rp.path, h, b); callSince = 0;
                std::string who = "response " + rp.path + " (" + (rp.framing == 0 ? "content length" : rp.framing == 1 ? "chunked" : "until close") + ", " + std::to_string(rp.body.size()) + " bytes" + (rp.isCut ? std::string(rp.reset ? ", reset after " : ", cut after ") + std::to_string(rp.cut) + " of " + std::to_string(rp.wire.size()) : "") + ")";
                bool whole = !rp.isCut; bool exact = h == rp.head && b == rp.body;
                if (!rp.ok200) check(!ok || (exact && whole), "S13/status", who + " has status " + rp.head.substr(9, 3) + " but was returned as success");
                else if (whole) { check(ok, "S13/refused", who + " was complete but the client reported failure"); check(h == rp.head, "S13/headers", who + ": headers differ, " + std::to_string(h.size()) + " bytes instead of " + std::to_string(rp.head.size())); check(b == rp.body, "S13/body", who + ": body differs, got " + std::to_string(b.size()) + " bytes"); }
                else if (ok) {
                    size_t hl = rp.head.size() + 4; bool untilClose = rp.framing == 2 && !rp.reset && rp.cut >= hl && h == rp.head && b == rp.body.substr(0, rp.cut - hl);   // nothing tells the client that more should follow
                    bool allThere = exact && (rp.framing == 0 ? rp.cut == rp.wire.size() : rp.framing == 1 && rp.cut + 2 >= rp.wire.size()) ;
                    check(untilClose || allThere, "S13/truncated", who + " was returned as success with a body of " + std::to_string(b.size()) + " bytes");
                }
                done++; if (!ok) break;
            }
            stop = true; cl.disconnect(); 
        }
        over = true; watch.join(); server.detach(); payload(std::to_string(done));
    });
    c.expectOk(r, "S13/run"); c.count("responses", strtoull(r.payload.c_str(), 0, 10));
}
}
SCENARIO("S13", "http-client", run, 1);
