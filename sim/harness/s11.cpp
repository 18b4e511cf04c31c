// S11, S12: the HTTP server (real code) on simulated sockets. S11: requests reach the application whole and responses reach their client whole.
// S12: misbehaving clients cannot stall the others, and stop() ends.
#include "simrt.h"
#include "simnet.h"
#include <trident/utils/httpserver.h>
#include <arpa/inet.h>
#include <errno.h>
#include <memory>
#include <mutex>
#include <set>
#include <string.h>
#include <thread>
using namespace sim;

namespace {
const int PORT = 8080; const uint64_t MS = 1000000ull, SEC = 1000 * MS;
std::string body(uint64_t id, size_t n) { std::string s(n, 0); uint64_t x = id * 2654435761u + 99; for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char) (32 + (x >> 33) % 95); } return s; }
std::string response(const std::string &req) {
    uint64_t h = hashStr(req); size_t n = h % 10 < 5 ? h % 300 : h % 10 < 9 ? h % 6000 : h % 90000; return "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(n) + "\r\nX-Hash: " + std::to_string(h) + "\r\n\r\n" + body(h, n);
}
std::string request(Rng &g, int client, int k) {
    std::string id = std::to_string(client) + "-" + std::to_string(k), s; bool post = g.chance(0.5);
    s = post ? "POST /p" + id + " HTTP/1.1\r\n" : "GET /g" + id + (g.chance(0.2) ? "?Content-Length:7" : "") + " HTTP/1.1\r\n"; s += "Host: localhost:8080\r\n";
    int extra = (int) g.range(0, 4); for (int i = 0; i < extra; ++i) s += "X-Extra-" + std::to_string(i) + ": " + body(g.next(), g.chance(0.15) ? g.range(200, 2500) : g.range(0, 60)) + "\r\n";
    std::string b; if (post) {
        b = body(g.next(), g.chance(0.2) ? 0 : g.chance(0.3) ? g.range(500, 6000) : g.range(1, 300)); if (g.chance(0.2)) b = "a\r\n\r\nContent-Length: 3\r\n" + b; if (g.chance(0.1)) b += "\r\n";
        double x = g.unit(); s += (x < 0.7 ? "Content-Length: " : x < 0.85 ? "content-length: " : "Content-Length:") + std::to_string(b.size()) + "\r\n"; if (g.chance(0.4)) s += "Content-Type: application/x-www-form-urlencoded\r\n";
    }
    return s + "\r\n" + b;
}
std::string esc(const std::string &s) { std::string r; for (unsigned char ch : s) if (ch == '\r') r += "\\r"; else if (ch == '\n') r += "\\n"; else r += ch >= 32 && ch < 127 ? (char) ch : '?'; return r; }
struct Shared2 { std::mutex m; std::map<std::string, int> sent, handled; };   // request text -> times

int dial(uint64_t tmo) { // connected socket or -1
    for (uint64_t end = now() + tmo; now() < end;) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(PORT); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(fd, (sockaddr *) &a, sizeof a) == 0) return fd; close(fd); sleepNs(10 * MS); }
    return -1;
}
bool put(int fd, const std::string &s, Rng &g, bool split) { // false if the connection is gone
    size_t o = 0; while (o < s.size()) { size_t n = s.size() - o; if (split) { n = std::min<size_t>(n, g.chance(0.3) ? 1 + g.below(4) : 1 + g.below(s.size())); if (g.chance(0.5)) sleepNs(g.below(800) * MS + 1); } ssize_t r = send(fd, s.data() + o, n, MSG_NOSIGNAL); if (r < 0) { if (errno == EINTR) continue; return false; } o += r; } return true;
}
// reads n bytes; less if the connection ended or the deadline passed
std::string take(int fd, size_t n, uint64_t deadline, bool slow, Rng &g) {
    std::string s; char b[4096]; while (s.size() < n && now() < deadline) { pollfd p; p.fd = fd; p.events = POLLIN; uint64_t left = (deadline - now()) / MS + 1; int k = poll(&p, 1, (int) std::min<uint64_t>(left, 1000)); if (k <= 0) continue; ssize_t r = recv(fd, b, std::min(n - s.size(), sizeof b), 0); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; s.append(b, r); if (slow && g.chance(0.3)) sleepNs(g.below(50) * MS + 1); } return s;
}
struct Scope { int workers, clients; uint64_t life; std::vector<int> keep; uint64_t seed; SimNetCfg net; bool thorough; bool slowHandler; };

struct Srv {
    Shared2 *st; HttpServer *srv; std::thread t; bool returned; 
    Srv(const Scope &sc, Shared2 *st, const char *key) : st(st), returned(false) {
        std::string k = key; uint64_t hseed = sc.seed; bool slow = sc.slowHandler;
        srv = new HttpServer(PORT, [st, k, hseed, slow](const std::string &rq, std::string &rs) {
            { std::lock_guard<std::mutex> l(st->m); std::map<std::string, int>::iterator it = st->sent.find(rq); if (it == st->sent.end()) fail(k + "/request", "the application was handed " + std::to_string(rq.size()) + " bytes that are not a request any client sent: \"" + esc(rq.substr(0, 80)) + "\"..."); if (++st->handled[rq] > it->second) fail(k + "/request-twice", "the application was handed the same request more often than it was sent: " + rq.substr(0, 40)); }
            Rng g(hseed ^ hashStr(rq)); if (slow && g.chance(0.4)) sleepNs(g.below(900) * MS + 1); rs = response(rq);
        }, sc.workers, sc.life);
        t = std::thread([this]() { srv->start(); returned = true; });
    }
};
void oneClient(const Scope &sc, Shared2 *st, int id, Rng g, const char *key, uint64_t bound, bool polite, uint64_t *answered) {
    std::string K = key; int conns = (int) g.range(1, 3), k = 0; bool fast = K == "S12";   // well within the idle limit sleepNs(g.below(2000) * MS + 1);
    for (int c = 0; c < conns; ++c) {
        int fd = dial(bound); check(fd >= 0, K + "/no-connection", "a client could not connect within " + std::to_string(bound / SEC) + " simulated seconds");
        int n = fast ? 1 : (int) g.range(1, 4); bool split = g.chance(0.6) && !fast, slow = g.chance(0.3) && !fast, pipeline = g.chance(0.25);
        for (int i = 0; i < n;) {
            int batch = pipeline ? (int) g.range(1, n - i) : 1; std::vector<std::string> rq; std::string all, want; for (int j = 0; j < batch; ++j) { rq.push_back(request(g, id, k++)); if (j && sc.net.buffer && all.size() + rq.back().size() > sc.net.buffer) { rq.pop_back(); batch = j; break; } /* a client that sends more than fits without reading stalls itself */ all += rq.back(); want += response(rq.back()); std::lock_guard<std::mutex> l(st->m); st->sent[rq.back()]++; }
            uint64_t t0 = now();
            if (!put(fd, all, g, split)) fail(K + "/disconnected", "the server dropped the connection of a well-behaved client while it sent its request");
            std::string got = take(fd, want.size(), now() + bound, slow, g);
            if (got != want) { size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) p++; fail(K + (got.size() < want.size() && p == got.size() ? "/no-answer" : "/response"), "client " + std::to_string(id) + ": " + std::to_string(batch) + " request(s) of " + std::to_string(all.size()) + " bytes, answer differs from byte " + std::to_string(p) + ", got " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " bytes in " + std::to_string((now() - t0) / MS) + " ms"); }
            (*answered) += batch; i += batch; if (i < n && g.chance(0.5)) sleepNs(g.below(2500) * MS + 1);
        }
        if (g.chance(0.3)) { char b; ssize_t r = recv(fd, &b, 1, MSG_DONTWAIT); check(r <= 0, K + "/extra", "the server sent more than the response"); }
        if (g.chance(0.2)) shutdown(fd, SHUT_WR); 
        close(fd);
    }
}
// clients that do not follow the rules
void rudeClient(const Scope &sc, Shared2 *st, int id, Rng g, int kind) {
    sleepNs(g.below(1500) * MS + 1); int rounds = (int) g.range(1, 3);
    for (int r = 0; r < rounds; ++r) {
        int fd = dial(20 * SEC); if (fd < 0) return; std::string rq = request(g, 1000 + id, r);
        switch (kind) {
        case 0: sleepNs(g.below(40) * SEC + 1); break;                                                                                             // says nothing
        case 1: put(fd, rq.substr(0, 1 + g.below(rq.size() - 1)), g, g.chance(0.5)); sleepNs(g.below(40) * SEC + 1); break;                         // stops in the middle
        case 2: put(fd, rq.substr(0, 1 + g.below(rq.size() - 1)), g, g.chance(0.5)); break;                                                         // leaves in the middle
        case 3: { std::lock_guard<std::mutex> l(st->m); st->sent[rq]++; } put(fd, rq, g, g.chance(0.5)); break;                                     // does not wait for the answer
        case 4: { std::lock_guard<std::mutex> l(st->m); st->sent[rq]++; } put(fd, rq, g, g.chance(0.3)); sleepNs(g.below(2000) * MS + 1); sim_net_abort(fd); continue; // resets the connection
        case 5: sim_net_abort(fd); continue;
        case 6: { for (int i = 0; i < 40; ++i) { std::string q = request(g, 1000 + id, r * 100 + i); { std::lock_guard<std::mutex> l(st->m); st->sent[q]++; } pollfd p; p.fd = fd; p.events = POLLOUT; if (poll(&p, 1, 100) <= 0 || send(fd, q.data(), q.size(), MSG_NOSIGNAL | MSG_DONTWAIT) != (ssize_t) q.size()) break; } sleepNs((20 + g.below(20)) * SEC); break; } // never reads its answers
        case 7: put(fd, "POST /x HTTP/1.1\r\nContent-Length: " + std::string(g.chance(0.5) ? "-5" : g.chance(0.5) ? "99999999999999999999999" : "abc") + "\r\n\r\nzzzz", g, false); sleepNs(g.below(10) * SEC + 1); break; // lies about its length
        case 8: put(fd, body(g.next(), g.range(1, 5000)), g, false); if (g.chance(0.5)) sleepNs(g.below(10) * SEC + 1); break;                       // garbage without an end of header
        case 9: shutdown(fd, SHUT_WR); sleepNs(g.below(10) * SEC + 1); break;
        case 10: for (int i = 0; i < 30 && g.chance(0.95); ++i) { if (send(fd, "G", 1, MSG_NOSIGNAL) < 0) break; sleepNs(g.below(4000) * MS + 1); } break; // one byte at a time, forever
        }
        close(fd);
    }
}
// malformed requests of kind 7 and 8 may be handed over as they are: nothing is promised about them
void scope(Ctx &c, Scope &sc, bool s12) {
    sc.workers = (int) c.rng.range(1, 4); sc.clients = (int) c.rng.range(1, c.thorough ? 8 : 5); sc.life = s12 ? c.rng.range(4000, 8000) : 60000; sc.seed = c.rng.next(); sc.thorough = c.thorough; sc.slowHandler = c.rng.chance(0.4);
    if (c.rng.chance(0.5)) sc.net.buffer = c.rng.range(s12 ? 5000 : 200, 20000);
}
void netFaults(Ctx &c, PhaseCfg &p) {
    c.randomSched(p); p.maxSteps = 60000000; p.realTimeout = 60; p.fairness = 300000; p.netFaultProb = c.rng.chance(0.2) ? 0 : c.rng.chance(0.5) ? 0.05 : 0.25; p.netFaultMask = 0; int k[] = { F_NETSHORTREAD, F_NETSHORTWRITE, F_NETDELAY, F_NETEINTR };
    for (int i = 0; i < 4; ++i) if (c.rng.chance(0.7)) p.netFaultMask |= 1u << k[i];
    if (c.rng.chance(0.5)) p.netFaultMask |= 1u << F_CONNFAIL;
}
void s11(Ctx &c) {
    Scope sc; scope(c, sc, false); PhaseCfg p; netFaults(c, p); std::vector<int> kinds; int rude = c.rng.chance(0.5) ? (int) c.rng.range(1, 3) : 0; for (int i = 0; i < rude; ++i) { int ks[] = { 2, 3, 4, 5 }; kinds.push_back(ks[c.rng.below(4)]); }
    std::vector<int> cl, ru; for (int i = 0; i < sc.clients; ++i) if (!c.dropped(i)) cl.push_back(i); for (int i = 0; i < rude; ++i) if (!c.dropped(100 + i)) ru.push_back(i);
    c.note("workers=" + std::to_string(sc.workers) + " clients=" + std::to_string(cl.size()) + " leaving=" + std::to_string(ru.size()) + " buffer=" + std::to_string(sc.net.buffer)); c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        sim_net_config(sc.net); Shared2 *st = new Shared2(); Srv *s = new Srv(sc, st, "S11"); while (!sim_net_listening(PORT)) sleepNs(MS);
        std::vector<std::thread> th; uint64_t answered[64]; memset(answered, 0, sizeof answered);
        for (int i : cl) th.push_back(std::thread([&, i]() { oneClient(sc, st, i, Rng(sc.seed + i), "S11", 120 * SEC, true, &answered[i]); }));
        for (int i : ru) th.push_back(std::thread([&, i]() { rudeClient(sc, st, i, Rng(sc.seed + 777 + i), kinds[i]); }));
        for (auto &t : th) t.join();
        uint64_t n = 0; for (int i = 0; i < 64; ++i) n += answered[i]; payload(std::to_string(n)); s->t.detach();
    });
    c.expectOk(r, "S11/run"); c.count("requests-answered", strtoull(r.payload.c_str(), 0, 10));
}
void s12(Ctx &c) {
    Scope sc; scope(c, sc, true); PhaseCfg p; netFaults(c, p); int rude = (int) c.rng.range(1, c.thorough ? 14 : 8); std::vector<int> kinds; int fav = (int) c.rng.below(11); for (int i = 0; i < rude; ++i) kinds.push_back(c.rng.chance(0.5) ? fav : (int) c.rng.below(11));
    if (c.rng.chance(0.3)) sc.net.fdLimit = (int) c.rng.range(sc.clients + 2, sc.clients + 12);
    std::vector<int> cl, ru; for (int i = 0; i < sc.clients; ++i) if (!c.dropped(i)) cl.push_back(i); for (int i = 0; i < rude; ++i) if (!c.dropped(100 + i)) ru.push_back(i);
    bool early = c.rng.chance(0.2), veryEarly = early && c.rng.chance(0.3); uint64_t stopAfter = c.rng.below(4000);   // stop in the middle of it all
    std::string kd; for (int i : ru) kd += (kd.empty() ? "" : ",") + std::to_string(kinds[i]);
    c.note("workers=" + std::to_string(sc.workers) + " clients=" + std::to_string(cl.size()) + " misbehaving=" + kd + " idle limit=" + std::to_string(sc.life) + " ms descriptors=" + std::to_string(sc.net.fdLimit) + (early ? " stopped after " + std::to_string(stopAfter) + " ms" : "")); c.nontrivial();
    PhaseResult r = runPhase(p, [&]() {
        sim_net_config(sc.net); Shared2 *st = new Shared2(); uint64_t bound = (60 + 25 * (uint64_t) ru.size()) * SEC; Srv *s = NULL; 
        { std::string k = "S12"; Scope &S = sc; s = (Srv *) calloc(1, sizeof(Srv)); new (&s->t) std::thread(); s->st = st; bool slow = S.slowHandler; uint64_t hs = S.seed; s->srv = new HttpServer(PORT, [slow, hs](const std::string &rq, std::string &rs) { Rng g(hs ^ hashStr(rq)); if (slow && g.chance(0.4)) sleepNs(g.below(900) * MS + 1); rs = response(rq); }, S.workers, S.life); s->t = std::thread([s]() { s->srv->start(); s->returned = true; }); }
        if (!veryEarly) while (!sim_net_listening(PORT)) sleepNs(MS);
        std::vector<std::thread> th, bad; uint64_t answered[64]; memset(answered, 0, sizeof answered);
        if (!early) for (int i : cl) th.push_back(std::thread([&, i]() { oneClient(sc, st, i, Rng(sc.seed + i), "S12", bound, true, &answered[i]); }));
        for (int i : ru) bad.push_back(std::thread([&, i]() { rudeClient(sc, st, i, Rng(sc.seed + 777 + i), kinds[i]); }));
        for (auto &t : th) t.join();
        if (early && !veryEarly) sleepNs(stopAfter * MS + 1); else if (!early && ru.size() && (stopAfter & 1)) for (auto &t : bad) if (t.joinable()) t.join();
        uint64_t n = 0; for (int i = 0; i < 64; ++i) n += answered[i]; payload(std::to_string(n));
        // stop must end, start must return, and the object must be destructible
        volatile bool done = false; std::thread stopper([&]() { s->srv->stop(); done = true; }); uint64_t limit = now() + (60 + 10 * (uint64_t) ru.size()) * SEC; while (!done && now() < limit) sleepNs(100 * MS);
        check(done, "S12/stop", "stop did not return within " + std::to_string(60 + 10 * ru.size()) + " simulated seconds"); stopper.join();
        while (!s->returned && now() < limit) sleepNs(100 * MS);
        check(s->returned, "S12/start", "start did not return after stop"); s->t.join();
        check(!s->srv->isLaunched(), "S12/launched", "the server says it is running after stop"); check(!sim_net_listening(PORT), "S12/listening", "the port is still open after stop");
        delete s->srv; for (auto &t : bad) if (t.joinable()) t.join();
        int left = sim_net_open_server(); check(left == 0, "S12/descriptors", std::to_string(left) + " connections are still open after the server was stopped and destroyed");
    });
    c.expectOk(r, "S12/run"); c.count("requests-answered", strtoull(r.payload.c_str(), 0, 10)); c.count("misbehaving-clients", ru.size());
}
}
SCENARIO("S11", "http-requests", s11, 1);
SCENARIO("S12", "http-misbehaving", s12, 1);
