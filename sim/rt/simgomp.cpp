// A small OpenMP runtime (the part of the GOMP interface that SNAP needs) on top of pthreads, so that every worker
// is a thread of the simulator. The real libgomp synchronises with futexes, which the scheduler cannot see.
// Conforming choices that libgomp never makes are taken from the seed: how large the chunks of a dynamic loop are
// (set by the harness) and when deferred tasks run.
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <deque>
#include <map>
#include <vector>
#include "simrt.h"

namespace {
struct Task { void (*fn)(void *); char *data; Task *parent; int children; bool heap; };
struct Share { bool init; long next, end, incr, chunk; unsigned sections; bool single; int left; Share(): init(false), next(0), end(0), incr(1), chunk(1), sections(0), single(false), left(0) {} };
struct Team {
    void (*fn)(void *); void *data; int n, done, arrived; long gen; pthread_mutex_t m; pthread_cond_t c;
    std::map<long, Share> shares; std::deque<Task *> queue; int tasks; // tasks: queued or running
    Share preset; bool hasPreset;
};
struct Worker { pthread_t pt; Team *team; int tid; pthread_mutex_t m; pthread_cond_t c; };
int g_threads = 1, g_div = 1; bool g_defer = false;
std::vector<Worker *> g_idle;
pthread_mutex_t g_m = PTHREAD_MUTEX_INITIALIZER, g_crit = PTHREAD_MUTEX_INITIALIZER, g_atom = PTHREAD_MUTEX_INITIALIZER;
__thread Team *t_team = NULL; __thread int t_tid = 0; __thread long t_ws = 0; __thread Share *t_sh = NULL; __thread Task *t_task = NULL;
struct L { pthread_mutex_t *m; L(pthread_mutex_t *x): m(x) { pthread_mutex_lock(m); } ~L() { pthread_mutex_unlock(m); } };

void runTask(Team *t, Task *k) { // called without the lock
    Task *old = t_task; t_task = k; k->fn(k->data); t_task = old;
    if (t) { L l(&t->m); t->tasks--; if (k->parent) k->parent->children--; pthread_cond_broadcast(&t->c); }
    // a task object lives until its children are gone: they hold a pointer to it
    if (!k->children) { free(k->data); delete k; }
}
void barrier(Team *t) {
    if (!t) return;
    pthread_mutex_lock(&t->m);
    long g = t->gen; t->arrived++;
    while (true) {
        if (!t->queue.empty()) { Task *k = t->queue.front(); t->queue.pop_front(); pthread_mutex_unlock(&t->m); runTask(t, k); pthread_mutex_lock(&t->m); continue; }
        if (t->gen != g) break;
        if (t->arrived == t->n && t->tasks == 0) { t->arrived = 0; t->gen++; pthread_cond_broadcast(&t->c); break; }
        pthread_cond_wait(&t->c, &t->m);
    }
    pthread_mutex_unlock(&t->m);
}
void body(Team *t, int tid) {
    Team *ot = t_team; int oi = t_tid; long ow = t_ws; Share *os = t_sh; Task *ok = t_task;
    Task root; memset(&root, 0, sizeof root);
    t_team = t; t_tid = tid; t_ws = 0; t_sh = NULL; t_task = &root;
    t->fn(t->data); barrier(t);
    t_team = ot; t_tid = oi; t_ws = ow; t_sh = os; t_task = ok;
}
void *worker(void *p) {
    Worker *w = (Worker *) p;
    while (true) {
        pthread_mutex_lock(&w->m); while (!w->team) pthread_cond_wait(&w->c, &w->m); Team *t = w->team; pthread_mutex_unlock(&w->m);
        body(t, w->tid);
        pthread_mutex_lock(&w->m); w->team = NULL; pthread_mutex_unlock(&w->m);
        { L l(&g_m); g_idle.push_back(w); }
        { L l(&t->m); t->done++; pthread_cond_broadcast(&t->c); }
    }
    return NULL;
}
void parallel(void (*fn)(void *), void *data, unsigned nt, const Share *preset) {
    int n = nt ? (int) nt : g_threads; if (t_team && t_team->n > 1) n = 1; // no nested parallelism, as the default of libgomp
    Team t; t.fn = fn; t.data = data; t.done = t.arrived = t.tasks = 0; t.gen = 0; pthread_mutex_init(&t.m, NULL); pthread_cond_init(&t.c, NULL);
    t.hasPreset = preset != NULL; if (preset) t.preset = *preset;
    std::vector<Worker *> ws;
    for (int i = 1; i < n; ++i) {
        Worker *w = NULL;
        { L l(&g_m); if (!g_idle.empty()) { w = g_idle.back(); g_idle.pop_back(); } }
        if (!w) { w = new Worker; w->team = NULL; pthread_mutex_init(&w->m, NULL); pthread_cond_init(&w->c, NULL); if (pthread_create(&w->pt, NULL, worker, w) != 0) { delete w; break; } pthread_detach(w->pt); }
        ws.push_back(w);
    }
    t.n = 1 + (int) ws.size();
    for (size_t i = 0; i < ws.size(); ++i) { L l(&ws[i]->m); ws[i]->tid = (int) i + 1; ws[i]->team = &t; pthread_cond_signal(&ws[i]->c); }
    body(&t, 0);
    pthread_mutex_lock(&t.m); while (t.done < (int) ws.size()) pthread_cond_wait(&t.c, &t.m); pthread_mutex_unlock(&t.m);
    pthread_mutex_destroy(&t.m); pthread_cond_destroy(&t.c);
}
Team *serialTeam() { // a worksharing construct outside of a parallel region
    static __thread Team *s = NULL;
    if (!s) { s = new Team; s->n = 1; s->done = s->arrived = s->tasks = 0; s->gen = 0; s->hasPreset = false; pthread_mutex_init(&s->m, NULL); pthread_cond_init(&s->c, NULL); }
    return s;
}
Team *team() { return t_team ? t_team : serialTeam(); }
Share *enter(Team *t) { // with the lock
    long k = t_ws++; Share &s = t->shares[k];
    if (!s.init && k == 0 && t->hasPreset) { s = t->preset; s.left = 0; s.init = true; }
    return &s;
}
bool loopNext(long *a, long *b) {
    Team *t = team(); L l(&t->m); if (!t_sh) t_sh = enter(t); Share *s = t_sh;
    if (s->incr > 0 ? s->next >= s->end : s->next <= s->end) return false;
    *a = s->next; long e = s->next + s->chunk * s->incr; if (s->incr > 0 ? e > s->end : e < s->end) e = s->end;
    *b = e; s->next = e; return true;
}
long cut(long chunk) { long c = chunk / g_div; return c < 1 ? 1 : c; }
bool loopStart(long st, long en, long inc, long chunk, long *a, long *b) {
    Team *t = team();
    { L l(&t->m); Share *s = enter(t); if (!s->init) { s->init = true; s->next = st; s->end = en; s->incr = inc; s->chunk = cut(chunk); } t_sh = s; }
    return loopNext(a, b);
}
Share loopPreset(long st, long en, long inc, long chunk) { Share s; s.init = true; s.next = st; s.end = en; s.incr = inc; s.chunk = cut(chunk); return s; }
}

extern "C" {
void simgomp_config(int threads, int chunkDiv, int defer) { g_threads = threads; g_div = chunkDiv; g_defer = defer != 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt, NULL); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return loopStart(s, e, i, c, a, b); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loopStart(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loopStart(s, e, i, 1, a, b); }
bool GOMP_loop_dynamic_next(long *a, long *b) { return loopNext(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return loopNext(a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return loopNext(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return loopNext(a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loopNext(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loopNext(a, b); }
void GOMP_loop_end() { barrier(t_team); }
void GOMP_loop_end_nowait() {}
static void ploop(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c) { Share p = loopPreset(s, e, i, c); parallel(fn, d, nt, &p); }
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { ploop(fn, d, nt, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { ploop(fn, d, nt, s, e, i, c); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { ploop(fn, d, nt, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { ploop(fn, d, nt, s, e, i, c); }
// the body of a combined construct starts with *_next: make it enter the preset construct
unsigned GOMP_sections_next();
unsigned GOMP_sections_start(unsigned count) { Team *t = team(); { L l(&t->m); Share *s = enter(t); if (!s->init) { s->init = true; s->next = 1; s->sections = count; } t_sh = s; } return GOMP_sections_next(); }
unsigned GOMP_sections_next() { Team *t = team(); L l(&t->m); if (!t_sh) t_sh = enter(t); Share *s = t_sh; return s->next <= (long) s->sections ? (unsigned) s->next++ : 0; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned count, unsigned) { Share p; p.init = true; p.next = 1; p.sections = count; parallel(fn, d, nt, &p); }
void GOMP_sections_end() { barrier(t_team); }
void GOMP_sections_end_nowait() {}
bool GOMP_single_start() { Team *t = team(); L l(&t->m); Share *s = enter(t); if (s->single) return false; s->single = s->init = true; return true; }
void GOMP_barrier() { barrier(t_team); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool ifc, unsigned, void **, int, void *) {
    if (align < 1) align = 1;
    Task *k = new Task; k->fn = fn; k->parent = t_task; k->children = 0; k->heap = true; void *mem = NULL; long al = align < 16 ? 16 : align;
    if (posix_memalign(&mem, al, size > 0 ? size : 1) != 0) abort();
    k->data = (char *) mem; if (cpy) cpy(k->data, data); else memcpy(k->data, data, size);
    Team *t = t_team;
    if (!t || !ifc || (g_defer ? sim::choose(sim::ST_ALLOC, 2, 0.25) != 0 : true)) { if (t) { L l(&t->m); t->tasks++; if (k->parent) k->parent->children++; } runTask(t, k); return; }
    L l(&t->m); t->tasks++; if (k->parent) k->parent->children++; t->queue.push_back(k); pthread_cond_broadcast(&t->c);
}
void GOMP_taskwait() {
    Team *t = t_team; if (!t || !t_task) return;
    pthread_mutex_lock(&t->m);
    while (t_task->children > 0) {
        if (!t->queue.empty()) { Task *k = t->queue.back(); t->queue.pop_back(); pthread_mutex_unlock(&t->m); runTask(t, k); pthread_mutex_lock(&t->m); continue; }
        pthread_cond_wait(&t->c, &t->m);
    }
    pthread_mutex_unlock(&t->m);
}
static std::map<void **, pthread_mutex_t *> g_named;
void GOMP_critical_start() { pthread_mutex_lock(&g_crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_crit); }
static pthread_mutex_t *named(void **p) { L l(&g_m); pthread_mutex_t *&m = g_named[p]; if (!m) { m = new pthread_mutex_t; pthread_mutex_init(m, NULL); } return m; }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(named(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&g_atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atom); }
int omp_get_max_threads() { return g_threads; }
int omp_get_num_procs() { return g_threads; }
int omp_get_num_threads() { return t_team ? t_team->n : 1; }
int omp_get_thread_num() { return t_tid; }
int omp_in_parallel() { return t_team && t_team->n > 1; }
void omp_set_num_threads(int n) { if (n > 0) g_threads = n; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
typedef struct { pthread_mutex_t *m; } simlock;
void omp_init_lock(simlock *l) { l->m = new pthread_mutex_t; pthread_mutex_init(l->m, NULL); }
void omp_destroy_lock(simlock *l) { delete l->m; }
void omp_set_lock(simlock *l) { pthread_mutex_lock(l->m); }
void omp_unset_lock(simlock *l) { pthread_mutex_unlock(l->m); }
int omp_test_lock(simlock *l) { return pthread_mutex_trylock(l->m) == 0; }
}
