// OpenMP runtime on top of the simulated threads. Uninstrumented; no std containers.
#include "sim.h"
#include "sim_internal.h"
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

namespace {
struct Work { long seq; long next, end, incr, chunk; long done; };
struct Team {
    int n; int arrived; long gen; long single_seq;
    Work ws[32];
    long singles;
    void (*fn)(void*); void* data;
    void* copyprivate;
};
struct Ctx { Team* team; int id; long ws; long single; Work* cur; int level; };
__thread Ctx* ctx = nullptr;
__thread int req_threads = 0;
int team_limit = 0;
char crit_default, atomic_lock;
struct Start { Team* t; int id; int level; bool loop; };

void* member(void* p) {
    Start* s = (Start*)p;
    Ctx c{}; c.team = s->t; c.id = s->id; c.level = s->level;
    if (s->loop) { c.cur = &s->t->ws[0]; c.ws = 1; }
    ctx = &c;
    sim::op_mark(0);
    s->t->fn(s->t->data);
    ctx = nullptr;
    return nullptr;
}
void barrier() {
    if (!ctx || ctx->team->n == 1) { sim::yield_point(); return; }
    Team* t = ctx->team;
    sim::yield_point();
    sim::eng_release(t);
    sim::eng_acquire(t);
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; sim::eng_wake(&t->gen, true); }
    else { long g = t->gen; while (t->gen == g) sim::eng_wait_on(&t->gen); }
    sim::eng_acquire(t);
}
int team_size(unsigned req) {
    int n = req ? (int)req : (req_threads > 0 ? req_threads : (int)(sim::eng_concurrency() ? sim::eng_concurrency() : 1));
    if (ctx && ctx->team->n > 1) n = 1; // nested parallelism off
    if (team_limit > 0 && n > team_limit) { n = team_limit; sim::note_fault("smaller-team"); }
    if (n > 32) n = 32;
    if (n < 1) n = 1;
    return n;
}
void run_team(void (*fn)(void*), void* data, unsigned req, const Work* w) {
    int n = team_size(req);
    Team* t = (Team*)calloc(1, sizeof(Team));
    t->n = n; t->fn = fn; t->data = data;
    for (auto& x : t->ws) x.seq = -1;
    if (w) { t->ws[0] = *w; t->ws[0].seq = 0; }
    Ctx c{}; Ctx* saved = ctx;
    c.team = t; c.id = 0; c.level = saved ? saved->level + 1 : 1;
    pthread_t* th = (pthread_t*)calloc(n, sizeof(pthread_t));
    Start* st = (Start*)calloc(n, sizeof(Start));
    for (int i = 1; i < n; ++i) { st[i].t = t; st[i].id = i; st[i].level = c.level; st[i].loop = w != nullptr; if (pthread_create(&th[i], nullptr, member, &st[i])) sim::harness_error("OpenMP thread creation failed"); }
    if (w) { c.cur = &t->ws[0]; c.ws = 1; }
    ctx = &c;
    fn(data);
    ctx = saved;
    for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
    free(th); free(st); free(t);
}
Work* enter_loop(long start, long end, long incr, long chunk) {
    Team* t = ctx->team;
    long seq = ctx->ws++;
    Work* w = &t->ws[seq % 32];
    sim::yield_point();
    if (w->seq != seq) { w->seq = seq; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk > 0 ? chunk : 1; }
    ctx->cur = w;
    return w;
}
bool next_chunk(Work* w, long* a, long* b) {
    sim::yield_point();
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    *a = w->next;
    long e = w->next + w->chunk * w->incr;
    if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
    *b = e; w->next = e;
    return true;
}
struct Solo { Team t; Ctx c; };
void ensure_ctx() { // orphaned worksharing outside of a parallel region
    if (ctx) return;
    static __thread Solo* s = nullptr;
    if (!s) { s = (Solo*)calloc(1, sizeof(Solo)); s->t.n = 1; for (auto& x : s->t.ws) x.seq = -1; s->c.team = &s->t; }
    ctx = &s->c;
}
}
namespace sim { void set_team_limit(int n) { team_limit = n; } }
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() {
    ensure_ctx();
    sim::yield_point();
    long k = ctx->single++;
    if (ctx->team->singles == k) { ctx->team->singles++; return true; }
    return false;
}
void GOMP_critical_start() { sim::eng_lock(&crit_default); }
void GOMP_critical_end() { sim::eng_unlock(&crit_default); }
void GOMP_critical_name_start(void** p) { sim::eng_lock(p); }
void GOMP_critical_name_end(void** p) { sim::eng_unlock(p); }
void GOMP_atomic_start() { sim::eng_lock(&atomic_lock); }
void GOMP_atomic_end() { sim::eng_unlock(&atomic_lock); }
#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { ensure_ctx(); return next_chunk(enter_loop(s, e, i, c), a, b); } \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return next_chunk(ctx->cur, a, b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { Work w{}; w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; run_team(fn, d, n, &w); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { ensure_ctx(); return next_chunk(enter_loop(s, e, i, 1), a, b); } \
    bool GOMP_loop_##kind##_next(long* a, long* b) { return next_chunk(ctx->cur, a, b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { Work w{}; w.next = s; w.end = e; w.incr = i; w.chunk = 1; run_team(fn, d, n, &w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
int omp_get_thread_num() { return ctx ? ctx->id : 0; }
int omp_get_num_threads() { return ctx ? ctx->team->n : 1; }
int omp_get_max_threads() { return req_threads > 0 ? req_threads : (int)(sim::eng_concurrency() ? sim::eng_concurrency() : 1); }
int omp_get_num_procs() { return (int)(sim::eng_concurrency() ? sim::eng_concurrency() : 1); }
void omp_set_num_threads(int n) { req_threads = n; }
int omp_in_parallel() { return ctx && ctx->team->n > 1; }
int omp_get_level() { return ctx ? ctx->level : 0; }
int omp_get_active_level() { return ctx && ctx->team->n > 1; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_thread_limit() { return INT_MAX; }
double omp_get_wtime() { return 1e-9 * (double)sim::now_steps(); }
void omp_init_lock(void* l) { sim::eng_forget(l); }
void omp_destroy_lock(void* l) { sim::eng_forget(l); }
void omp_set_lock(void* l) { sim::eng_lock(l); }
void omp_unset_lock(void* l) { sim::eng_unlock(l); }
int omp_test_lock(void* l) { return sim::eng_trylock(l); }
struct NestLock { int owner_plus1; int count; };
void omp_init_nest_lock(void* l) { memset(l, 0, sizeof(NestLock)); sim::eng_forget(l); }
void omp_destroy_nest_lock(void* l) { sim::eng_forget(l); }
void omp_set_nest_lock(void* l) { NestLock* n = (NestLock*)l; if (n->count && n->owner_plus1 == sim::self() + 1) { n->count++; return; } sim::eng_lock(l); n->owner_plus1 = sim::self() + 1; n->count = 1; }
void omp_unset_nest_lock(void* l) { NestLock* n = (NestLock*)l; if (--n->count == 0) { n->owner_plus1 = 0; sim::eng_unlock(l); } }
int omp_test_nest_lock(void* l) { NestLock* n = (NestLock*)l; if (n->count && n->owner_plus1 == sim::self() + 1) return ++n->count; if (!sim::eng_trylock(l)) return 0; n->owner_plus1 = sim::self() + 1; return n->count = 1; }
}
